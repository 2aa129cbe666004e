"""Recording events from the code under test (kinds: see spec/Conform.tla)."""

import numpy as np

from common import enc, num
from solvers import build, random_case, spec_cfg, spec_side


def cfg_of(case):
    return spec_cfg(case)


def rhs(case):
    s = build(case)
    t = case.get("t", 0.0)
    u = s.am("u").copy()
    dt, k = s.f(t, u.copy())
    return dict(kind="rhs", cfg=cfg_of(case), t=num(t), u=enc(u), dt=num(dt), rate=enc(k))


METHODS = ["euler", "ssprk2", "ssprk3", "rk4"]


def record_run(case, steps=2, method=None, T=None, downbeats=None, start=None, **extra):
    """run a solver, recording (t, u, snapshot) at every step through the public snapshot hook"""
    rec = []

    def hook(s):
        sn = s.snapshots[-1]
        rec.append(
            dict(
                t=s.t,
                u=s.am.get_numpy("u"),
                w=np.array(sn["w"]),
                trouble=np.array(sn["trouble"]) if "trouble" in sn else None,
                nad=np.array(sn["NAD violation magnitude"]) if "trouble" in sn else None,
                pad=np.array(sn["PAD violation magnitude"]) if "trouble" in sn else None,
                evals=s.f_evaluation_count,
            )
        )

    s = build(case, snapshot_helper_function=hook, **extra)
    go = getattr(s, method) if method else s.run
    if case.get("warm"):  # steps taken before those of interest
        go(n=case["warm"])
        if not np.isfinite(s.am("u")).all():
            return s, []
        rec.clear()
    if T is not None:
        go(T=T, downbeats=downbeats, log_every_step=True)
    else:
        for _ in range(steps):
            go(n=1)
        # consecutive calls snapshot the same state twice
        rec = [r for i, r in enumerate(rec) if i == 0 or i % 2 == 1]
    return s, rec


def default_method(case):
    return METHODS[min(max(case["p"]), 3)]


def steps(case, **kw):
    """step events of a short run; the integrator follows the polynomial degree unless given"""
    method = case.get("method")
    s, rec = record_run(case, steps=case.get("steps", 1), method=method, T=case.get("T"), downbeats=case.get("downbeats"))
    targets = sorted(set((case.get("downbeats") or []) + ([case["T"]] if case.get("T") is not None else [])))
    out = []
    for a, b in zip(rec[:-1], rec[1:]):
        tg = [x for x in targets if x > a["t"]]
        out.append(
            dict(
                kind="step",
                cfg=cfg_of(case),
                method=method or default_method(case),
                t=num(a["t"]),
                t2=num(b["t"]),
                u=enc(a["u"]),
                after=enc(b["u"]),
                target=num(tg[0]) if tg else "none",
                **(dict(evals=b["evals"] - (0 if a is rec[0] and not case.get("warm") else a["evals"])) if case.get("count") else {}),
                **({k: enc(b[k]) for k in ("trouble",) + case.get("excess", ())} if b["trouble"] is not None else {}),
            )
        )
    return out


def snap(case, rec, averages=True):
    return dict(kind="snap", cfg=cfg_of(case), u=enc(rec["u"]), t=num(rec["t"]), w=enc(rec["w"]), averages=averages)


def bc_spec(case):
    return [dict(lo=spec_side(case, a, 0), hi=spec_side(case, a, 1)) for a in range(3)]


def mixed(case):
    """rhs or step events, as the case says"""
    return rhs(case) if case["do"] == "rhs" else steps(case)


def scheme_cases(r, n, every=4, nsteps=(1, 3), methods=0.3, **force):
    """random cases for `mixed': every `every'-th one takes steps"""
    out = []
    for i in range(n):
        c = dict(random_case(r, **force), t=float(np.round(r.uniform(0, 1), 3)), do="rhs")
        if every and i % every == every - 1:
            c.update(do="step", steps=int(r.integers(nsteps[0], nsteps[1] + 1)))
            if r.random() < methods:
                c["method"] = str(r.choice(METHODS))
        out.append(c)
    return out
