"""C15: snapshots"""
import copy

import numpy as np

import events
from common import enc, num
from solvers import build, random_case, rng_of, spec_cfg

KEYS = ["x", "y", "z", "t", "w", "trouble", "NAD violation magnitude", "PAD violation magnitude"]


def same(a, b):
    return all((k in a) == (k in b) and (k not in a or np.array_equal(np.asarray(a[k]), np.asarray(b[k]), equal_nan=True)) for k in KEYS)


def frozen(s):
    return {k: np.array(v, copy=True) for k, v in s.items() if k in KEYS}


def trajectory(cfg, n, **kw):
    """states and snapshots of an uninterrupted run"""
    rec = []
    s = build(cfg, snapshot_helper_function=lambda s: rec.append((s.am.get_numpy("u"), frozen(s.snapshots[-1]))), **kw)
    if cfg["fixdt"]:
        s.run(T=cfg["fixdt"] * (n - 0.5), exact=False, log_every_step=True)
    return rec


def replay(case):
    """behaviours of spec/Shots.tla with two solvers"""
    cfgs = case["cfgs"]
    total = [case["hist"][-1]["count"][i] for i in range(2)]
    ref = [trajectory(c, max(1, n), snapshots_as_fv_averages=case["averages"]) for c, n in zip(cfgs, total)]
    copies, wrong = [[], []], []

    def hook(i):
        def note(s):
            copies[i].append(frozen(s.snapshots[-1]))
            if s is not S[i] or len(s.snapshot_times) != len(s.snapshots) or s.snapshot_times[-1] != s.t:
                wrong.append(f"the helper of solver {i} is not called with it at the end of the snapshot")

        return note

    S = [build(c, snapshot_helper_function=hook(i), snapshots_as_fv_averages=case["averages"]) for i, c in enumerate(cfgs)]
    for k, h in enumerate(case["hist"]):
        i = h["s"] - 1
        s, dt = S[i], cfgs[i]["fixdt"]
        if h["op"] == "run":
            s.run(n=h["n"])
        elif h["op"] == "every":
            s.run(T=s.t + dt * (h["n"] - 0.5), exact=False, log_every_step=True)
        elif h["op"] == "snap":
            s.snapshot()
        elif not cfgs[i]["limit"]:
            s.f(s.t, s.am("u").copy())
        if wrong:
            return [f"operation {k + 1} ({h['op']}): {wrong[0]}"]
        for j in range(2):
            want = h["shots"][j] if isinstance(h["shots"], list) else h["shots"][str(j + 1)]
            if len(S[j].snapshots) != len(want):
                return [f"operation {k + 1}: {len(S[j].snapshots)} snapshots, expected {len(want)}"]
            if len(copies[j]) != len(want) or list(S[j].snapshot_times) != [x["t"] for x in S[j].snapshots]:
                return [f"operation {k + 1}: {len(copies[j])} calls of the helper, times {S[j].snapshot_times} for {len(want)} snapshots"]
            if not np.array_equal(S[j].am("u"), ref[j][h["count"][j]][0]):
                return [f"operation {k + 1} ({h['op']}): the solution changed"]
            for q, w in enumerate(want):
                if not same(S[j].snapshots[q], copies[j][q]):
                    return [f"operation {k + 1} ({h['op']}): snapshot {q} of solver {j} changed later"]
                if not same(S[j].snapshots[q], ref[j][w][1]):
                    return [f"operation {k + 1} ({h['op']}): snapshot {q} of solver {j} does not show the state after {w} steps"]
    return []


def faithful(case):
    """events for the specification: contents of snapshots"""
    s, rec = None, []

    def hook(s):
        rec.append((s.t, s.am.get_numpy("u"), frozen(s.snapshots[-1]), s.step_count))

    s = build(case, snapshot_helper_function=hook, snapshots_as_fv_averages=case["averages"])
    go = getattr(s, case["method"]) if case.get("method") else s.run
    if case["steps"] == 0:
        s.snapshot()
    else:
        T = 0.999 * (case["fixdt"] or float(build(case).f(0.0, s.am("u").copy())[0])) * case["steps"]
        go(T=T, downbeats=[T * 0.4])
    out = []
    for t, u, sn, n in rec[:3]:
        if sn["t"] != t:
            raise AssertionError("time of the snapshot is not that of the solver")
        out.append(dict(kind="snap", cfg=spec_cfg(case), u=enc(u), t=num(t), w=enc(sn["w"]), averages=case["averages"]))
        out.append(dict(kind="axes", n=case["n"], p=case["p"], dom=enc(case["dom"]), slab=[0, 0, 0], act=["xyz"[a] in s.dims for a in range(3)], h=enc(list(s.h)), axes=[enc(sn[d]) for d in "xyz"]))
        if ("trouble" in sn) != bool(case["limit"]):
            raise AssertionError("flags are in a snapshot exactly with limiting")
        if case["limit"] and (n == 0 or not case["limit"]["force"]):
            out.append(dict(kind="flags", force=False, steps=n, trouble=enc(sn["trouble"]), nad=enc(sn["NAD violation magnitude"]), pad=enc(sn["PAD violation magnitude"])))
    return out


def run(chk):
    r = rng_of(chk.seed, 15)
    hs = chk.behaviours("Shots", chk.pick("Shots_3", "Shots_4"), limit=chk.pick(500, 5000), rng=r)
    hs += chk.behaviours("Shots", "Shots_sim", sim=chk.pick(20, 200), depth=10)[: chk.pick(200, 2000)]
    cs = []
    for h in hs:
        cfgs = [random_case(r, pmax=2, dims=str(r.choice(["x", "y", "xy", "yz"])), cells=(2, 4), fixdt=0.005) for _ in range(2)]
        if r.random() < 0.3:
            cfgs[1] = dict(cfgs[0], seed=cfgs[0]["seed"] + 1)
        cs.append(dict(hist=h, cfgs=cfgs, averages=bool(r.random() < 0.5)))
    chk.replay(replay, cs, "behaviours of Shots", batch=4)
    cs = []
    for i in range(chk.pick(80, 800)):
        c = random_case(r)
        c.update(averages=bool(r.random() < 0.5), steps=int(r.choice([0, 1, 1, 2])))
        cs.append(c)
    chk.events(faithful, cs, "contents of snapshots")
    es = events.scheme_cases(r, chk.pick(16, 160), every=1, limit=True, pmax=2)
    for c in es:
        c["excess"] = ("nad", "pad")
    chk.events(events.mixed, es, "flags of snapshots after steps")
