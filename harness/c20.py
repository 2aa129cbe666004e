"""C20: passive scalars"""
import numpy as np

from common import enc, num
from solvers import build, initial_u, random_case, rng_of, spec_cfg

NAMES = ["dye", "Zmetal", "a1", "rho2", "vx_", "q", "Temperature", "E1", "_", "0", "x", "z"]


def result(case, u, steps, do):
    c = dict(case, npas=len(u) - 5)
    s = build(c, u)
    if do == "rhs":
        dt, k = s.f(0.0, u.copy())
        return np.asarray(k), [float(dt)], None
    if do == "step":
        s.euler(n=1)
    else:
        s.run(n=steps)
    return s.am.get_numpy("u"), [float(x) for x in s.timestamps], s.snapshots[-1].get("trouble")


def pair(case):
    c, do, kind = case["cfg"], case["do"], case["kind"]
    r = rng_of(c["seed"], 20)
    names = [NAMES[i] for i in r.permutation(len(NAMES))[: c["npas"]]]
    c = dict(c, names=names)
    u = initial_u(c)
    n = c["npas"]
    c2, u2, ms = c, u, []
    tol = 1e-12
    if kind == "drop":
        keep = sorted(int(x) for x in r.choice(n, size=int(r.integers(0, n)), replace=False))
        idx = list(range(5)) + [5 + k for k in keep]
        u2, c2 = u[idx], dict(c, names=[names[k] for k in keep])
        ms = [dict(op="pick", vars=[i + 1 for i in idx])]
    elif kind == "order":
        pm = [int(x) for x in r.permutation(n)]
        idx = list(range(5)) + [5 + k for k in pm]
        u2, c2 = u[idx], dict(c, names=[names[k] for k in pm])
        ms = [dict(op="pick", vars=[i + 1 for i in idx])]
    elif kind == "rename":
        c2 = dict(c, names=[NAMES[i] for i in r.permutation(len(NAMES))[:n]])
    elif kind == "other":  # other data in one of the scalars
        k = int(r.integers(n))
        u2 = u.copy()
        u2[5 + k] = u[0] * r.uniform(-3, 3, size=u[0].shape)
        ms = [dict(op="pick", vars=[i + 1 for i in range(5 + n) if i != 5 + k])]
    elif kind in ("affine", "uniform"):
        k = int(r.integers(n))
        a, b = float(np.round(r.uniform(-3, 3), 2)), float(np.round(r.uniform(-2, 2), 2))
        if kind == "uniform":
            a = 0.0
        u2 = u.copy()
        u2[5 + k] = a * u[5 + k] + b * u[0]
        ms = [dict(op="affine", var=6 + k, a=num(a), b=num(b))]
        tol = 1e-11
    A, sa, fa = result(c, u, case["steps"], do)
    B, sb, fb = result(c2, u2, case["steps"], do)
    gate = dict(cfg=spec_cfg(c), u=enc(u), t="0") if c["limit"] and kind in ("affine", "uniform") else {}
    w = np.abs(np.concatenate([u, u2[5:]]))
    h = min((hi - lo) / m for (lo, hi), m in zip(c["dom"], c["n"]) if m > 1 or True)
    speed = 1 + np.max(w[1:4] / w[0]) + np.sqrt(2 * np.max(w[4] / w[0]))
    scale = float(np.max(np.abs(A)) + np.max(w) * (speed / h if do == "rhs" else 1))
    out = []
    if kind == "other":
        idx = [i for i in range(5 + n) if i != 5 + k]
        B = B[idx]
    out.append(dict(kind="relate", a=enc(A), b=enc(B), map=ms, tol=num(tol), scale=num(scale), sa=enc(sa), sb=enc(sb), **gate))
    if fa is not None:
        out.append(dict(kind="relate", a=enc(fa[None]), b=enc(fb[None]), map=[], tol="0", scale="1"))
    return out


def bounded(case):
    """degree zero: values stay within the initial range"""
    c = case["cfg"]
    r = rng_of(c["seed"], 21)
    u = initial_u(c)
    for k in range(5, len(u)):
        if r.random() < 0.5:
            u[k] = u[0] * r.choice([0.0, 1.0, -2.0], size=u[0].shape)
    s = build(c, u)
    out = []
    q0 = u[5:] / u[0]
    s.run(n=case["steps"])
    v = s.am.get_numpy("u")
    if not (np.all(v[0] > 0)):
        return []
    for k in range(len(q0)):
        out.append(dict(kind="range", q=enc(v[5 + k] / v[0]), lo=num(q0[k].min()), hi=num(q0[k].max())))
        if c["riemann"] != "advection_upwind":  # the averages shown in snapshots are the same
            out.append(dict(kind="range", q=enc(s.snapshots[-1]["w"][5 + k]), lo=num(q0[k].min()), hi=num(q0[k].max())))
    return out


def run(chk):
    r = rng_of(chk.seed, 20)
    chk.design("SchemeMC", cfg=chk.pick("SchemeMC_passive", "SchemeMC_all"))
    cs = []
    kinds = ["drop", "order", "rename", "other", "affine", "uniform"]
    for i in range(chk.pick(240, 2400)):
        lim = bool(r.random() < 0.5)
        c = random_case(r, bcs=["periodic", "free", "outflow", "reflective"], limit=lim, pmax=4 if lim else 8, npas=int(r.integers(1, 4)))
        k = kinds[i % 6]
        do = ["rhs", "step", "run"][int(r.integers(3))]
        if lim and k in ("affine", "uniform") and do == "run":
            do = "step"
        cs.append(dict(cfg=c, kind=k, do=do, steps=int(r.integers(1, 4))))
    chk.events(pair, cs, "pairs of runs")
    cs = []
    for i in range(chk.pick(60, 600)):
        dims = str(r.choice(["x", "y", "z", "xy", "yz", "xyz"]))
        c = random_case(r, dims=dims, pmax=0, bcs=["periodic", "free", "outflow", "reflective"], limit=False, npas=2, fixdt=None)
        c["cfl"] = float(np.round(r.uniform(0.1, 0.45), 2))
        c["p"] = [0, 0, 0]
        c["n"] = [max(n, 2) if "xyz"[a] in dims else n for a, n in enumerate(c["n"])]  # one cell of degree zero is no direction
        cs.append(dict(cfg=c, steps=int(r.integers(1, 12))))
    chk.events(bounded, cs, "ranges at degree zero")
