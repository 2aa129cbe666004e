"""C16: all directions and places are alike"""
import copy

import numpy as np

from common import enc, num
from solvers import build, initial_u, random_case, rng_of, spec_cfg

V = ["vx", "vy", "vz"]


def rename(lim, f, g=None):
    """rename velocity components in the limiting options"""
    if lim is None:
        return None
    lim = copy.deepcopy(lim)
    lim["pad"] = {f(k): (g(k, v) if g else v) for k, v in lim["pad"].items()}
    if lim["vars"] is not None:
        lim["vars"] = [f(k) for k in lim["vars"]]
    return lim


def neg(b):
    fl = lambda x: {"inf": "-inf", "-inf": "inf"}.get(x, x) if isinstance(x, str) else -x
    return [fl(b[1]), fl(b[0])]


def transform(case, u, m):
    """the same problem seen differently"""
    c = copy.deepcopy(case)
    a = m["ax"] - 1
    if m["op"] == "swap":
        b = m["with"] - 1
        for k in ("n", "p", "dom", "bc"):
            c[k][a], c[k][b] = c[k][b], c[k][a]
        act = ["xyz"[q] in c["dims"] for q in range(3)]
        act[a], act[b] = act[b], act[a]
        c["dims"] = "".join(d for d, x in zip("xyz", act) if x)
        u = np.swapaxes(u, 1 + a, 1 + b).copy()
        u[[1 + a, 1 + b]] = u[[1 + b, 1 + a]]
        tr = {V[a]: V[b], V[b]: V[a]}
        c["limit"] = rename(c["limit"], lambda k: tr.get(k, k))
    elif m["op"] == "mirror":
        lo, hi = c["dom"][a]
        c["dom"][a] = [-hi, -lo]
        c["bc"][a] = c["bc"][a][::-1]
        u = np.flip(u, 1 + a).copy()
        u[1 + a] *= -1
        c["limit"] = rename(c["limit"], lambda k: k, lambda k, b: neg(b) if k == V[a] else b)
    elif m["op"] == "shift":
        u = np.roll(u, -m["by"], axis=1 + a)
    elif m["op"] == "tile":
        lo, hi = c["dom"][a]
        c["n"][a] *= m["by"]
        c["dom"][a] = [lo, lo + (hi - lo) * m["by"]]
        u = np.concatenate([u] * m["by"], axis=1 + a)
    elif m["op"] == "unfold":
        lo, hi = c["dom"][a]
        c["n"][a] *= 2
        c["dom"][a] = [lo, hi + (hi - lo)]
        c["bc"][a] = ["periodic", "periodic"]
        v = np.flip(u, 1 + a).copy()
        v[1 + a] *= -1
        u = np.concatenate([u, v], axis=1 + a)
    elif m["op"] == "embed":
        lo, hi = c["dom"][a]
        h = (hi - lo) / c["n"][a]
        c["dom"][a] = [lo - h * m["before"], hi + h * m["after"]]
        c["n"][a] += m["before"] + m["after"]
        u = np.concatenate([np.repeat(np.take(u, [0], axis=1 + a), m["before"], axis=1 + a), u, np.repeat(np.take(u, [-1], axis=1 + a), m["after"], axis=1 + a)], axis=1 + a)
    elif m["op"] == "repeat":
        c["n"][a], c["p"][a] = m["by"], m["p"]
        c["dims"] = "".join(d for q, d in enumerate("xyz") if d in c["dims"] or q == a)
        u = np.repeat(u, m["by"], axis=1 + a)
        c["bc"][a] = m["bc"]
    return c, u


def result(case, u, do, steps, t):
    s = build(case, u)
    if do == "rhs":
        dt, k = s.f(t, u.copy())
        return np.asarray(k), [float(dt)], None, s
    if do == "step":
        s.euler(n=1)
    else:
        s.run(n=steps)
    return s.am.get_numpy("u"), [float(s.t)], (s.snapshots[-1].get("trouble")), s


def pair(case):
    c, do = case["cfg"], case["do"]
    u = initial_u(c)
    c2, u2 = c, u
    for m in case["map"]:
        c2, u2 = transform(c2, u2, m)
    a, sa, fa, s = result(c, u, do, case["steps"], case["t"])
    b, sb, fb, _ = result(c2, u2, do, case["steps"], case["t"])
    w = np.abs(u)
    speed = 1 + np.max(w[1:4] / w[0]) + np.sqrt(2 * np.max(w[4] / w[0]))
    scale = float(np.max(np.abs(a)) + np.max(w) * (speed / min(h for h, d in zip(s.h, "xyz") if d in c["dims"]) if do == "rhs" else 1))
    bg = u[:, 0, 0, 0]
    ms = [dict(m, scalar=False, **(dict(bg=enc(bg)) if m["op"] == "embed" else {})) for m in case["map"]]
    ma = [dict(m, bg=enc(0 * bg)) if m["op"] == "embed" and do == "rhs" else m for m in ms]
    gate = dict(cfg=spec_cfg(c), u=enc(u), t=num(case["t"] if do == "rhs" else 0.0)) if c["limit"] else {}
    out = [
        dict(kind="relate", a=enc(u), b=enc(u2), map=ms, tol="0", scale="1"),
        dict(kind="relate", a=enc(a), b=enc(b), map=ma, tol=num(case["tol"]), scale=num(scale), sa=enc(sa), sb=enc(sb), **gate),
    ]
    if fa is not None:
        out.append(dict(kind="relate", a=enc(fa[None]), b=enc(fb[None]), map=[dict(m, scalar=True, bg=["0"]) for m in case["map"]], tol=num(1e-9), scale="1", **gate))
    return out


def random_map(r, c):
    act = [q + 1 for q in range(3) if "xyz"[q] in c["dims"]]
    n = int(r.choice([1, 1, 2, 3]))
    ms = []
    cur = list(c["n"])
    per = [b == ["periodic", "periodic"] for b in c["bc"]]
    on = ["xyz"[q] in c["dims"] for q in range(3)]
    for _ in range(n):
        op = str(r.choice(["swap", "swap", "mirror", "shift"]))
        if op == "swap":
            a, b = (int(x) for x in r.choice(3, 2, replace=False))
            ms.append({"op": "swap", "ax": a + 1, "with": b + 1})
            for z in (cur, per, on):
                z[a], z[b] = z[b], z[a]
        elif op == "mirror":
            ms.append(dict(op="mirror", ax=int(r.choice([q + 1 for q in range(3) if on[q]]))))
        else:
            ok = [q for q in range(3) if on[q] and per[q]]
            if ok:
                a = int(r.choice(ok))
                ms.append(dict(op="shift", ax=a + 1, by=int(r.integers(1, cur[a] + 1))))
    return ms or [dict(op="mirror", ax=act[0])]


def large(r):
    """problems of ordinary size made of small ones"""
    dims = str(r.choice(["x", "y", "z", "x", "y", "z", "xy", "xz", "yz", "xyz"]))
    lim = bool(r.random() < 0.5)
    wall = bool(r.random() < 0.3)
    c = random_case(r, dims=dims, bcs=["periodic", "free", "outflow", "reflective"], limit=lim, pmax=4 if lim else 8, cells=(2, 6))
    act = [q for q in range(3) if "xyz"[q] in dims]
    ms = []
    for a in [int(x) for x in r.permutation(act)[: int(r.choice([1, 1, 2]))]]:
        top = {1: 140, 2: 40, 3: 14}[len(dims)]
        by = int(r.integers(2, max(3, top // c["n"][a] + 1))) if r.random() < 0.5 else max(2, top // c["n"][a])
        if wall:
            c["bc"][a] = ["reflective", "reflective"]
            ms.append(dict(op="unfold", ax=a + 1))
            by //= 2
        else:
            c["bc"][a] = ["periodic", "periodic"]
        if by > 1:
            ms.append(dict(op="tile", ax=a + 1, by=by))
        if len(act) > 1:
            break
    if c["limit"] and r.random() < 0.6:  # some cells are troubled
        c["limit"].update(force=False, NAD=float(r.choice([0.0, 1e-3])), vars=None, convex=len(dims) < 3 and bool(r.random() < 0.7), sed=bool(r.random() < 0.3))
    if wall:
        if c["riemann"] == "advection_upwind":
            c["riemann"] = "hllc"
        if c["limit"] and c["limit"]["range"] == "absolute":
            c["limit"]["range"] = "relative"
    if wall and c["limit"]:  # bounds and flags that see the sign of a velocity
        c["limit"]["pad"] = {k: b for k, b in c["limit"]["pad"].items() if k not in V}
    if r.random() < 0.4:
        a = ms[0]["ax"]
        ms.append(dict(op="shift", ax=a, by=int(r.integers(1, 9))))
    return c, ms


def window(r):
    """a large problem in which little happens"""
    dims = str(r.choice(["x", "y", "z", "x", "y", "z", "xy", "xz", "yz"]))
    nd = len(dims)
    lim = bool(r.random() < 0.7)
    pmax = 3 if nd == 1 else 1
    margin = 9 if nd == 1 else 7
    c = random_case(r, dims=dims, limit=lim, pmax=pmax, cells=(2, 5) if nd == 1 else (1, 2))
    c.update(window=[0, 0, 0], mode="noise")
    ms = []
    for d in dims:
        a = "xyz".index(d)
        c["n"][a] += 2 * margin
        c["window"][a] = margin
        c["bc"][a] = [str(x) for x in r.choice(["free", "outflow"], 2)]
        top = 1200 if nd == 1 else 50
        b = int(r.integers(0, top)) if r.random() < 0.8 else 0
        ms.append(dict(op="embed", ax=a + 1, before=b, after=int(r.integers(0, top - b + 1))))
    if lim:
        c["limit"].update(force=False, pad={"rho": [0.0, "inf"], "P": [0.0, "inf"]}, NAD=float(r.choice([0.0, 1e-3])), vars=None, range="relative", sed=bool(r.random() < 0.3), convex=nd < 3 and bool(r.random() < 0.5))
    return c, ms


def run(chk):
    r = rng_of(chk.seed, 16)
    chk.design("SchemeMC", cfg=chk.pick("SchemeMC_symmetry", "SchemeMC_all"))
    cs = []
    for i in range(chk.pick(300, 3000)):
        lim = bool(r.random() < 0.5)
        c = random_case(r, bcs=["periodic", "free", "outflow", "reflective"], limit=lim, pmax=4 if lim else 8)
        if i % 4 == 3 and c["dims"] != "xyz":  # embed in one more dimension
            if c["fixdt"] is None:
                c["fixdt"] = 0.002
            a = int(r.choice([q for q in range(3) if "xyz"[q] not in c["dims"]]))
            if c["limit"]:
                c["limit"]["convex"] = c["limit"]["convex"] and len(c["dims"]) < 2
            q = int(r.integers(0, max(c["p"]) + 1 if max(c["p"]) < 3 else 4))  # the integrator goes with the largest degree
            m = int(r.integers(2, 4))
            bc = [["periodic", "periodic"], ["free", "free"], ["outflow", "outflow"]][int(r.choice([0, 0, 1, 2]))]
            ms = [dict(op="repeat", ax=a + 1, by=m, p=q, bc=bc)]
            if r.random() < 0.4:
                b = int(r.choice([x for x in range(3) if x != a]))
                ms.append({"op": "swap", "ax": a + 1, "with": b + 1})
        else:
            ms = random_map(r, c)
        if any(m["op"] == "mirror" for m in ms):
            # upwinding takes the velocity from the left, absolute bounds of a velocity depend on its sign
            if c["riemann"] == "advection_upwind":
                c["riemann"] = str(r.choice(["llf", "hllc"]))
            if c["limit"] and c["limit"]["range"] == "absolute":
                if r.random() < 0.5:
                    c["limit"]["range"] = "relative"
                else:
                    c["limit"]["vars"] = [v for v in c["limit"]["vars"] or ["rho", "P"] if v in ("rho", "P")] or ["rho"]
        do = "rhs" if i % 3 == 0 else ("step" if lim else "run")
        cs.append(dict(cfg=c, map=ms, do=do, steps=int(r.integers(1, 4)), t=float(r.uniform(0, 1)), tol=1e-10))
    for i in range(chk.pick(180, 1500)):
        c, ms = large(r)
        cs.append(dict(cfg=c, map=ms, do="rhs" if i % 3 == 0 else ("step" if c["limit"] else "run"), steps=int(r.integers(1, 4)), t=float(r.uniform(0, 1)), tol=1e-10))
    for i in range(chk.pick(120, 1000)):
        c, ms = window(r)
        cs.append(dict(cfg=c, map=ms, do="rhs" if i % 2 == 0 else "step", steps=1, t=float(r.uniform(0, 1)), tol=1e-10))
    for i in range(chk.pick(120, 800)):  # high degrees in several directions
        c = random_case(r, dims=str(r.choice(["xy", "xz", "yz", "xyz"])), bcs=["periodic", "free", "outflow", "reflective"], limit=False, pcap=8 if i % 3 else 4, cells=(2, 4))
        if c["dims"] == "xyz":
            c["p"] = [min(q, 5) for q in c["p"]]
        c["riemann"] = str(r.choice(["llf", "hllc"]))
        cs.append(dict(cfg=c, map=random_map(r, c), do="rhs" if i % 3 else "step", steps=1, t=float(r.uniform(0, 1)), tol=1e-10))
    chk.events(pair, cs, "pairs of problems")
