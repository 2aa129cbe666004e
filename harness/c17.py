"""C17: addressing by name and range"""
import gc

import numpy as np

from solvers import rng_of

POOL = {}


def seq(x):
    return list(x) if isinstance(x, (list, tuple)) else []


def state(ps, ndim, fresh):
    from fvhoe.hydro import HydroState

    if fresh:
        return HydroState(passive_scalars=ps, ndim=ndim)
    if (ps, ndim) not in POOL:
        POOL[ps, ndim] = HydroState(passive_scalars=ps, ndim=ndim)
    return POOL[ps, ndim]


def replay(item):
    (c, want), seed = item["case"], item["seed"]
    r = rng_of(seed, 17)
    ps = tuple(seq(c["ps"]))
    hs = state(ps, c["ndim"], r.random() < 0.2)
    kw = {}
    if seq(c["vars"]):
        kw["var"] = tuple(c["vars"])
    elif c["var"] != "none":
        kw["var"] = c["var"]
    elif r.random() < 0.3:
        kw["var"] = None
    for d, g in zip("xyz", c["xyz"]):
        if g["given"]:
            kw[d] = tuple(g["rg"])
    if c["axis"] != -1:
        kw["axis"] = c["axis"]
    if c["cut"]["given"]:
        kw["cut"] = tuple(c["cut"]["rg"])
        if c["step"] != 1 or r.random() < 0.5:
            kw["step"] = c["step"]
    shape = (5 + len(ps), *c["n"])[: c["ndim"]]
    a = np.arange(float(np.prod(shape))).reshape(shape)
    for _ in range(2):  # a selection must not depend on earlier ones
        try:
            got = a[hs(**kw)]
        except Exception:
            got = None
        if not want["ok"]:
            if got is not None:
                return [f"{kw} with scalars {ps} in {c['ndim']} dimensions accepted"]
            continue
        if got is None:
            return [f"{kw} with scalars {ps} in {c['ndim']} dimensions refused"]
        ref = a[np.ix_(*[np.array(seq(i), dtype=int) for i in want["idx"]])]
        if want["drop"]:
            ref = ref[0]
        if got.shape != ref.shape or not np.array_equal(got, ref):
            return [f"{kw} with scalars {ps} in {c['ndim']} dimensions selects {got.tolist()} instead of {ref.tolist()}"]
        # assignment goes to the same cells
        b = np.zeros(shape)
        b[hs(**kw)] = 1
        if set(np.flatnonzero(b)) != set(np.asarray(ref, int).ravel().tolist()):
            return [f"assigning to {kw} with scalars {ps} writes other cells"]
    if hs.nvars != 5 + len(ps) or bool(hs.includes_passives) != bool(ps) or tuple(hs.passive_scalars) != ps:
        return ["description of the variables is wrong"]
    if r.random() < 0.01:
        gc.collect()
    return []


RESERVED = ["rho", "vx", "vy", "vz", "mx", "my", "mz", "v", "m", "P", "E", "active_scalars", "passive_scalars"]


def names(case):
    """acceptance of passive scalar names, and malformed requests"""
    from fvhoe.hydro import HydroState

    try:
        HydroState(passive_scalars=tuple(case["ps"]))
        ok = True
    except Exception:
        ok = False
    bad = []
    if ok != (len(set(case["ps"])) == len(case["ps"]) and not set(case["ps"]) & set(RESERVED)):
        bad.append(f"passive scalars {case['ps']} {'accepted' if ok else 'refused'}")
    hs = HydroState(passive_scalars=("dye",))
    for kw in [dict(var=1), dict(var=("rho", "nonsense")), dict(x=1), dict(x=(1,)), dict(y=(0, 1, 2)), dict(z=3), dict(axis=4, cut=(1, 2)), dict(axis=5, cut=(0, 0)), dict(axis=2, cut=1), dict(axis=1, cut=(1, 2, 3)), dict(var="v ")]:
        try:
            hs(**kw)
            bad.append(f"{kw} accepted")
        except Exception:
            pass
    for nd in (1, 2, 3):
        h = HydroState(ndim=nd)
        for a, d in enumerate("xyz", start=1):
            try:
                h(**{d: (0, 1)})
                ok = True
            except Exception:
                ok = False
            if ok != (a < nd):
                bad.append(f"range along {d} in {nd} dimensions {'accepted' if ok else 'refused'}")
    return bad


def run(chk):
    r = rng_of(chk.seed, 17)
    items = []
    for f in ("names", "tuples", "ranges", "axes", "variables", "boxes", "mixed"):
        lim = None if chk.thorough else dict(axes=8000, tuples=4000, mixed=3000).get(f)
        items += chk.behaviours("Address", "Address_" + f, tag="CASE", limit=lim, rng=r)
    items = [dict(case=c, seed=int(r.integers(2**31))) for c in items]
    r.shuffle(items)
    chk.replay(replay, items, "cases of Address", batch=250)
    cs = [dict(ps=[n]) for n in RESERVED] + [dict(ps=["a", n, "b"]) for n in RESERVED]
    cs += [dict(ps=x) for x in (["a", "a"], ["a", "b", "a"], ["a"], [], ["rho1", "Rho", "p", "V"], ["x", "y", "z"], ["dye", "t", "u", "w"])]
    chk.replay(names, cs, "names of passive scalars", batch=4)
