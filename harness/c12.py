"""C12: detection of troubled cells"""
import numpy as np

import events
from common import enc
from solvers import VARS, pad_bounds, random_limit, rng_of, spec_opt


def data(case):
    r = rng_of(case["seed"], 12)
    n = [m + (6 if a else 0) for m, a in zip(case["n"], case["act"])]
    ii = np.meshgrid(*[np.arange(m) for m in n], indexing="ij")
    w = np.empty((5, *n))
    k = case["style"]
    for v in range(5):
        if k == "wave":
            f = sum(r.uniform(-0.3, 0.3) * np.cos(r.uniform(0.2, 1.2) * ii[a] + r.uniform(0, 6)) for a in range(3))
        elif k == "flat":
            f = np.zeros(n)
        elif k == "step":
            a = int(r.integers(0, 3))
            f = np.where(ii[a] < n[a] * r.uniform(0.3, 0.7), 0.4, -0.2) * 1.0
        elif k == "still":
            f = r.uniform(-0.3, 0.3, n)
        elif k == "steps":  # few levels
            f = 0.25 * r.integers(-2, 3, n)
        else:
            f = r.uniform(-0.5, 0.5, n)
        w[v] = f + (1.0 if v in (0, 4) else r.uniform(-0.5, 0.5))
    c = w + {"wave": 0.02, "flat": 0.0, "step": 0.03, "steps": 0.0, "still": 0.0, "noise": 0.2}[k] * r.uniform(-1, 1, w.shape)
    # spikes
    for q in range(int(r.integers(0, 4)) + (k == "still")):
        v = int(r.integers(0, 5))
        at = tuple(int(r.integers(0, m)) for m in n)
        if k == "still" and q == 0:  # inside
            at = tuple(int(r.integers(3, m - 3)) if a else int(r.integers(0, m)) for m, a in zip(n, case["act"]))
        c[(v, *at)] += r.choice([-1, 1]) * 10.0 ** r.uniform(-3, 0.2)
        if case.get("zeros") and q % 2 == 0:
            c[(v, *at)] = 0.0 if r.random() < 0.6 else -w[(v, *at)]
    if case["smooth"]:  # a moving smooth extremum
        ph = r.uniform(0, 6)
        for v in range(5):
            a = int(r.choice([q for q in range(3) if case["act"][q]]))
            for arr, s in ((w, 0.0), (c, 0.3)):
                arr[v] = (1.2 if v in (0, 4) else 0.0) + 0.4 * np.cos(0.7 * ii[a] + ph + s)
    if case.get("scales"):
        for v, e in enumerate(case["scales"]):
            w[v] *= 10.0**e
            c[v] *= 10.0**e
    return w, c


def names(vs, case):
    """other ways to name the same variables"""
    if vs is None:
        return None
    r = rng_of(case["seed"], 14)
    if r.random() < 0.5:
        return tuple(vs)
    other = dict(vx="mx", vy="my", vz="mz", P="E")
    out = [other[v] if v in other and r.random() < 0.4 else v for v in vs]
    if sorted(vs) == ["vx", "vy", "vz"]:
        return (str(r.choice(["v", "m"])),)
    if sorted(vs) == sorted(VARS):
        return ("active_scalars",)
    return tuple(out)


def detect(case):
    from fvhoe.slope_limiting import detect_troubled_cells

    w, c = data(case)
    a, b = w.copy(), c.copy()
    L = case["lim"]
    tr, nad, pad = detect_troubled_cells(
        u=w,
        u_candidate=c,
        dims="".join(d for d, x in zip("xyz", case["act"]) if x),
        NAD_eps=L["NAD"],
        mode=L["mode"],
        range_type=L["range"],
        NAD_vars=names(L["vars"], case),
        PAD_bounds=pad_bounds(L["pad"]) if L["pad"] else None,
        SED=L["sed"],
        SED_eps=L["sedeps"],
    )
    if not (np.array_equal(a, w) and np.array_equal(b, c)):
        raise AssertionError("input changed")
    return dict(kind="detect", w=enc(w), c=enc(c), act=case["act"], opt=spec_opt(L), trouble=enc(np.asarray(tr, float)), nad=enc(nad), pad=enc(pad))


def aim(case):
    """tolerances and bounds close to where some decision changes"""
    w, c = data(case)
    r = rng_of(case["seed"], 13)
    L = case["lim"]
    act = case["act"]
    at = [int(r.integers(3, m - 3)) if a else int(r.integers(0, m)) for m, a in zip(w.shape[1:], act)]
    near = lambda x: float(abs(x) * r.choice([0.55, 0.8, 0.97, 1.03, 1.2, 1.8]))
    v = VARS.index(L["vars"][0]) if L["vars"] else int(r.integers(0, 5))
    if case["style"] == "still":  # look at a cell that moves
        moved = [q for q in np.argwhere(c != w) if all(not a or 3 <= q[1 + k] < w.shape[1 + k] - 3 for k, a in enumerate(act))]
        if moved:
            v, *at = (int(q) for q in moved[int(r.integers(len(moved)))])
    box = w[(v, *(slice(i - 1, i + 2) if a else slice(i, i + 1) for i, a in zip(at, act)))]
    m, M, x = box.min(), box.max(), c[(v, *at)]
    glo, ghi = (w[v].min(), w[v].max()) if L["mode"] == "global" else (m, M)
    over = max(x - M, m - x)
    if L["range"] == "relative" and ghi > glo and over > 0:
        L["NAD"] = near(over / (ghi - glo))
    elif L["range"] == "absolute" and r.random() < 0.7:
        q = max(x / ghi - 1 if ghi else 0, 1 - x / glo if glo else 0)
        L["NAD"] = near(q) if 0 < q < 10 else L["NAD"]
    if r.random() < 0.6:
        ax = int(r.choice([a for a in range(3) if act[a]]))
        i = [slice(None) if a == ax else j for a, j in enumerate(at)]
        s = c[(v, *i)]
        k = at[ax] + int(r.integers(-1, 2))
        if 2 <= k < len(s) - 2:
            dv = (s[k + 2] - 2 * s[k] + s[k - 2]) / 8
            if dv:
                L["sedeps"] = near(dv)
    if L["pad"] and r.random() < 0.5:  # a bound on a value that occurs
        q = str(r.choice(list(L["pad"])))
        y = float(c[(VARS.index(q), *at)])
        L["pad"][q] = [y, "inf"] if r.random() < 0.5 else ["-inf", y]


def sed(case):
    from fvhoe import smooth_extrema_detection as S

    aim(case)
    c = data(case)[1][: case["nv"]]
    act, e = case["act"], case["lim"]["sedeps"]
    dims = [d for d, x in zip("xyz", act) if x]
    keep = c.copy()
    if len(dims) == 1:
        a = S.compute_1d_smooth_extrema_detector(c, dims[0], eps=e)
    elif len(dims) == 2:
        a = S.compute_2d_smooth_extrema_detector(c, "".join(dims[:: case["turn"]]), eps=e)
    else:
        a = S.compute_3d_smooth_extrema_detector(c, eps=e)
    if not np.array_equal(keep, c):
        raise AssertionError("input changed")
    return dict(kind="sed", u=enc(c), act=act, eps=enc(e), out=enc(a))


def aimed(case):
    aim(case)
    return detect(case)


def cases(r, n, still=0.0):
    acts = [[True, False, False], [False, True, False], [False, False, True], [True, True, False], [True, False, True], [False, True, True], [True, True, True]]
    out = []
    for i in range(n):
        act = acts[i % 7]
        nd = sum(act)
        hi = {1: 12, 2: 5, 3: 3}[nd]
        L = random_limit(r, nd)
        if r.random() < 0.3:
            vs = [v for v in VARS if r.random() < 0.5] or ["rho"]
            r.shuffle(vs)
            L["vars"] = [str(v) for v in vs]
            if i % 9 == 0:
                L["vars"] = ["vx", "vy", "vz"] if i % 2 else list(VARS)
        k = r.random()
        if k < 0.15:
            L["pad"] = {}
        elif k < 0.5:
            L["pad"] = {str(v): [float(np.round(r.uniform(-0.8, 0.9), 3)) if r.random() < 0.7 else "-inf", float(np.round(r.uniform(0.9, 2), 3)) if r.random() < 0.7 else "inf"] for v in r.permutation(VARS)[: int(r.integers(1, 6))]}
        moves = r.random() < still
        if moves and r.random() < 0.6:
            L["sed"] = False
        L["NAD"] = float(r.choice([0.0, 1e-8, 1e-5, 1e-2, 0.1, 0.5]))
        out.append(
            dict(
                seed=int(r.integers(2**31)),
                act=act,
                n=[int(r.integers(1, hi + 1)) if a else 1 for a in act],
                lim=L,
                style="still" if moves else str(r.choice(["wave", "flat", "step", "steps", "noise", "still"])),
                zeros=bool(i % 5 == 2),
                scales=[int(x) for x in r.integers(-8, 9, 5)] if i % 6 == 3 else None,
                smooth=bool(not moves and r.random() < 0.25),
            )
        )
    return out


def run(chk):
    r = rng_of(chk.seed, 12)
    chk.events(detect, cases(r, chk.pick(420, 5000)), "detection")
    chk.events(aimed, cases(r, chk.pick(700, 8000), still=0.5), "detection near its thresholds")
    ss = cases(r, chk.pick(250, 3000))
    for c in ss:
        c.update(nv=int(r.integers(1, 4)), turn=int(r.choice([1, -1])))
    chk.events(sed, ss, "smooth extremum detectors")
    es = events.scheme_cases(r, chk.pick(32, 300), limit=True, pmax=3)
    for c in es:
        c["limit"]["force"] = False
    chk.events(events.mixed, es, "limited evaluations and steps")
