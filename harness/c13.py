"""C13: interfaces of troubled cells"""
import itertools

import numpy as np

import events
from common import enc
from solvers import rng_of


def blend(case):
    from fvhoe.slope_limiting import broadcast_to_troubled_interfaces

    n, act = tuple(case["n"]), case["act"]
    dims = "".join(d for d, a in zip("xyz", act) if a)
    if "bits" in case:
        lo, hi = case["bits"]
        m = int(np.prod(n))
        masks = [np.array([(b >> q) & 1 for q in range(m)], dtype=float).reshape(n) for b in range(lo, hi)]
    else:
        r = rng_of(case["seed"], 13)
        masks = [(r.random(n) < d).astype(float) for d in r.choice([0.02, 0.1, 0.3, 0.7], 6)]
    outs = []
    for t in masks:
        if case["int"]:
            t = t.astype(int)
        keep = t.copy()
        o = broadcast_to_troubled_interfaces(t, dims=dims, convex=case["convex"], periodic_x=case["per"][0], periodic_y=case["per"][1], periodic_z=case["per"][2])
        if not np.array_equal(keep, t):
            raise AssertionError("input changed")
        outs.append([enc(np.asarray(x, float)[0]) for x in o])
    return dict(kind="blend", masks=[m.astype(int).tolist() for m in masks], outs=outs, per=case["per"], act=act, convex=case["convex"])


def shapes(act, size):
    return [size.pop(0) if a else 1 for a in act]


def run(chk):
    r = rng_of(chk.seed, 13)
    for cfg in ("BlendMC_511", "BlendMC_321", "BlendMC_123") + (("BlendMC_222",) if chk.thorough else ()):
        chk.design("BlendMC", cfg=cfg)
    cs = []
    one = [[True, False, False], [False, True, False], [False, False, True]]
    two = [[True, True, False], [True, False, True], [False, True, True]]
    big = chk.thorough

    def add(act, sizes, bitlimit):
        n = shapes(act, list(sizes))
        m = int(np.prod(n))
        for per in itertools.product([False, True], repeat=3):
            if any(p and not a for p, a in zip(per, act)):
                continue
            for convex in (False, True):
                if convex and sum(act) == 3:
                    continue
                base = dict(n=n, act=act, per=list(per), convex=convex, int=bool(r.random() < 0.5))
                if m <= bitlimit:
                    for lo in range(0, 2**m, 64):
                        cs.append(dict(base, bits=[lo, min(lo + 64, 2**m)]))
                else:
                    for _ in range(chk.pick(1, 4)):
                        cs.append(dict(base, seed=int(r.integers(2**31))))

    for act in one:  # exhaustively
        for n in (2, 3, 4, 5, 6) + ((8,) if big else ()):
            add(act, [n], 8)
    for act in two:
        for n in ((2, 2), (2, 3), (3, 2)) + (((3, 3),) if big else ()):
            add(act, n, 9)
        for n in ((4, 5), (7, 3), (3, 3)):
            add(act, n, 8 if not big else 9)
    add([True] * 3, (2, 2, 2), 8 if big else 6)
    add([True] * 3, (2, 3, 2), 6)
    add([True] * 3, (3, 4, 2), 6)
    chk.events(blend, cs, "patterns of trouble")
    es = events.scheme_cases(r, chk.pick(32, 300), limit=True, pmax=3)
    for i, c in enumerate(es):
        if i % 2 and len(c["dims"]) < 3:
            c["limit"]["convex"] = True
        if i % 5 == 0:
            c["limit"]["force"] = True
        if i % 3 == 0:
            c["limit"].update(NAD=0.0, sed=False)
    chk.events(events.mixed, es, "limited evaluations and steps")
