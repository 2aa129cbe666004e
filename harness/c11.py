"""C11: limited reconstruction"""
import itertools

import numpy as np

import events
from common import enc
from solvers import random_case, rng_of

LIMS = ["minmod", "moncen", None]


def muscl(case):
    from fvhoe.slope_limiting import MUSCL_interpolations

    if "q" in case:
        q = np.array(case["q"], dtype=float)
        if case["ax"] != 1:
            q = np.swapaxes(q, 1, case["ax"]).copy()
    else:
        r = rng_of(case["seed"], 11)
        shape = [int(x) for x in r.integers(1, 4, 4)]
        shape[case["ax"]] = int(r.integers(3, 8))
        k = r.integers(0, 6)
        if k == 0:
            q = r.integers(-2, 3, shape).astype(float)
        elif k == 1:
            q = r.uniform(-1, 1, shape)
        elif k == 2:
            q = 1 + r.integers(-2, 3, shape) * 10.0 ** r.uniform(-14, -8)
        elif k == 5:  # slopes close to nothing
            q = r.integers(-3, 4, shape) * 10.0 ** r.uniform(-15, -10)
        elif k == 3:
            q = r.uniform(-1, 1, shape) * 10.0 ** r.uniform(-8, 4, shape)
        else:
            q = np.sort(r.uniform(-1, 1, shape), axis=case["ax"])
    keep = q.copy()
    l, rr = MUSCL_interpolations(q, axis=case["ax"], limiter=case["limiter"])
    if not np.array_equal(keep, q):
        raise AssertionError("input changed")
    return dict(kind="muscl", q=enc(q), limiter=case["limiter"] or "none", ax=case["ax"], left=enc(l), right=enc(rr))


def run(chk):
    r = rng_of(chk.seed, 11)
    chk.design("LimiterMC", cfg="LimiterMC")
    cs = []
    K = chk.pick(3, 5)
    tri = list(itertools.product(range(-K, K + 1), repeat=3))
    for ax, lim in itertools.product((1, 2, 3), LIMS):
        # all triples of a lattice as independent variables, at several magnitudes
        for scale in (1.0, 1e-6, 1e3, 1e-13) if lim == "minmod" else (1.0, 1e-6, 1e3, 2e-18):
            for k in range(0, len(tri), 200):
                cs.append(dict(q=[[[[scale * a]], [[scale * b]], [[scale * c]]] for a, b, c in tri[k : k + 200]], ax=ax, limiter=lim))
        for _ in range(chk.pick(30, 300)):
            cs.append(dict(seed=int(r.integers(2**31)), ax=ax, limiter=lim))
    chk.events(muscl, cs, "reconstructions")
    # every cell on the fallback scheme
    es = events.scheme_cases(r, chk.pick(36, 300), limit=True, pmax=3)
    for i, c in enumerate(es):
        c["limit"].update(force=i % 3 != 0, limiter=["minmod", "moncen", None][i % 3 if i % 4 else 0])
    chk.events(events.mixed, es, "fallback scheme")
