"""C09: interface fluxes"""
import itertools

import numpy as np

import events
from common import enc, num
from solvers import rng_of

SOLVERS = ["advection_upwind", "llf", "hllc"]


def flux(case):
    from fvhoe import riemann_solvers
    from fvhoe.hydro import HydroState

    nv = 5 + case["npas"]
    ins = np.array(case["ins"]) if "ins" in case else random_pairs(case)
    shape = tuple(case["shape"])
    wl = np.ascontiguousarray(ins[:, 0].T).reshape(nv, *shape)
    wr = np.ascontiguousarray(ins[:, 1].T).reshape(nv, *shape)
    hs = HydroState(passive_scalars=tuple(f"s{i}" for i in range(case["npas"])))
    a, b = wl.copy(), wr.copy()
    f = getattr(riemann_solvers, case["solver"])
    out = f(hs=hs, riemann_problem=(wl, wr), gamma=case["gamma"], dim="xyz"[case["d"] - 1], csq_floor=case["floor"])
    if not (np.array_equal(a, wl) and np.array_equal(b, wr)):
        raise AssertionError("input changed")
    if out.shape != wl.shape:
        raise AssertionError(f"shape {out.shape}")
    return dict(kind="riemann", solver=case["solver"], ins=enc(ins), outs=enc(out.reshape(nv, -1).T), gamma=num(case["gamma"]), d=case["d"], floor=num(case["floor"]))


def random_pairs(case):
    r = rng_of(case["seed"], 9)
    m, nv, d = int(np.prod(case["shape"])), 5 + case["npas"], case["d"]
    w = np.empty((m, 2, nv))
    w[..., 0] = 10.0 ** r.uniform(-2, 2, (m, 2))
    w[..., 4] = 10.0 ** r.uniform(-2, 2, (m, 2))
    w[..., 1:4] = r.uniform(-3, 3, (m, 2, 3))
    w[..., 5:] = r.uniform(-3, 3, (m, 2, case["npas"]))
    if case.get("wild"):
        w[..., 0] = 10.0 ** r.uniform(-9, 9, (m, 2))
        speed = 10.0 ** r.uniform(-4, 4, (m, 1))
        w[..., 4] = w[..., 0] * (speed * 10.0 ** r.uniform(-1, 1, (m, 2))) ** 2
        w[..., 1:4] *= speed[..., None]
        w[..., 5:] *= 10.0 ** r.uniform(-8, 8, (1, 1, case["npas"]))
    for q in range(m):
        k = r.integers(0, 12)
        c = np.sqrt(case["gamma"] * w[q, :, 4] / w[q, :, 0])
        if k == 0:
            w[q, 1] = w[q, 0]
        elif k == 1:  # supersonic both ways
            w[q, :, d] = r.choice([-1, 1]) * c.max() * r.uniform(1.2, 4, 2)
        elif k == 2:
            w[q, :, d] = 0
        elif k == 3:  # symmetric
            w[q, 1] = w[q, 0]
            w[q, 1, d] = -w[q, 0, d]
        elif k == 4:  # receding
            w[q, 0, d], w[q, 1, d] = -abs(w[q, 0, d]), abs(w[q, 1, d])
        elif k == 5:  # the floor acts
            w[q, int(r.integers(0, 2)), 4] *= -1
        elif k == 6:  # near a contact
            w[q, :, 4] = w[q, 0, 4]
            w[q, :, d] = w[q, 0, d]
        elif k == 7:
            w[q, 0, 4] = 0.0
        elif k == 8:  # sonic exactly
            g = case["gamma"]
            for side in (0, 1):
                w[q, side, 4] = 1.0
                w[q, side, 0] = g / float(r.choice([1, 4]))
                w[q, side, d] = float(r.integers(-2, 3))
            if r.random() < 0.6:
                c = np.sqrt(g * w[q, :, 4] / w[q, :, 0]).max()
                w[q, :, d] = r.choice([-1, 1]) * r.permutation([c, c + 1])
    return w


def run(chk):
    r = rng_of(chk.seed, 9)
    chk.design("RiemannMC")
    cs = []
    # lattice
    base = list(itertools.product([1.0, 2.5], [-4.0, -0.5, 0.0, 0.5, 4.0], [-1.0, 0.75], [1.0, 3.0]))
    for d, sv in itertools.product((1, 2, 3), SOLVERS):
        pairs = list(itertools.product(base, base))
        r.shuffle(pairs)
        pairs = pairs[: chk.pick(256, 1600)]
        ins = []
        for x, y in pairs:
            pr = []
            for rho, vn, vt, P in (x, y):
                w = [rho, 0.25, 0.25, 0.25, P, vn * 2 + vt, rho - P]
                w[d] = vn
                w[d % 3 + 1] = vt
                pr.append(w)
            ins.append(pr)
        for k in range(0, len(ins), 64):
            cs.append(dict(solver=sv, d=d, npas=2, ins=ins[k : k + 64], shape=[4, 4, 4], gamma=1.4, floor=1e-10))
    for i in range(chk.pick(220, 3000)):
        cs.append(
            dict(
                seed=int(r.integers(2**31)),
                solver=SOLVERS[i % 3],
                d=i // 3 % 3 + 1,
                npas=int(r.choice([0, 0, 1, 2, 4])),
                shape=[int(x) for x in r.integers(1, 5, 3)],
                gamma=float(r.choice([1.4, 5 / 3, 1.1, 2.0])),
                floor=float(r.choice([1e-10, 1e-3, 0.5])),
                wild=i // 9 % 3 == 2,
            )
        )
    chk.events(flux, cs, "Riemann problems")
    chk.events(events.mixed, events.scheme_cases(r, chk.pick(16, 150), pmax=2), "right-hand sides and steps")
