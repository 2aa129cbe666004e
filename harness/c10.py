"""C10: variables and fluxes of a gas, pointwise"""
import numpy as np

import events
from common import enc, num
from solvers import random_case, rng_of


def point(case):
    from fvhoe import hydro

    r = rng_of(case["seed"], 10)
    shape = tuple(case["shape"])
    m, nv = int(np.prod(shape)), 5 + case["npas"]
    w = np.empty((m, nv))
    w[:, 0] = 10.0 ** r.uniform(-3, 3, m)
    w[:, 4] = 10.0 ** r.uniform(-3, 3, m) * np.where(r.random(m) < 0.15, -1, 1)
    w[:, 1:4] = r.uniform(-1, 1, (m, 3)) * 10.0 ** r.uniform(-2, 1, (m, 1))
    w[:, 1:4] *= r.random((m, 3)) > 0.15
    w[:, 5:] = r.uniform(-1, 1, (m, nv - 5)) * 10.0 ** r.uniform(-2, 2, (m, 1))
    if case["wild"]:  # any magnitudes
        w[:, 0] = 10.0 ** r.uniform(-15, 15, m)
        w[:, 4] *= 10.0 ** r.uniform(-12, 12, m)
        w[:, 1:4] *= 10.0 ** r.uniform(-6, 6, (m, 3))
        w[:, 5:] *= 10.0 ** r.uniform(-9, 9, (m, nv - 5))
    g = case["gamma"]
    hs = hydro.HydroState(passive_scalars=tuple(f"s{i}" for i in range(case["npas"])))
    A = lambda x: np.ascontiguousarray(x.T).reshape(nv, *shape)
    B = lambda x: np.asarray(x).reshape(-1, m).T
    W = A(w)
    keep = W.copy()
    U = hydro.compute_conservatives(hs, W, g)
    ukeep = U.copy()
    W2 = hydro.compute_primitives(hs, U, g)
    out = [
        dict(what="cons", ins=enc(w), outs=enc(B(U))),
        dict(what="prim", ins=enc(B(U)), outs=enc(B(W2))),
        dict(what="round", ins=enc(w), outs=enc(B(W2))),
        dict(what="sound", ins=enc(w), outs=enc(B(hydro.compute_sound_speed(W, g, case["floor"])))),
    ]
    for d in (1, 2, 3):
        for inc in (True, False):
            F = hydro.compute_fluxes(hs, W, U, g, dim="xyz"[d - 1], include_pressure=inc)
            out.append(dict(what="flux", ins=enc(w), outs=enc(B(F)), d=d, withP=inc))
    # several kinds of arrays
    V = hydro.compute_conservatives(hs, A(w)[:, ::-1, ::-1, ::-1], g)[:, ::-1, ::-1, ::-1]
    out.append(dict(what="cons", ins=enc(w), outs=enc(B(np.ascontiguousarray(V)))))
    if not (np.array_equal(keep, W) and np.array_equal(ukeep, U)):
        raise AssertionError("input changed")
    return [dict(kind="point", gamma=num(g), floor=num(case["floor"]), **e) for e in out]


def initial(case):
    """conversion of primitive initial data by the solver"""
    from fvhoe.initial_conditions import InitialCondition
    from fvhoe.solver import EulerSolver

    r = rng_of(case["seed"], 11)
    k = case["npas"]
    w = np.concatenate([[r.uniform(0.2, 3)], r.uniform(-2, 2, 3), [r.uniform(0.2, 3)], r.uniform(-2, 2, k)])

    class IC(InitialCondition):
        def base_ic(self):
            return lambda x, y, z: np.stack([c + 0 * x for c in w[:5]])

    pas = {f"q{i}": (lambda x, y, z, i=i: w[5 + i] + 0 * x) for i in range(k)}
    s = EulerSolver(w0=IC(), w0_passives=pas or None, nx=3, px=case["p"], gamma=case["gamma"], progress_bar=False)
    s.run(n=0)
    u = s.am.get_numpy("u")
    g = num(case["gamma"])
    return [
        dict(kind="point", what="cons", gamma=g, ins=enc([w] * 3), outs=enc(u[:, :, 0, 0].T)),
        dict(kind="point", what="round", gamma=g, ins=enc([w] * 3), outs=enc(s.snapshots[0]["w"][:, :, 0, 0].T)),
    ]


def run(chk):
    r = rng_of(chk.seed, 10)
    cs = [
        dict(
            seed=int(r.integers(2**31)),
            shape=[int(x) for x in r.integers(1, 4, 3)],
            npas=int(r.choice([0, 0, 1, 2, 5])),
            gamma=float(r.choice([1.4, 5 / 3, 1.01, 2.0, 3.0])),
            floor=float(r.choice([1e-10, 1e-3, 0.5, 10.0])),
            wild=i % 3 == 2,
        )
        for i in range(chk.pick(120, 2000))
    ]
    chk.events(point, cs, "states")
    chk.events(initial, [dict(seed=int(r.integers(2**31)), npas=i % 4, p=i % 5, gamma=float(r.choice([1.4, 5 / 3, 1.1]))) for i in range(chk.pick(20, 100))], "initial states")
    chk.events(events.mixed, events.scheme_cases(r, chk.pick(14, 100), pmax=2), "right-hand sides and steps")
