"""C04: Runge-Kutta methods"""
import itertools

import numpy as np

import events
from common import enc, num
from solvers import random_case, rng_of


def one(case):
    from fvhoe.ode import ODE

    coef = np.array(case["coef"])
    log = []

    class Problem(ODE):
        def f(self, t, u):
            y = u
            z = np.roll(u, -1)
            log.append(float(t))
            c = coef
            k = c[:, 0] + c[:, 1] * t + c[:, 2] * y + c[:, 3] * t * z + c[:, 4] * y * z
            # stages after the first propose something else
            return case["dt"] if len(log) % case["stages"] == 1 % case["stages"] else case["other"], k

    s = Problem(np.array(case["u"]), progress_bar=False)
    s.t = case["t"]
    s.timestamps = [s.t]
    out = []
    go = getattr(s, case["method"])
    for q in range(case["steps"]):
        t0, u0 = s.t, s.am.get_numpy("u")
        log.clear()
        dt = case["dt"]
        if case["mode"] == "n":
            go(n=1)
        else:  # a target that shortens the step
            dt = min(case["dt"], case["frac"] * case["dt"])
            T = t0 + dt
            go(T=T)
            if s.step_count != q + 1:
                raise AssertionError("more than one step to reach a target within one step")
            dt = T - t0
        ev = dict(kind="rk", method=case["method"], t=num(t0), dt=num(dt), u=enc(u0), coef=enc(coef), after=enc(s.am.get_numpy("u")), times=enc(log))
        ev["t2"] = num(s.t)
        out.append(ev)
    return out


def cases(r, n):
    out = []
    for i in range(n):
        d = int(r.integers(1, 5))
        coef = np.round(r.uniform(-1, 1, (d, 5)), 4)
        for col in range(5):
            if r.random() < 0.2:
                coef[:, col] = 0
        m = events.METHODS[i % 4]
        out.append(
            dict(
                coef=coef.tolist(),
                u=np.round(r.uniform(-2, 2, d), 4).tolist(),
                t=float(np.round(r.uniform(-1, 3), 3)) if r.random() < 0.8 else 0.0,
                dt=float(r.choice([0.5, 0.25, 0.1, 0.037, 1e-3])),
                other=float(r.choice([1e-4, 7.0])),
                method=m,
                stages=i % 4 + 1,
                steps=int(r.integers(1, 4)),
                mode=str(r.choice(["n", "T"])),
                frac=float(r.choice([0.25, 0.7, 0.999])),
            )
        )
    return out


def orders(r, n):
    """default integrators of every combination of degrees"""
    out = []
    for i in range(n):
        c = random_case(r, cells=(2, 3), limit=False, pmax=4 if i % 2 else 2)
        c.update(do="step", steps=1, fixdt=float(np.round(r.uniform(1e-3, 4e-2), 4)))
        out.append(c)
    # the largest degree may be in any direction
    for d in range(3):
        for q in range(6):
            p = [0, 0, 0]
            p[d] = q
            c = random_case(r, dims="xyz"[d], cells=(3, 5), limit=False)
            c.update(p=p, do="step", steps=2)
            out.append(c)
    # targets within a run
    for i in range(n // 4):
        c = random_case(r, dims=str(r.choice(["x", "y", "z"])), cells=(3, 6), limit=False, pmax=4)
        h = 0.01
        c.update(do="step", fixdt=h, T=3.3 * h, downbeats=[0.4 * h, 2.0 * h, 2.5 * h])
        out.append(c)
    for c in out:
        c["count"] = True
    return out


def choice(case):
    """the method a solver picks for its degrees, seen on a scalar equation"""
    from fvhoe.initial_conditions import Square
    from fvhoe.solver import EulerSolver

    p = case["p"]
    kw = {}
    for d, q in zip("xyz", p):
        if q is not None:
            kw.update({"n" + d: case["n"], "p" + d: q})
    s = EulerSolver(w0=Square(), progress_bar=False, **case["more"], **kw)
    c = case["coef"]
    log = []

    def f(t, u):
        log.append(float(t))
        return case["dt"], c[0] + c[1] * t + c[2] * u + c[3] * t * u + c[4] * u * u

    u0 = s.am.get_numpy("u")
    s.f = f
    s.run(n=1)
    u1 = s.am.get_numpy("u")
    out = []
    for at in {(0, 0, 0, 0), tuple(m - 1 for m in u0.shape), (4, 0, 0, 0)}:
        out.append(dict(kind="rk", method="", p=[q or 0 for q in p], t="0", dt=num(case["dt"]), u=enc([u0[at]]), coef=enc([c]), after=enc([u1[at]]), times=enc(log)))
    return out


def choices(r):
    out = []
    for p in itertools.product([None, 0, 1, 2, 3, 4], repeat=3):
        if any(q is not None for q in p):
            more = {}
            if r.random() < 0.3 and sum(q is not None for q in p) < 3:
                more = dict(a_posteriori_slope_limiting=True, slope_limiter="minmod")
            out.append(dict(p=list(p), n=int(r.integers(2, 4)), dt=float(r.choice([0.25, 0.1])), coef=np.round(r.uniform(-1, 1, 5), 3).tolist(), more=more))
    for q in (5, 6, 7, 8):
        for d in range(3):
            p = [None, None, None]
            p[d] = q
            out.append(dict(p=p, n=10, dt=0.1, coef=np.round(r.uniform(-1, 1, 5), 3).tolist(), more={}))
    return out


def run(chk):
    r = rng_of(chk.seed, 4)
    chk.design("RungeKuttaMC")
    chk.events(one, cases(r, chk.pick(400, 6000)), "polynomial right-hand sides")
    chk.events(choice, choices(r), "choice of the method")
    chk.events(events.mixed, orders(r, chk.pick(24, 200)), "solver steps")
