"""C05: time-step sizes"""
import numpy as np

import events
from common import enc, num
from solvers import random_case, rng_of


def unit(case):
    from fvhoe.hydro import hydro_dt

    r = rng_of(case["seed"], 5)
    shape = tuple(case["shape"])
    w = np.empty((5 + case["npas"], *shape))
    w[0] = 10.0 ** r.uniform(-2, 2, shape)
    w[1:4] = r.uniform(-3, 3, (3, *shape)) * 10.0 ** r.integers(-3, 2)
    w[4] = 10.0 ** r.uniform(-3, 2, shape)
    if case["neg"]:
        w[4] *= np.sign(r.uniform(-1, 1, shape))
    w[5:] = r.uniform(-50, 50, (case["npas"], *shape))
    keep = w.copy()
    dt = hydro_dt(w=w, h=case["h"], ndim=case["ndim"], CFL=case["cfl"], gamma=case["gamma"], csq_floor=case["floor"])
    if not np.array_equal(keep, w):
        raise AssertionError("input changed")
    return dict(kind="dt", w=enc(w), cfl=num(case["cfl"]), h=num(case["h"]), gamma=num(case["gamma"]), floor=num(case["floor"]), ndim=case["ndim"], dt=num(dt))


def advection(case):
    from fvhoe.hydro import advection_dt

    v = case["v"]
    kw = {k: x for k, x in zip(("vx", "vy", "vz"), v) if x}
    if case["cfl"] != 0.8:
        kw["CFL"] = case["cfl"]
    return dict(kind="advection", v=enc(v), h=num(case["h"]), cfl=num(case["cfl"]), dt=num(float(advection_dt(case["h"], **kw))))


def history(case):
    """the proposal does not depend on what was evaluated before"""
    s = __import__("solvers").build(case)
    u = s.am("u").copy()
    r = rng_of(case["seed"], 55)
    for q in range(3):
        s.f(case["t"], u * (1 + 0.1 * q))
    if r.random() < 0.5:
        s.run(n=1)
        s.t = 0.0
    dt, k = s.f(case["t"], u.copy())
    return dict(kind="rhs", cfg=events.cfg_of(case), t=num(case["t"]), u=enc(u), dt=num(dt), rate=enc(k))


def run(chk):
    r = rng_of(chk.seed, 5)
    units = []
    for i in range(chk.pick(250, 3000)):
        units.append(
            dict(
                seed=int(r.integers(2**31)),
                shape=[int(x) for x in r.integers(1, 5, 3)],
                npas=int(r.integers(0, 4)),
                neg=bool(r.random() < 0.3),
                h=float(10.0 ** r.uniform(-3, 1)),
                ndim=int(r.integers(1, 4)),
                cfl=float(r.uniform(0.05, 1.2)),
                gamma=float(r.choice([1.4, 5 / 3, 1.1, 2.0, 3.0])),
                floor=float(r.choice([1e-10, 1e-3, 0.5, 4.0])),
            )
        )
    chk.events(unit, units, "time-step rule")
    adv = []
    for i in range(chk.pick(40, 300)):
        v = (10.0 ** r.uniform(-3, 3, 3) * (r.random(3) < 0.6)).tolist()
        v[int(r.integers(3))] = float(r.uniform(0.1, 5))
        adv.append(dict(v=v, h=float(10.0 ** r.uniform(-3, 1)), cfl=float(r.choice([0.8, 0.3, 1.1]))))
    chk.events(advection, adv, "pure advection")
    es = events.scheme_cases(r, chk.pick(30, 300), every=3)
    ts = events.scheme_cases(r, chk.pick(14, 120), every=3, fixdt=None)
    for c in ts:  # the narrowest cells may be those of a direction that is not resolved
        for a in range(3):
            if "xyz"[a] not in c["dims"]:
                lo = c["dom"][a][0]
                c["dom"] = [list(d) for d in c["dom"]]
                c["dom"][a] = [lo, lo + float(10.0 ** r.uniform(-2.5, 0))]
    fs = events.scheme_cases(r, chk.pick(14, 120), every=0, limit=False, cells=(2, 5))
    for c in fs:  # any fixed size, and any spacing
        c["fixdt"] = float(10.0 ** r.uniform(-8, 3))
        a = int(r.integers(3))
        c["dom"] = [list(d) for d in c["dom"]]
        c["dom"][a][1] = c["dom"][a][0] + float(10.0 ** r.uniform(-4, 4))
    chk.events(events.mixed, es + ts + fs, "evaluations and steps")
    hs = [dict(random_case(r), t=float(r.uniform(0, 1))) for _ in range(chk.pick(14, 100))]
    chk.events(history, hs, "evaluations after others")
