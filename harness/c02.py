"""C02: uniform states stay uniform"""
import numpy as np

import events
import solvers
from common import enc
from solvers import random_case, rng_of


def uniform(case):
    u0 = solvers.initial_u(case)
    s, rec = events.record_run(case, steps=case["steps"], method=case.get("method"))
    us = [r["u"] for r in rec]
    if len(us) > 5:
        us = us[:2] + us[-3:]
    out = [dict(kind="uniform", us=enc(us), state=enc(u0[:, 0, 0, 0]))]
    w = rec[-1]["w"]
    x = u0[:, 0, 0, 0]
    wst = np.concatenate([[x[0]], x[1:4] / x[0], [(case["gamma"] - 1) * (x[4] - 0.5 * (x[1:4] ** 2).sum() / x[0])], x[5:] / x[0]])
    out.append(dict(kind="uniform", us=enc([w]), state=enc(wst), scale=enc(float(np.abs(x).max() + np.abs(wst).max()))))
    return out


def cases(r, n):
    out = []
    for i in range(n):
        c = random_case(r, bcs=["periodic", "free", "outflow", "reflective", "dirichlet", "ic"], limit=bool(i % 2), mode="smooth")
        c.update(uniform=True, steps=int(r.choice([1, 2, 5, 10])) if i % 12 else 120)
        if r.random() < 0.5:
            c["method"] = str(r.choice(events.METHODS))
        if r.random() < 0.3:
            nd = len(c["dims"])
            for d in c["dims"]:
                c["n"]["xyz".index(d)] = int(r.integers(*{1: (15, 50), 2: (7, 12), 3: (4, 6)}[nd]))
        # uniform states do not flow through a wall
        c["still"] = [a for a in range(3) if "reflective" in c["bc"][a]]
        c["scale_state"] = [float(10.0 ** r.integers(-3, 4)), float(10.0 ** r.integers(-2, 3))]
        out.append(c)
    return out


def run(chk):
    r = rng_of(chk.seed, 2)
    chk.design("SchemeMC", cfg=chk.pick("SchemeMC_uniform", "SchemeMC_all"))
    chk.events(uniform, cases(r, chk.pick(260, 3000)), "uniform states")
    chk.events(events.mixed, events.scheme_cases(r, chk.pick(16, 150)), "right-hand sides and steps")
