"""C01: totals over the domain"""
import numpy as np

import events
from common import enc
from solvers import random_case, rng_of


def vars_of(case):
    walls = [a for a in range(3) if "xyz"[a] in case["dims"] and case["bc"][a][0] == "reflective"]
    return [v for v in range(1, 6 + case["npas"]) if v - 2 not in walls]


def totals(case):
    s, rec = events.record_run(case, steps=case["steps"], method=case.get("method"), T=case.get("T"))
    us = [r["u"] for r in rec]
    if len(us) > 8:
        us = [us[i] for i in np.unique(np.linspace(0, len(us) - 1, 8).astype(int))]
    return dict(kind="totals", us=enc(us), vars=vars_of(case))


def cases(r, n):
    out = []
    for i in range(n):
        wall = i % 3 == 2
        c = random_case(
            r,
            bc=[["periodic", "periodic"]] * 3,
            limit=bool(i % 2),
            **(dict(riemann=str(r.choice(["hllc", "llf"]))) if wall else {}),
        )
        if wall:
            c["bc"] = [["periodic", "periodic"] for _ in range(3)]
            act = list(c["dims"])
            hit = [d for d in act if r.random() < 0.6] or [act[0]]
            for d in hit:
                c["bc"]["xyz".index(d)] = ["reflective", "reflective"]
        c["cfl"] = float(np.round(r.uniform(0.1, 0.5), 3))
        c["steps"] = int(r.choice([1, 2, 3, 6, 12])) if i % 12 else 120
        if r.random() < 0.5:
            c["method"] = str(r.choice(events.METHODS))
        if i % 5 == 4:  # mesh at ordinary size
            nd = len(c["dims"])
            for d in c["dims"]:
                c["n"]["xyz".index(d)] = int(r.integers(*{1: (30, 80), 2: (10, 18), 3: (5, 8)}[nd]))
        out.append(c)
    return out


def edges(r, n):
    """trouble that starts next to a periodic boundary, with every mixture of walls"""
    out = []
    for i in range(n):
        for dims in ("x", "y", "z", "xy", "xz", "yz"):
            for w in ["", *(dims if len(dims) > 1 else "")]:
                c = random_case(r, dims=dims, bc=[["periodic", "periodic"] for _ in range(3)], limit=True, riemann=str(r.choice(["hllc", "llf"])), mode="pulse", pmax=4)
                for d in dims:
                    a = "xyz".index(d)
                    c["n"][a] = int(r.integers(8, 15)) if d != w else int(r.integers(3, 6))
                    c["p"][a] = int(r.integers(1, 4))
                    if d == w:
                        c["bc"][a] = ["reflective", "reflective"]
                c["limit"].update(force=False, NAD=1e-3, vars=None, range="relative", pad={"rho": [0.0, "inf"], "P": [0.0, "inf"]})
                c["edge"] = "xyz".index(str(r.choice([d for d in dims if d != w])))
                c.update(cfl=0.4, fixdt=None, steps=int(r.choice([1, 4, 8])), floor=1e-10)
                out.append(c)
    return out


def run(chk):
    r = rng_of(chk.seed, 1)
    chk.design("SchemeMC", cfg=chk.pick("SchemeMC_totals", "SchemeMC_all"))
    chk.events(totals, cases(r, chk.pick(240, 3000)), "totals")
    chk.events(totals, edges(r, chk.pick(4, 40)), "totals with trouble at periodic boundaries")
    chk.events(
        events.mixed,
        events.scheme_cases(r, chk.pick(24, 200), bcs=["periodic", "reflective"]),
        "right-hand sides and steps in closed domains",
    )
