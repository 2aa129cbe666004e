"""C23: whole right-hand sides and steps are those of spec/Scheme.tla"""
import numpy as np

import events
from solvers import rng_of


def run(chk):
    r = rng_of(chk.seed, 23)
    chk.design("RatTest")
    if chk.thorough:
        chk.design("SchemeMC", cfg="SchemeMC_all")
    chk.events(events.mixed, events.scheme_cases(r, chk.pick(90, 700)), "right-hand sides and steps")
    hs = events.scheme_cases(r, chk.pick(16, 80), every=0, dims="xy", pcap=8, cells=(1, 2), limit=False)
    for i, c in enumerate(hs):  # high degrees in two directions
        a = int(r.integers(3))
        k = [0, 1, 2]
        k.remove(a)
        for key in ("n", "p", "bc", "dom"):
            v = [c[key][q] for q in range(3)]
            c[key] = [None] * 3
            c[key][k[0]], c[key][k[1]], c[key][a] = v[0], v[1], v[2]
        c["dims"] = "".join("xyz"[q] for q in k)
    chk.events(events.mixed, hs, "high degrees in two directions")
    ws = events.scheme_cases(r, chk.pick(24, 200), every=1, nsteps=(1, 1), pmax=3, cells=(2, 5))
    for c in ws:  # late steps of longer runs
        c.update(warm=int(r.choice([7, 40, 130])), cfl=float(np.round(r.uniform(0.1, 0.4), 3)), fixdt=None)
    chk.events(events.mixed, ws, "late steps")
