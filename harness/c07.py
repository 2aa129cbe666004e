"""C07: interpolation weights and sweeps"""
import numpy as np

import events
from common import enc, num
from solvers import rng_of


def weights(case):
    from fvhoe.stencils import (
        get_conservative_interpolation_stencil_weights as ci,
        get_stencil_size,
        get_transverse_reconstruction_stencil_weights as tr,
    )

    w = tr(p=case["p"]) if case["what"] == "recon" else ci(p=case["p"], pos=case["what"])
    return dict(
        kind="weights",
        what=case["what"],
        p=case["p"],
        w=enc(np.array(w)),
        total=int(get_stencil_size(case["p"], mode="total")),
        right=int(get_stencil_size(case["p"])),
    )


def sweep(case):
    from fvhoe import fv

    r = rng_of(case["seed"], 7)
    nd, ax = case["nd"], case["ax"]
    p = case["p"]
    full = [1, 1, 1, 1]
    reach = [2 * ((q + 1) // 2) for q in p]
    if case["what"] in ("recon", "l", "c", "r", "diff"):
        shape = [int(x) for x in r.integers(1, 4 if nd < 5 else 3, nd)]
        shape[ax] = (2 if case["what"] == "diff" else 2 * ((p[0] + 1) // 2)) + int(r.integers(1, 5))
        u = r.uniform(-1, 1, shape) * 10.0 ** int(r.integers(-3, 4))
        keep = u.copy()
        if case["what"] == "recon":
            out = fv.transverse_reconstruction(u, p=p[0], axis=ax) if case["alt"] else fv.stencil_sweep(u, mode="reconstruction", p=p[0], axis=ax)
        elif case["what"] == "diff":
            out = fv.second_order_central_difference(u, axis=ax, h=case["h"]) if case["h"] else fv.second_order_central_difference(u, axis=ax)
        else:
            out = fv.conservative_interpolation(u, p=p[0], axis=ax, pos=case["what"]) if case["alt"] else fv.stencil_sweep(u, mode="interpolation", p=p[0], axis=ax, pos=case["what"])
        if not np.array_equal(keep, u):
            raise AssertionError("input changed")
        # as a field with the swept axis among the last three
        if nd == 4 and ax == 0:
            u, out, a4 = np.swapaxes(u, 0, 1), np.swapaxes(out, 0, 1), 1
        elif nd == 4:
            a4 = ax
        elif nd > 4:
            u, out, a4 = (np.moveaxis(x, ax, 0).reshape(1, x.shape[ax], -1, 1) for x in (u, out)), None, 1
            u, out = u
        else:
            pad = (1,) * (3 - nd)
            u, out, a4 = u.reshape((1, *u.shape, *pad)), out.reshape((1, *out.shape, *pad)), ax + 1
        if case["what"] == "diff":
            return dict(kind="diff", q=enc(u), h=num(case["h"]) if case["h"] else "none", ax=a4, out=enc(out))
        pp = [0, 0, 0]
        pp[a4 - 1] = p[0]
        return dict(kind="sweep", q=enc(u), what=case["what"], p=pp, ax=a4, out=enc(out))
    # three directions at once
    shape = [int(r.integers(1, 4))] + [reach[a] + int(r.integers(1, 4)) for a in range(3)]
    u = r.uniform(-1, 1, shape)
    f = fv.interpolate_cell_centers if case["what"] == "centers" else fv.interpolate_fv_averages
    out = f(u, p=tuple(p))
    return dict(kind="sweep", q=enc(u), what="c" if case["what"] == "centers" else "recon", p=p, ax=0, out=enc(out))


def run(chk):
    r = rng_of(chk.seed, 7)
    chk.design("StencilMC")
    chk.events(weights, [dict(p=p, what=w) for p in range(9) for w in ("recon", "l", "c", "r")], "weights")
    cs = []
    for rep in range(chk.pick(1, 6)):
        for what in ("recon", "l", "c", "r", "diff"):
            for nd in (1, 2, 3, 4, 5):
                for ax in range(nd):
                    for p in range(9) if what != "diff" else (2, 2):
                        cs.append(dict(seed=int(r.integers(2**31)), what=what, nd=nd, ax=ax, p=[p], alt=bool(r.random() < 0.5), h=None if r.random() < 0.4 else float(r.uniform(0.1, 3))))
    for i in range(chk.pick(60, 600)):
        cs.append(dict(seed=int(r.integers(2**31)), what=["centers", "averages"][i % 2], nd=4, ax=0, p=[int(x) for x in (r.integers(0, 9, 3) if i % 4 == 0 else r.integers(0, 4, 3))]))
    chk.events(sweep, cs, "sweeps")
    chk.events(events.mixed, events.scheme_cases(r, chk.pick(16, 150), limit=False), "right-hand sides and steps")
