"""C06: ghost cells"""
import numpy as np

import events
from common import enc, num
from solvers import build, poly_fn, random_case, rng_of

DMR = "special-case-double-mach-reflection-y=0"
TYPES = ["periodic", "free", "outflow", "reflective", "dirichlet"]


def ghosts(case):
    from fvhoe.boundary_conditions import BoundaryCondition
    from fvhoe.fv import fv_uniform_meshgen
    from fvhoe.hydro import HydroState

    r = rng_of(case["seed"], 6)
    n, gw, dom = tuple(case["n"]), tuple(case["gw"]), [tuple(d) for d in case["dom"]]
    hs = HydroState(passive_scalars=tuple(f"s{i}" for i in range(case["npas"])))
    u = r.uniform(-5, 5, (hs.nvars, *n))
    kw, spec, funcs, pool = {}, [], False, []
    for a, d in enumerate("xyz"):
        bc, vals, sp = [], [], []
        for s in range(2):
            t = case["bc"][a][s]
            val, B = None, dict(type=t)
            if t == "dirichlet":
                if r.random() < (0.9 if case.get("arrays") else 0.4):
                    val = r.uniform(-3, 3, hs.nvars)
                    if pool and r.random() < 0.4:  # an array given before
                        val = pool[int(r.integers(len(pool)))]
                    pool.append(val)
                    B["const"] = enc(val)
                else:
                    poly = np.round(r.uniform(-2, 2, (hs.nvars, 6)), 3)
                    val, funcs = poly_fn(poly), True
                    B["poly"] = enc(poly)
            bc.append(DMR if t == "dmr" else t)
            vals.append(val)
            sp.append(B)
        if case["single"][a] and bc[0] == bc[1]:
            # one value for both sides
            kw[d] = bc[0]
            kw[d + "_value"] = vals[0]
            sp[1] = sp[0]
        else:
            kw[d], kw[d + "_value"] = tuple(bc), tuple(vals)
        spec.append(dict(lo=sp[0], hi=sp[1]))
    if case["slab"] > 0:
        slab = tuple(case["slab"] if g > 0 or case["all"] else 0 for g in gw)
        if slab != (0, 0, 0):
            _, kw["slab_coords"] = fv_uniform_meshgen(n, *dom, slab_thickness=slab)
    b = BoundaryCondition(hydro_state=hs, **kw)
    keep = u.copy()
    out = None
    for t in case["ts"]:  # the last application counts
        out = b.apply(u, gw=gw, t=t)
    if not np.array_equal(keep, u):
        raise AssertionError("the data of the domain was changed")
    return dict(kind="ghosts", u=enc(u), bc=spec, dom=enc(dom), t=num(t), gw=list(gw), exact=not funcs, out=enc(out))


def cases(r, n):
    out = []
    for i in range(n):
        dims = [int(x) for x in (r.integers(1, 5, 3) if i % 3 else r.integers(1, 3, 3))]
        gw = [int(x) for x in r.integers(0, 4, 3)]
        k = i % 4
        if k == 1:
            gw = [0, 0, 0]
            a = int(r.integers(0, 3))
            gw[a] = int(r.integers(1, 13))
            dims = [2, 2, 2]
            dims[a] = int(r.integers(1, 13))
        types = TYPES if k != 2 else [x for x in TYPES if x != "dirichlet"]
        bc = []
        for a in range(3):
            b = [str(r.choice(types)), str(r.choice(types))]
            if r.random() < 0.3:
                b[1] = b[0]
            if "periodic" in b:
                b = ["periodic", "periodic"]
            bc.append(b)
        if i % 10 == 5:  # mostly fixed values
            bc = [["dirichlet", "dirichlet"] if r.random() < 0.8 else ["free", "dirichlet"] for _ in range(3)]
        if k == 3 and r.random() < 0.5:
            hi = bc[1][1] if bc[1][1] != "periodic" else "free"
            bc[1] = ["dmr", hi]
            dims = [int(r.integers(3, 9)), int(r.integers(1, 4)), 1 if r.random() < 0.5 else 2]
        dom = []
        for a in range(3):
            lo = float(np.round(r.uniform(-1, 0.3), 3))
            dom.append([lo, lo + float(np.round(r.uniform(0.3, 2), 3))])
        need = any("dirichlet" in b or "dmr" in b for b in bc)
        out.append(
            dict(
                seed=int(r.integers(2**31)),
                n=dims,
                gw=gw,
                dom=dom,
                bc=bc,
                npas=int(r.choice([0, 0, 1, 3])),
                single=[bool(r.random() < 0.5) for _ in range(3)],
                slab=max(gw) + int(r.choice([0, 1, 5, 20])) if need or r.random() < 0.5 else 0,
                arrays=i % 10 == 5,
                all=bool(r.random() < 0.5),
                ts=[float(np.round(x, 3)) for x in r.uniform(0, 3, int(r.integers(1, 3)))],
            )
        )
    return out


def of_solver(case):
    """ghost cells as a solver sets them up"""
    s = build(case, slab_buffer_size=case["slab"])
    r = rng_of(case["seed"], 66)
    u = r.uniform(-5, 5, s.am("u").shape)
    gw = tuple(case["gw"])
    out = s.bc.apply(u, gw=gw, t=case["t"])
    return dict(kind="ghosts", u=enc(u), bc=events.bc_spec(case), dom=enc(case["dom"]), t=num(case["t"]), gw=list(gw), exact=False, out=enc(out))


def solver_cases(r, n):
    out = []
    for i in range(n):
        c = random_case(r, cells=(1, 5), pmax=2, limit=False, bcs=["dirichlet", "ic", "reflective", "outflow", "free", "periodic"])
        for d in c["dims"]:  # every type on every side
            c["bc"]["xyz".index(d)] = [str(r.choice(["dirichlet", "ic", "ic", "reflective", "outflow", "free"])) for _ in range(2)]
        c["gw"] = [int(r.integers(0, 4)) if "xyz"[a] in c["dims"] else 0 for a in range(3)]
        c.update(t=float(np.round(r.uniform(0, 3), 3)), swing=10.0, slab=max(max(c["gw"]), 20) + int(r.choice([0, 1, 10])))
        out.append(c)
    return out


def dmr_solver(r, n):
    """solvers with the wall of the double Mach reflection"""
    out = []
    for c in events.scheme_cases(r, n, dims="xy", cells=(4, 7), pmax=2, bcs=["free", "dirichlet", "reflective"]):
        c["bc"][1] = ["dmr", str(r.choice(["dirichlet", "free", "reflective"]))]
        c["dom"][0] = [0.0, float(r.choice([0.5, 1.0]))]
        out.append(c)
    return out


def name(case):
    """which names are accepted"""
    from fvhoe.boundary_conditions import BoundaryCondition

    u = np.ones((5, 3, 3, 3))
    try:
        BoundaryCondition(**{case["dim"]: case["arg"] if isinstance(case["arg"], str) else tuple(case["arg"])}).apply(u, gw=(1, 1, 1), t=0.0)
        ok = True
    except Exception:
        ok = False
    return dict(kind="bcname", names=[case["arg"]] * 2 if isinstance(case["arg"], str) else case["arg"], accepted=ok)


def run(chk):
    r = rng_of(chk.seed, 6)
    chk.events(ghosts, cases(r, chk.pick(500, 6000)), "boundary conditions")
    names = []
    for d in "xyz":
        for arg in ["periodic", "free", "outflow", "reflective", "Free", "wall", "", "open"]:
            names.append(dict(dim=d, arg=arg))
        for arg in [["free", "outflow"], ["free", "bogus"], ["bogus", "reflective"], ["free"], ["free", "free", "free"]]:
            names.append(dict(dim=d, arg=arg))
    chk.events(name, names, "names of boundary conditions")
    cs = events.scheme_cases(r, chk.pick(16, 150), every=2, cells=(2, 4), bcs=["dirichlet", "ic", "reflective", "outflow", "free", "dirichlet"])
    # time-dependent functions in every stage of every method
    for i in range(chk.pick(8, 80)):
        c = random_case(r, dims=str(r.choice(["x", "y", "z", "xy"])), cells=(2, 4), pmax=3, limit=bool(i % 2))
        for d in c["dims"]:
            c["bc"]["xyz".index(d)] = [["dirichlet", "dirichlet"], ["free", "dirichlet"], ["dirichlet", "reflective"]][i % 3]
        c.update(do="step", steps=2, method=events.METHODS[i % 4])
        cs.append(c)
    # flags near boundaries that have moved on
    for c in events.scheme_cases(r, chk.pick(24, 240), every=0, cells=(2, 4), pmax=2, limit=True):
        for d in c["dims"]:
            c["bc"]["xyz".index(d)] = [str(x) for x in r.choice(["dirichlet", "free"], 2, p=[0.8, 0.2])]
        c["limit"].update(force=False)
        c["swing"] = 10.0
        cs.append(c)
    chk.events(of_solver, solver_cases(r, chk.pick(150, 1500)), "boundary conditions of solvers")
    cs += dmr_solver(r, chk.pick(6, 60))
    chk.events(events.mixed, cs, "evaluations and steps")
