"""Random configurations of the solver, and their description for the specification.

A case is a JSON-able dict; build(case) makes the solver, spec_cfg(case) the
record that spec/Scheme.tla calls a configuration."""

import numpy as np

from common import enc, num

VARS = ["rho", "vx", "vy", "vz", "P"]


def rng_of(*key):
    return np.random.default_rng([abs(hash(k)) % (2**32) if not isinstance(k, int) else k for k in key])


def smooth_state(r, n, nv, amp=0.2, noise=0.05, vmax=1.0, mode=None):
    """primitive cell data with positive density and pressure"""
    ii = np.stack(np.meshgrid(*[np.arange(m) / m for m in n], indexing="ij"))
    out = np.empty((nv, *n))
    for v in range(nv):
        f = np.zeros(n)
        for _ in range(2):
            k = r.integers(-1, 2, size=3)
            f += r.uniform(-1, 1) * np.cos(2 * np.pi * (np.tensordot(k, ii, 1) + r.uniform()))
        f = amp * f + noise * r.uniform(-1, 1, size=n)
        if mode == "jump":
            ax = int(r.integers(0, 3))
            pos = r.uniform(0.2, 0.8)
            f = f + np.where(ii[ax] < pos, r.uniform(-0.3, 0.3), 0)
        if v in (0, 4):
            out[v] = np.exp(f) * r.uniform(0.5, 2)
        elif v < 4:
            out[v] = vmax * (f + r.uniform(-1, 1))
        else:
            out[v] = f + r.uniform(-1, 2)
    return out


def to_cons(w, g):
    u = np.empty_like(w)
    u[0] = w[0]
    u[1:4] = w[0] * w[1:4]
    u[4] = w[4] / (g - 1) + 0.5 * w[0] * (w[1:4] ** 2).sum(axis=0)
    u[5:] = w[0] * w[5:]
    return u


DMR = "special-case-double-mach-reflection-y=0"
BCS = ["periodic", "free", "outflow", "reflective", "dirichlet", "ic"]


def random_case(r, **force):
    """a random configuration; keyword arguments pin fields"""
    f = dict(force)
    dims = f.get("dims") or ["x", "y", "z", "xy", "xz", "yz", "xyz"][
        r.choice(7, p=[0.2, 0.1, 0.1, 0.2, 0.12, 0.13, 0.15])
    ]
    nd = len(dims)
    pmax = min(f.get("pmax", 8), f.get("pcap") or {1: 8, 2: 4, 3: 2}[nd])
    cells = f.get("cells", {1: (3, 14), 2: (2, 7), 3: (2, 4)}[nd])
    n, p = [1, 1, 1], [0, 0, 0]
    for d in dims:
        a = "xyz".index(d)
        n[a] = int(r.integers(cells[0], cells[1] + 1))
        if "cells" not in f and r.random() < 0.06:
            n[a] = 1  # a single cell is a direction of its own if it has a degree
        p[a] = int(r.integers(0, pmax + 1))
        if n[a] == 1 and p[a] == 0:
            p[a] = 1
    if f.get("same_p") or r.random() < 0.3:
        q = int(r.integers(0, pmax + 1))
        p = [(q or int(n[a] == 1)) if "xyz"[a] in dims else 0 for a in range(3)]
    dom = []
    for a in range(3):
        lo = float(np.round(r.uniform(-2, 2), 3))
        dom.append([lo, lo + float(np.round(r.uniform(0.3, 3), 3))])
    if r.random() < 0.3:
        dom = [[0.0, 1.0]] * 3
    npas = int(r.choice([0, 0, 1, 2, 3]))
    c = dict(
        n=n,
        p=p,
        dom=dom,
        dims=dims,
        gamma=float(r.choice([1.4, 5 / 3, 1.1, 2.0])),
        floor=float(r.choice([1e-10, 1e-10, 1e-3, 0.5])),
        riemann=str(r.choice(["hllc", "llf", "hllc", "llf", "advection_upwind"])),
        cfl=float(np.round(r.uniform(0.1, 0.8), 3)),
        fixdt=None if r.random() < 0.8 else float(np.round(r.uniform(1e-3, 1e-2), 5)),
        npas=npas,
        seed=int(r.integers(0, 2**31)),
        mode=str(r.choice(["smooth", "jump", "noise"])),
        bc=[["periodic", "periodic"] for _ in range(3)],
        limit=None,
    )
    kinds = f.get("bcs", BCS)
    for d in dims:
        a = "xyz".index(d)
        if r.random() < 0.5:
            c["bc"][a] = [str(r.choice(kinds)), str(r.choice(kinds))]
            for s in range(2):  # periodic comes in pairs
                if c["bc"][a][s] == "periodic":
                    c["bc"][a] = ["periodic", "periodic"]
    if f.get("limit", r.random() < 0.5):
        c["limit"] = random_limit(r, nd)
    for k in ("n", "p", "dom", "gamma", "floor", "riemann", "cfl", "fixdt", "npas", "mode", "bc"):
        if k in f:
            c[k] = f[k]
    return c


def random_limit(r, nd):
    pad = {"rho": [0.0, "inf"], "P": [0.0, "inf"]}
    x = r.random()
    if x < 0.25:
        pad = {"rho": [float(r.uniform(0.3, 0.9)), float(r.uniform(1.0, 2.5))], "vx": [-0.4, "inf"]}
    elif x < 0.4:
        pad = {"P": [0.0, 1.0], "rho": [0.0, 1.2], "vy": ["-inf", 0.3]}
    nv = None
    if r.random() < 0.3:
        k = int(r.integers(1, 4))
        nv = [VARS[i] for i in sorted(r.choice(5, size=k, replace=False))]
    return dict(
        limiter=[None, "minmod", "moncen"][int(r.choice([0, 1, 1, 2, 2]))],
        convex=bool(nd < 3 and r.random() < 0.4),
        force=bool(r.random() < 0.15),
        NAD=float(r.choice([0.0, 1e-5, 1e-2, 0.1])),
        mode=str(r.choice(["global", "local"])),
        range=str(r.choice(["relative", "relative", "absolute"])),
        vars=nv,
        pad=pad,
        sed=bool(r.random() < 0.6),
        sedeps=float(r.choice([1e-10, 1e-4])),
    )


def bc_data(case, a, s):
    """data of a dirichlet/ic side: dict(const=[...]) or dict(poly=[[...]])"""
    r = rng_of(case["seed"], 100 + 2 * a + s)
    nv = 5 + case["npas"]
    if case.get("uniform"):  # data equal to the uniform state
        u = initial_u(case)[:, 0, 0, 0]
        if case["bc"][a][s] == "dirichlet" and r.random() < 0.4:
            return dict(const=u.tolist())
        poly = np.zeros((nv, 6))
        poly[:, 0] = u
        return dict(poly=poly.tolist())
    w = np.empty(nv)
    w[0] = r.uniform(0.7, 1.5)
    w[1:4] = r.uniform(-0.5, 0.5, 3)
    w[4] = r.uniform(0.7, 1.5)
    w[5:] = r.uniform(-1, 1, nv - 5)
    u = to_cons(w.reshape(-1, 1, 1, 1), case["gamma"]).ravel()
    if case["bc"][a][s] == "dirichlet" and r.random() < 0.4:
        return dict(const=u.tolist())
    poly = np.zeros((nv, 6))
    poly[:, 0] = u
    poly[:, 1:] = 0.02 * u[:, None] * r.uniform(-1, 1, (nv, 5))
    poly[:, 4] *= case.get("swing", 1.0)  # how fast it changes in time
    return dict(poly=poly.tolist())


def ic_poly(case):
    """the pointwise conserved initial data used by "ic" boundaries (same on all sides)"""
    d = bc_data(case, 3, 0) if len(case["bc"]) > 3 else None
    c = dict(case, bc=[["ic", "ic"]] * 4)
    d = bc_data(c, 3, 0)
    for row in d["poly"]:
        row[4] = 0.0  # initial data does not depend on time
    return d


def side_data(case, a, s):
    return ic_poly(case) if case["bc"][a][s] == "ic" else bc_data(case, a, s)


def poly_fn(poly, with_t=True, shape_v=True):
    P = np.array(poly)

    def f(x, y, z, t=0.0):
        out = np.empty((len(P), *x.shape))
        for v, c in enumerate(P):
            out[v] = c[0] + c[1] * x + c[2] * y + c[3] * z + c[4] * t + c[5] * x * y
        return out

    if with_t:
        return lambda x, y, z, t: f(x, y, z, t)
    return lambda x, y, z: f(x, y, z)


def passive_names(k):
    return ["dye", "Zmetal", "a1"][:k]


def initial_u(case):
    r = rng_of(case["seed"], 1)
    nv = 5 + case["npas"]
    amp, noise = {"smooth": (0.15, 0.0), "jump": (0.1, 0.01), "noise": (0.1, 0.1), "pulse": (0.0, 0.0)}[case["mode"]]
    w = smooth_state(r, tuple(case["n"]), nv, amp=amp, noise=noise, mode=case["mode"])
    if case["mode"] == "pulse":  # one block that differs from its surroundings
        lo = [int(r.integers(0, n)) for n in case["n"]]
        if case.get("edge") is not None:
            a = case["edge"]
            lo[a] = int(r.choice([0, case["n"][a] - 1]))
        box = tuple(slice(q, q + int(r.integers(1, 3))) for q in lo)
        w[(slice(None), *box)] *= r.uniform(1.2, 2.0, (nv, 1, 1, 1))
    if case.get("window"):  # uniform but for a few cells inside
        v = np.broadcast_to(w[:, :1, :1, :1], w.shape).copy()
        box = tuple(slice(m, -m) if m else slice(None) for m in case["window"])
        v[(slice(None), *box)] = w[(slice(None), *box)]
        w = v
    if case["riemann"] == "advection_upwind":
        for d in range(1, 4):  # velocity is constant in pure advection
            w[d] = float(r.choice([-1.0, 0.5, 1.0, 0.0]))
    if case.get("uniform"):
        w[:] = w[:, :1, :1, :1]
        sc = case.get("scale_state", [1.0, 1.0])
        w[0] *= sc[0]
        w[4] *= sc[0] * sc[1]
        for a in case.get("still", []):
            w[1 + a] = 0.0
    return to_cons(w, case["gamma"])


def pad_bounds(pad):
    cv = lambda x: {"inf": np.inf, "-inf": -np.inf}.get(x, x)
    return {k: (cv(a), cv(b)) for k, (a, b) in pad.items()}


def build(case, u=None, **extra):
    """an EulerSolver whose cell averages are exactly u (default: initial_u(case))"""
    from fvhoe.solver import EulerSolver

    u = initial_u(case) if u is None else u
    s = EulerSolver(**arguments(case, u, **extra))
    s.am("u")[...] = u
    return s


def arguments(case, u=None, **extra):
    """arguments of the solver"""
    from fvhoe.boundary_conditions import BoundaryCondition
    from fvhoe.initial_conditions import InitialCondition

    u = initial_u(case) if u is None else u
    names = case.get("names") or passive_names(case["npas"])
    has_ic = any("ic" in b for b in case["bc"])

    if has_ic:
        # "ic" sides need pointwise initial data
        fn = poly_fn(ic_poly(case)["poly"], with_t=False)

        class IC(InitialCondition):
            def base_ic(self):
                return lambda x, y, z: fn(x, y, z)[:5]

        passives = {
            nm: (lambda x, y, z, i=i: fn(x, y, z)[5 + i]) for i, nm in enumerate(names)
        }
    else:

        class IC(InitialCondition):
            def base_ic(self):
                return lambda x, y, z: u[:5].copy()

        passives = {nm: (lambda x, y, z, i=i: u[5 + i].copy()) for i, nm in enumerate(names)}

    kw = {}
    for a, d in enumerate("xyz"):
        kw[d] = tuple(DMR if b == "dmr" else b for b in case["bc"][a])
        vals = []
        for s in range(2):
            if case["bc"][a][s] == "dirichlet":
                dd = side_data(case, a, s)
                vals.append(np.array(dd["const"]) if "const" in dd else poly_fn(dd["poly"]))
            else:
                vals.append(None)
        kw[d + "_value"] = tuple(vals)
    lim = case["limit"]
    args = dict(
        w0=IC(),
        w0_passives=passives if names else None,
        nx=case["n"][0],
        ny=case["n"][1],
        nz=case["n"][2],
        px=case["p"][0],
        py=case["p"][1],
        pz=case["p"][2],
        x=tuple(case["dom"][0]),
        y=tuple(case["dom"][1]),
        z=tuple(case["dom"][2]),
        CFL=case["cfl"],
        fixed_dt=case["fixdt"],
        gamma=case["gamma"],
        bc=BoundaryCondition(**kw),
        riemann_solver=case["riemann"],
        conservative_ic=True,
        fv_ic=not has_ic,
        csq_floor=case["floor"],
        progress_bar=False,
    )
    if lim:
        args.update(
            a_posteriori_slope_limiting=True,
            slope_limiter=lim["limiter"],
            force_trouble=lim["force"],
            NAD=lim["NAD"],
            NAD_mode=lim["mode"],
            NAD_range=lim["range"],
            NAD_vars=tuple(lim["vars"]) if lim["vars"] is not None else None,
            PAD=pad_bounds(lim["pad"]),
            SED=lim["sed"],
            SED_tolerance=lim["sedeps"],
            convex=lim["convex"],
        )
    args.update(extra)
    return args


def spec_side(case, a, s):
    t = case["bc"][a][s]
    d = dict(type=t)
    if t in ("dirichlet", "ic"):
        sd = side_data(case, a, s)
        d.update({k: enc(v) for k, v in sd.items()})
    return d


def spec_cfg(case):
    lim = case["limit"]
    L = dict(on=False)
    if lim:
        L = dict(
            on=True,
            limiter=lim["limiter"] or "none",
            convex=lim["convex"],
            force=lim["force"],
            opt=spec_opt(lim),
        )
    return dict(
        n=case["n"],
        p=case["p"],
        dom=enc(case["dom"]),
        act=["xyz"[a] in case["dims"] for a in range(3)],
        gamma=num(case["gamma"]),
        floor=num(case["floor"]),
        riemann=case["riemann"],
        cfl=num(case["cfl"]),
        fixdt="none" if case["fixdt"] is None else num(case["fixdt"]),
        bc=[dict(lo=spec_side(case, a, 0), hi=spec_side(case, a, 1)) for a in range(3)],
        limit=L,
    )


def spec_opt(lim):
    b = lambda x: "none" if isinstance(x, str) else num(x)
    return dict(
        eps=num(lim["NAD"]),
        **{"global": lim["mode"] == "global"},
        relative=lim["range"] == "relative",
        sed=lim["sed"],
        sedeps=num(lim["sedeps"]),
        vars=[VARS.index(v) + 1 for v in (lim["vars"] if lim["vars"] is not None else VARS)],
        pad=[[VARS.index(k) + 1, b(lo), b(hi)] for k, (lo, hi) in lim["pad"].items()],
    )


INTEGRATORS = ["euler", "ssprk2", "ssprk3", "rk4"]
