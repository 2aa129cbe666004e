"""C21: the catalogue of initial conditions"""
import numpy as np

from common import enc, num
from solvers import rng_of

PLAIN = ["Sinus", "Square", "SlottedDisk", "Shock1D", "DoubleShock1D", "ShuOsher1D", "KelvinHelmholtz2D", "DoubleMachReflection2D", "ShockTube", "AthenaBlast"]


def f2(r, lo, hi, n=None):
    x = np.round(r.uniform(lo, hi, size=n), 3)
    return float(x) if n is None else tuple(float(v) for v in x)


def dims_of(r):
    return "".join(str(c) for c in r.permutation(["x", "y", "z"])[: int(r.integers(1, 4))])


def parameters(what, r, default):
    """(arguments for the code, parameters for the specification)"""
    pos2 = lambda n: tuple(float(v) for v in np.round(10.0 ** r.uniform(-2, 1, n), 4))
    dim = str(r.choice(list("xyz")))
    dims = dims_of(r)
    v = f2(r, -3, 3, 3)
    if what in ("Sinus", "Square"):
        if default:
            return {}, dict(dims=["x"], rho=enc([1, 2]), P="1", v=enc([1, 0, 0]))
        rho, P = pos2(2), pos2(1)[0]
        return dict(dims=dims, rho_min_max=rho, P=P, vx=v[0], vy=v[1], vz=v[2]), dict(dims=list(dims), rho=enc(rho), P=num(P), v=enc(v))
    if what == "SlottedDisk":
        rho, P = ((1.0, 2.0), 1.0) if default else (pos2(2), pos2(1)[0])
        return ({} if default else dict(rho_min_max=rho, P=P)), dict(rho=enc(rho), P=num(P))
    if what == "Shock1D":
        if default:
            return {}, dict(dim="x", position="1/2", rho=enc([1, 0.125]), P=enc([1, 0.1]), v=["0", "0"])
        a = dict(dim=dim, position=f2(r, 0, 1) if r.random() < 0.7 else float(r.integers(0, 17)) / 16, rho_left_right=pos2(2), P_left_right=pos2(2), v_left_right=v[:2])
        return a, dict(dim=dim, position=num(a["position"]), rho=enc(a["rho_left_right"]), P=enc(a["P_left_right"]), v=enc(a["v_left_right"]))
    if what == "DoubleShock1D":
        if default:
            return {}, dict(dim="x", positions=enc([0.1, 0.9]), rho=["1"] * 3, v=["0"] * 3, P=enc([1000, 0.01, 100]))
        a = dict(dim=dim, positions=tuple(sorted(f2(r, 0, 1, 2) if r.random() < 0.7 else [float(x) / 16 for x in r.integers(0, 17, 2)])), rhos=pos2(3), vs=v, Ps=pos2(3))
        return a, dict(dim=dim, positions=enc(a["positions"]), rho=enc(a["rhos"]), v=enc(v), P=enc(a["Ps"]))
    if what == "ShuOsher1D":
        return ({}, dict(dim="x")) if default else (dict(dim=dim), dict(dim=dim))
    if what == "KelvinHelmholtz2D":
        if default:
            return {}, dict(sigma=num(0.05 * np.sqrt(2)), w0=num(0.1))
        a = dict(sigma=f2(r, 0.03, 0.9), w0=f2(r, -1, 1))
        return a, {k: num(x) for k, x in a.items()}
    if what == "DoubleMachReflection2D":
        g = 1.4 if default else f2(r, 1.05, 3)
        return ({} if default else dict(gamma=g)), dict(gamma=num(g))
    if what == "ShockTube":
        no = [[], [], []]
        if default:
            return {}, dict(mode="tube", dims=["x"], center=["0"], radius="1/2", rho=enc([1, 0.125]), P=enc([1, 0.1]), v=[["0", "0"]] * 3, cube=no, exact=True)
        a = dict(rho_in_out=pos2(2), P_in_out=pos2(2), vx_in_out=f2(r, -2, 2, 2), vy_in_out=f2(r, -2, 2, 2), vz_in_out=f2(r, -2, 2, 2))
        p = dict(rho=enc(a["rho_in_out"]), P=enc(a["P_in_out"]), v=enc([a["vx_in_out"], a["vy_in_out"], a["vz_in_out"]]), exact=False)
        grid = bool(r.random() < 0.5)  # everything on a dyadic grid: borders are decided exactly
        if r.random() < 0.5:
            c = tuple(float(x) / 16 for x in r.integers(-8, 17, len(dims))) if grid else f2(r, -0.5, 1, len(dims))
            R = float(r.integers(1, 17)) / 16 if grid else f2(r, 0.05, 1)
            a.update(mode="tube", dims=dims, center=c[0] if len(dims) == 1 and r.random() < 0.5 else c, radius=R)
            p.update(mode="tube", dims=list(dims), center=enc(c), radius=num(R), cube=no, exact=grid)
        else:
            cubes = [sorted(float(x) / 16 for x in r.integers(0, 17, 2)) if grid else sorted(f2(r, 0, 1, 2)) for _ in range(3)]
            use = [("x" in dims), ("y" in dims), ("z" in dims)]
            a.update(mode="cube", **{k + "_cube": tuple(c) for k, c, on in zip("xyz", cubes, use) if on})
            p.update(mode="cube", dims=[], center=[], radius="0", cube=[enc(c) if on else [] for c, on in zip(cubes, use)])
        return a, p
    return {}, dict(none=True)  # AthenaBlast


def make(what, args):
    import fvhoe.initial_conditions as I

    return getattr(I, what)(**args)


def hydro(names):
    from fvhoe.hydro import HydroState

    return HydroState(ndim=4, passive_scalars=names)


def points(case):
    r = rng_of(case["seed"], 21)
    what = case["what"]
    args, par = parameters(what, r, case["default"])
    shape = tuple(int(x) for x in r.integers(1, 4, 3)) if not case["big"] else (5, 4, 3)
    lo, hi = {"ShuOsher1D": (-6, 12), "DoubleMachReflection2D": (-0.5, 4), "AthenaBlast": (-0.2, 0.2), "SlottedDisk": (0.3, 0.9)}.get(what, (-0.3, 1.3))
    if case["grid"]:
        k = {"ShuOsher1D": 4, "AthenaBlast": 64, "SlottedDisk": 64}.get(what, 16)
        xyz = r.integers(int(lo * k), int(hi * k) + 1, (3, *shape)) / k
    else:
        xyz = r.uniform(lo, hi, (3, *shape))
        if what == "ShockTube" and par["exact"]:
            xyz = np.round(xyz * 64) / 64
        if what == "SlottedDisk" and r.random() < 0.5:  # around the slot
            xyz[0] = r.uniform(0.46, 0.54, shape)
    names = [str(x) for x in r.permutation(["b", "a", "dye", "Z"])[: int(r.integers(0, 4))]]
    coef = {n: [float(x) for x in r.uniform(-1, 1, 4)] for n in names}
    fns = {n: (lambda x, y, z, c=coef[n]: c[0] + c[1] * x + c[2] * y * z + c[3] * x * z) for n in names}
    if r.random() < 0.3:
        fns["unused"] = lambda x, y, z: np.full(x.shape, np.nan)
    hs = hydro(tuple(names))
    ic = make(what, args)
    f = ic.build_ic(hs, {n: fns[n] for n in r.permutation(list(fns))} if fns else None)
    keep = xyz.copy()
    out = np.array(f(*xyz))
    again = np.array(f(*xyz))
    if not np.array_equal(keep, xyz):
        raise AssertionError("the coordinates changed")
    if not np.array_equal(out, again):
        raise AssertionError("a second evaluation differs")
    if out.shape != (5 + len(names), *shape):
        raise AssertionError(f"shape {out.shape}")
    need = {"SlottedDisk": "y", "KelvinHelmholtz2D": "y", "DoubleMachReflection2D": "y", "AthenaBlast": "y"}.get(what) or args.get("dim") or ("xyz" if args.get("mode") == "cube" else args.get("dims", "x"))
    bare = np.array(make(what, args).base_ic(**args)(xyz[0], **{d: xyz["xyz".index(d)] for d in need if d != "x"}))
    if not np.array_equal(bare, out[:5]):
        raise AssertionError("leaving out coordinates the data does not depend on changes it")
    pas = [fns[n](*xyz) for n in names]  # in the given order
    return dict(kind="points", what=what, par=par, pts=enc(xyz.reshape(3, -1).T), outs=enc(out.reshape(len(out), -1).T), passives=enc([q.ravel() for q in pas]))


def sedov(case):
    r = rng_of(case["seed"], 22)
    mode = str(r.choice(["corner", "center"]))
    dims = case["dims"]
    n = [(2 * int(r.integers(1, 4)) if mode == "center" else int(r.integers(2, 6))) if d in dims else int(r.integers(1, 4)) for d in "xyz"]
    dom = [sorted([float(x) for x in np.round(r.uniform(-2, 2, 2), 2)]) for _ in range(3)]
    dom = [(a, b + 0.5) for a, b in dom]
    h = [(b - a) / k for (a, b), k in zip(dom, n)]
    ax = [a + (np.arange(k) + 0.5) * hh for (a, b), k, hh in zip(dom, n, h)]
    x, y, z = np.meshgrid(*ax, indexing="ij")
    if case["default"]:
        args, E0, E1, rho0, dims, mode = {}, 1e-5, 1.0, 1.0, "xy", "corner"
    else:
        E0, E1, rho0 = f2(r, 0.001, 1), f2(r, 0.5, 9), f2(r, 0.1, 5)
        args = dict(mode=mode, dims=dims, rho0=rho0, E0=E0, E1=E1)
    f = make("SedovBlast", args).build_ic(hydro(()), None)
    out = np.array(f(x, y, z))
    return dict(kind="sedov", par=dict(mode=mode, dims=list(dims), rho0=num(rho0), E0=num(E0), E1=num(E1)), n=n, h=enc(h), out=enc(np.moveaxis(out, 0, -1)))


def refuse(case):
    x, y, z = np.meshgrid([0.2, 0.6], [0.1, 0.4], [0.3, 0.7], indexing="ij")
    what = case["what"]
    names, fns = (), None
    if what == "passives":
        names = tuple(case["names"])
        fns = {g: (lambda x, y, z: x) for g in case["given"]}
        args, cls = {}, "Sinus"
    else:
        cls = what
        if what in ("Shock1D", "DoubleShock1D", "ShuOsher1D"):
            args = dict(dim=case["dim"])
        elif what == "SedovBlast":
            args = dict(mode=case["mode"])
        else:
            args = dict(mode=case["mode"], dims="xyz"[: case["ndims"]], **{k + "_cube": (0, 0.5) for k in "xyz"[: case["ncubes"]]})
            args["center"] = 0.5 if case["ncenter"] == 1 else (0.5,) * case["ncenter"]
    try:
        make(cls, args).build_ic(hydro(names), fns)(x, y, z)
        ok = True
    except Exception:
        ok = False
    return dict({k: v for k, v in case.items()}, kind="refuse", accepted=ok)


def refusals():
    out = [dict(what=w, dim=d) for w in ("Shock1D", "DoubleShock1D", "ShuOsher1D") for d in ("x", "y", "z", "w", "X", "r")]
    out += [dict(what="SedovBlast", mode=m) for m in ("corner", "center", "edge", "")]
    for m in ("tube", "cube", "sphere"):
        for nd in (1, 2, 3):
            for nc in (1, 2, 3):
                for k in (0, 1, 3):
                    out.append(dict(what="ShockTube", mode=m, ndims=nd, ncenter=nc, ncubes=k))
    for names in ([], ["a"], ["a", "b"], ["b", "a", "c"]):
        for given in (["a"], ["a", "b"], ["c", "a", "b"], ["q"]):
            out.append(dict(what="passives", names=names, given=given))
    return out


def run(chk):
    r = rng_of(chk.seed, 21)
    cs = []
    for i in range(chk.pick(80, 1500)):
        for w in PLAIN:
            cs.append(dict(what=w, seed=int(r.integers(2**31)), default=i % 8 == 0, grid=bool(i % 3 == 1), big=bool(i % 5 == 0)))
    chk.events(points, cs, "points", module="InitialData")
    ds = [dict(seed=int(r.integers(2**31)), dims=str(r.choice(["x", "y", "z", "xy", "yz", "xz", "xyz", "zyx"])), default=False) for _ in range(chk.pick(150, 3000))]
    ds += [dict(seed=int(r.integers(2**31)), dims="xy", default=True) for _ in range(6)]
    chk.events(sedov, ds, "Sedov", module="InitialData")
    chk.events(refuse, refusals(), "refusals", module="InitialData")
