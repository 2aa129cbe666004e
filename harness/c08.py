"""C08: mesh and initial averages"""
import numpy as np

from common import enc, num
from solvers import rng_of


def domain(r):
    out = []
    for a in range(3):
        k = r.random()
        lo = float(np.round(r.uniform(-3, 3), 3)) if k < 0.6 else float(r.choice([0.0, 1.0, -1.0, 10.0]))
        out.append([lo, lo + float(np.round(r.uniform(0.2, 4), 3))])
    if r.random() < 0.15:
        out = [[0.0, 1.0]] * 3
    return out


def mesh(case):
    from fvhoe.fv import fv_uniform_meshgen

    n, dom, slab = tuple(case["n"]), [tuple(x) for x in case["dom"]], tuple(case["slab"])
    kw = dict(x=dom[0], y=dom[1], z=dom[2])
    base = dict(kind="slab", n=list(n), dom=enc(dom), slab=list(slab))
    if slab == (0, 0, 0):
        return [dict(base, xyz=enc(fv_uniform_meshgen(n, **kw)))]
    inner, slabs = fv_uniform_meshgen(n, slab_thickness=slab, **kw)
    out = [dict(base, xyz=enc(inner))]
    if sorted(slabs) != sorted(a + b for a in "xyz" for b in "lr"):
        raise AssertionError("slabs " + str(sorted(slabs)))
    for k, v in slabs.items():
        if slab["xyz".index(k[0])] > 0:
            out.append(dict(base, xyz=enc(v), where=list(k)))
    return out


def polynomial(r, deg, k=3):
    """monomials of at most the given degrees"""
    out = [[float(np.round(r.uniform(0.5, 2), 3)), 0, 0, 0]]
    for _ in range(k):
        out.append([float(np.round(r.uniform(-1, 1), 3))] + [int(r.integers(0, d + 1)) for d in deg])
    # the highest power in each direction appears
    for a in range(3):
        e = [0, 0, 0]
        e[a] = deg[a]
        out.append([float(np.round(r.uniform(0.2, 1), 3))] + e)
    return out


def poly_eval(P, x, y, z):
    return sum(c * x**a * y**b * z**d for c, a, b, d in P)


def average(case):
    from fvhoe.boundary_conditions import BoundaryCondition
    from fvhoe.fv import fv_average, fv_uniform_meshgen
    from fvhoe.initial_conditions import InitialCondition
    from fvhoe.solver import EulerSolver

    n, p, dom = tuple(case["n"]), tuple(case["p"]), [tuple(x) for x in case["dom"]]
    P = case["polys"]
    f = lambda x, y, z: np.stack([poly_eval(q, x, y, z) + 0 * x for q in P])
    g = case["gamma"]
    h = [(d[1] - d[0]) / m for d, m in zip(dom, n)]
    ev = dict(kind="average", polys=enc_poly(P), n=list(n), dom=enc(dom), gamma=num(g))
    sc = max(1.0, *[sum(abs(c) * (max(abs(dom[0][0]), abs(dom[0][1])) ** a) * (max(abs(dom[1][0]), abs(dom[1][1])) ** b) * (max(abs(dom[2][0]), abs(dom[2][1])) ** d) for c, a, b, d in q) for q in P])
    if case["mode"] == "function":
        X, Y, Z = fv_uniform_meshgen(n, *dom)
        return dict(ev, mode="averaged", out=enc(fv_average(f, X, Y, Z, tuple(h), p)), scale=num(sc))

    class IC(InitialCondition):
        def base_ic(self):
            return lambda x, y, z: f(x, y, z)[:5]

    names = [f"s{i}" for i in range(len(P) - 5)]
    pas = {nm: (lambda x, y, z, i=i: poly_eval(P[5 + i], x, y, z) + 0 * x) for i, nm in enumerate(names)}
    s = EulerSolver(
        w0=IC(), w0_passives=pas or None, nx=n[0], ny=n[1], nz=n[2], px=p[0], py=p[1], pz=p[2],
        x=dom[0], y=dom[1], z=dom[2], gamma=g, progress_bar=False,
        conservative_ic=case["mode"] in ("conserved", "given"), fv_ic=case["mode"] == "given",
        bc=None if case["nobc"] else BoundaryCondition(x="free", y="free", z="free"),
    )
    if case["mode"] == "primitive":
        sc = sc**3 + sc / (g - 1)
    mode = dict(conserved="averaged", given="given", primitive="primitive")[case["mode"]]
    axes = dict(kind="axes", n=list(n), p=list(p), dom=enc(dom), slab=[0, 0, 0], axes=enc([s.x, s.y, s.z]), h=enc(list(s.h)), act=[bool(s.xdim), bool(s.ydim), bool(s.zdim)])
    xyz = dict(kind="slab", n=list(n), dom=enc(dom), slab=[0, 0, 0], xyz=enc([s.X, s.Y, s.Z]))
    if s.dims != "".join(d for d, b in zip("xyz", axes["act"]) if b) or s.ndim != len(s.dims):
        raise AssertionError("dims")
    return [dict(ev, mode=mode, out=enc(s.am.get_numpy("u")), scale=num(sc)), axes, xyz]


def enc_poly(P):
    return [[[num(m[0]), *m[1:]] for m in q] for q in P]


def cases(r, n):
    out = []
    for i in range(n):
        mode = ["function", "conserved", "primitive", "given"][i % 4]
        nn = [int(x) for x in r.integers(1, 5, 3)]
        p = [int(x) for x in r.integers(0, 4, 3)]
        if i % 3 == 0:
            nn, p = [1, 1, 1], [0, 0, 0]
            a = int(r.integers(0, 3))
            nn[a], p[a] = int(r.integers(1, 9)), int(r.integers(0, 9))
        if i % 3 == 1:
            a = int(r.integers(0, 3))
            nn[a], p[a] = 1, 0
        if mode != "function" and all(m == 1 and q == 0 for m, q in zip(nn, p)):
            p[0] = 2
        nv = 5 + int(r.choice([0, 0, 2]))
        # degrees that survive the conversion to conserved variables
        half = [q // 2 for q in p]
        polys = []
        for v in range(nv):
            if mode == "primitive":
                polys.append([[float(np.round(r.uniform(0.5, 2), 3)), 0, 0, 0]] if v == 0 else polynomial(r, half if v < 4 else p))
            else:
                polys.append(polynomial(r, p))
        dom = domain(r)
        out.append(dict(mode=mode, n=nn, p=p, dom=dom, polys=polys, gamma=float(r.choice([1.4, 5 / 3, 2.0])), nobc=bool(r.random() < 0.5)))
    return out


def run(chk):
    r = rng_of(chk.seed, 8)
    ms = []
    for i in range(chk.pick(120, 1500)):
        big = i % 4 == 3
        n = [int(x) for x in r.integers(1, 5, 3)]
        slab = [int(x) for x in r.integers(0, 4, 3)]
        if big:
            a = int(r.integers(0, 3))
            n, slab = [2, 2, 2], [0, 0, 0]
            n[a], slab[a] = int(r.integers(5, 60)), int(r.integers(0, 30))
            if i % 8 == 7:
                n, slab[a] = [1, 1, 1], int(r.integers(0, 5))
                n[a] = int(r.integers(60, 400))
        ms.append(dict(n=n, slab=slab, dom=domain(r)))
    chk.events(mesh, ms, "meshes")
    chk.events(average, cases(r, chk.pick(200, 2500)), "initial averages")
