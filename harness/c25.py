"""C25: the one-dimensional reference solver"""
import numpy as np

from common import enc, num
from solvers import rng_of

ICS = ["sod test", "toro test1", "toro test2", "toro test3", "shu osher", "supersonic blob", "sedov"]


def ic(case):
    from fvhoe import romain_solver as R

    r = rng_of(case["seed"], 25)
    what = case["what"]
    n = int(r.integers(4, 30))
    if what == "sedov" or r.random() < 0.3:
        x = (np.arange(n) + 0.5) / n
    else:
        x = np.sort(r.uniform(0, 1, n))
    keep = x.copy()
    u = R.set_ic(x, ic_type=what)
    if not np.array_equal(x, keep):
        raise AssertionError("the coordinates changed")
    if u.shape != (3, n):
        raise AssertionError(f"shape {u.shape}")
    return dict(kind="ic", what=what, x=enc(x), u=enc(u))


def prims(r, n, kind):
    w = np.empty((3, n))
    if kind == "rough":
        w[0], w[2], w[1] = 10.0 ** r.uniform(-1, 1, n), 10.0 ** r.uniform(-1, 1, n), r.uniform(-2, 2, n)
    elif kind == "flat":  # runs of equal values
        for v, (lo, hi) in enumerate([(0.3, 3), (-2, 2), (0.3, 3)]):
            vals = np.round(r.uniform(lo, hi, n), 2)
            cut = np.sort(r.integers(0, n, 3))
            w[v] = vals[np.searchsorted(cut, np.arange(n), side="right")]
    else:
        x = (np.arange(n) + 0.5) / n
        for v, c in enumerate([2.0, 0.5, 1.5]):
            k = int(r.integers(1, 3))
            w[v] = c + r.uniform(0.1, 0.5) * np.sin(2 * np.pi * (k * x + r.uniform())) + 0.2 * r.uniform() * np.exp(-((x - r.uniform()) ** 2) * 200)
            if r.random() < 0.4:  # a kink or a spike in smooth data
                w[v, int(r.integers(n)) :] += r.uniform(0, 0.3)
    if r.random() < 0.1:
        w[:] = w[:, :1]
    return w


def flux(case):
    from fvhoe import romain_solver as R

    r = rng_of(case["seed"], 26)
    n = int(r.integers(4, 16))
    w = prims(r, n, case["data"])
    u = np.full((3, n + 8), 7.0)
    u[:, 4:-4] = R.prim_to_cons(w)
    keep = u[:, 4:-4].copy()
    with np.errstate(all="ignore"):
        f = R.cmp_flux(u, bc_type=case["bc"], riemann_solver=case["solver"], space=case["space"])[0]
    if not np.array_equal(keep, u[:, 4:-4]):
        raise AssertionError("the state changed")
    if f.shape != (3, n + 1):
        raise AssertionError(f"shape {f.shape}")
    if not np.all(np.isfinite(f)):
        return None  # the reconstruction left the admissible states
    return dict(kind="flux", n=n, u=enc(keep), out=enc(f), bc=case["bc"], solver=case["solver"], space=case["space"])


def riemann(case):
    from fvhoe import romain_solver as R

    r = rng_of(case["seed"], 27)
    m = 24
    w = np.stack([10.0 ** r.uniform(-2, 2, (2, m)), r.uniform(-3, 3, (2, m)), 10.0 ** r.uniform(-2, 2, (2, m))], axis=1)
    for q in range(m):
        k = r.integers(0, 8)
        c = np.sqrt(1.4 * w[:, 2, q] / w[:, 0, q]).max()
        if k == 0:
            w[1, :, q] = w[0, :, q]
        elif k == 1:
            w[:, 1, q] = r.choice([-1, 1]) * c * r.uniform(1.2, 4, 2)
        elif k == 2:
            w[:, 1, q] = 0
        elif k == 3:
            w[1, :, q] = w[0, :, q] * [1, -1, 1]
        elif k == 4:  # exactly sonic
            w[:, :, q] = [[float(r.choice([1.4, 0.35])), float(r.integers(-2, 3)), 1.0] for _ in range(2)]
            if r.random() < 0.6:
                c = 2.0 if (w[:, 0, q] == 0.35).any() else 1.0
                w[:, 1, q] = r.choice([-1, 1]) * r.permutation([c, c + 1])
    keep = w.copy()
    out = getattr(R, case["solver"])(w[0], w[1])
    if not np.array_equal(w, keep):
        raise AssertionError("input changed")
    return dict(kind="riemann", solver=case["solver"], wl=enc(w[0].T), wr=enc(w[1].T), out=enc(out.T))


def weno(case):
    from fvhoe import romain_solver as R

    r = rng_of(case["seed"], 28)
    par = {k: case[k] for k in ("n", "cfl", "bc_type", "riemann_solver", "time", "space", "tend")}
    with np.errstate(all="ignore"):
        if case["what"] == "given":  # other initial data
            w = prims(r, case["n"], case["data"])
            old = R.set_ic
            R.set_ic = lambda x, ic_type=None: R.prim_to_cons(w)
            try:
                u = R.weno(ic_type="given", **par)
            finally:
                R.set_ic = old
            if not np.array_equal(u[0], R.prim_to_cons(w)):
                return None  # these data cannot be given this way
        else:
            u = R.weno(ic_type=case["what"], **par)
    u = np.array(u)
    good = np.isfinite(u).all(axis=(1, 2))
    dead = not good.all()
    if dead:  # what follows a breakdown is not judged
        u = u[: int(np.argmin(good))]
        if len(u) == 0:
            raise AssertionError("the initial state is not finite")
    # fluxes are defined for positive density and pressure
    P = 0.4 * (u[:, 2] - 0.5 * u[:, 1] ** 2 / u[:, 0])
    ok = ((u[:, 0] > 0) & (P > 0)).all(axis=1)
    if not ok.all():
        u, dead = u[: int(np.argmin(ok)) + 1], False
    whole = bool(good.all() and ok.all())
    last = len(u) - 1
    pairs = sorted({int(q) for q in r.integers(0, max(last, 1), case["pairs"])} | {0} | ({last - 1} if not whole else set())) if last > 0 else []
    keep = u[: max(pairs) + 2] if pairs and not case["all"] else u
    dead = bool(dead and len(keep) == len(u))
    n = case["n"]
    return dict(
        kind="run", what=case["what"], n=n, x=enc((np.arange(n) + 0.5) / n), cfl=num(case["cfl"]), bc=case["bc_type"], solver=case["riemann_solver"],
        time=case["time"], space=case["space"], tend=num(case["tend"]), states=enc(keep), judge=[q + 1 for q in pairs], whole=whole and len(keep) == len(u), dead=dead,
    )


def run(chk):
    r = rng_of(chk.seed, 25)
    s = lambda: int(r.integers(2**31))
    chk.design("ReferenceMC", "ReferenceMC_" + chk.pick("quick", "deep"))
    chk.design("RungeKuttaMC")
    chk.events(ic, [dict(seed=s(), what=w) for w in ICS for _ in range(chk.pick(12, 150))], "initial states", module="ReferenceTrace")
    chk.events(riemann, [dict(seed=s(), solver=k) for k in ("llf", "hllc") for _ in range(chk.pick(10, 200))], "Riemann problems", module="ReferenceTrace")
    cs = [
        dict(seed=s(), bc=b, solver=k, space=p, data=d)
        for b in ("periodic", "free") for k in ("llf", "hllc") for p in range(1, 6) for d in ("rough", "flat", "smooth") for _ in range(chk.pick(3, 50))
    ]
    chk.events(flux, cs, "interface fluxes", module="ReferenceTrace")
    cs = []
    for i in range(chk.pick(96, 1500)):
        what = (ICS + ["given"] * 3)[i % 10]
        n = int(r.integers(5, 14))
        cs.append(
            dict(
                seed=s(), what=what, data=str(r.choice(["smooth", "flat", "rough"])), n=n, cfl=float(r.choice([0.2, 0.4, 0.8])),
                bc_type=str(r.choice(["periodic", "free"])), riemann_solver=str(r.choice(["llf", "hllc"])), time=int(r.integers(1, 5)), space=int(r.integers(1, 6)),
                tend=float(np.round(r.uniform(0.01, 0.4), 3)) * (0.05 if what in ("toro test3", "supersonic blob") else 1), pairs=chk.pick(3, 6), all=bool(i % 3),
            )
        )
    chk.events(weno, cs, "runs", module="ReferenceTrace")
