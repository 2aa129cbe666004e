"""C24: solvers are independent and deterministic"""
import copy
import hashlib
import json
import os
import subprocess
import sys

import numpy as np

from common import REPO
from solvers import arguments, build, initial_u, random_case, rng_of

METHODS = ["euler", "ssprk2", "ssprk3", "rk4", "run"]


def state(s):
    h = hashlib.sha256(np.ascontiguousarray(s.am("u")).tobytes())
    h.update(np.asarray(s.timestamps).tobytes())
    return h.hexdigest()


def shots(s):
    """fingerprints of the snapshots by their time"""
    return {sn["t"]: hashlib.sha256(b"".join(np.ascontiguousarray(sn[k]).tobytes() for k in ("w", "trouble") if k in sn)).hexdigest() for sn in s.snapshots}


def legs(c, n):
    dt = c["fixdt"] or 0.004
    return [dt * (i + 0.7) * (1.5 if c["seed"] % 2 else 1) for i in range(n)]


def advance(s, c, i, mode):
    """one leg"""
    go = getattr(s, c["go"])
    if mode == "count":
        go(n=1)
    else:
        go(T=legs(c, 9)[i])


def reference(c, n, mode):
    """the states after 0 .. n legs, each from one call of a new solver"""
    out = []
    for k in range(n + 1):
        s = build(c)
        if k:
            go = getattr(s, c["go"])
            if mode == "count":
                go(n=k)
            else:
                go(T=legs(c, 9)[k - 1], downbeats=legs(c, 9)[: k - 1])
        out.append((state(s), {} if k == 0 else {s.t: shots(s)[s.t]}))
    return out


def isolated(fn):
    """fn() in a process of its own"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            data = json.dumps(fn()).encode()
            while data:
                data = data[os.write(w, data) :]
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    os.waitpid(pid, 0)
    return json.loads(data)


class Boom(Exception):
    pass


def fail(k, c):
    """an attempt that does not succeed"""
    from fvhoe.boundary_conditions import BoundaryCondition
    from fvhoe.initial_conditions import Sinus
    from fvhoe.solver import EulerSolver

    def bad(x, y, z, t):
        if t > 0:
            raise Boom()
        return np.ones((5, *x.shape))

    try:
        if k == 0:
            EulerSolver(riemann_solver="nonsense")
        elif k == 1:
            s = EulerSolver(w0=Sinus(), nx=8, px=2, bc=BoundaryCondition(x=("dirichlet", "free"), x_value=(bad, None)), progress_bar=False)
            s.rk4(n=3)
        elif k == 2:
            EulerSolver(w0=Sinus(), nx=4, bc=BoundaryCondition(x=("nonsense", "free")))
        elif k == 3:
            EulerSolver(w0=Sinus(), nx=4, fv_ic=True)
        else:
            s = build(dict(c, seed=c["seed"] + 5))
            s.run(n=2)
            return
    except Exception:
        return


def replay(case):
    cfgs, mode = case["cfgs"], case["mode"]
    n = max(max(h["gone"]) for h in case["hist"])
    ref = [isolated(lambda: reference(c, n, mode)) for c in cfgs]
    S = {}
    mine = {}
    for k, h in enumerate(case["hist"]):
        s = h["s"]
        if h["op"] in ("create", "again"):
            S[s] = build(cfgs[s - 1])
        elif h["op"] == "fail":
            fail(case["fail"], cfgs[0])
        else:
            advance(S[s], cfgs[s - 1], h["gone"][s - 1] - 1, mode)
        for q, solver in S.items():
            want, sh = ref[q - 1][h["gone"][q - 1]]
            if state(solver) != want:
                return [f"operation {k + 1} ({h['op']} {s}): solver {q} differs from one on its own after {h['gone'][q - 1]} legs"]
            got = {str(t): x for t, x in shots(solver).items()}
            for t, x in sh.items():
                if got.get(str(t), x) != x:
                    return [f"operation {k + 1}: snapshot of solver {q} differs"]
    return []


def freeze(x):
    """comparable copy of an argument"""
    if isinstance(x, np.ndarray):
        return ("array", x.shape, x.tobytes())
    if isinstance(x, dict):
        return ("dict", [(k, freeze(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple, set)):
        return (type(x).__name__, [freeze(v) for v in x])
    if callable(x):
        return ("callable", id(x))
    if hasattr(x, "x_value"):  # a boundary condition: what the user gave
        return ("bc", [freeze(getattr(x, k)) for k in ("x", "y", "z", "x_value", "y_value", "z_value")])
    if hasattr(x, "kwargs"):
        return ("ic", freeze(x.args), freeze(x.kwargs))
    return x


def inputs(case):
    """nothing a run is given changes, even if solvers share it"""
    c = case["cfg"]
    u = initial_u(c)
    keep_u = u.copy()
    args = arguments(c, u)
    if c["limit"] and args["NAD_vars"] is not None and case["listvars"]:
        args["NAD_vars"] = list(args["NAD_vars"])
    before = freeze({k: v for k, v in args.items() if k != "w0"})
    from fvhoe.solver import EulerSolver

    a, b = EulerSolver(**args), EulerSolver(**args)
    db = [0.004, 0.001, 0.002, 0.001]
    keep_db = list(db)
    res = []
    for s in (a, b):
        s.am("u")[...] = u
        x = s.am("u").copy()
        y = x.copy()
        s.f(0.0, x)
        if not np.array_equal(x, y):
            return ["evaluating the right-hand side changed its argument"]
        if not np.array_equal(s.am("u"), y):
            return ["evaluating the right-hand side changed the solution"]
        s2 = EulerSolver(**args)
        s2.am("u")[...] = u
        s2.run(T=0.005, downbeats=db)
        s2.run(n=2)
        res.append(state(s2))
        lone = build(c)
        lone.run(T=0.005, downbeats=[0.001, 0.002, 0.004])
        lone.run(n=2)
        res.append(state(lone))
    if db != keep_db:
        return ["the list of requested times changed"]
    if not np.array_equal(u, keep_u):
        return ["the initial data changed"]
    if freeze({k: v for k, v in args.items() if k != "w0"}) != before:
        return ["an argument changed"]
    if len(set(res)) != 1:
        return ["solvers sharing their arguments differ"]
    return []


def siblings(case):
    """solvers of different problems that share functions and arrays, and solvers that share nothing"""
    from fvhoe.boundary_conditions import BoundaryCondition
    from fvhoe.initial_conditions import InitialCondition
    from fvhoe.solver import EulerSolver

    K = np.array(case["data"])  # [v][1, x, y, z, t]

    def things():
        def f(x, y, z, t):
            out = K[:, 0, None, None, None] + K[:, 1, None, None, None] * x + K[:, 2, None, None, None] * y + K[:, 3, None, None, None] * z + K[:, 4, None, None, None] * t
            return out

        class IC(InitialCondition):
            def base_ic(self):
                return lambda x, y, z: f(x, y, z, 0.0)[:5]

        return f, K[:, 0].copy(), IC()

    def make(c, th):
        f, a, ic = th
        pick = {"f": f, "a": a, None: None}
        kw = {}
        for d in c["dims"]:
            kw[d] = tuple(c["bc"][d])
            kw[d + "_value"] = tuple(pick[v] for v in c["val"][d])
        return EulerSolver(w0=ic, w0_passives={"dye": lambda x, y, z: f(x, y, z, 0.0)[5]}, conservative_ic=True, bc=BoundaryCondition(**kw), progress_bar=False, **c["args"])

    def go(s, k):
        getattr(s, case["go"][k])(n=1)

    lone = []
    for c in case["solvers"]:
        s = make(c, things())
        hist = [state(s)]
        for k in range(2):
            go(s, k)
            hist.append(state(s))
        lone.append(hist)
    th = things()
    S = [make(c, th) for c in case["solvers"]]
    done = [0] * len(S)
    for i in case["order"]:
        go(S[i], done[i])
        done[i] += 1
        for q, s in enumerate(S):
            if state(s) != lone[q][done[q]]:
                return [f"solver {q + 1} of {len(S)} that share functions and arrays differs from one on its own after {done[q]} steps"]
    return []


def sibling_cases(r, n):
    out = []
    for i in range(n):
        dims = str(r.choice(["x", "y", "z", "xy", "yz", "xz"]))
        nc = {d: int(r.integers(2, 6)) if d in dims else 1 for d in "xyz"}
        w = np.array([r.uniform(0.8, 1.5), *r.uniform(-0.5, 0.5, 3), r.uniform(0.8, 1.5), r.uniform(-1, 1)])
        u = w * np.array([1, w[0], w[0], w[0], 1 / 0.4, w[0]])
        u[4] += 0.5 * w[0] * (w[1:4] ** 2).sum()
        K = np.zeros((6, 5))
        K[:, 0] = u
        K[:, 1:] = 0.05 * u[:, None] * r.uniform(-1, 1, (6, 4))
        sides = {d: [str(r.choice(["dirichlet", "dirichlet", "ic", "free"])) for _ in range(2)] for d in dims}
        vals = {d: [(str(r.choice(["f", "f", "a"])) if t == "dirichlet" else None) for t in sides[d]] for d in dims}
        base = dict(dims=dims, bc=sides, val=vals, args=dict(fixed_dt=0.002, gamma=1.4, **{"n" + d: nc[d] for d in "xyz"}, **{"p" + d: int(r.integers(0, 4)) if d in dims else 0 for d in "xyz"}))
        sol = []
        for q in range(int(r.integers(2, 4))):
            c = copy.deepcopy(base)
            for d in dims:  # elsewhere
                lo = float(np.round(r.uniform(-2, 2), 2))
                c["args"][d] = (lo, lo + float(np.round(r.uniform(0.3, 2), 2)))
            if r.random() < 0.3:
                c["args"]["fixed_dt"] = 0.001
            if r.random() < 0.3:
                c["args"]["gamma"] = 5 / 3
            if r.random() < 0.4:
                d = str(r.choice(list(dims)))
                c["bc"][d], c["val"][d] = c["bc"][d][::-1], c["val"][d][::-1]
            if r.random() < 0.3:
                c["args"].update(a_posteriori_slope_limiting=True, slope_limiter="minmod")
            sol.append(c)
        order = [k for k in range(len(sol)) for _ in range(2)]
        r.shuffle(order)
        out.append(dict(data=K.tolist(), solvers=sol, order=[int(k) for k in order], go=[str(x) for x in r.choice(METHODS, 2)]))
    return out


def systems(case):
    """user-defined equations that start from the same array"""
    from fvhoe.ode import ODE

    class System(ODE):
        def __init__(self, u0, c):
            self.c = c
            super().__init__(u0, progress_bar=False)

        def f(self, t, u):
            return case["dt"], self.c * u + t

    u0 = np.array(case["u"])
    keep = u0.copy()

    def go(s, k):
        m = getattr(s, case["methods"][k % 2])
        m(n=case["n"]) if case["how"] == "n" else m(T=s.t + 2.5 * case["dt"], downbeats=[s.t + 0.7 * case["dt"]])

    lone = []
    for c in case["c"]:
        s = System(keep.copy(), c)
        go(s, 0), go(s, 1)
        lone.append(s.am.get_numpy("u"))
    S = [System(u0, c) for c in case["c"]]
    for i, k in case["order"]:
        go(S[i], k)
    if not np.array_equal(u0, keep):
        return ["the initial state changed"]
    for s, w in zip(S, lone):
        if not np.array_equal(s.am("u"), w):
            return ["systems that start from the same array differ from lone ones"]
    return []


def fingerprint(cs):
    return [reference(c, 2, "count")[-1][0] for c in cs]


def processes(case):
    """the same in other processes, with other hash seeds"""
    out = []
    for seed in case["hashseeds"]:
        code = "import sys, json; sys.path.insert(0, %r); import common, c24; out = sys.stdout; sys.stdout = sys.stderr; print(json.dumps(c24.fingerprint(json.loads(sys.stdin.read()))), file=out)" % os.path.dirname(os.path.abspath(__file__))
        p = subprocess.run([sys.executable, "-c", code], input=json.dumps(case["cfgs"]), text=True, capture_output=True, env={**os.environ, "PYTHONHASHSEED": seed})
        if p.returncode:
            raise RuntimeError(p.stderr[-300:])
        out.append(p.stdout.strip().splitlines()[-1])
    return [] if len(set(out)) == 1 else ["results differ between processes"]


def run(chk):
    r = rng_of(chk.seed, 24)
    cs = []

    def cfg():
        c = random_case(r, pmax=3, dims=str(r.choice(["x", "y", "z", "xy", "xz", "yz"])), cells=(2, 5))
        c["go"] = str(r.choice(METHODS + ["run"] * 3))
        return c

    for name, q in (("two", 150), ("again", 80), ("three", 60)) + ((("deep", 2000),) if chk.thorough else ()):
        for h in chk.behaviours("Interleave", "Interleave_" + name, limit=chk.pick(q, 1500), rng=r):
            k = max(e["s"] for e in h)
            cfgs = [cfg() for _ in range(k)]
            x = r.random()
            if x < 0.25:  # the same problem with other data
                cfgs = [dict(cfgs[0], seed=cfgs[0]["seed"] + i) for i in range(k)]
            elif x < 0.5:  # same shape, other scalars or fluxes
                cfgs = [dict(cfgs[0], npas=int(r.integers(0, 4)), riemann=str(r.choice(["hllc", "llf"]))) for i in range(k)]
            cs.append(dict(hist=h, cfgs=cfgs, mode=str(r.choice(["count", "time"])), fail=int(r.integers(5))))
    chk.replay(replay, cs, "interleavings", timeout=120)
    cs = [dict(cfg=random_case(r, pmax=3), listvars=bool(i % 2)) for i in range(chk.pick(60, 600))]
    chk.replay(inputs, cs, "arguments")
    chk.replay(siblings, sibling_cases(r, chk.pick(80, 800)), "solvers that share functions")
    ys = []
    for order in [[(0, 0), (0, 1), (1, 0), (1, 1)], [(0, 0), (1, 0), (0, 1), (1, 1)], [(1, 0), (0, 0), (0, 1), (1, 1)]]:
        for i in range(chk.pick(6, 40)):
            ys.append(dict(order=order, dt=float(r.choice([0.1, 0.03])), u=np.round(r.uniform(-1, 1, (2,) * int(r.integers(1, 4))), 3).tolist(), c=[float(x) for x in np.round(r.uniform(-1, 1, 2), 3)], methods=[str(x) for x in r.choice(["euler", "ssprk2", "ssprk3", "rk4"], 2)], n=int(r.integers(1, 4)), how=str(r.choice(["n", "T"]))))
    chk.replay(systems, ys, "systems of equations")
    ps = []
    for i in range(chk.pick(4, 24)):
        ps.append(dict(cfgs=[dict(random_case(r, pmax=2), go="run") for _ in range(8)], hashseeds=["0", str(i + 1), "random"]))
    chk.replay(processes, ps, "other processes", timeout=200)
