"""C26: what options mean"""
import contextlib
import hashlib
import io
import os
import shutil
import subprocess
import sys
import tempfile

import numpy as np

from common import REPO
from solvers import rng_of

CALL = ("exact", "downbeats", "log_every_step", "snapshot_dir", "overwrite")
INF = float("inf")


def value(o, v, form):
    from fvhoe.boundary_conditions import BoundaryCondition

    other = form == "other"
    if o == "bc":
        if v == "None":
            return BoundaryCondition() if other else None
        if v == "inflow":
            return BoundaryCondition(x="dirichlet", x_value=inflow) if other else BoundaryCondition(x=("dirichlet", "dirichlet"), x_value=(inflow, inflow))
        if v in ("list", "three", "values"):
            return BoundaryCondition(**{"list": dict(x=["free", "free"]), "three": dict(x=("free",) * 3), "values": dict(x="dirichlet", x_value=(inflow,) * 3)}[v])
        t = {"walls": "reflective", "free": "free", "open": "open"}[v]
        return BoundaryCondition(x=t, y=t) if other else BoundaryCondition(x=(t, t), y=(t, t))
    if o == "w0_passives":
        return {"None": {} if other else None, "dye": {"dye": lambda x, y, z: x * (1 - x)}, }.get(v, {v: lambda x, y, z: x})
    if o == "PAD":
        f = list if other else tuple
        if v == "None" and not other:
            return None
        return {"None": {"P": (0.0, INF), "rho": (0.0, INF)}, "rho 0.3": {"rho": f((0.3, INF))}, "rho 1.2": {"rho": (1.2, INF)}, "T 0": {"T": (0.0, INF)}}[v]
    if o in ("NAD_vars", "fixed_primitive_variables"):
        return None if v == "None" else (list if other else tuple)(v.split(","))
    if o.startswith("n_"):
        return value(o[2:], v, form)
    if o in "xyz":
        a, b = (float(q) for q in v.strip("()").split(","))
        return [int(a), np.float64(b)] if other else (a, b)
    if o == "downbeats":
        if v == "None":
            return [] if other else None
        return np.array([0.03, 0.01, 0.03]) if other else [0.01, 0.03]
    if o == "cupy":
        return other
    if o in ("nx", "ny", "nz", "px", "py", "pz", "slab_buffer_size"):
        return np.int64(int(v)) if other else int(v)
    if v in ("None", "True", "False"):
        return {"None": None, "True": True, "False": False}[v]
    if v[0].isdigit():
        x = 5 / 3 if v == "5/3" else float(v)
        return (int(x) if x == int(x) else np.float64(x)) if other else x
    return v


def inflow(x, y, z, t):
    one = np.ones_like(x + y + z)
    return np.array([(1.2 + 0.3 * x + 0.1 * t) * one, 0.4 * one, 0.1 * one, 0 * one, (2.0 + 0.2 * np.abs(x)) * one])


def split(cfg):
    kw, call, ncall = {}, {}, {}
    for o, c in cfg.items():
        if c["form"] != "omitted":
            (ncall if o.startswith("n_") else call if o in CALL else kw)[o.removeprefix("n_")] = value(o, c["v"], c["form"])
    return kw, call, ncall


def build(cfg):
    from fvhoe.solver import EulerSolver

    kw, call, ncall = split(cfg)
    kw["w0"] = make_ic(kw.pop("w0"))
    return EulerSolver(**kw), call, ncall


def make_ic(what):
    from fvhoe.initial_conditions import ShockTube, Sinus

    if what == "flat":
        from fvhoe.initial_conditions import InitialCondition

        class Flat(InitialCondition):
            def base_ic(self):
                return lambda hs, x: np.ones((5, *x.shape))

            def build_ic(self, hs, passives=None):
                return lambda x, y: np.ones((5, *x.shape))

        return Flat()
    if what == "ripple":
        return Sinus(rho_min_max=(1.0, 1.0005), vx=0.5)
    f = {"tube": 1.0, "cold": 1e-4, "thin": 1e-3}[what]
    g = f if what == "thin" else 1.0
    return ShockTube(mode="cube", x_cube=(0.3, 0.65), rho_in_out=(1.5 * g, 1.0 * g), P_in_out=(1.4 * f, 1.1 * f), vx_in_out=(0.5, 0.3), vy_in_out=(-0.3, 0.2), vz_in_out=(0.1, 0.1))


def print_of(s, mags=True):
    h = hashlib.sha1()

    def add(x):
        if isinstance(x, dict):
            for k in sorted(x):
                h.update(str(k).encode())
                add(x[k])
        elif isinstance(x, (list, tuple)):
            for y in x:
                add(y)
        elif isinstance(x, np.ndarray):
            h.update(str(x.shape).encode() + np.ascontiguousarray(x).astype(float).tobytes())
        else:
            h.update(repr(x).encode())

    add(s.am.get_numpy("u"))
    add([float(t) for t in s.timestamps])
    add([float(t) for t in s.snapshot_times])
    for sn in s.snapshots:
        add({k: np.asarray(v) for k, v in sn.items() if mags or "mag" not in str(k)} if isinstance(sn, dict) else sn)
    return h.hexdigest()


def execute(cfg):
    text = io.StringIO()
    with contextlib.redirect_stdout(text), contextlib.redirect_stderr(text):
        s, call, ncall = build(cfg)
        s.run(T=0.05, **call)
        forced = all(cfg[o]["v"] == "True" for o in ("a_posteriori_slope_limiting", "force_trouble"))  # then the criteria only show in their magnitudes
        a = print_of(s, not forced)
        d = ncall.get("snapshot_dir")
        if d:
            ncall["snapshot_dir"] = tempfile.mkdtemp(prefix="options") + "/s"
        try:
            s.run(n=1, **ncall)
            if d and os.path.exists(ncall["snapshot_dir"]):
                raise AssertionError("a run of n steps wrote snapshots")
        finally:
            if d:
                shutil.rmtree(os.path.dirname(ncall["snapshot_dir"]))
    return a, print_of(s, not forced), text.getvalue()


BASE = {}


def one(b):
    cfg = b["cfg"]
    if b["broken"]:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            try:
                s, call, ncall = build(cfg)
            except Exception:
                return []
            u = s.am.get_numpy("u")
            try:
                s.run(T=0.05, **call)
            except Exception:
                bad = []
                if s.step_count or s.t != 0.0 or not np.array_equal(u, s.am.get_numpy("u"), equal_nan=True):
                    bad.append(f"{b['broken']}: refused only after a step")
                return bad
        c = cfg[b["broken"]]
        return [f"{b['broken']}={c['v']} is accepted"]
    if b["base"] not in BASE:
        BASE[b["base"]] = execute(b["plain"])
    want = BASE[b["base"]]
    got = execute(cfg)
    said = "; ".join(f"{o} {c['v']} {c['form']}" for o, c in cfg.items() if c != b["plain"][o])
    bad = []
    if got[:2] != want[:2]:
        bad.append(f"another outcome for {b['base']} with {said}")
    if cfg["progress_bar"] == dict(v="False", form="given") and cfg["cupy"]["form"] != "other" and got[2].strip():
        bad.append(f"printed although progress_bar=False: {got[2].strip()[:60]!r}")
    return bad


PROG = """
import sys, hashlib
from fvhoe.solver import EulerSolver
from fvhoe.initial_conditions import Square
s = EulerSolver(w0=Square(), nx=6, px=1, progress_bar=False)
s.run(T=0.05)
print(hashlib.sha1(s.am.get_numpy("u").tobytes()).hexdigest(), isinstance(s.commit_details, dict))
"""


def places(case):
    """a solver can be made wherever the code lies, with and without git"""
    d = tempfile.mkdtemp(prefix="place")
    try:
        os.makedirs(d + "/bin")
        where = REPO
        if case["where"] != "repo":
            shutil.copytree(REPO + "/fvhoe", d + "/code/fvhoe", ignore=shutil.ignore_patterns("__pycache__"))
            where = d + "/code"
            if case["where"] == "empty repository":
                subprocess.run(["git", "init", "-q", where], check=True, env={**os.environ, "HOME": d})
        env = {k: v for k, v in os.environ.items() if not k.startswith("GIT_")}
        env.update(PYTHONPATH=where, HOME=d, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", MPLCONFIGDIR=d, GIT_CEILING_DIRECTORIES=os.path.dirname(d))
        if not case["git"]:
            env["PATH"] = d + "/bin"
        p = subprocess.run([sys.executable, "-c", PROG], cwd=d, env=env, capture_output=True, text=True, timeout=100)
        if p.returncode:
            return [f"{case}: {p.stderr.strip().splitlines()[-1][:200] if p.stderr.strip() else p.returncode}"]
        if p.stdout.split() != case["want"]:
            return [f"{case}: {p.stdout[-200:]}"]
        return []
    finally:
        shutil.rmtree(d, ignore_errors=True)


def effect(b):
    """a value that means something else"""
    o = next(o for o in b["cfg"] if b["cfg"][o] != b["plain"][o])
    v = b["cfg"][o]["v"]
    same = execute(b["cfg"])[:2] == execute(b["plain"])[:2]
    return [(f"{o}={v} has no effect", f"no effect: {o}")] if same else []


def shown(case):
    """the progress bar shows"""
    text = execute({**case["plain"], "progress_bar": dict(v="True", form="given")})[2]
    return [] if text.strip() else ["no progress bar is printed"]


def run(chk):
    r = rng_of(chk.seed, 26)
    bs = chk.behaviours("Options", "Options_1")
    bs += chk.behaviours("Options", "Options_2", limit=chk.pick(700, None), rng=r)
    bs += chk.behaviours("Options", "Options_sim", sim=chk.pick(300, 6000), depth=16)
    spelled = {b["base"]: b["cfg"] for b in chk.behaviours("Options", "Options_0")}
    for b in bs:
        b["plain"] = spelled[b["base"]]
    bs.sort(key=lambda b: b["base"])
    order = [bs[i] for i in r.permutation(len(bs))]
    chk.replay(one, order, "options", batch=40, timeout=200)
    cs = chk.behaviours("Options", "Options_change")
    for b in cs:
        b["plain"] = spelled[b["base"]]
    chk.replay(effect, cs, "effects", batch=4)
    chk.replay(shown, [dict(plain=spelled["plain"])], "progress bar")
    env = {**os.environ, "PYTHONPATH": REPO, "PYTHONDONTWRITEBYTECODE": "1"}
    ref = subprocess.run([sys.executable, "-c", PROG], env=env, capture_output=True, text=True)
    want = ref.stdout.split() if ref.returncode == 0 else ["?"]
    chk.replay(places, [dict(where=w, git=g, want=want) for w in ("repo", "copy", "empty repository") for g in (True, False)], "installations", timeout=120)
