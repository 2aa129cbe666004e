"""C14: saved runs come back complete or not at all"""
import hashlib
import json
import os
import pickle
import resource
import shutil
import signal
import subprocess
import sys
import tempfile

import numpy as np

from common import REPO
from solvers import arguments, build, pad_bounds, random_case, rng_of

MUTATING = {"os.mkdir", "os.remove", "os.rmdir", "os.rename", "os.truncate", "os.link", "os.symlink"}


KEYS = ["x", "y", "z", "t", "w", "trouble", "NAD violation magnitude", "PAD violation magnitude"]


def digest(snapshots, times):
    """fingerprint of a list of snapshots"""
    h = hashlib.sha256()
    for s in snapshots:
        for k in KEYS:
            if k not in s:
                h.update(b"-")
                continue
            v = s[k]
            h.update(k.encode())
            a = np.asarray(v, dtype=float)
            h.update(str(a.shape).encode() + np.ascontiguousarray(a).tobytes())
    h.update(np.asarray(times, dtype=float).tobytes())
    h.update(str(len(snapshots)).encode())
    return h.hexdigest()


def arm(root, crash):
    """make this process fail at a point of its file operations below root"""
    kind, k = crash
    if kind == "op":
        count = [0]

        def hook(event, args):
            if event == "open":
                path, mode, flags = args
                if not isinstance(path, (str, bytes, os.PathLike)):
                    return
                if not (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)):
                    return
            elif event not in MUTATING:
                return
            if not any(isinstance(a, (str, bytes, os.PathLike)) and os.fsdecode(a).startswith(root) for a in args):
                # paths relative to an open directory
                if not (event in ("os.remove", "os.rmdir") and args[-1] not in (None, -1)):
                    return
            count[0] += 1
            if count[0] > k:
                os._exit(17)

        sys.addaudithook(hook)
    else:
        signal.signal(signal.SIGXFSZ, signal.SIG_DFL if kind == "bytes" else signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (k, k))


def child(fn):
    """fn() in a forked process; None if it crashed"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            signal.setitimer(signal.ITIMER_REAL, 0)
            os.close(r)
            out = fn()
            os.write(w, json.dumps(out).encode())
            os._exit(0)
        except BaseException as e:
            os.write(w, json.dumps(dict(res="raised", why=f"{type(e).__name__}: {e}"[:200])).encode())
            os._exit(0)
        finally:
            os._exit(3)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    os.waitpid(pid, 0)
    return json.loads(data) if data else None


def version(case, v):
    """the v-th run of a history: same problem, other data"""
    c = dict(case["cfg"], seed=case["cfg"]["seed"] + v)
    return c


def make(case, v):
    return build(version(case, v))


def go(s, case, v, **kw):
    f = case["cfg"]["fixdt"]
    getattr(s, case["method"])(T=2.5 * f, downbeats=[f] if v % 2 else None, log_every_step=v % 3 == 2, **kw)


def reference(case, v):
    def run():
        s = make(case, v)
        go(s, case, v)
        return digest(s.snapshots, s.snapshot_times)

    return child(run)


def one_run(case, v, d, over, crash, rival=False):
    def run():
        s = make(case, v)
        evals, during = [0], [0]
        f = s.f

        def counted(t, u):
            evals[0] += 1
            if rival and evals[0] == 2:  # somebody else saves there meanwhile
                go(make(case, 100 + v), case, 100 + v, snapshot_dir=d, overwrite=True)
                during[0] = 100 + v
            return f(t, u)

        s.f = counted
        if crash:
            arm(d, crash)
        # the directory may be named in different ways
        try:
            go(s, case, v, snapshot_dir=d + ("/" if v % 2 else ""), overwrite=over)
        except Exception as e:
            return dict(res="raised", during=during[0], why=f"{type(e).__name__}: {e}"[:200])
        res = "computed" if evals[0] else "loaded"
        return dict(res=res, during=during[0], data=digest(s.snapshots, s.snapshot_times), steps=s.step_count, t=s.t)

    out = child(run)
    return out if out is not None else dict(res="crashed")


def put_foreign(d, kind):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    if kind == 0:
        open(os.path.join(d, "notes.txt"), "w").write("other data")
    elif kind == 1:
        open(os.path.join(d, "arrs.pkl"), "wb").write(b"this is not a pickle")
    elif kind == 2:
        pickle.dump({"rho": [1.0, 2.0]}, open(os.path.join(d, "arrs.pkl"), "wb"))
    elif kind == 3:
        os.makedirs(os.path.join(d, "arrs.pkl"))
    elif kind == 4:
        pickle.dump(3.14, open(os.path.join(d, "arrs.pkl"), "wb"))
        open(os.path.join(d, "attrs.json"), "w").write("{}")
    elif kind == 5:
        pass


def history(case):
    """run a history of commands; returns the recorded one"""
    tmp = tempfile.mkdtemp(prefix="save")
    try:
        d = os.path.join(tmp, "deep", "run1") if case["deep"] else os.path.join(tmp, "run1")
        refs, hist = {}, []
        for i, st in enumerate(case["steps"]):
            v = i + 1
            if st["cmd"] == "foreign":
                put_foreign(d, st["kind"])
                hist.append(dict(cmd="foreign", v=v, res="computed", data=0, fault=False, during=0))
                continue
            refs[reference(case, v)] = v
            if st.get("rival"):
                refs[reference(case, 100 + v)] = 100 + v
            r = one_run(case, v, d, st["cmd"] == "over", st.get("crash"), st.get("rival", False))
            data = refs.get(r.get("data"), -1) if r["res"] in ("computed", "loaded") else 0
            if r["res"] == "loaded" and (r["steps"] or r["t"]):
                data = -2
            hist.append(dict(cmd=st["cmd"], v=v, res=r["res"], data=data, fault=bool(st.get("crash")), during=r.get("during", 0), why=r.get("why", "")))
        return dict(kind="history", hist=hist, crash=[str(s.get("crash")) for s in case["steps"]])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


SETTINGS = dict(cfl="CFL", gamma="gamma", n="n", p="p", riemann="riemann_solver_name", fixdt="fixed_dt", floor="csq_floor")


def commit_of(repo):
    """what git says about the code, or None"""
    try:
        p = subprocess.run(["git", "-C", repo, "log", "-1", "--pretty=format:%H%n%an%n%ai"], capture_output=True, text=True)
    except OSError:
        return None
    return p.stdout.split("\n") if p.returncode == 0 else None


def asnumpy(v):
    if type(v) in (bool, int, float):
        return np.array(v)[()]
    if type(v) is tuple and v and all(type(x) in (int, float) for x in v):
        return tuple(np.array(x)[()] for x in v)
    return v


def roundtrip(case):
    """save, load, compare in full, for one configuration"""
    tmp = tempfile.mkdtemp(prefix="save")
    bad = []
    try:
        c = case["cfg"]
        d = os.path.join(tmp, "run")
        extra = {}
        if case.get("numpy"):  # the same numbers, as numpy scalars
            extra = {k: asnumpy(v) for k, v in arguments(c).items() if asnumpy(v) is not v}
        T = 3 * float(build(c).f(0.0, build(c).am("u").copy())[0])
        runs = []
        for kw in (dict(), dict(snapshot_dir=d), dict(snapshot_dir=d), dict(snapshot_dir=d, overwrite=True), dict(snapshot_dir=d)):
            s = build(c, snapshots_as_fv_averages=case["averages"], **extra)
            if case.get("before"):  # a run before the one that is saved
                s.run(n=1) if case["before"] == 1 else s.run(T=T / 5)
            s.run(T=T, downbeats=[T / 2], **kw)
            runs.append(s)
        a, b, e, f, g = runs
        ref = digest(a.snapshots, a.snapshot_times)
        for k, s in (("saved", b), ("loaded", e), ("overwritten", f), ("loaded again", g)):
            if digest(s.snapshots, s.snapshot_times) != ref:
                bad.append(f"{k} run has other snapshots")
        for s in (b, f):
            if not (np.array_equal(s.am("u"), a.am("u")) and s.timestamps == a.timestamps and s.t == a.t):
                bad.append("saving changed the run")
            for k in a.am.arrays:
                if k not in ("F", "G", "H") and not np.array_equal(s.am(k), a.am(k), equal_nan=True):
                    bad.append(f"saving changed {k}")
        if not case.get("before") and (e.step_count or e.t or not np.array_equal(e.am("u"), build(c).am("u"))):
            bad.append("loading computed something")
        at = json.load(open(os.path.join(d, "attrs.json")))
        for k, nm in SETTINGS.items():
            want = c[k]
            if nm not in at or at[nm] != (list(want) if isinstance(want, (list, tuple)) else want):
                bad.append(f"saved settings have {nm} = {at.get(nm)}, not {want}")
        for a_, k in enumerate(("x_domain", "y_domain", "z_domain")):
            if at.get(k) != list(c["dom"][a_]):
                bad.append(f"saved settings have {k} = {at.get(k)}")
        lim = c["limit"]
        if at.get("a_posteriori_slope_limiting") != bool(lim):
            bad.append("saved settings: limiting")
        if lim:
            for k, nm in dict(limiter="slope_limiter", convex="convex", force="force_trouble", NAD="NAD", mode="NAD_mode", range="NAD_range", sed="SED", sedeps="SED_tolerance", vars="NAD_vars").items():
                if at.get(nm, "?") != lim[k]:
                    bad.append(f"saved settings have {nm} = {at.get(nm)}, not {lim[k]}")
            if {k: [str(float(x)) for x in v] for k, v in at.get("PAD", {}).items()} != {k: [str(float(x)) for x in v] for k, v in pad_bounds(lim["pad"]).items()}:
                bad.append(f"saved settings have PAD = {at.get('PAD')}")
        if [list(at["bc"][x]) for x in "xyz"] != [list(x) for x in (b.bc.x, b.bc.y, b.bc.z)]:
            bad.append(f"saved settings have bc = {at['bc']}")
        for k in ("t", "step_count", "f_evaluation_count", "nvars", "ndim", "dims"):
            if at.get(k, "?") != getattr(f, k):
                bad.append(f"saved settings have {k} = {at.get(k)}, not {getattr(f, k)}")
        if at.get("integrator") != f.integrator:
            bad.append("saved integrator is wrong")
        git = commit_of(REPO)
        said = at.get("commit_details", {})
        if (git is None) != ("error" in said) or (git and [said.get(k) for k in ("commit_hash", "author_name", "commit_date")] != git):
            bad.append(f"saved commit details {said}, not {git}")
        rep = open(os.path.join(d, "timing.txt")).read()
        if rep.split() != f.timer.report().split():
            bad.append("timing report differs from the solver's")
        # saving again, with nothing left to compute or a little
        k = f.step_count
        f.run(T=T / 3 if case["averages"] else f.t, snapshot_dir=d, overwrite=True)
        if f.step_count != k:
            bad.append("steps beyond the requested time")
        if digest(f.snapshots[:-1], f.snapshot_times[:-1]) != ref:
            bad.append("snapshots of an earlier run are gone")
        for s in (f, e):
            if s is e:  # a solver that has loaded goes on computing elsewhere
                s.run(T=T, downbeats=[T / 2], snapshot_dir=d + "2")
                if not np.array_equal(s.am("u"), a.am("u")):
                    bad.append("a run after loading differs")
            h = build(c)
            h.run(T=T, snapshot_dir=d if s is f else d + "2")
            if h.step_count or digest(h.snapshots, h.snapshot_times) != digest(s.snapshots, s.snapshot_times):
                bad.append("what was saved last is not what was loaded")
        # a run with nothing to compute is saved, too
        q = build(dict(c, seed=c["seed"] + 1))
        q.run(T=0.0, snapshot_dir=d, overwrite=True)
        h = build(c)
        h.run(T=T, snapshot_dir=d)
        if h.step_count or len(h.snapshots) != 1 or digest(h.snapshots, h.snapshot_times) != digest(q.snapshots, q.snapshot_times):
            bad.append("a run without steps was not saved")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return bad


def wrapper(case):
    """the scripting wrapper: one directory per set of settings"""
    from fvhoe.boundary_conditions import BoundaryCondition
    from fvhoe.initial_conditions import Sinus, Square
    from fvhoe.scripting import EulerSolver_wrapper
    from fvhoe.solver import EulerSolver

    tmp = tempfile.mkdtemp(prefix="save")
    bad = []
    try:
        seen = {}
        for k in case["seq"]:
            kw, T, n, integ, over = case["sets"][k["i"]]["kw"], case["sets"][k["i"]]["T"], case["sets"][k["i"]]["n"], case["sets"][k["i"]]["integ"], k["over"]
            bc = case["sets"][k["i"]]["bc"]
            s = EulerSolver_wrapper("prj", tmp, ic=Sinus(), bc=BoundaryCondition(x=bc), T=T, integrator=integ, n_snapshots=n, overwrite=over, progress_bar=False, **kw)
            fresh = k["i"] not in seen
            if (s.step_count > 0) != (fresh or over):
                bad.append(f"{k}: {'computed' if s.step_count else 'loaded'}")
            q = EulerSolver(w0=Sinus(), bc=BoundaryCondition(x=bc), progress_bar=False, **kw)
            go = {-1: q.run, 1: q.euler, 2: q.ssprk2, 3: q.ssprk3, 4: q.rk4}[integ]
            go(T=T, downbeats=np.linspace(0, T, n))
            if len(s.snapshot_times) != n or abs(np.array(s.snapshot_times) - np.linspace(0, T, n)).max() > 1e-12:
                bad.append(f"snapshot times {s.snapshot_times}")
            if digest(s.snapshots, s.snapshot_times) != digest(q.snapshots, q.snapshot_times):
                bad.append(f"{k}: other snapshots")
            seen[k["i"]] = True
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return bad


def summaries(case):
    """the wrapper's pictures: one for every snapshot, and none of them changes the run"""
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from fvhoe.initial_conditions import Sinus
    from fvhoe.scripting import EulerSolver_wrapper

    tmp = tempfile.mkdtemp(prefix="save")
    bad = []
    try:
        kw = dict(ic=Sinus(), T=case["T"], integrator=case["integ"], n_snapshots=case["n"], progress_bar=False, nx=4, ny=3, px=case["p"], py=1)
        a = EulerSolver_wrapper("prj", tmp + "/a", **kw)
        b = EulerSolver_wrapper("prj", tmp + "/b", tmp + "/s", **kw)
        if digest(a.snapshots, a.snapshot_times) != digest(b.snapshots, b.snapshot_times):
            bad.append("pictures changed the run")
        dirs = os.listdir(tmp + "/s")
        if dirs != os.listdir(tmp + "/a") or dirs != os.listdir(tmp + "/b"):
            bad.append(f"directories {dirs}")
        got = sorted(os.listdir(tmp + "/s/" + dirs[0]))
        want = sorted({f"t={t:.2f}.png" for t in b.snapshot_times})
        if got != want:
            bad.append(f"pictures {got}, not {want}")
        before = {f: os.stat(tmp + "/s/" + dirs[0] + "/" + f).st_mtime_ns for f in got}
        c = EulerSolver_wrapper("prj", tmp + "/b", tmp + "/s", **kw)
        if c.step_count or digest(c.snapshots, c.snapshot_times) != digest(b.snapshots, b.snapshot_times):
            bad.append("not loaded")
        if before != {f: os.stat(tmp + "/s/" + dirs[0] + "/" + f).st_mtime_ns for f in sorted(os.listdir(tmp + "/s/" + dirs[0]))}:
            bad.append("pictures drawn while loading")
    finally:
        plt.close("all")
        shutil.rmtree(tmp, ignore_errors=True)
    return bad


POINTS = [("op", j) for j in range(0, 10)] + [("bytes", k) for k in (0, 1, 100, 1000, 1500, 2500)] + [("error", k) for k in (0, 300, 1400)]


def run(chk):
    r = rng_of(chk.seed, 14)
    chk.design("Save", cfg="Save_4")
    skel = set()
    for f in ("Save_2", chk.pick("Save_3", "Save_4")):
        for log in chk.behaviours("Save", f):
            sk = tuple((e["cmd"], e["fault"], e["during"] > 0) for e in log)
            if not any(e[1] and e[2] for e in sk) and (chk.thorough or len(sk) == 2 or sum(e[2] for e in sk) < 2):
                skel.add(sk)
    skel = sorted(skel)
    cs = []
    for sk in skel:
        crashes = [i for i, (c, f, w) in enumerate(sk) if f]
        n = len(POINTS) if len(sk) == 2 and crashes else (chk.pick(4, len(POINTS)) if crashes else 1)
        pts = [POINTS[i] for i in r.permutation(len(POINTS))]
        for q in range(n):
            steps = []
            for i, (c, f, w) in enumerate(sk):
                st = dict(cmd=c, rival=w)
                if f:
                    st["crash"] = pts[q] if i == crashes[0] else POINTS[int(r.integers(len(POINTS)))]
                if c == "foreign":
                    st["kind"] = int(r.integers(6))
                steps.append(st)
            steps.append(dict(cmd="plain"))
            cfg = random_case(r, dims="x", pmax=1, cells=(3, 5), fixdt=0.01, limit=bool(r.random() < 0.3), bcs=["periodic", "free"])
            cs.append(dict(steps=steps, cfg=cfg, deep=bool(r.random() < 0.3), method=str(r.choice(["run", "euler", "rk4"]))))
    chk.events(history, cs, "histories of saves", module="SaveTrace", timeout=120)
    cs = [dict(cfg=random_case(r, pmax=2), averages=bool(i % 2), numpy=i % 5 == 4, before=[0, 0, 1, 2][i % 4]) for i in range(chk.pick(40, 300))]
    chk.replay(roundtrip, cs, "round trips")
    ws = []
    for i in range(chk.pick(8, 40)):
        sets = []
        for k in range(3):
            sets.append(dict(kw=dict(nx=int(r.integers(4, 7)), px=k, CFL=float(r.choice([0.5, 0.8]))), T=float(r.choice([0.05, 0.1])), n=int(r.integers(2, 5)), integ=int(r.choice([-1, 1, 2, 3, 4])), bc=[("reflective", "free"), ("periodic", "periodic"), ("free", "reflective")][int(r.integers(3))]))
        ws.append(dict(sets=sets, seq=[dict(i=int(r.integers(3)), over=bool(r.random() < 0.3)) for _ in range(5)]))
    chk.replay(wrapper, ws, "histories of the scripting wrapper")
    ps = [dict(T=float(r.choice([0.06, 0.12])), n=int(r.integers(2, 5)), integ=int(r.choice([-1, 1, 2, 3, 4])), p=int(r.integers(0, 3))) for _ in range(chk.pick(3, 12))]
    chk.replay(summaries, ps, "pictures of the scripting wrapper", batch=1)
