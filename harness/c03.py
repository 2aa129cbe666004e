"""C03: when steps are taken and snapshots logged"""
import numpy as np

from common import num
from solvers import build, random_case, rng_of

METHODS = ["euler", "ssprk2", "ssprk3", "rk4"]


def make_ode(dts, progress=False):
    """an ODE proposing a prescribed step at each time (and nonsense at other stages)"""
    from fvhoe.ode import ODE

    class Ode(ODE):
        def get_commit_details(self):
            return {}

        def f(self, t, u):
            return dts.get(t, 1e-3), np.ones_like(u)

    return Ode(np.zeros(2), progress_bar=progress)


def given(r, D):
    """requested times in some order, with repetitions, in some container"""
    D = list(D)
    r.shuffle(D)
    if D and r.random() < 0.3:
        D += [D[int(r.integers(len(D)))]]
    if not D:
        return [None, [], (), np.array([])][int(r.integers(4))]
    return [D, tuple(D), np.array(D), set(D)][int(r.integers(4))]


def replay(case):
    """one behaviour of spec/TimeLoop.tla in the code"""
    r = rng_of(case["seed"], 3)
    out = []
    for method in case["methods"]:
        un = case["unit"]
        dts = {a * un: b * un for h in case["hist"] for a, b in h["dts"]}
        o = make_ode(dts, progress=bool(r.random() < 0.2))
        for k, h in enumerate(case["hist"]):
            c = h["call"]
            go = getattr(o, method)
            if c["kind"] == "count":
                go(n=c["n"])
            else:
                kw = dict(T=c["T"] * un, downbeats=given(r, [d * un for d in c["D"]]))
                if not c["exact"] or r.random() < 0.5:
                    kw["exact"] = c["exact"]
                if c["every"] or r.random() < 0.5:
                    kw["log_every_step"] = c["every"]
                go(**kw)
            got = dict(stamps=list(o.timestamps), shots=list(o.snapshot_times), t=o.t, n=o.step_count, k=len(o.snapshots))
            want = dict(stamps=[x * un for x in h["stamps"]], shots=[x * un for x in h["shots"]], t=h["stamps"][-1] * un, n=len(h["stamps"]) - 1, k=len(h["shots"]))
            if got != want or np.any(np.abs(o.am("u") - o.t) > 1e-12):
                return [f"{method}, run {k + 1}: expected {want}, got {got}"]
    return out


def floats(case):
    """runs with arbitrary floating point proposals, for spec/Timeline.tla"""
    r = rng_of(case["seed"], 33)
    props = {}
    cls = {}
    goals = []
    if case["real"]:
        s = build(case["cfg"])
        base = s.f
        case = dict(case, dt=float(build(case["cfg"]).f(0.0, s.am("u").copy())[0]))
    else:
        from fvhoe.ode import ODE

        class Ode(ODE):
            def get_commit_details(self):
                return {}

            def f(self, t, u):
                dt = float(r.uniform(0.3, 1.5) * case["dt"])
                ahead = [x - t for x in goals if x > t]
                if ahead and r.random() < 0.3:
                    # very nearly the distance to the next requested time
                    dt = min(ahead) * float(1 + r.choice([-1, 0, 1]) * 10.0 ** int(r.integers(-16, -5)))
                return dt, np.ones_like(u)

        s = Ode(np.zeros(1), progress_bar=False)
        base = s.f

    def f(t, u):
        dt, k = base(t, u)
        props.setdefault(len(cls["s"].timestamps), float(dt))
        return dt, k

    cls["s"] = s
    s.f = f
    calls = []
    i0 = 1
    j0 = 0
    for c in case["calls"]:
        un = case["dt"]
        go = getattr(s, case["method"])
        start = s.t
        if "n" in c:
            go(n=c["n"])
            T = D = None
            goals.clear()
        else:
            T = start + c["T"] * un if c["T"] < 2.5 or case["real"] else round(start + c["T"] * un, 2)
            D = [start + d * un for d in c["D"]]
            if c["near"] and D:
                D.append(float(np.nextafter(D[0], np.inf)))
                D.append(T - 1e-15)
            goals[:] = [*D, T]
            go(T=T, downbeats=given(r, D), exact=c["exact"], log_every_step=c["every"])
        n = len(s.timestamps)
        calls.append(
            dict(
                kind="count" if T is None else "to",
                n=c.get("n", 0),
                T=num(T or 0),
                D=[num(d) for d in D or []],
                exact=c.get("exact", False),
                every=c.get("every", False),
                start=num(start),
                stamps=[num(x) for x in s.timestamps[i0:]],
                props=[num(props[i]) for i in range(i0, n)],
                shots=[num(x) for x in s.snapshot_times[j0:]],
                now=num(s.t),
                count=s.step_count,
                total=n - 1,
                kept=len(s.snapshots) == len(s.snapshot_times),
            )
        )
        i0, j0 = n, len(s.snapshot_times)
    return calls


def run(chk):
    r = rng_of(chk.seed, 3)
    chk.design("TimeLoop", cfg="TimeLoop_live")
    cases = []
    for cfg, quick in [("one", 2500), ("two", None), ("three", None), (chk.pick("past1", "past"), 2500), ("sim", None)]:
        hs = chk.behaviours("TimeLoopMC", "TimeLoopMC_" + cfg, sim=chk.pick(300, 6000) if cfg == "sim" else None, limit=quick if not chk.thorough else 40000, rng=r)
        for h in hs:
            ms = METHODS if chk.thorough or r.random() < 0.25 else [METHODS[int(r.integers(4))]]
            cases.append(dict(hist=h, seed=int(r.integers(2**31)), unit=float(r.choice([1.0, 0.25, 0.125])), methods=ms))
    chk.replay(replay, cases, "behaviours of TimeLoop", batch=40)

    fl = []
    for i in range(chk.pick(400, 4000)):
        real = i % 8 == 0
        calls = []
        for _ in range(int(r.integers(1, 4))):
            if r.random() < 0.25:
                calls.append(dict(n=int(r.integers(0, 4))))
            else:
                T = float(r.uniform(0, 5))
                calls.append(
                    dict(
                        T=T,
                        D=[float(x) for x in np.round(r.uniform(-1, T + 1, int(r.integers(0, 6))), int(r.choice([0, 2, 12])))],
                        exact=bool(r.random() < 0.75),
                        every=bool(r.random() < 0.4),
                        near=bool(r.random() < 0.3),
                    )
                )
        c = dict(seed=int(r.integers(2**31)), real=real, calls=calls, dt=float(r.choice([0.1, 1 / 3, 0.01, 1.7])), method=str(r.choice(METHODS)))
        if real:
            c["cfg"] = random_case(r, dims=["x", "y", "xy"][i % 3], pmax=2)
            c["method"] = "run" if r.random() < 0.5 else c["method"]
        fl.append(c)
    chk.events(floats, fl, "runs with floating point times", module="Timeline")
