"""C19: timers"""
import importlib
import re
import time

from solvers import rng_of

CLOCKS = ["time", "perf_counter", "monotonic", "process_time", "thread_time"]


class Clock:
    """all clocks of the time module, under our control"""

    def __init__(self):
        self.now = 0.0

    def __enter__(self):
        self.keep = {}
        for n in CLOCKS:
            self.keep[n] = getattr(time, n)
            setattr(time, n, lambda: self.now)
            self.keep[n + "_ns"] = getattr(time, n + "_ns")
            setattr(time, n + "_ns", lambda: round(self.now * 10**9))
        import fvhoe.timer

        self.mod = importlib.reload(fvhoe.timer)
        return self

    def __exit__(self, *_):
        for n, f in self.keep.items():
            setattr(time, n, f)


NAMES = [
    dict(a="a", b="b", c="c"),
    dict(a="TOTAL", b="(fallback scheme) hydrofluxes", c="(fallback scheme)"),
    dict(a="x" * 30, b="x", c="x x"),
]


def rows(report):
    """name -> text of its number, from the rows of a report"""
    out = {}
    for line in report.splitlines():
        m = re.match(r"^(.*\S)\s+(-?[0-9.]+)$", line.rstrip())
        if m:
            if m.group(1) in out:
                return {"twice": m.group(1)}
            out[m.group(1)] = m.group(2)
    return out


def replay(case):
    with Clock() as ck:
        nm = NAMES[case["names"]]
        un, prec = case["unit"], case["precision"]
        ck.now = case["start"] if case["zero"] is None else -(2 ** case["zero"] - 1) * un  # zero: the operation at which the clock reads 0
        init = [nm["a"], nm["b"]]
        if case["style"] == 0:
            T = ck.mod.Timer(cats=init, precision=prec)
        elif case["style"] == 1:
            T = ck.mod.Timer(precision=prec)
            T.add_cat(tuple(init))
        else:
            T = ck.mod.Timer(cats=init[0], precision=prec)
            T.add_cat(init[1])
        order = list(init)
        for i, h in enumerate(case["hist"]):
            ck.now += 2**i * un
            c = nm[h["cat"]]
            do = {"start": T.start, "stop": T.stop, "add": T.add_cat}[h["op"]]
            try:
                do(c if h["op"] != "add" or i % 2 else [c])
                ok = True
            except (ValueError, RuntimeError, KeyError):
                ok = False
            if ok != h["ok"]:
                return [f"operation {i + 1} ({h['op']} {c}) {'accepted' if ok else 'refused'}"]
            if h["op"] == "add" and ok:
                order.append(c)
            want = {nm[k]: h["total"][k] * un for k in h["known"]}
            if dict(T.cum_time) != want or sorted(T.cats) != sorted(want):
                return [f"after operation {i + 1} expected {want}, got {dict(T.cum_time)} for {T.cats}"]
            d = T.to_dict()
            if set(d) != set(want) or any(abs(float(d[k]) - want[k]) > 0.5 * 10.0**-prec + 1e-12 * (1 + want[k]) or abs(float(d[k]) - round(float(d[k]), prec)) > 1e-12 * (1 + want[k]) for k in want):
                return [f"after operation {i + 1} summary {d} of {want} at precision {prec}"]
            rp = rows(T.report())
            if list(rp) != order or any(abs(float(rp[k]) - want[k]) > 0.5 * 10.0**-prec + 1e-12 * (1 + want[k]) or (len(rp[k].split(".")[1]) if "." in rp[k] else 0) != prec for k in want):
                return [f"after operation {i + 1} report {rp} of {want} at precision {prec}"]
            if T.cats != tuple(order):
                return [f"categories {T.cats}"]
    return []


def solver_timers(case):
    """a solver's timers are all stopped after a run and never exceed the time that passed"""
    from solvers import build

    with Clock() as ck:
        step = [0]

        def tick():
            step[0] += 1
            ck.now = step[0] / 64
            return ck.now

        for n in CLOCKS:
            setattr(time, n, tick)
            setattr(time, n + "_ns", lambda: round(tick() * 10**9))
        import sys

        for m in [m for m in sys.modules if m.startswith("fvhoe")]:
            del sys.modules[m]
        s = build(case)
        bad = []
        for _ in range(2):
            s.run(n=1)
            for c in s.timer.cats:
                before = s.timer.cum_time[c]
                s.timer.start(c)  # refused if it were still running
                s.timer.stop(c)
                if s.timer.cum_time[c] <= before:
                    bad.append(f"{c} did not advance")
        d = s.timer.cum_time
        if d["TOTAL"] + d["SNAPSHOTS"] > ck.now:
            bad.append("totals exceed the time that passed")
        return bad


def run(chk):
    r = rng_of(chk.seed, 19)
    hs = chk.behaviours("Timer", "Timer_4") + chk.behaviours("Timer", "Timer_sim", sim=chk.pick(600, 6000), depth=20)
    hs += chk.behaviours("Timer", "Timer_5", limit=chk.pick(6000, None), rng=r)
    cases = [
        dict(
            hist=h,
            names=int(r.integers(3)),
            unit=float(r.choice([1.0, 1 / 64, 1 / 1024])),
            precision=int(r.integers(0, 7)),
            start=float(r.choice([0.0, 1024.0, -4.0, 2.0**31])),
            zero=int(r.integers(1, 5)) if r.random() < 0.3 else None,
            style=int(r.integers(3)),
        )
        for h in hs
    ]
    chk.replay(replay, cases, "behaviours of Timer", batch=100)
    from solvers import random_case

    cs = [random_case(r, pmax=2, limit=bool(i % 2)) for i in range(chk.pick(24, 100))]
    chk.replay(solver_timers, cs, "timers of a solver")
