"""Shared machinery: run the code under test, hand its traces to TLC, report."""

import json
import math
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
OUT = os.path.join(VERIF, "out")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

os.environ.setdefault("MPLBACKEND", "Agg")
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
sys.dont_write_bytecode = True
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)

NPROC = min(8, os.cpu_count() or 1)


# --------------------------------------------------------------- numbers
def num(x):
    """a double as the exact rational "MpE" = M * 2^E understood by spec/Rat"""
    x = float(x)
    if not math.isfinite(x):
        return "nan"
    if x == 0:
        return "0"
    m, e = math.frexp(x)
    m = int(m * (1 << 53))
    e -= 53
    tz = (m & -m).bit_length() - 1
    m >>= tz
    e += tz
    if 0 <= e <= 20:
        return str(m << e)
    return f"{m}p{e}"


def enc(a):
    """nested lists of exact rationals"""
    if hasattr(a, "tolist"):
        a = a.tolist()
    if isinstance(a, (list, tuple)):
        return [enc(x) for x in a]
    if isinstance(a, bool) or a is None or isinstance(a, str):
        return a
    return num(a)


def finite(*arrs):
    import numpy as np

    return all(bool(np.all(np.isfinite(np.asarray(a, dtype=float)))) for a in arrs)


# --------------------------------------------------------------- TLC
_build_lock = threading.Lock()
_classes = None


def classes():
    """directory with the compiled module override of spec/Rat.tla"""
    global _classes
    with _build_lock:
        if _classes:
            return _classes
        src = os.path.join(VERIF, "java", "Rat.java")
        key = "%08x" % zlib.crc32(open(src, "rb").read())
        dst = os.path.join(VERIF, "build", key)
        if not os.path.exists(os.path.join(dst, "Rat.class")):
            try:
                os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
                tmp = tempfile.mkdtemp(dir=os.path.join(VERIF, "build"))
            except OSError:
                tmp = tempfile.mkdtemp()
            subprocess.run(
                ["javac", "-cp", JARS.split(":")[0], "-d", tmp, src], check=True
            )
            try:
                os.rename(tmp, dst)
            except OSError:
                dst = tmp
        _classes = dst
        return dst


class TLCResult:
    def __init__(self):
        self.ok = False
        self.states = 0
        self.generated = 0
        self.depth = 0
        self.fails = []  # parsed FAIL tuples (raw text)
        self.unsure = 0
        self.out = ""
        self.error = None
        self.wall = 0.0


def tlc(
    module,
    cfg=None,
    env=None,
    workers=NPROC,
    extra=(),
    timeout=800,
    heap="6g",
    spec_dir=SPEC,
    deadlock=False,
    cont=True,
):
    """run TLC on a module; never raises for a property violation"""
    res = TLCResult()
    meta = tempfile.mkdtemp(prefix="tlcmeta")
    outf = tempfile.NamedTemporaryFile("w+", delete=False)
    cmd = [
        "java",
        "-XX:+UseParallelGC",
        f"-Xmx{heap}",
        "-Xss16m",
        f"-Djava.io.tmpdir={meta}",
        "-cp",
        f"{classes()}:{JARS}",
        "tlc2.TLC",
        "-metadir",
        meta,
        "-config",
        (cfg or module) + ".cfg",
        "-workers",
        str(workers),
        "-noGenerateSpecTE",
    ]
    if not deadlock:
        cmd.append("-deadlock")
    if cont:
        cmd.append("-continue")
    cmd += list(extra) + [module + ".tla"]
    t0 = time.time()
    try:
        p = subprocess.Popen(
            cmd,
            cwd=spec_dir,
            env={**os.environ, **{k: str(v) for k, v in (env or {}).items()}},
            stdout=outf,
            stderr=subprocess.STDOUT,
            start_new_session=True,
        )
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = -1
            res.error = "timeout"
        outf.flush()
        outf.seek(0)
        out = outf.read()
    finally:
        outf.close()
        os.unlink(outf.name)
        shutil.rmtree(meta, ignore_errors=True)
    res.wall = time.time() - t0
    res.out = out
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if m:
        res.generated, res.states = int(m[-1][0]), int(m[-1][1])
    m = re.findall(r"depth of the complete state graph search is (\d+)", out)
    if m:
        res.depth = int(m[-1])
    res.fails = re.findall(r'<<\s*"FAIL",\s*(\d+),(.*?)>>\s*$', out, re.S | re.M)
    res.unsure = len(re.findall(r'<<"UNSURE"', out))
    if res.error is None:
        # (with -continue TLC ends with "No error has been found" all the same)
        if rc == 0 and "No error has been found" in out and not re.search(r"^Error:|is violated", out, re.M):
            res.ok = True
        else:
            errs = re.findall(r"^Error: (.*(?:\n(?!Error:|State |\d+ states).*){0,4})", out, re.M)
            res.error = (errs[0] if errs else out[-600:]).strip()[:600]
    return res


def printed(out, tag):
    """payloads of PrintT(<<tag, ToJson(x)>>) lines"""
    for m in re.finditer(r'^<<"%s", "(.*)">>$' % tag, out, re.M):
        yield json.loads(json.loads('"' + m.group(1) + '"'))


# --------------------------------------------------------------- running cases
class CaseTimeout(Exception):
    pass


def _alarm(*_):
    raise CaseTimeout("timed out")


def _work(fn, cases, idx, path, timeout):
    signal.signal(signal.SIGALRM, _alarm)
    sys.stdout = open(os.devnull, "w")
    sys.stderr = open(os.devnull, "w")
    import warnings

    warnings.simplefilter("ignore")
    with open(path, "w") as f:
        for i in idx:
            signal.setitimer(signal.ITIMER_REAL, timeout)
            try:
                r = {"value": fn(cases[i])}
            except CaseTimeout:
                r = {"raised": "timed out"}
            except BaseException as e:  # noqa: the code under test may raise anything
                tb = traceback.extract_tb(e.__traceback__)
                where = "; ".join(f"{os.path.basename(t.filename)}:{t.lineno}" for t in tb[-3:])
                r = {"raised": f"{type(e).__name__}: {str(e)[:300]} [{where}]"}
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            f.write(json.dumps([i, r]) + "\n")
            f.flush()


def run_cases(fn, cases, timeout=60, nproc=NPROC, deadline=600):
    """fn(case) for every case in forked workers.

    Returns a list of {"value": ...} or {"raised": "..."}; a case that hangs or
    whose worker dies is reported as raised."""
    import fvhoe.solver  # noqa: F401  (import once, before forking)

    n = len(cases)
    out = [{"raised": "no result"} for _ in range(n)]
    tmp = tempfile.mkdtemp(prefix="cases")
    pids = []
    try:
        todo = [list(range(k, n, nproc)) for k in range(nproc)]
        for k, idx in enumerate(todo):
            if not idx:
                continue
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.setpgid(0, 0)
                    _work(fn, cases, idx, os.path.join(tmp, str(k)), timeout)
                    code = 0
                finally:
                    os._exit(code)
            pids.append(pid)
        end = time.time() + deadline
        left = set(pids)
        while left:
            for pid in list(left):
                r, _ = os.waitpid(pid, os.WNOHANG)
                if r:
                    left.discard(pid)
            if left and time.time() > end:
                for pid in left:
                    for kill in (os.killpg, os.kill):
                        try:
                            kill(pid, signal.SIGKILL)
                        except OSError:
                            pass
                    os.waitpid(pid, 0)
                break
            time.sleep(0.01)
        for k in range(nproc):
            p = os.path.join(tmp, str(k))
            if os.path.exists(p):
                for line in open(p):
                    try:
                        i, r = json.loads(line)
                    except ValueError:
                        continue
                    out[i] = r
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def cost(e, text):
    """a guess of how long TLC takes to judge an event"""
    if not isinstance(e, dict) or "cfg" not in e:
        return len(text) / 1e6
    c = e["cfg"]
    k = 1
    for n, p, a in zip(c["n"], c["p"], c["act"]):
        k *= n + 3 * p + 2 if a else 1
    k *= 1 + 2 * c["limit"]["on"]
    return k * {"euler": 1, "ssprk2": 2, "ssprk3": 3, "rk4": 4}.get(e.get("method"), 1)


# --------------------------------------------------------------- reporting
class Check:
    def __init__(self, prop, tier, seed, level="model_checking"):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.t0 = time.time()
        self.violations = []
        self.known = []
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, evaluations=0)
        self.samples = []
        self.notes = []
        self.assumptions = []
        self._lock = threading.Lock()
        self.known_list = load_known(prop)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def violation(self, what, replay=None, key=None):
        """key identifies the failing input/call site/history in known_findings.json"""
        with self._lock:
            for k in self.known_list:
                if key is not None and k.get("key") == key:
                    self.known.append(k)
                    return
            self.violations.append(dict(what=what, replay=replay, key=key))

    def design(self, module, cfg=None, **kw):
        """model-check the specification itself"""
        r = tlc(module, cfg, **kw)
        with self._lock:
            self.cov["states"] += r.states
            self.cov["transitions"] += r.generated
            self.notes.append(
                f"TLC {cfg or module}: {r.states} distinct states, {r.generated} generated, "
                f"depth {r.depth}, {r.wall:.1f}s, {'no error' if r.ok else r.error}"
            )
        if not r.ok:
            # the specification does not depend on the code under test
            raise RuntimeError(f"specification {cfg or module}: {r.error}\n{r.out[-2000:]}")
        return r

    def behaviours(self, module, cfg, sim=None, depth=100, tag="RUN", limit=None, rng=None, **kw):
        """behaviours of a state machine, exhaustively or (sim: number) by random walks"""
        if sim:
            r = tlc(module, cfg, workers=1, extra=("-simulate", f"num={sim}", "-seed", str(self.seed), "-depth", str(depth)), **kw)
            if "Error:" in r.out:
                raise RuntimeError(f"specification {cfg}: {r.out[-1500:]}")
        else:
            r = self.design(module, cfg=cfg, **kw)
        out = list(printed(r.out, tag))
        if not out:
            raise RuntimeError(f"specification {cfg}: no behaviours\n{r.out[-1500:]}")
        total = len(out)
        if limit and total > limit:
            out.sort(key=lambda x: json.dumps(x))  # TLC's workers print in any order
            out = [out[i] for i in rng.choice(total, limit, replace=False)]
        with self._lock:
            self.notes.append(f"{cfg}: {len(out)} of {total} {'simulated ' if sim else ''}behaviours replayed")
        return out

    def replay(self, fn, cases, label, batch=1, timeout=60):
        """fn(case) -> list of mismatches between the code and the behaviour"""
        groups = [cases[i : i + batch] for i in range(0, len(cases), batch)]

        def go(g):
            # a mismatch is a text, or a text and the key of a finding
            return [(i, *(map(str, m) if isinstance(m, tuple) else (str(m), None))) for i, c in enumerate(g) for m in (fn(c) or [])]

        for g, bad in self.collect(run_cases(go, groups, timeout=timeout), groups, label):
            for i, m, key in bad:
                self.violation(f"{label}: {m}", dict(case=g[i], label=label), key)
        with self._lock:
            self.cov["evaluations"] += len(cases) - len(groups)
            self.cov["traces_validated_against_impl"] += len(cases)

    def conform(self, module, events, describe, cfg=None, keys=None, chunk=None, **kw):
        """check recorded events against a trace specification.

        events: list of JSON-able records; describe(i) -> replay record."""
        # a number that is not finite satisfies nothing
        text = [json.dumps(e, separators=(",", ":")) for e in events]
        bad = [i for i, x in enumerate(text) if '"nan"' in x]
        for i in bad[:20]:
            self.violation(
                f"{module}: event {i}: not a finite number", describe(i), keys[i] if keys else None
            )
        where = [i for i in range(len(events)) if i not in set(bad)]
        if not where:
            return None
        where.sort(key=lambda i: -cost(events[i], text[i]))  # long ones first
        d = tempfile.mkdtemp(prefix="trace")
        try:
            path = os.path.join(d, "trace.ndjson")
            with open(path, "w") as f:
                for i in where:
                    f.write(text[i] + "\n")
            r = tlc(module, cfg, env={"TRACE": path}, **kw)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        with self._lock:
            self.cov["states"] += r.states
            self.cov["transitions"] += r.generated
            self.cov["traces_validated_against_impl"] += len(events)
            self.notes.append(
                f"TLC {cfg or module}: {len(events)} recorded events, {r.unsure} undecided{self._kinds(events)}, "
                f"{r.wall:.1f}s, {'accepted' if r.ok else 'REJECTED'}"
            )
        if not r.ok:
            if r.fails:
                for i, why in r.fails[:20]:
                    i = where[int(i) - 1]
                    why = re.sub(r"\s+", " ", why).strip()[:300]
                    self.violation(
                        f"{module}: event {i}: {why}", describe(i), keys[i] if keys else None
                    )
            elif "Parsing or semantic analysis failed" in r.out:
                raise RuntimeError(f"{module} does not parse: {r.out[-1500:]}")
            elif r.error == "timeout":
                raise RuntimeError(f"{module}: TLC timed out")
            else:
                self.violation(
                    f"{module}: trace not accepted: {r.error[:400]}", dict(error=r.error)
                )
        return r

    @staticmethod
    def _kinds(events):
        n = {}
        for e in events:
            if isinstance(e, dict) and "kind" in e:
                n[e["kind"]] = n.get(e["kind"], 0) + 1
        return " (" + ", ".join(f"{k}: {v}" for k, v in sorted(n.items())) + ")" if n else ""

    def events(self, fn, cases, label, module="Conform", timeout=60, **kw):
        """record events of fn(case) -> event or list of events, and check them"""
        good = self.collect(run_cases(fn, cases, timeout=timeout), cases, label)
        evs, src = [], []
        for c, v in good:
            for e in v if isinstance(v, list) else [v]:
                if e is not None:
                    evs.append(e)
                    src.append(c)
        return self.conform(module, evs, lambda i: dict(case=src[i], label=label), **kw)

    def collect(self, results, cases, label, keys=None):
        """values of run_cases; anything raised is a violation"""
        good = []
        for i, (c, r) in enumerate(zip(cases, results)):
            if "raised" in r:
                self.violation(
                    f"{label}: the code raised {r['raised']}",
                    dict(case=c, raised=r["raised"], label=label),
                    keys[i] if keys else None,
                )
            else:
                good.append((c, r["value"]))
        with self._lock:
            self.cov["evaluations"] += len(cases)
            for c in cases[:2]:
                if len(self.samples) < 6:
                    t = json.dumps(c, default=str)
                    self.samples.append(f"{label}: " + (t if len(t) < 1500 else t[:1500] + " ..."))
        return good

    def finish(self):
        wall = time.time() - self.t0
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = dict(
            property=self.prop,
            tier=self.tier,
            seed=self.seed,
            level=self.level,
            coverage={**self.cov, "samples": self.samples, "details": self.notes},
            wall_s=round(wall, 2),
            assumptions=self.assumptions,
            violations=len(self.violations),
        )
        with open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for n in self.notes:
            print("  " + n)
        seen = set()
        for k in self.known:
            if k["key"] not in seen:
                seen.add(k["key"])
                print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        if self.violations:
            d = os.path.join(OUT, self.prop)
            os.makedirs(d, exist_ok=True)
            for i, v in enumerate(self.violations[:10]):
                path = os.path.join(d, f"replay_{i}.json")
                with open(path, "w") as f:
                    json.dump(v, f, default=str)
                print("  " + str(v["what"])[:400])
                print(f"VIOLATION property={self.prop} replay={path}")
            if len(self.violations) > 10:
                print(f"  and {len(self.violations) - 10} more")
            return 1
        print(f"OK property={self.prop} tier={self.tier} wall={wall:.1f}s")
        return 0


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == prop]


def parallel(*jobs):
    """run thunks concurrently (each mostly waits for a subprocess)"""
    res, errs = [None] * len(jobs), []

    def go(i):
        try:
            res[i] = jobs[i]()
        except BaseException as e:
            errs.append(e)

    ts = [threading.Thread(target=go, args=(i,)) for i in range(len(jobs))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise errs[0]
    return res
