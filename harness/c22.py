"""C22: plots and samples"""
import contextlib
import copy
import io
import re

import numpy as np

from common import enc, num
from solvers import VARS, build, passive_names, random_case, rng_of

KEYS = dict(trouble="trouble", nad="NAD violation magnitude", pad="PAD violation magnitude")


def make(case):
    """a solver with snapshots, taken from a run or made up"""
    c = case["cfg"]
    r = rng_of(c["seed"], 22)
    s = build(c)
    s.run(n=1)
    if not case["synthetic"]:
        s.run(n=2)
        s.run(T=s.t * 1.5)
    else:
        model = s.snapshots[-1]
        ts = np.cumsum(r.uniform(0.01, 1, 4)) - 1
        s.snapshots.clear() if hasattr(s.snapshots, "clear") else None
        for t in ts:
            sn = copy.deepcopy(model)
            sn["t"] = float(t)
            sn["w"] = r.uniform(0.1, 3, np.shape(model["w"])) * r.choice([-1, 1], np.shape(model["w"]))
            sn["w"][0] = abs(sn["w"][0])
            sn["w"][4] = abs(sn["w"][4])
            if "trouble" in model:
                nad = np.where(r.random(model["trouble"].shape) < 0.4, r.choice([1e-3, 0.1, 0.5], model["trouble"].shape), 0.0)
                pad = np.where(r.random(model["trouble"].shape) < 0.2, r.uniform(0.01, 1, model["trouble"].shape), 0.0)
                sn[KEYS["nad"]], sn[KEYS["pad"]] = nad, pad
                sn["trouble"] = np.where((nad > 0) | (pad > 0), r.choice([0.25, 0.5, 1.0], nad.shape), 0.0)
            s.snapshots.append(sn)
    return s


def shots(s):
    out = []
    for sn in s.snapshots:
        d = dict(t=num(sn["t"]), w=enc(sn["w"]))
        for k, key in KEYS.items():
            if key in sn:
                d[k] = enc(sn[key])
        out.append(d)
    return out


def request(s, r, fixed):
    """times and coordinates near (not between) what is there, or far away"""
    sn = s.snapshots[-1]
    at = ["none"] * 3
    kw = {}
    for a in fixed:
        ax = np.asarray(sn["xyz"[a]])
        x = r.random()
        v = float(ax[int(r.integers(len(ax)))])
        if x < 0.5:
            h = (ax[-1] - ax[0]) / max(1, len(ax) - 1) if len(ax) > 1 else 1.0
            v += float(r.uniform(-0.45, 0.45) * h)
        elif x < 0.65:
            v = float(r.uniform(-9, 9))
        elif x < 0.7:
            v = 0.0
        kw["xyz"[a]] = v
        at[a] = num(v)
    ts = [float(q["t"]) for q in s.snapshots]
    x = r.random()
    t = None
    if x < 0.35:
        t = ts[int(r.integers(len(ts)))]
    elif x < 0.8:
        t = float(r.uniform(min(ts) - 0.1, max(ts) + 0.1))
    elif x < 0.85:
        t = 0.0
    if t is not None or r.random() < 0.5:
        kw["t"] = t
    return kw, at, "none" if t is None else num(t)


def param_of(s, c, r, flagged, as_list, line):
    """(name for the code, meaning)"""
    names = VARS + ["v", "v"] + ([] if as_list else passive_names(c["npas"]))
    names += ["mx", "my", "mz", "E"] if r.random() < 0.2 else []
    if flagged:
        names += ["trouble"] * 2 + ([] if line else ["NAD", "PAD"])
    p = str(r.choice(names))
    alias = dict(mx="vx", my="vy", mz="vz", E="P").get(p, p)
    if p == "v":
        return p, dict(param="speed", var=0)
    if p == "trouble":
        return p, dict(param="marks" if line else "trouble", var=0)
    if p in ("NAD", "PAD"):
        return p, dict(param=p, var=0)
    return p, dict(param="value", var=1 + (VARS + passive_names(c["npas"])).index(alias))


def snapshot_copy(s):
    return copy.deepcopy(list(s.snapshots)), len(s.snapshots)


def unchanged(s, keep):
    from c15 import same

    if len(s.snapshots) != keep[1] or not all(same(a, b) for a, b in zip(s.snapshots, keep[0])):
        raise AssertionError("the snapshots changed")


class Axes:
    """passes everything on to real axes and remembers what contour was given"""

    def __init__(self, ax):
        self._ax = ax
        self.contours = []

    def __getattr__(self, k):
        return getattr(self._ax, k)

    def contour(self, *args, **kw):
        out = self._ax.contour(*args, **kw)
        self.contours.append((args, out))
        return out


def axes():
    from matplotlib.figure import Figure

    return Figure().subplots()


def call(f, kw, verbose):
    if not verbose:
        return f(**kw), ""
    b = io.StringIO()
    with contextlib.redirect_stdout(b):
        out = f(verbose=True, **kw)
    return out, b.getvalue()


def told(text, s, kw, at):
    """the summary names the time and the coordinates that were used"""
    sn = s.snapshots[-1] if kw.get("t") is None else min(s.snapshots, key=lambda q: abs(q["t"] - kw["t"]))
    for a in range(3):
        if at[a] != "none":
            ax = np.asarray(sn["xyz"[a]])
            d = np.sort(abs(ax - kw["xyz"[a]]))
            if len(ax) > 1 and d[1] - d[0] < 1e-9:
                return
            v = str(ax[np.argmin(abs(ax - kw["xyz"[a]]))])
            if v not in text:
                raise AssertionError(f"the summary {text!r} does not name {v}")
    if str(sn["t"]) not in text:
        raise AssertionError(f"the summary {text!r} does not name the time {sn['t']}")


def base(s, at, t, r, mean):
    sn = s.snapshots[-1]
    return dict(shots=shots(s), axes=enc([np.asarray(sn[d]) for d in "xyz"]), at=at, t=t, mode="all", tol="0", **mean)


def line(case, s, r):
    import fvhoe.visualization as V

    c = case["cfg"]
    flagged = "trouble" in s.snapshots[-1]
    as_list = r.random() < 0.2
    open_ax = int(r.integers(3)) if r.random() < 0.4 else int(np.argmax(c["n"]))
    kw, at, t = request(s, r, [a for a in range(3) if a != open_ax])
    p, mean = param_of(s, c, r, flagged, as_list, True)
    e = base(s, at, t, r, mean)
    if p == "trouble":
        mode = str(r.choice(["all", "NAD", "PAD"]))
        tol = float(r.choice([0.0, 0.0, 0.05, 0.2]))
        e.update(mode=mode, tol=num(tol))
        if mode != "all" or r.random() < 0.5:
            kw["trouble_mode"] = mode
        if tol or r.random() < 0.5:
            kw["tol"] = tol
    ax = axes()
    keep = snapshot_copy(s)
    verbose = bool(r.random() < 0.2)
    if as_list:
        _, text = call(lambda **k: V.plot_1d_slice(list(s.snapshots), ax, p, **k), kw, verbose)
    elif r.random() < 0.5:
        _, text = call(lambda **k: V.plot_1d_slice(s, ax, param=p, **k), kw, verbose)
    else:
        _, text = call(lambda **k: s.plot_1d_slice(ax, param=p, **k), kw, verbose)
    unchanged(s, keep)
    if verbose:
        told(text, s, kw, at)
    if len(ax.lines) != 1:
        raise AssertionError(f"{len(ax.lines)} lines drawn")
    xs, ys = ax.lines[0].get_data()
    return dict(e, kind="line", xs=enc(np.asarray(xs)), ys=enc(np.asarray(ys, dtype=float)))


def rows_of(im):
    a = np.ma.asarray(im.get_array(), dtype=float)
    a = a[::-1] if im.origin == "lower" else a
    mask = np.ma.getmaskarray(a)
    return [["blank" if m or not np.isfinite(v) else num(v) for v, m in zip(x, y)] for x, y in zip(a.data, mask)]


def image(case, s, r):
    import fvhoe.visualization as V
    from matplotlib.colors import LogNorm, to_rgba

    c = case["cfg"]
    flagged = "trouble" in s.snapshots[-1]
    as_list = r.random() < 0.2
    k = int(r.integers(3)) if r.random() < 0.5 else int(np.argmin(c["n"]))
    kw, at, t = request(s, r, [k])
    p, mean = param_of(s, c, r, flagged, as_list, False)
    ax = Axes(axes())
    e = base(s, at, t, r, mean)
    # (matplotlib refuses contours of constant data)
    contour = case["synthetic"] and mean["param"] in ("value", "speed") and min(n for a, n in enumerate(c["n"]) if a != k) > 1 and r.random() < 0.3
    over, color = "none", "none"
    if contour:
        kw["contour"] = True
        if r.random() < 0.6:
            n = int(r.integers(2, 12))
            e.update(nlevels=n if r.random() < 0.8 else 30, given=[])
            if e["nlevels"] != 30:
                kw["levels"] = n
        else:
            g = np.sort(r.uniform(0, 2, int(r.integers(1, 5))))
            e.update(nlevels=0, given=enc(g))
            kw["levels"] = g.tolist() if r.random() < 0.5 else g
    elif flagged and r.random() < 0.6:
        o = ["all", True, "NAD", "PAD"][int(r.integers(4))]
        over = "all" if o is True else o
        tol = float(r.choice([0.0, 0.0, 0.05, 0.2]))
        color = str(r.choice(["red", "blue", "black"]))
        kw["overlay_trouble"] = o
        if tol or r.random() < 0.5:
            kw["tol"] = tol
        if color != "red" or r.random() < 0.5:
            kw["trouble_color"] = color
        e["tol"] = num(tol)
    elif r.random() < 0.2:
        kw["overlay_trouble"] = [None, False][int(r.integers(2))]
    lims = []
    log = not contour and p in ("rho", "P") and r.random() < 0.4
    if log:
        kw["log"] = True
        lims = [[0.01, 7.0], [0.01, None], [None, 7.0], [None, None]][int(r.integers(4))]
        kw.update({k: v for k, v in zip(("log_vmin", "log_vmax"), lims) if v is not None})
    elif not contour and r.random() < 0.2:
        kw.update(vmin=-0.5, vmax=2.0)
        lims = [-0.5, 2.0]
    if not contour and r.random() < 0.2:
        kw["cmap"] = str(r.choice(["viridis", "hot", "GnBu_r"]))
    keep = snapshot_copy(s)
    verbose = bool(r.random() < 0.2)
    if as_list:
        _, text = call(lambda **q: V.plot_2d_slice(list(s.snapshots), ax, p, **q), kw, verbose)
    elif r.random() < 0.5:
        _, text = call(lambda **q: V.plot_2d_slice(s, ax, param=p, **q), kw, verbose)
    else:
        _, text = call(lambda **q: s.plot_2d_slice(ax, param=p, **q), kw, verbose)
    unchanged(s, keep)
    if verbose:
        told(text, s, kw, at)
        free = ["xyz"[a] for a in range(3) if at[a] == "none"]
        named = re.findall(r"(horizontal|vertical)_axis='(\w+)'", text)
        if named and named != list(zip(("horizontal", "vertical"), free)):
            raise AssertionError(f"the summary {text!r} names the axes {free} wrongly")
    if contour:
        args, out = ax.contours[0]
        if len(args) == 1 or len(args) == 2:
            raise AssertionError("contour without coordinates")
        X, Y, Z = (np.asarray(q, dtype=float) for q in args[:3])
        if X.ndim == 1:
            X, Y = np.meshgrid(X, Y)
        pts = np.stack([X.ravel(), Y.ravel(), Z.ravel()], axis=1)
        return dict(e, kind="contour", points=enc(pts), levels=enc(np.asarray(out.levels)))
    im = ax.images[0]
    if flagged and over != "none":  # another picture must not change this one
        other = Axes(axes())
        V.plot_2d_slice(s, other, "rho", **{"xyz"[k]: 0.0}, overlay_trouble="all", trouble_color="green", **({"cmap": kw["cmap"]} if "cmap" in kw else {}))
    b = [float(x) for x in im.cmap.get_bad()]
    name = [n for n in ("red", "blue", "black", "green") if np.allclose(to_rgba(n), b)]
    got = [im.norm.vmin, im.norm.vmax]
    return dict(
        e,
        kind="image",
        rows=rows_of(im),
        extent=enc([float(x) for x in im.get_extent()]),
        overlay=over,
        color=color,
        badcolor=name[0] if name else str(b),
        log=bool(log),
        logged=isinstance(im.norm, LogNorm),
        lims=[[num(a), num(g)] for a, g in zip(lims, got) if a is not None],
    )


def fields(case, s, r):
    """all variables at once"""
    import matplotlib.pyplot as plt

    c = case["cfg"]
    nd = len(c["dims"])
    if nd == 3:
        try:
            s.plot_fields()
        except NotImplementedError:
            return []
        raise AssertionError("three-dimensional fields accepted")
    act = ["xyz".index(d) for d in c["dims"]]
    kw, at, t = request(s, r, [a for a in range(3) if a not in act])
    keep = snapshot_copy(s)
    try:
        fig, axs = s.plot_fields(**kw)
        axs = np.ravel(axs)
        out = []
        if nd == 1:
            for p, ax in zip([1, 5, 2 + act[0]], axs):
                if len(ax.lines) != 1:
                    raise AssertionError(f"{len(ax.lines)} lines drawn")
                xs, ys = ax.lines[0].get_data()
                out.append(dict(base(s, at, t, r, dict(param="value", var=p)), kind="line", xs=enc(np.asarray(xs)), ys=enc(np.asarray(ys, dtype=float))))
        else:
            for p, ax in zip([1, 5, 0, 2, 3, 4], axs):
                if len(ax.images) != 1:
                    raise AssertionError(f"{len(ax.images)} images drawn")
                im = ax.images[0]
                out.append(
                    dict(
                        base(s, at, t, r, dict(param="value" if p else "speed", var=p)),
                        kind="image",
                        rows=rows_of(im),
                        extent=enc([float(x) for x in im.get_extent()]),
                        overlay="none",
                        color="none",
                        badcolor="none",
                        log=False,
                        logged=False,
                        lims=[],
                    )
                )
    finally:
        plt.close("all")
    unchanged(s, keep)
    return out


def radial(case, s, r):
    import fvhoe.visualization as V

    c = case["cfg"]
    kw, at, t = request(s, r, [])
    as_list = r.random() < 0.2
    p, mean = param_of(s, c, r, False, as_list, True)
    sn = s.snapshots[-1]
    ctr = [float(r.uniform(np.min(sn[d]) - 0.1, np.max(sn[d]) + 0.1)) if r.random() < 0.7 else float(np.asarray(sn[d])[0]) for d in "xyz"]
    if r.random() < 0.3:
        radii = np.arange(0, 5)
        radii = radii.tolist() if r.random() < 0.5 else radii
    else:
        radii = np.cumsum(r.uniform(0.02, 0.7, int(r.integers(2, 6)))) - (0.3 if r.random() < 0.3 else 0)
    keep = snapshot_copy(s)
    avg, rr = V.sample_circular_average(list(s.snapshots) if as_list else s, p, center=tuple(ctr), radii=radii, **kw)
    unchanged(s, keep)
    bl = lambda a: ["blank" if not np.isfinite(x) else num(x) for x in np.asarray(a, dtype=float)]
    return dict(base(s, at, t, r, mean), kind="radial", center=enc(ctr), radii=enc(np.asarray(radii, dtype=float)), avgs=bl(avg), rs=bl(rr))


def counts(case, s, r):
    """requests with too many coordinates"""
    import fvhoe.visualization as V

    out = []
    for f, drawn in ((V.plot_1d_slice, 1), (V.plot_2d_slice, 2)):
        for given in ([0, 1, 2], [0, 1], [1, 2], [0, 2]):
            if len(given) <= 3 - drawn:
                continue
            try:
                f(s, axes(), "rho", **{"xyz"[a]: 0.3 for a in given})
                ok = True
            except BaseException as e:  # noqa: the code raises BaseException
                if type(e).__name__ in ("CaseTimeout", "KeyboardInterrupt"):
                    raise
                ok = False
            out.append(dict(kind="count", drawn=drawn, given=len(given), accepted=ok))
    return out


DO = dict(line=line, image=image, radial=radial, fields=fields, counts=counts)


def record(case):
    s = make(case)
    out = []
    for i, what in enumerate(case["what"]):
        v = DO[what](case, s, rng_of(case["cfg"]["seed"], 220 + i))
        out += v if isinstance(v, list) else [v]
    return out


def run(chk):
    r = rng_of(chk.seed, 22)
    cs = []
    for i in range(chk.pick(200, 2500)):
        c = random_case(r, pmax=2, cells=(2, 5), limit=bool(i % 4))
        if c["limit"]:
            c["limit"]["force"] = False
        what = ["line", "line", "line", "image", "image", "image", "image", "radial"]
        if i % 5 == 0:
            what.append("fields")
        if i % 20 == 0:
            what.append("counts")
        cs.append(dict(cfg=c, synthetic=bool(i % 3), what=what))
    chk.events(record, cs, "pictures", module="Plots", timeout=120)
