"""C18: the array store"""
import numpy as np

from solvers import rng_of


def same(a, v, shape):
    return isinstance(a, np.ndarray) and a.shape == shape and bool(np.all(a == v))


def replay(case):
    from fvhoe.array_management import ArrayManager

    r = rng_of(case["seed"], 18)
    shape = tuple(case["shape"])
    names = {"a": case["names"][0], "b": case["names"][1]}
    ids = sorted(case["hist"][0]["content"].keys()) if isinstance(case["hist"][0]["content"], dict) else [str(i + 1) for i in range(len(case["hist"][0]["content"]))]
    S = {i: ArrayManager() for i in ids}
    live, old, copies = {}, {}, []
    for i, h in enumerate(case["hist"]):
        k = i + 1
        s, n = str(h["store"]), h["name"]
        am, nm, op = S[s], names[h["name"]], h["op"]
        ok = True
        try:
            if op == "add":
                new = np.full(shape, float(k))
                if not h["ok"]:  # the name is taken, whatever is offered
                    new = [new, live[s, n], live[s, n].copy(), np.zeros((2, 3)), np.zeros(0)][int(r.integers(5))]
                am.add(nm, new)
                live[s, n] = am(nm)
            elif op == "addbad":
                am.add(nm, [[1.0, 2.0], 3.0, None, (1,), "x", {}][int(r.integers(6))])
            elif op == "remove":
                keep = live.get((s, n))
                am.remove(nm)
                old[s, n] = keep
                del live[s, n]
            elif op == "write":
                x = am(nm)
                (x if r.random() < 0.5 else live[s, n])[...] = k
            elif op == "copy":
                copies.append(am.get_numpy(nm))
            elif op == "scribble":
                copies[-1][...] = k
            elif op == "late":
                old[s, n][...] = k
            elif op == "gpu":
                (am.enable_cupy if r.random() < 0.7 else am.disable_cupy)()
                if am.using_cupy:
                    return ["claims to use a GPU that is not there"]
        except (KeyError, TypeError, ValueError):
            ok = False
        if ok != h["ok"]:
            return [f"operation {k} ({op} {nm}) {'accepted' if ok else 'refused'}"]
        for s2 in ids:
            row = h["content"][s2] if isinstance(h["content"], dict) else h["content"][int(s2) - 1]
            for n2, v in row.items():
                try:
                    got = S[s2](names[n2])
                    got2 = S[s2].get_numpy(names[n2])
                except KeyError:
                    got = got2 = None
                if (v == -1) != (got is None):
                    return [f"after operation {k} {names[n2]} is {'there' if v == -1 else 'missing'}"]
                if v != -1 and not (same(got, v, shape) and same(got2, v, shape) and not np.shares_memory(got, got2)):
                    return [f"after operation {k} {names[n2]} holds {got}, expected {v}"]
            d = S[s2].to_dict()
            if sorted(d["names"]) != sorted(names[n2] for n2, v in row.items() if v != -1) or d["using_cupy"]:
                return [f"after operation {k} summary {d}"]
        if len(copies) != len(h["copies"]) or not all(same(c, v, shape) for c, v in zip(copies, h["copies"])):
            return [f"after operation {k} copies changed"]
    return []


def run(chk):
    r = rng_of(chk.seed, 18)
    hs = chk.behaviours("Store", "Store_one") + chk.behaviours("Store", "Store_deep")
    hs += chk.behaviours("Store", "Store_two", limit=chk.pick(8000, None), rng=r)
    hs += chk.behaviours("Store", "Store_sim", sim=chk.pick(500, 6000), depth=25)
    cases = [
        dict(hist=h, seed=int(r.integers(2**31)), shape=[[3], [2, 2], [5, 1, 2, 1], []][int(r.integers(4))], names=[["a", "b"], ["u", "mean trouble"], ["", "F"]][int(r.integers(3))])
        for h in hs
    ]
    chk.replay(replay, cases, "behaviours of Store", batch=100)
