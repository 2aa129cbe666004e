"""Plant small syntactic changes in a scratch copy of the code and see which checks notice.

usage: mutate.py OUT.jsonl N SEED [file ...]     (development aid; no check uses it)"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
# checks to try first, by file
FIRST = {
    "hydro.py": ["C10", "C17", "C05", "C23"],
    "riemann_solvers.py": ["C09", "C23"],
    "stencils.py": ["C08", "C23"],
    "fv.py": ["C08", "C07", "C23"],
    "boundary_conditions.py": ["C06", "C24", "C14", "C23"],
    "slope_limiting.py": ["C11", "C12", "C13", "C23"],
    "smooth_extrema_detection.py": ["C12"],
    "timer.py": ["C19", "C14"],
    "array_management.py": ["C18", "C14"],
    "ode.py": ["C03", "C04", "C14", "C24", "C15"],
    "initial_conditions.py": ["C21"],
    "visualization.py": ["C22"],
    "solver.py": ["C23", "C13", "C15", "C14", "C07", "C22", "C24", "C04", "C03", "C06", "C12"],
    "scripting.py": ["C14"],
    "romain_solver.py": ["C25"],
}
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.FloorDiv: ["*"], ast.Pow: ["*"], ast.BitAnd: ["|"]}
SYM = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Pow: "**", ast.BitAnd: "&"}
CS = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
STR = {"l": "r", "r": "l", "x": "y", "y": "z", "z": "x", "c": "l", "vx": "vy", "vy": "vz", "vz": "vx", "mx": "my", "my": "mz", "mz": "mx", "rho": "P", "P": "rho", "E": "rho", "v": "m", "m": "v"}
NAME = {"minimum": "maximum", "maximum": "minimum", "min": "max", "max": "min", "zeros": "ones", "ones": "zeros", "argmin": "argmax", "any": "all", "all": "any"}


def mutants(src):
    """(start, end, replacement) in characters"""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for ln in lines:
        off.append(off[-1] + len(ln))
    pos = lambda l, c: off[l - 1] + len(lines[l - 1].encode()[:c].decode())
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            skip.add(id(n.body[0].value))
        if isinstance(n, (ast.JoinedStr, ast.Raise)):
            for m in ast.walk(n):
                skip.add(id(m))
        if isinstance(n, (ast.FunctionDef,)):
            for a in [*n.args.args, n.returns]:
                if a is not None:
                    for m in ast.walk(a):
                        skip.add(id(m))
        if isinstance(n, ast.AnnAssign):
            for m in ast.walk(n.annotation):
                skip.add(id(m))
    out = []
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = span(n.left)[1], span(n.comparators[0])[0]
            t = src[a:b]
            s = CS[type(n.ops[0])]
            for r in CMP[type(n.ops[0])]:
                if s in t:
                    out.append((a, b, t.replace(s, r, 1)))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            a, b = span(n.left)[1], span(n.right)[0]
            t = src[a:b]
            s = SYM[type(n.op)]
            for r in BIN[type(n.op)]:
                if s in t:
                    out.append((a, b, t.replace(s, r, 1)))
        elif isinstance(n, ast.BoolOp):
            a, b = span(n.values[0])[1], span(n.values[1])[0]
            t = src[a:b]
            s, r = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            if s in t:
                out.append((a, b, t.replace(s, r, 1)))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            a, b = span(n)
            out.append((a, b, src[span(n.operand)[0] : b]))
        elif isinstance(n, ast.Constant):
            a, b = span(n)
            v = n.value
            if v is True or v is False:
                out.append((a, b, str(not v)))
            elif isinstance(v, int):
                out.append((a, b, str(v + 1)))
                if v > 0:
                    out.append((a, b, str(v - 1)))
            elif isinstance(v, float):
                out.append((a, b, repr(v * 1.01 if v else 0.01)))
            elif isinstance(v, str) and v in STR:
                out.append((a, b, repr(STR[v])))
        elif isinstance(n, ast.Attribute) and n.attr in NAME:
            a, b = span(n)
            out.append((a, b, src[a : b - len(n.attr)] + NAME[n.attr]))
        elif isinstance(n, ast.Name) and n.id in NAME:
            a, b = span(n)
            out.append((a, b, NAME[n.id]))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "copy" and not n.args:
            a, b = span(n)
            out.append((a, b, src[span(n.func.value)[0] : span(n.func.value)[1]]))
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            a, b = span(n)
            if isinstance(n, ast.Expr) and ".timer." in src[a:b]:
                continue
            out.append((a, b, "pass"))
        elif isinstance(n, ast.IfExp):
            a, b = span(n)
            body, test, orelse = (src[slice(*span(x))] for x in (n.body, n.test, n.orelse))
            out.append((a, b, f"({orelse})"))
    return sorted(set(out))


def main():
    out, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    files = sys.argv[4:] or sorted(FIRST)
    allm = []
    for f in files:
        src = open(os.path.join(REPO, "fvhoe", f)).read()
        for a, b, r in mutants(src):
            allm.append((f, a, b, r))
    random.Random(seed).shuffle(allm)
    print(len(allm), "mutants", flush=True)
    every = [f"C{i:02d}" for i in range(1, 25)]
    done = set()
    if os.path.exists(out):
        done = {tuple(json.loads(x)["m"]) for x in open(out)}
    for f, a, b, r in allm[:n]:
        if (f, a, b, r) in done:
            continue
        d = tempfile.mkdtemp(prefix="mut")
        try:
            shutil.copytree(REPO, d + "/r", ignore=shutil.ignore_patterns("snapshots", "__pycache__", "experiments", "notebooks"))
            p = os.path.join(d, "r/fvhoe", f)
            src = open(p).read()
            new = src[:a] + r + src[b:]
            line = src.count("\n", 0, a) + 1
            try:
                ast.parse(new)
            except SyntaxError:
                continue
            open(p, "w").write(new)
            env = dict(os.environ, VERIF_REPO=d + "/r", VERIF_SEED="1")
            order = FIRST.get(f, []) + ([c for c in every if c not in FIRST.get(f, [])] if os.environ.get("ALL") else [])
            verdicts = {}
            t0 = time.time()
            killed = None
            for c in order:
                pr = subprocess.run(["/opt/venv/bin/python", os.path.join(V, "check.py"), c], env=env, capture_output=True, text=True, timeout=1800)
                verdicts[c] = pr.returncode
                if pr.returncode:
                    killed = c
                    break
            rec = dict(m=[f, a, b, r], line=line, old=src[a:b], text=src.splitlines()[line - 1].strip(), killed=killed, rc=verdicts, wall=round(time.time() - t0, 1))
            with open(out, "a") as fo:
                fo.write(json.dumps(rec) + "\n")
        finally:
            shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    main()
