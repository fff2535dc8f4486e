"""Mutation campaign: python3 tools/mutate.py FILE[,FILE...] [--every N] [--out LOG] [--props C01,C02]

Plants small syntactic changes in copies of /repo/src and reports which of the checks notice them.
A development aid; no registered check uses it."""
import argparse
import ast
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/src/elli/"
CHECKS = {
    "structure.py": "C13 C05 C01 C02 C25 C12 C16 C06",
    "result.py": "C03 C11 C10 C26 C25 C02 C05 C18",
    "utils.py": "C14 C10 C26 C05 C16 C07 C18 C17",
    "materials.py": "C14 C15 C05 C13 C01 C25 C16",
    "solver.py": "C02 C12 C16 C01 C26", "solver2x2.py": "C02 C12 C01 C06 C26", "solver4x4.py": "C16 C02 C12 C01 C06 C26",
    "experiment.py": "C23 C05 C02 C01 C25 C06",
    "dispersions/": "C08 C09 C04 C27 C21 C01 C25 C02 C07 C32", "formula_parser/": "C21", "kkr/": "C24", "importer/": "C17 C27 C18 C32", "fitting/": "C19 C20",
    "database/": "C22 C31 C18", "units.py": "C17 C07 C21 C18", "__init__.py": "C27", "plot/": "C33",
}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.MatMult: None, ast.BitOr: None, ast.Mod: None}
NAMES = {"sin": "cos", "cos": "sin", "real": "imag", "imag": "real", "min": "max", "max": "min", "deg2rad": "rad2deg", "rad2deg": "deg2rad", "n": "k", "psi": "delta", "delta": "psi", "R": "T", "T": "R",
         "abs": "real", "exp": "sin", "sqrt": "abs", "append": "count", "any": "all", "all": "any", "isin": "eq", "conj": "real"}


def mutants(text):
    lines = text.split("\n")
    offs = [0]
    for ln in text.encode().split(b"\n"):
        offs.append(offs[-1] + len(ln) + 1)
    raw = text.encode()

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def src(n):
        a, b = span(n)
        return raw[a:b].decode()

    out = []

    def put(n, new, what):
        a, b = span(n)
        out.append((n.lineno, what, (raw[:a] + new.encode() + raw[b:]).decode()))

    tree = ast.parse(text)
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0])
        for f in ("annotation", "returns"):
            a = getattr(n, f, None)
            if isinstance(a, ast.AST):
                for m in ast.walk(a):
                    docs.add(m)
        if isinstance(n, (ast.Raise, ast.JoinedStr, ast.Import, ast.ImportFrom)):
            for m in ast.walk(n):
                if m is not n or not isinstance(n, ast.Raise):
                    docs.add(m)
    for n in ast.walk(tree):
        if n in docs:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            put(n, "%s %s %s" % (src(n.left), CMP[type(n.ops[0])], src(n.comparators[0])), "compare")
        elif isinstance(n, ast.BinOp):
            o = BIN.get(type(n.op))
            if o:
                put(n, "(%s %s %s)" % (src(n.left), o, src(n.right)), "binop")
            if isinstance(n.op, (ast.Sub, ast.Div, ast.MatMult, ast.Pow)):
                sym = {ast.Sub: "-", ast.Div: "/", ast.MatMult: "@", ast.Pow: "**"}[type(n.op)]
                put(n, "((%s) %s (%s))" % (src(n.right), sym, src(n.left)), "swap operands")
        elif isinstance(n, ast.BoolOp):
            sym = " or " if isinstance(n.op, ast.And) else " and "
            put(n, sym.join("(%s)" % src(v) for v in n.values), "boolop")
            put(n, "(%s)" % src(n.values[0]), "drop operand")
        elif isinstance(n, ast.UnaryOp):
            put(n, "(%s)" % src(n.operand), "drop unary")
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                put(n, str(not n.value), "constant")
            elif isinstance(n.value, (int, float)):
                put(n, "(%r)" % (n.value + 1), "constant")
                if n.value not in (0, 1):
                    put(n, "(%r)" % (n.value / 2 if isinstance(n.value, float) else n.value - 1), "constant-")
            elif isinstance(n.value, complex):
                put(n, "(-%s)" % src(n), "constant")
            elif isinstance(n.value, str) and n.value and n.value.isidentifier():
                put(n, repr(n.value + "x"), "string")
        elif isinstance(n, ast.Call):
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]):
                a, b = n.args[0], n.args[1]
                x, y = span(a)[0], span(b)[1]
                out.append((n.lineno, "swap args", (raw[:x] + src(b).encode() + b", " + src(a).encode() + raw[y:]).decode()))
            if len(n.args) == 1 and not n.keywords and not isinstance(n.args[0], (ast.Starred, ast.GeneratorExp)):
                put(n, "(%s)" % src(n.args[0]), "drop call")
            if not n.args and isinstance(n.func, ast.Attribute):
                put(n, "(%s)" % src(n.func.value), "drop method call")
            for kw in n.keywords:
                rest = [src(a) for a in n.args] + [("%s=%s" % (k.arg, src(k.value)) if k.arg else "**" + src(k.value)) for k in n.keywords if k is not kw]
                put(n, "%s(%s)" % (src(n.func), ", ".join(rest)), "drop keyword %s" % kw.arg)
        elif isinstance(n, ast.If):
            put(n.test, "not (%s)" % src(n.test), "negate if")
            put(n.test, "False", "if False")
        elif isinstance(n, ast.IfExp):
            put(n.test, "not (%s)" % src(n.test), "negate ifexp")
        elif isinstance(n, ast.Slice):
            for f in (n.lower, n.upper, n.step):
                if f is not None:
                    put(f, "(%s) + 1" % src(f), "slice")
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)):
            put(n, "pass", "delete statement")
        elif isinstance(n, ast.Return) and n.value is not None:
            put(n, "return", "return nothing")
        elif isinstance(n, ast.Raise):
            put(n, "pass", "delete raise")
        elif isinstance(n, (ast.Attribute,)):
            if n.attr in NAMES:
                put(n, "%s.%s" % (src(n.value), NAMES[n.attr]), "name")
        elif isinstance(n, ast.Tuple) and len(n.elts) == 2 and isinstance(n.ctx, ast.Load):
            put(n, "(%s, %s)" % (src(n.elts[1]), src(n.elts[0])), "swap tuple")
        elif isinstance(n, ast.For):
            put(n.iter, "list(%s)[1:]" % src(n.iter), "skip first")
            put(n.iter, "list(%s)[:-1]" % src(n.iter), "skip last")
        elif isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                pass
    good = []
    for ln, what, t in out:
        try:
            ast.parse(t)
        except SyntaxError:
            continue
        if t != text:
            good.append((ln, what, t))
    good.sort(key=lambda g: (g[0], g[1]))
    return good


def diffline(a, b):
    for i, (x, y) in enumerate(zip(a.split("\n"), b.split("\n"))):
        if x != y:
            return "%d: %s  =>  %s" % (i + 1, x.strip()[:110], y.strip()[:130])
    return "?"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("files")
    ap.add_argument("--every", type=int, default=1)
    ap.add_argument("--first", type=int, default=0)
    ap.add_argument("--jobs", type=int, default=7)
    ap.add_argument("--props")
    ap.add_argument("--timeout", type=int, default=400)
    ap.add_argument("--only", help="log of an earlier campaign: only the mutants which survived it")
    a = ap.parse_args()
    work = "/tmp/mutants.%d" % os.getpid()
    os.makedirs(work)
    todo = []
    for f in a.files.split(","):
        text = open(SRC + f).read()
        props = a.props.split(",") if a.props else next(v for k, v in CHECKS.items() if f.startswith(k)).split()
        for i, (ln, what, t) in enumerate(mutants(text)):
            if i % a.every == a.first:
                todo.append((len(todo), f, what, t, diffline(text, t), props))
    if a.only:
        left = {x.split(" ", 1)[1].split(None, 1)[1].strip() for x in open(a.only) if x.startswith("SURVIVED")}
        todo = [m for m in todo if "%s:%s [%s]" % (m[1], m[4], m[2]) in left]
    print("%d mutants" % len(todo), flush=True)

    def one(m):
        n, f, what, t, d, props = m
        w = os.path.join(work, str(n))
        shutil.copytree("/repo/src", w + "/src", ignore=shutil.ignore_patterns("__pycache__", "*.so", "*.egg-info"))
        with open(w + "/src/elli/" + f, "w") as g:
            g.write(t)
        env = dict(os.environ, SA_REPO=w, SA_JOBS="1", SA_EVIDENCE=w + "/ev")
        env.pop("VERIF_TIER", None)
        und, verdict = 0, "SURVIVED"
        for p in props:
            try:
                r = subprocess.run([sys.executable, "-m", "sa.run", p], cwd=ROOT, env=env, capture_output=True, text=True, timeout=a.timeout)
            except subprocess.TimeoutExpired:
                verdict = "TIMEOUT " + p
                break
            if r.returncode == 1:
                verdict = "caught " + p
                break
            if r.returncode not in (0, 1):
                verdict = "rc=%d %s %s" % (r.returncode, p, r.stdout[-200:])
                if "rc=2" in verdict:
                    break
            und += r.stdout.count("\nUNDECIDED ") + r.stdout.startswith("UNDECIDED")
            if "import/" in r.stdout and "raises" in r.stdout and "importing elli" in r.stdout:
                verdict = "import-error"
                break
        shutil.rmtree(w)
        print("%-14s u=%-3d %s:%s [%s]" % (verdict, und, f, d, what), flush=True)

    with ThreadPoolExecutor(a.jobs) as ex:
        list(ex.map(one, todo))
    shutil.rmtree(work)


if __name__ == "__main__":
    main()
