"""Behaviour-preserving rewrites of the sources: python3 tools/benign.py OUTDIR TRANSFORM [FILE ...]

Writes a copy of /repo/src with one refactoring applied everywhere it is safe; the checks have to stay quiet on it.
A development aid; no registered check uses it."""
import ast
import copy
import os
import shutil
import sys

SRC = "/repo/src"


def functions(tree):
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef,)):
            yield n


def own_nodes(fn):
    """nodes of the function without those of nested scopes"""
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def params(fn):
    a = fn.args
    return {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else [])}


def locals_of(fn):
    out, no = set(), params(fn)
    for n in own_nodes(fn):
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            no |= set(n.names)
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            no |= {(a.asname or a.name).split(".")[0] for a in n.names}
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            no.add(n.name)
        if isinstance(n, ast.ExceptHandler) and n.name:
            no.add(n.name)
    return out - no


class Counter:
    n = 0


def fresh(base="tmp"):
    Counter.n += 1
    return "%s_%d_" % (base, Counter.n)


def name(n, ctx=None):
    return ast.Name(n, ctx or ast.Load())


def assign(n, v):
    return ast.Assign([name(n, ast.Store())], v)


class Blocks(ast.NodeTransformer):
    """rewrites statement lists inside functions"""

    def __init__(self, f):
        self.f = f
        self.depth = 0

    def visit_FunctionDef(self, n):
        self.depth += 1
        self.generic_visit(n)
        self.depth -= 1
        return n

    def generic_visit(self, n):
        super().generic_visit(n)
        if self.depth:
            for fld in ("body", "orelse", "finalbody"):
                b = getattr(n, fld, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and not isinstance(n, ast.ClassDef):
                    setattr(n, fld, self.f(b))
        return n

    def visit(self, n):
        r = super().visit(n)
        if isinstance(n, ast.FunctionDef):
            n.body = self.f(n.body)
        return r


def doc_split(body):
    if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
        return body[:1], body[1:]
    return [], body


# ---------------------------------------------------------------- transforms: tree -> tree
def rename_locals(tree):
    for fn in list(functions(tree)):
        inner = [m for m in ast.walk(fn) if isinstance(m, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) and m is not fn]
        ls = locals_of(fn)
        for m in inner:  # a nested scope that binds the same name keeps the name
            if isinstance(m, ast.ClassDef):
                ls = set()
            else:
                ls -= params(m)
            for x in ast.walk(m):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    ls.discard(x.id)
        for n in ast.walk(fn):
            if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
                pass
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and n.id in ls:
                n.id = n.id + "_renamed"
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                n.names = [x + "_renamed" if x in ls else x for x in n.names]
    return tree


def return_temp(tree):
    def f(body):
        out = []
        for s in body:
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                t = fresh("result")
                out += [assign(t, s.value), ast.Return(name(t))]
            else:
                out.append(s)
        return out
    return Blocks(f).visit(tree)


def hoist_args(tree):
    """nested call arguments get their own statements"""
    def hoist(call, out):
        if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
            return
        if isinstance(call.func, ast.Name) and call.func.id in ("super",):
            return
        if isinstance(call.func, ast.Attribute) and any(isinstance(x, ast.Call) for x in ast.walk(call.func)):
            return
        for a in call.args:
            if isinstance(a, ast.Call):
                hoist(a, out)
        for i, a in enumerate(call.args):
            if isinstance(a, (ast.Call, ast.BinOp)) :
                t = fresh("arg")
                out.append(assign(t, a))
                call.args[i] = name(t)
        for k in call.keywords:
            if isinstance(k.value, (ast.Call, ast.BinOp)):
                t = fresh("arg")
                out.append(assign(t, k.value))
                k.value = name(t)

    def f(body):
        out = []
        for s in body:
            if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) and isinstance(s.value, ast.Call):
                hoist(s.value, out)
            out.append(s)
        return out
    return Blocks(f).visit(tree)


def split_binop(tree):
    """x = a <op> b with both sides compound: the sides get names first"""
    def f(body):
        out = []
        for s in body:
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.BinOp):
                for fld in ("left", "right"):
                    v = getattr(s.value, fld)
                    if isinstance(v, (ast.BinOp, ast.Call, ast.UnaryOp)) :
                        t = fresh("part")
                        out.append(assign(t, v))
                        setattr(s.value, fld, name(t))
            out.append(s)
        return out
    return Blocks(f).visit(tree)


def invert_if(tree):
    class X(ast.NodeTransformer):
        def visit_If(self, n):
            self.generic_visit(n)
            if n.orelse:
                t = n.test.operand if isinstance(n.test, ast.UnaryOp) and isinstance(n.test.op, ast.Not) else ast.UnaryOp(ast.Not(), n.test)
                return ast.If(t, n.orelse, n.body)
            return n
    return X().visit(tree)


def else_after_return(tree):
    def ends(b):
        return isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue))

    def f(body):
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and not s.orelse and ends(s.body) and i + 1 < len(body):
                s.orelse = f(body[i + 1:])
                return body[:i + 1]
        return body
    return Blocks(f).visit(tree)


def flatten_else(tree):
    """if c: return A else: B  ->  if c: return A; B"""
    def f(body):
        out = []
        for s in body:
            out.append(s)
            if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)):
                rest, s.orelse = s.orelse, []
                out += f(rest)
        return out
    return Blocks(f).visit(tree)


def ifexp_to_if(tree):
    def f(body):
        out = []
        for s in body:
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp) and (isinstance(s, ast.Return) or isinstance(s.targets[0], ast.Name)):
                e = s.value
                a, b = copy.deepcopy(s), copy.deepcopy(s)
                a.value, b.value = e.body, e.orelse
                out.append(ast.If(e.test, [a], [b]))
            else:
                out.append(s)
        return out
    return Blocks(f).visit(tree)


def for_to_while(tree):
    def f(body):
        out = []
        for s in body:
            if isinstance(s, ast.For) and not s.orelse:
                it = fresh("it")
                out.append(assign(it, ast.Call(name("iter"), [s.iter], [])))
                step = ast.Try([ast.Assign([s.target], ast.Call(name("next"), [name(it)], []))], [ast.ExceptHandler(name("StopIteration"), None, [ast.Break()])], [], [])
                out.append(ast.While(ast.Constant(True), [step] + s.body, []))
            else:
                out.append(s)
        return out
    return Blocks(f).visit(tree)


def for_to_index(tree):
    """for x in y -> seq = list(y); for i in range(len(seq)): x = seq[i]"""
    def f(body):
        out = []
        for s in body:
            if isinstance(s, ast.For) and not s.orelse:
                q, i = fresh("seq"), fresh("i")
                out.append(assign(q, ast.Call(name("list"), [s.iter], [])))
                out.append(ast.For(name(i, ast.Store()), ast.Call(name("range"), [ast.Call(name("len"), [name(q)], [])], []),
                                   [ast.Assign([s.target], ast.Subscript(name(q), name(i), ast.Load()))] + s.body, []))
            else:
                out.append(s)
        return out
    return Blocks(f).visit(tree)


def for_enumerate(tree):
    def f(body):
        for s in body:
            if isinstance(s, ast.For):
                s.target = ast.Tuple([name(fresh("i"), ast.Store()), s.target], ast.Store())
                s.iter = ast.Call(name("enumerate"), [s.iter], [])
        return body
    return Blocks(f).visit(tree)


def comp_to_loop(tree):
    def f(body):
        out = []
        for s in body:
            v = getattr(s, "value", None)
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(v, (ast.ListComp, ast.DictComp)) and len(v.generators) == 1:
                g = v.generators[0]
                tn = {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                if any(isinstance(x, (ast.Lambda, ast.ListComp)) for x in ast.walk(v) if x is not v):
                    out.append(s)
                    continue
                t = fresh("acc")
                ren = {x: fresh(x) for x in tn}
                for x in ast.walk(v):
                    if isinstance(x, ast.Name) and x.id in ren and not any(x is y for y in ast.walk(g.iter)):
                        x.id = ren[x.id]
                if isinstance(v, ast.ListComp):
                    out.append(assign(t, ast.List([], ast.Load())))
                    st = ast.Expr(ast.Call(ast.Attribute(name(t), "append", ast.Load()), [v.elt], []))
                else:
                    out.append(assign(t, ast.Dict([], [])))
                    st = ast.Assign([ast.Subscript(name(t), v.key, ast.Store())], v.value)
                b = [st]
                for c in reversed(g.ifs):
                    b = [ast.If(c, b, [])]
                out.append(ast.For(g.target, g.iter, b, []))
                s.value = name(t)
            out.append(s)
        return out
    return Blocks(f).visit(tree)


def loop_to_comp(tree):
    """x = []; for a in b: x.append(e)  ->  x = [e for a in b]"""
    def f(body):
        out, i = [], 0
        while i < len(body):
            s = body[i]
            n = body[i + 1] if i + 1 < len(body) else None
            if (isinstance(s, ast.Assign) and isinstance(s.value, ast.List) and not s.value.elts and isinstance(s.targets[0], ast.Name) and isinstance(n, ast.For) and not n.orelse and len(n.body) == 1
                    and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Call) and isinstance(n.body[0].value.func, ast.Attribute) and n.body[0].value.func.attr == "append"
                    and isinstance(n.body[0].value.func.value, ast.Name) and n.body[0].value.func.value.id == s.targets[0].id):
                e = n.body[0].value.args[0]
                if not any(isinstance(x, ast.Name) and x.id == s.targets[0].id for x in list(ast.walk(e)) + list(ast.walk(n.iter))):
                    out.append(assign(s.targets[0].id, ast.ListComp(e, [ast.comprehension(n.target, n.iter, [], 0)])))
                    i += 2
                    continue
            out.append(s)
            i += 1
        return out
    return Blocks(f).visit(tree)


def noop(tree):
    def f(body):
        d, b = doc_split(body)
        out = list(d)
        out.append(assign(fresh("unused"), ast.Constant(None)))
        for s in b:
            if isinstance(s, ast.Return):
                out.append(ast.Pass())
            out.append(s)
        return out
    for fn in functions(tree):
        fn.body = f(fn.body)
    return tree


def try_finally(tree):
    for fn in functions(tree):
        d, b = doc_split(fn.body)
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(fn)) or not b:
            continue
        fn.body = d + [ast.Try(b, [], [], [ast.Pass()])]
    return tree


def reraise(tree):
    for fn in functions(tree):
        d, b = doc_split(fn.body)
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(fn)) or not b:
            continue
        fn.body = d + [ast.Try(b, [ast.ExceptHandler(name("Exception"), None, [ast.Raise()])], [], [])]
    return tree


def method_impl(tree):
    """the body of every undecorated or property method moves into a helper method"""
    for c in [n for n in ast.walk(tree) if isinstance(n, ast.ClassDef)]:
        extra = []
        if any(isinstance(d, ast.Call) for d in c.decorator_list):
            pass
        for fn in list(c.body):
            if not isinstance(fn, ast.FunctionDef) or fn.name.startswith("__") or any(not (isinstance(d, ast.Name) and d.id == "property") for d in fn.decorator_list):
                continue
            a = fn.args
            if a.vararg or a.kwarg or a.posonlyargs or a.kwonlyargs or not a.args:
                continue
            if any(isinstance(x, ast.Name) and x.id == "super" for x in ast.walk(fn)):
                continue
            if fn.name.startswith("_hook") or "Transformer" in [getattr(b, "id", "") for b in c.bases]:
                continue
            h = copy.deepcopy(fn)
            h.name = "_impl_" + fn.name
            h.decorator_list = []
            d, b = doc_split(h.body)
            h.body = b or [ast.Pass()]
            h.args.defaults = []
            call = ast.Call(ast.Attribute(name(a.args[0].arg), h.name, ast.Load()), [name(x.arg) for x in a.args[1:]], [])
            d, b = doc_split(fn.body)
            fn.body = d + [ast.Return(call)]
            extra.append(h)
        c.body += extra
    return tree


def function_impl(tree):
    """the body of every module function moves into a helper function"""
    out = []
    for fn in tree.body:
        if isinstance(fn, ast.FunctionDef) and not fn.decorator_list and not fn.args.vararg and not fn.args.kwarg and not fn.args.kwonlyargs and not fn.args.posonlyargs:
            h = copy.deepcopy(fn)
            h.name = "_impl_" + fn.name
            d, b = doc_split(h.body)
            h.body = b or [ast.Pass()]
            h.args.defaults = []
            d, b = doc_split(fn.body)
            fn.body = d + [ast.Return(ast.Call(name(h.name), [name(x.arg) for x in fn.args.args], []))]
            out += [h, fn]
        else:
            out.append(fn)
    tree.body = out
    return tree


def expr_helpers(tree):
    """compound right-hand sides become module-level helper functions"""
    helpers = []
    for fn in list(functions(tree)):
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(fn)):
            continue
        scope = locals_of(fn) | params(fn)
        nested = any(isinstance(m, (ast.FunctionDef, ast.Lambda)) for m in ast.walk(fn) if m is not fn)
        outer = getattr(fn, "_outer", None)
        if outer:
            continue
        for m in ast.walk(fn):
            if isinstance(m, ast.FunctionDef) and m is not fn:
                m._outer = True
        inner = {m.name for m in ast.walk(fn) if isinstance(m, (ast.FunctionDef, ast.ClassDef)) and m is not fn}
        imported = {(a.asname or a.name).split(".")[0] for m in ast.walk(fn) if isinstance(m, (ast.Import, ast.ImportFrom)) for a in m.names}
        for s in list(own_nodes(fn)):
            if not isinstance(s, (ast.Assign, ast.Return)) or not isinstance(s.value, (ast.BinOp, ast.Call, ast.Subscript)):
                continue
            v = s.value
            bad = any(isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp, ast.NamedExpr, ast.Await)) for x in ast.walk(v))
            names = [x.id for x in ast.walk(v) if isinstance(x, ast.Name)]
            if bad or "super" in names or "__class__" in names or any(x in inner or x in imported for x in names) or any(isinstance(x, ast.Attribute) and x.attr.startswith("__") for x in ast.walk(v)):
                continue
            if len(list(ast.walk(v))) < 6:
                continue
            used = []
            for x in names:
                if x in scope and x not in used:
                    used.append(x)
            h = "_helper" + str(len(helpers))
            helpers.append(ast.FunctionDef(h, ast.arguments([], [ast.arg(x) for x in used], None, [], [], None, []), [ast.Return(v)], []))
            s.value = ast.Call(name(h), [name(x) for x in used], [])
    at = 0
    for i, s in enumerate(tree.body):
        if isinstance(s, (ast.Import, ast.ImportFrom)) or (i == 0 and isinstance(s, ast.Expr)):
            at = i + 1
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            break
    else:
        i = len(tree.body)
    tree.body[i:i] = helpers
    return tree


def swap_mult(tree):
    class X(ast.NodeTransformer):
        def visit_BinOp(self, n):
            self.generic_visit(n)
            if isinstance(n.op, ast.Mult):
                return ast.BinOp(n.right, n.op, n.left)
            return n
    return X().visit(tree)


def square(tree):
    class X(ast.NodeTransformer):
        def visit_BinOp(self, n):
            self.generic_visit(n)
            if isinstance(n.op, ast.Pow) and isinstance(n.left, ast.Name) and isinstance(n.right, ast.Constant) and n.right.value == 2:
                return ast.BinOp(n.left, ast.Mult(), name(n.left.id))
            return n
    return X().visit(tree)


def numpy_name(tree):
    """np.x -> numpy.x"""
    has = any(isinstance(s, ast.Import) and any(a.name == "numpy" and a.asname == "np" for a in s.names) for s in tree.body)
    if not has:
        return tree
    for n in ast.walk(tree):
        if isinstance(n, ast.Name) and n.id == "np":
            n.id = "numpy"
    for s in tree.body:
        if isinstance(s, ast.Import):
            for a in s.names:
                if a.name == "numpy" and a.asname == "np":
                    a.asname = None
    return tree


def numpy_functions(tree):
    """np.f(...) -> f(...) imported from numpy"""
    has = [s for s in tree.body if isinstance(s, ast.Import) and any(a.name == "numpy" and a.asname == "np" for a in s.names)]
    if not has:
        return tree
    used = set()

    class X(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            f = n.func
            if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == "np":
                used.add(f.attr)
                n.func = name("np_" + f.attr)
            return n
    X().visit(tree)
    if used:
        tree.body.insert(tree.body.index(has[0]) + 1, ast.ImportFrom("numpy", [ast.alias(u, "np_" + u) for u in sorted(used)], 0))
    return tree


def split_and(tree):
    """if a and b: X  ->  if a: if b: X"""
    class X(ast.NodeTransformer):
        def visit_If(self, n):
            self.generic_visit(n)
            if not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
                b = n.body
                for t in reversed(n.test.values):
                    b = [ast.If(t, b, [])]
                return b[0]
            return n
    return X().visit(tree)


def de_morgan(tree):
    class X(ast.NodeTransformer):
        def visit_If(self, n):
            self.generic_visit(n)
            if isinstance(n.test, ast.BoolOp):
                op = ast.And() if isinstance(n.test.op, ast.Or) else ast.Or()
                n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in n.test.values]))
            return n
    return X().visit(tree)


def chained_compare(tree):
    class X(ast.NodeTransformer):
        def visit_Compare(self, n):
            self.generic_visit(n)
            if len(n.ops) > 1 and all(isinstance(x, (ast.Name, ast.Constant, ast.Attribute)) for x in [n.left] + n.comparators):
                xs = [n.left] + n.comparators
                return ast.BoolOp(ast.And(), [ast.Compare(copy.deepcopy(a), [o], [copy.deepcopy(b)]) for a, o, b in zip(xs, n.ops, xs[1:])])
            return n
    return X().visit(tree)


def flip_compare(tree):
    """a < b -> b > a"""
    F = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    class X(ast.NodeTransformer):
        def visit_Compare(self, n):
            self.generic_visit(n)
            if len(n.ops) == 1 and type(n.ops[0]) in F:
                return ast.Compare(n.comparators[0], [F[type(n.ops[0])]()], [n.left])
            return n
    return X().visit(tree)


def fstring_format(tree):
    class X(ast.NodeTransformer):
        def visit_JoinedStr(self, n):
            t, args = "", []
            for v in n.values:
                if isinstance(v, ast.Constant):
                    t += v.value.replace("{", "{{").replace("}", "}}")
                elif v.format_spec is not None or v.conversion not in (-1,):
                    return n
                else:
                    t += "{}"
                    args.append(v.value)
            return ast.Call(ast.Attribute(ast.Constant(t), "format", ast.Load()), args, [])
    return X().visit(tree)


def isinstance_or(tree):
    class X(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Name) and n.func.id == "isinstance" and isinstance(n.args[1], ast.Tuple) and isinstance(n.args[0], ast.Name):
                return ast.BoolOp(ast.Or(), [ast.Call(name("isinstance"), [copy.deepcopy(n.args[0]), t], []) for t in n.args[1].elts])
            return n
    return X().visit(tree)


def lambda_def(tree):
    def f(body):
        out = []
        for s in body:
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.Lambda) and isinstance(s.targets[0], ast.Name):
                out.append(ast.FunctionDef(s.targets[0].id, s.value.args, [ast.Return(s.value.body)], []))
            else:
                v = getattr(s, "value", None)
                if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) and isinstance(v, ast.Call):
                    for i, a in enumerate(v.args):
                        if isinstance(a, ast.Lambda):
                            t = fresh("fn")
                            out.append(ast.FunctionDef(t, a.args, [ast.Return(a.body)], []))
                            v.args[i] = name(t)
                out.append(s)
        return out
    return Blocks(f).visit(tree)


def reorder_methods(tree):
    for c in [n for n in ast.walk(tree) if isinstance(n, ast.ClassDef)]:
        ms = [s for s in c.body if isinstance(s, ast.FunctionDef) and not s.decorator_list]
        rev = iter(reversed(ms))
        c.body = [next(rev) if s in ms else s for s in c.body]
    return tree


def reorder_assigns(tree):
    """swap neighbouring independent call-free assignments"""
    def pure(v):
        return not any(isinstance(x, (ast.Call, ast.Subscript, ast.NamedExpr, ast.Attribute)) for x in ast.walk(v))

    def f(body):
        i = 0
        body = list(body)
        while i + 1 < len(body):
            a, b = body[i], body[i + 1]
            if all(isinstance(s, ast.Assign) and isinstance(s.targets[0], (ast.Name, ast.Attribute)) and len(s.targets) == 1 and pure(s.value) for s in (a, b)):
                ta, tb = ast.unparse(a.targets[0]), ast.unparse(b.targets[0])
                na = {x.id for x in ast.walk(a) if isinstance(x, ast.Name)}
                nb = {x.id for x in ast.walk(b) if isinstance(x, ast.Name)}
                if ta != tb and ta.split(".")[0] not in {x.id for x in ast.walk(b.value) if isinstance(x, ast.Name)} and tb.split(".")[0] not in {x.id for x in ast.walk(a.value) if isinstance(x, ast.Name)}:
                    body[i], body[i + 1] = b, a
                    i += 2
                    continue
            i += 1
        return body
    return Blocks(f).visit(tree)


def while_true(tree):
    class X(ast.NodeTransformer):
        def visit_While(self, n):
            self.generic_visit(n)
            if not n.orelse and not isinstance(n.test, ast.Constant):
                return ast.While(ast.Constant(True), [ast.If(ast.UnaryOp(ast.Not(), n.test), [ast.Break()], [])] + n.body, [])
            return n
    return X().visit(tree)


def unpack_tuple(tree):
    """a, b = x, y -> a = x; b = y when independent; a, b = f() -> t = f(); a = t[0]; b = t[1]"""
    def f(body):
        out = []
        for s in body:
            if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Tuple) and len(s.targets) == 1 and isinstance(s.value, ast.Tuple) and all(isinstance(e, ast.Name) for e in s.targets[0].elts):
                ts = [fresh("t") for _ in s.value.elts]
                out += [assign(t, v) for t, v in zip(ts, s.value.elts)] + [assign(e.id, name(t)) for e, t in zip(s.targets[0].elts, ts)]
            else:
                out.append(s)
        return out
    return Blocks(f).visit(tree)


def dict_call(tree):
    class X(ast.NodeTransformer):
        def visit_Dict(self, n):
            self.generic_visit(n)
            if n.keys and all(isinstance(k, ast.Constant) and isinstance(k.value, str) and k.value.isidentifier() for k in n.keys):
                return ast.Call(name("dict"), [], [ast.keyword(k.value, v) for k, v in zip(n.keys, n.values)])
            return n
    return X().visit(tree)


def param_local(tree):
    """parameters are copied to locals that are used instead"""
    for fn in list(functions(tree)):
        ps = [a.arg for a in fn.args.args if a.arg not in ("self", "cls")]
        if any(isinstance(m, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.GeneratorExp, ast.DictComp)) for m in ast.walk(fn) if m is not fn):
            continue
        if any(isinstance(x, (ast.Yield, ast.Global)) for x in ast.walk(fn)) or any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "locals" for x in ast.walk(fn)):
            continue
        d, b = doc_split(fn.body)
        if not b:
            continue
        used = {x.id for s in b for x in ast.walk(s) if isinstance(x, ast.Name)}
        ps = [p for p in ps if p in used]
        for s in b:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and x.id in ps:
                    x.id = "the_" + x.id
        fn.body = d + [assign("the_" + p, name(p)) for p in ps] + b
    return tree


def self_local(tree):
    """reads of self.attr through a local alias of self"""
    for c in [n for n in ast.walk(tree) if isinstance(n, ast.ClassDef)]:
        for fn in c.body:
            if not isinstance(fn, ast.FunctionDef) or not fn.args.args or fn.args.args[0].arg != "self" or any(isinstance(x, ast.Name) and x.id == "super" for x in ast.walk(fn)):
                continue
            d, b = doc_split(fn.body)
            if not b:
                continue
            for s in b:
                for x in ast.walk(s):
                    if isinstance(x, ast.Name) and x.id == "self":
                        x.id = "this"
            fn.body = d + [assign("this", name("self"))] + b
    return tree


def getter(tree):
    """self.attr reads of constructor-set plain attributes go through getattr"""
    class X(ast.NodeTransformer):
        def visit_Attribute(self, n):
            self.generic_visit(n)
            if isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == "self" and not n.attr.startswith("__"):
                return ast.Call(name("getattr"), [n.value, ast.Constant(n.attr)], [])
            return n
    return X().visit(tree)


def comment(tree):
    return tree


def keywords(tree):
    """positional arguments of calls to functions of the same module become keywords"""
    sig = {f.name: [a.arg for a in f.args.args] for f in tree.body if isinstance(f, ast.FunctionDef) and not f.args.vararg and not f.args.posonlyargs}
    shadow = set()
    for fn in functions(tree):
        shadow |= locals_of(fn) | params(fn)

    class X(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Name) and n.func.id in sig and n.func.id not in shadow and not any(isinstance(a, ast.Starred) for a in n.args) and len(n.args) <= len(sig[n.func.id]):
                n.keywords = [ast.keyword(k, v) for k, v in zip(sig[n.func.id], n.args)] + n.keywords
                n.args = []
            return n
    return X().visit(tree)


TRANSFORMS = {f.__name__: f for f in (rename_locals, return_temp, hoist_args, split_binop, invert_if, else_after_return, flatten_else, ifexp_to_if, for_to_while, for_to_index, for_enumerate, comp_to_loop, loop_to_comp,
                                      noop, try_finally, reraise, method_impl, function_impl, expr_helpers, swap_mult, square, numpy_name, numpy_functions, split_and, de_morgan, chained_compare, flip_compare,
                                      fstring_format, isinstance_or, lambda_def, reorder_methods, reorder_assigns, while_true, unpack_tuple, dict_call, param_local, self_local, getter, comment, keywords)}


def main():
    out, tr, only = sys.argv[1], sys.argv[2], sys.argv[3:]
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(SRC, os.path.join(out, "src"), ignore=shutil.ignore_patterns("__pycache__"))
    n = 0
    for d, _, fs in os.walk(os.path.join(out, "src")):
        for f in sorted(fs):
            p = os.path.join(d, f)
            rel = os.path.relpath(p, os.path.join(out, "src", "elli"))
            if not f.endswith(".py") or (only and rel not in only):
                continue
            text = open(p, encoding="utf-8").read()
            tree = ast.parse(text)
            for t in tr.split("+"):
                tree = TRANSFORMS[t](tree)
                tree = ast.parse(ast.unparse(ast.fix_missing_locations(tree)))
            new = ast.unparse(tree) + "\n# a trailing comment\n"
            n += ast.dump(ast.parse(text)) != ast.dump(tree)
            open(p, "w", encoding="utf-8").write(new)
    print("%s: %d files changed" % (tr, n))


if __name__ == "__main__":
    main()
