"""Abstract arrays: shape (ints and symbolic sizes) x pointwise terms.

Axes of known size are explicit, axes of symbolic size are implicit: elements are
terms over the index variable `$k` of that axis, k = axis position from the right.
"""
import itertools

from . import terms as T
from .terms import Term, mk, var


BIG = 64  # longer axes of constant length stay implicit


class ShapeError(Exception):
    pass


class Unsupported(Exception):
    pass


def isint(d):
    return isinstance(d, int)


class ArrV:
    __slots__ = ("shape", "elems", "roots", "meta")

    def __init__(self, shape, elems, roots=frozenset(), meta=None):
        self.shape = tuple(shape)
        self.elems = tuple(elems)
        self.roots = roots
        self.meta = meta

    @property
    def ndim(self):
        return len(self.shape)

    def intdims(self):
        return [d for d in self.shape if isint(d)]

    def offset(self, idx):
        o = 0
        for d, i in zip(self.shape, idx):
            if isint(d):
                o = o * d + i
        return o

    def at(self, idx):
        return self.elems[self.offset(idx)]

    def map(self, f):
        return ArrV(self.shape, [f(e) for e in self.elems])

    def __repr__(self):
        return "ArrV(%s, %s)" % (self.shape, list(self.elems[:9]))

    def key(self):
        return ("arr", self.shape, self.elems)


def indices(shape):
    return itertools.product(*[range(d) if isint(d) else (None,) for d in shape])


def scalar(t):
    return ArrV((), (t,))


def broadcast(shapes):
    n = max((len(s) for s in shapes), default=0)
    out = []
    for k in range(n):  # from the right
        d = 1
        for s in shapes:
            if k < len(s):
                e = s[len(s) - 1 - k]
                if isint(e) and e == 1:
                    continue
                if isint(d) and d == 1:
                    d = e
                elif d is e or d == e:
                    continue
                elif isinstance(d, Term) and isinstance(e, Term):
                    if soft(d) or soft(e):
                        d = e if soft(d) else d
                        continue
                    raise ShapeError("operands could not be broadcast: %s" % (shapes,))
                elif isinstance(d, Term) and soft(d):
                    d = e
                elif isinstance(e, Term) and soft(e):
                    continue
                else:
                    raise ShapeError("operands could not be broadcast together: %s" % (shapes,))
        out.append(d)
    return tuple(reversed(out))


def soft(d):
    return d.op == "ext" or (d.op == "fn" and d.args[0] in ("nsel", "len"))


def shaky(*vals):
    """operands involving the result of an operation whose array shape is unknown"""
    def unknown(t):
        return t.op in ("item", "meth", "stored", "loopout") or t.op == "ext" and isinstance(t.args[0], str) and (t.args[0].startswith(("numpy.", "scipy.")) or t.args[0] == "matmul")
    for v in vals:
        if isinstance(v, Term):
            v = (v,)
        elif isinstance(v, ArrV):
            v = v.elems
        elif not isinstance(v, (list, tuple)):
            continue
        for e in v:
            if isinstance(e, Term) and T.atoms(e, unknown):
                return True
    return False


def bindex(idx, shape):
    """index into an operand of `shape` for full index idx"""
    off = len(idx) - len(shape)
    r = []
    for k, d in enumerate(shape):
        i = idx[off + k]
        if isint(d):
            r.append(0 if d == 1 else i)
        else:
            r.append(None)
    return r


def elementwise(f, *arrs):
    shape = broadcast([a.shape for a in arrs])
    if all(a.shape == shape for a in arrs):
        return ArrV(shape, [f(*es) for es in zip(*[a.elems for a in arrs])])
    out = []
    for idx in indices(shape):
        out.append(f(*[a.at(bindex(idx, a.shape)) for a in arrs]))
    return ArrV(shape, out)


def broadcast_to(a, shape):
    if a.shape == tuple(shape):
        return a
    b = broadcast([a.shape, tuple(shape)])
    if b != tuple(shape):
        raise ShapeError("cannot broadcast %s to %s" % (a.shape, shape))
    return ArrV(shape, [a.at(bindex(idx, a.shape)) for idx in indices(shape)])


def rename(a, shape, order, mapping):
    """helper: order = list of source indices, mapping = var renaming"""
    if mapping and any(k != v for k, v in mapping.items()):
        memo = {}
        return ArrV(shape, [T.rename_vars(a.at(i), mapping, memo) for i in order])
    return ArrV(shape, [a.at(i) for i in order])


def axisvar(ndim, ax):
    return ndim - ax


def transpose(a, perm):
    n = a.ndim
    shape = tuple(a.shape[p] for p in perm)
    mapping = {}
    for newax, p in enumerate(perm):
        if not isint(a.shape[p]):
            mapping[axisvar(n, p)] = axisvar(n, newax)
    order = []
    for idx in indices(shape):
        src = [None] * n
        for newax, p in enumerate(perm):
            src[p] = idx[newax]
        order.append(src)
    r = rename(a, shape, order, mapping)
    r.roots = a.roots
    return r


def moveaxis(a, src, dst):
    n = a.ndim
    if any(not -n <= s < n for s in list(src) + list(dst)):
        raise ShapeError("axis out of bounds for array of dimension %d" % n)
    src = [s % n for s in src]
    dst = [d % n for d in dst]
    order = [i for i in range(n) if i not in src]
    for d, s in sorted(zip(dst, src)):
        order.insert(d, s)
    return transpose(a, order)


def dimterm(d):
    return T.num(d) if isint(d) else d


class Sl:
    """slice with Term/None bounds"""
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo=None, hi=None, step=None):
        self.lo, self.hi, self.step = lo, hi, step

    @property
    def full(self):
        return self.lo is None and self.hi is None and self.step is None


NEWAXIS = object()
ELLIPSIS = object()


def expand_key(a_ndim, key):
    n = sum(1 for k in key if k is not NEWAXIS and k is not ELLIPSIS)
    if n > a_ndim:
        raise ShapeError("too many indices for array: array is %d-dimensional" % a_ndim)
    out = []
    seen = False
    for k in key:
        if k is ELLIPSIS and not seen:
            out += [Sl()] * (a_ndim - n)
            seen = True
        elif k is ELLIPSIS:
            pass
        else:
            out.append(k)
    if not seen:
        out += [Sl()] * (a_ndim - n)
    return out


def slice_symdim(d, s):
    """-> (newsize, f(varterm) -> index term)"""
    step = T.cval(s.step) if s.step is not None else 1
    if step == 1:
        lo = s.lo if s.lo is not None else T.ZERO
        if T.is_num(lo) and lo.args[0] < 0:
            lo = T.add(d, lo)
        hi = s.hi if s.hi is not None else d
        if T.is_num(hi) and hi.args[0] < 0:
            hi = T.add(d, hi)
        size = T.sub(hi, lo)
        if T.is_num(size) and size.args[0] <= BIG:
            size = int(size.args[0])
        return size, (lambda v: T.add(v, lo))
    if step == -1 and s.lo is None and s.hi is None:
        return d, (lambda v: T.sub(T.add(d, T.MONE), v))
    if isinstance(step, (int, T.Fraction)) and step > 1:
        # lo::k  (lo >= 0 constant, open or symbolic end)
        lo = s.lo if s.lo is not None else T.ZERO
        hi = s.hi if s.hi is not None else d
        if T.is_num(lo) and lo.args[0] < 0:
            lo = T.add(d, lo)
        if T.is_num(hi) and hi.args[0] < 0:
            hi = T.add(d, hi)
        k = T.num(int(step))
        cnt = T.add(T.sub(hi, lo), T.num(int(step) - 1))
        if T.is_num(cnt) and cnt.args[0] // step > BIG:
            return T.num(int(cnt.args[0] // step)), (lambda v: T.add(lo, T.mul(k, v)))
        if T.is_num(cnt):
            return max(0, int(cnt.args[0] // step)), (lambda v: T.add(lo, T.mul(k, v)))
        size = mk("fn", "floordiv", cnt, k)
        return size, (lambda v: T.add(lo, T.mul(k, v)))
    raise Unsupported("strided slice on symbolic axis")


def index(a, key):
    """key: tuple of int | Term(int) | Sl | NEWAXIS | ELLIPSIS | list[int] | ArrV(bool mask / int)"""
    key = expand_key(a.ndim, key)
    # boolean mask over all remaining axes?
    for k in key:
        if isinstance(k, ArrV):
            return fancy(a, key)
    n = a.ndim
    src_ax = 0
    newshape = []
    picks = []  # per source axis: ('fix', i) | ('sel', [i...], newax) | ('sym', newax) | ('subst', Term)
    lists = [k for k in key if isinstance(k, list)]
    listax = None
    for k in key:
        if k is NEWAXIS:
            newshape.append(1)
            continue
        d = a.shape[src_ax]
        if isinstance(k, Term) and T.is_num(k):
            k = int(k.args[0])
        if isinstance(k, bool):
            raise Unsupported("bool index")
        if isinstance(k, int):
            if isint(d):
                if not -d <= k < d:
                    raise IndexError("index %d is out of bounds for axis with size %d" % (k, d))
                picks.append(("fix", k % d))
            else:
                picks.append(("subst", T.num(k) if k >= 0 else T.add(d, T.num(k))))
        elif isinstance(k, Term):
            if isint(d):
                picks.append(("pickterm", k))
            else:
                picks.append(("subst", k))
        elif isinstance(k, Sl):
            if isint(d):
                lo = None if k.lo is None else int(T.cval(k.lo))
                hi = None if k.hi is None else int(T.cval(k.hi))
                st = None if k.step is None else int(T.cval(k.step))
                sel = list(range(d))[lo:hi:st]
                picks.append(("sel", sel, len(newshape)))
                newshape.append(len(sel))
            elif k.full:
                picks.append(("sym", len(newshape), None))
                newshape.append(d)
            else:
                size, f = slice_symdim(d, k)
                if isint(size):
                    # symbolic axis cut to known size
                    picks.append(("cut", len(newshape), f, size))
                    newshape.append(size)
                else:
                    picks.append(("sym", len(newshape), f))
                    newshape.append(size)
        elif isinstance(k, list):
            if len(lists) > 1:
                if listax is None:
                    listax = len(newshape)
                    newshape.append(len(k))
                pos = listax
            else:
                pos = len(newshape)
                newshape.append(len(k))
            if isint(d):
                picks.append(("sel", [i % d for i in k], pos))
            else:
                picks.append(("subs", [T.num(i) if i >= 0 else T.add(d, T.num(i)) for i in k], pos))
        else:
            raise Unsupported("index %r" % (k,))
        src_ax += 1
    newn = len(newshape)
    base_map = {}
    for ax, p in enumerate(picks):
        if p[0] == "subst":
            base_map[axisvar(n, ax)] = p[1]
        elif p[0] == "sym":
            nv = var(axisvar(newn, p[1]))
            base_map[axisvar(n, ax)] = p[2](nv) if p[2] else nv
    out = []
    memo = {}
    for idx in indices(newshape):
        src = []
        m = None
        alts = None
        for ax, p in enumerate(picks):
            if p[0] == "fix":
                src.append(p[1])
            elif p[0] == "sel":
                src.append(p[1][idx[p[2]]])
            elif p[0] == "cut":
                src.append(None)
                m = m or dict(base_map)
                m[axisvar(n, ax)] = p[2](T.num(idx[p[1]]))
            elif p[0] == "subs":
                src.append(None)
                m = m or dict(base_map)
                m[axisvar(n, ax)] = p[1][idx[p[2]]]
            elif p[0] == "pickterm":
                src.append(0)
                alts = (ax, p[1])
            else:
                src.append(None)
        if alts is not None:
            ax, t = alts
            d = a.shape[ax]
            e = None
            for i in reversed(range(d)):
                src[ax] = i
                v = a.at(src)
                e = v if e is None else T.ite(T.eq(t, T.num(i)), v, e)
        else:
            e = a.at(src)
        if m is not None:
            e = T.rename_vars(e, m)
        elif base_map:
            e = T.rename_vars(e, base_map, memo)
        out.append(e)
    return ArrV(newshape, out, a.roots)


def adv(a, key):
    """several integer index arrays (broadcast against each other), full slices elsewhere"""
    pos = [i for i, k in enumerate(key) if isinstance(k, (ArrV, list))]
    arrs = {i: key[i] if isinstance(key[i], ArrV) else ArrV((len(key[i]),), [T.num(x) for x in key[i]]) for i in pos}
    for i, k in enumerate(key):
        if i not in arrs and not (isinstance(k, Sl) and k.full):
            raise Unsupported("mixed advanced index")
    if any(T.isbool(e) for x in arrs.values() for e in x.elems):
        raise Unsupported("mask in advanced index")
    bshape = broadcast([x.shape for x in arrs.values()])
    contiguous = pos == list(range(pos[0], pos[0] + len(pos)))
    at = pos[0] if contiguous else 0
    rest = [i for i in range(a.ndim) if i not in arrs]
    before = [i for i in rest if i < at] if contiguous else []
    after = [i for i in rest if i not in before]
    newshape = tuple(a.shape[i] for i in before) + tuple(bshape) + tuple(a.shape[i] for i in after)
    nb, m, N = len(before), len(bshape), len(newshape)
    out = []
    for idx in indices(newshape):
        src, mp = [None] * a.ndim, {}
        picks = []
        for j, i in enumerate(before):
            src[i] = idx[j]
            if idx[j] is None:
                mp[axisvar(a.ndim, i)] = var(axisvar(N, j))
        for j, i in enumerate(after):
            src[i] = idx[nb + m + j]
            if src[i] is None:
                mp[axisvar(a.ndim, i)] = var(axisvar(N, nb + m + j))
        for i, x in arrs.items():
            off = m - x.ndim
            e = x.at(bindex(idx[nb:nb + m], x.shape))
            e = T.rename_vars(e, {axisvar(x.ndim, q): var(axisvar(N, nb + off + q)) for q in range(x.ndim) if not isint(x.shape[q])})
            d = a.shape[i]
            if isint(d):
                if T.is_num(e):
                    v = int(e.args[0])
                    if not -d <= v < d:
                        raise IndexError("index %d is out of bounds for axis with size %d" % (v, d))
                    src[i] = v % d
                elif e.op == "ext" and len(arrs) - len(picks) >= 1 and e.args[0] in ("argsort", "lexsort"):
                    picks.append((i, e))
                else:
                    raise Unsupported("symbolic index array")
            else:
                mp[axisvar(a.ndim, i)] = T.add(d, e) if T.is_num(e) and e.args[0] < 0 else e
        if len(picks) > 1:
            raise Unsupported("symbolic index arrays")
        if picks:
            i, e = picks[0]
            row = []
            for q in range(a.shape[i]):
                src[i] = q
                row.append(T.rename_vars(a.at(src), mp) if mp else a.at(src))
            out.append(mk("ext", "pick", e, *row))
        else:
            out.append(T.rename_vars(a.at(src), mp) if mp else a.at(src))
    return ArrV(newshape, out)


def fancy(a, key):
    if sum(1 for k in key if isinstance(k, (ArrV, list))) > 1 and NEWAXIS not in key:
        return adv(a, key)
    masks = [k for k in key if isinstance(k, ArrV)]
    if len(masks) == 1 and len([k for k in key if k is NEWAXIS]) == 0:
        m = masks[0]
        pos = key.index(m)
        nd = m.ndim
        ismask = all(T.isbool(e) for e in m.elems)
        if ismask:
            # key was expanded with len(mask)==1 slot; re-expand
            before, after = key[:pos], key[pos + 1:]
            extra = nd - 1
            while extra > 0 and after and isinstance(after[-1], Sl) and after[-1].full:
                after.pop()
                extra -= 1
            if any(not (isinstance(k, Sl) and k.full) for k in before + after):
                raise Unsupported("mixed mask index")
            size = mk("fn", "nsel", *m.elems)
            # result: masked axes collapse into one axis of size nsel
            if nd == a.ndim:
                # values keep original index variables; marked by select
                if any(isint(d) for d in a.shape):
                    if m.shape != a.shape:
                        raise Unsupported("mask shape")
                    if not any(isint(d) is False for d in a.shape) and all(T.is_const(c) for c in m.elems):
                        es = [x for x, c in zip(a.elems, m.elems) if c is T.TRUE]
                        return ArrV((len(es),), es)
                    # kept in place, every element marked by its own selection condition
                    r = ArrV(a.shape, [mk("select", x, c) for x, c in zip(a.elems, m.elems)])
                    r.meta = ("sel", m)
                    return r
                e = mk("select", a.elems[0], m.elems[0])
                return ArrV((size,), (e,))
            if nd == 1 and not isint(a.shape[pos]):
                am = rename_mask(m.elems[0], 1, axisvar(a.ndim, pos))
                shape = list(a.shape)
                shape[pos] = size
                return ArrV(shape, [mk("select", e, am) for e in a.elems])
        elif nd == 1 and a.shape and all(T.is_num(e) for e in m.elems):
            k2 = list(key)
            k2[pos] = [int(e.args[0]) for e in m.elems]
            return index(a, tuple(k2))
        elif nd == 1 and pos == 0 and a.ndim == 1:
            # gather by integer array
            if not isint(a.shape[0]):
                mp = {1: m.elems[0]} if len(m.elems) == 1 else None
                if mp is not None:
                    return ArrV(m.shape, (T.rename_vars(a.elems[0], mp),))
    raise Unsupported("fancy index")


def rename_mask(e, frm, to):
    return T.rename_vars(e, {frm: to}) if frm != to else e


def unselect(e, mask):
    if mask is T.FALSE:
        return T.ZERO

    def f(u):
        if u.op == "select" and u.args[1] is mask:
            return u.args[0]
        return None
    return T.rewrite(e, f)


def store(a, key, val):
    """a[key] = val -> new ArrV"""
    key = expand_key(a.ndim, key)
    n = a.ndim
    masks = [k for k in key if isinstance(k, ArrV)]
    if masks:
        m = masks[0]
        if len(masks) == 1 and all(T.isbool(e) for e in m.elems):
            if m.ndim == n and m.shape == a.shape or (m.ndim == n and broadcast([m.shape, a.shape]) == a.shape):
                mb = broadcast_to(m, a.shape)
                out = []
                if val.ndim == 0:
                    return ArrV(a.shape, [T.ite(c, val.elems[0], e) for c, e in zip(mb.elems, a.elems)])
                if val.shape == a.shape and len(a.elems) > 1:
                    return ArrV(a.shape, [T.ite(c, unselect(v, c), e) for c, v, e in zip(mb.elems, val.elems, a.elems)])
                if len(a.elems) == 1 and len(val.elems) == 1:
                    return ArrV(a.shape, [T.ite(mb.elems[0], unselect(val.elems[0], mb.elems[0]), a.elems[0])])
            if m.ndim == 1 and isinstance(key[0], ArrV):
                mv = rename_mask(m.elems[0], 1, axisvar(n, 0))
                if not isint(a.shape[0]) and all(isinstance(k, Sl) and k.full for k in key[1:n - 0] if not isinstance(k, ArrV)):
                    if val.ndim == 0:
                        return ArrV(a.shape, [T.ite(mv, val.elems[0], e) for e in a.elems])
        raise Unsupported("masked store")
    newshape = []
    picks = []
    src_ax = 0
    for k in key:
        if k is NEWAXIS:
            raise Unsupported("newaxis store")
        d = a.shape[src_ax]
        if isinstance(k, Term) and T.is_num(k):
            k = int(k.args[0])
        if isinstance(k, int):
            if isint(d):
                if not -d <= k < d:
                    raise IndexError("index %d is out of bounds for axis with size %d" % (k, d))
                picks.append(("fix", k % d))
            else:
                picks.append(("eq", T.num(k) if k >= 0 else T.add(d, T.num(k))))
        elif isinstance(k, Term):
            picks.append(("eq", k))
        elif isinstance(k, Sl):
            if isint(d):
                sel = list(range(d))[slice(*[None if b is None else int(T.cval(b)) for b in (k.lo, k.hi, k.step)])]
                picks.append(("sel", sel, len(newshape)))
                newshape.append(len(sel))
            elif k.full:
                picks.append(("sym", len(newshape), None, None))
                newshape.append(d)
            else:
                size, f = slice_symdim(d, k)
                if isint(size):
                    raise Unsupported("store to cut")
                lo = f(T.ZERO)
                st = T.sub(f(T.ONE), lo)
                picks.append(("sym", len(newshape), lo, size, st))
                newshape.append(size)
        elif isinstance(k, list):
            if not isint(d):
                raise Unsupported("list store on symbolic axis")
            picks.append(("sel", [i % d for i in k], len(newshape)))
            newshape.append(len(k))
        else:
            raise Unsupported("store key")
        src_ax += 1
    val = broadcast_to(val, tuple(newshape)) if val.shape != tuple(newshape) else val
    newn = len(newshape)
    mapping = {}
    guards = []
    for ax, p in enumerate(picks):
        if p[0] == "sym":
            v = var(axisvar(n, ax))
            mapping[axisvar(newn, p[1])] = T.sub(v, p[2]) if p[2] is not None else v
            if p[2] is not None and p[4] is not T.ONE:
                if not (T.is_num(p[4]) and p[4].args[0] > 1):
                    raise Unsupported("store to reversed slice")
                off = T.sub(v, p[2])
                mapping[axisvar(newn, p[1])] = mk("fn", "floordiv", off, p[4])
                guards.append(T.le(p[2], v))
                guards.append(T.eq(mk("fn", "mod", off, p[4]), T.ZERO))
                guards.append(T.lt(v, T.add(p[2], T.mul(p[4], p[3]))))
            elif p[2] is not None:
                guards.append(T.le(p[2], v))
                guards.append(T.lt(v, T.add(p[2], p[3])))
        elif p[0] == "eq":
            if not isint(a.shape[ax]):
                guards.append(T.eq(var(axisvar(n, ax)), p[1]))
    g = T.land(*guards)
    elems = list(a.elems)
    memo = {}
    for idx in indices(a.shape):
        vi = [None] * newn
        ok = True
        gg = g
        for ax, p in enumerate(picks):
            if p[0] == "fix":
                if idx[ax] != p[1]:
                    ok = False
                    break
            elif p[0] == "sel":
                if idx[ax] not in p[1]:
                    ok = False
                    break
                vi[p[2]] = p[1].index(idx[ax])
            elif p[0] == "eq" and isint(a.shape[ax]):
                gg = T.land(gg, T.eq(p[1], T.num(idx[ax])))
        if not ok:
            continue
        o = a.offset(idx)
        v = val.at(vi)
        if mapping:
            v = T.rename_vars(v, mapping, memo)
        elems[o] = T.ite(gg, v, elems[o])
    return ArrV(a.shape, elems)


def bindsum(name, body, v, size):
    """reduction of body over index variable v; size may be int or Term"""
    b = "b%d" % (max([int(str(x)[1:]) for x in bound_names(body)] + [0]) + 1)
    body = T.rename_vars(body, {v: b})
    return mk("bind", name, b, size, body)


def bound_names(t):
    return {u.args[1] for u in T.atoms(t, lambda u: u.op == "bind")} | set()


def reduce(a, name, axis, f):
    """reduce over axis; f folds explicit lists, symbolic axes become 'bind' terms"""
    n = a.ndim
    axis %= n
    d = a.shape[axis]
    shape = a.shape[:axis] + a.shape[axis + 1:]
    mapping = {}
    for ax in range(n):
        if ax != axis and not isint(a.shape[ax]):
            new = ax if ax < axis else ax - 1
            mapping[axisvar(n, ax)] = axisvar(n - 1, new)
    out = []
    for idx in indices(shape):
        src = list(idx)
        src.insert(axis, None)
        if isint(d):
            es = []
            for i in range(d):
                src[axis] = i
                es.append(a.at(src))
            e = f(es)
        else:
            e = a.at(src)
            v = axisvar(n, axis)
            if name == "mean" and v not in T.vars_of(e):
                pass
            elif name == "sum" and v not in T.vars_of(e):
                e = T.mul(e, d)
            elif name in ("any", "all", "max", "min") and v not in T.vars_of(e):
                pass
            else:
                e = bindsum(name, e, v, d)
        if mapping:
            e = T.rename_vars(e, mapping)
        out.append(e)
    return ArrV(shape, out)


def matmul(a, b):
    if a.ndim == 0 or b.ndim == 0:
        raise ShapeError("matmul: scalar operand")
    a1, b1 = a.ndim == 1, b.ndim == 1
    if a1:
        a = index(a, (NEWAXIS, Sl()))
    if b1:
        b = index(b, (Sl(), NEWAXIS))
    ka, kb = a.shape[-1], b.shape[-2]
    batch = broadcast([a.shape[:-2], b.shape[:-2]])
    m, n = a.shape[-2], b.shape[-1]
    if not (isint(ka) and isint(kb)):
        if isint(m) and isint(n) and False:
            pass
        raise Unsupported("matmul over symbolic axis")
    if ka != kb:
        raise ShapeError("matmul: mismatch %s @ %s" % (a.shape, b.shape))
    shape = batch + (m, n)
    out = []
    if not isint(m) or not isint(n):
        raise Unsupported("matmul with symbolic matrix axes")
    # vars of batch axes have the same positions in both (aligned from the right)
    for idx in indices(shape):
        bi = idx[:-2]
        ia = bindex(bi, a.shape[:-2])
        ib = bindex(bi, b.shape[:-2])
        out.append(T.add(*[T.mul(a.at(ia + [idx[-2], k]), b.at(ib + [k, idx[-1]])) for k in range(ka)]))
    r = ArrV(shape, out)
    if a1:
        r = index(r, tuple([Sl()] * len(batch)) + (0,))
    if b1:
        r = index(r, tuple([Sl()] * (r.ndim - 1)) + (0,))
    return r


def minor2(f):
    return f


def inverse(a):
    n = a.shape[-1]
    if not isint(n) or a.shape[-2] != n:
        raise ShapeError("inv: last two dimensions must be square, got %s" % (a.shape,))
    out = list(a.elems)
    for bi in indices(a.shape[:-2]):
        M = [[a.at(list(bi) + [i, j]) for j in range(n)] for i in range(n)]
        det = determinant(M)
        if T.iszero(det):
            raise ShapeError("singular matrix")
        for i in range(n):
            for j in range(n):
                sub = [[M[r][c] for c in range(n) if c != i] for r in range(n) if r != j]
                cof = determinant(sub) if n > 1 else T.ONE
                if (i + j) % 2:
                    cof = T.neg(cof)
                out[a.offset(list(bi) + [i, j])] = T.div(cof, det)
    return ArrV(a.shape, out)


def determinant(M):
    n = len(M)
    if n == 0:
        return T.ONE
    if n == 1:
        return M[0][0]
    if n == 2:
        return T.sub(T.mul(M[0][0], M[1][1]), T.mul(M[0][1], M[1][0]))
    # expand along row with most zeros
    r = max(range(n), key=lambda i: sum(T.iszero(x) for x in M[i]))
    acc = []
    for c in range(n):
        if T.iszero(M[r][c]):
            continue
        sub = [[M[i][j] for j in range(n) if j != c] for i in range(n) if i != r]
        t = T.mul(M[r][c], determinant(sub))
        acc.append(T.neg(t) if (r + c) % 2 else t)
    return T.add(*acc) if acc else T.ZERO


def einsum(spec, ops):
    spec = spec.replace(" ", "")
    if "->" in spec:
        lhs, rhs = spec.split("->")
    else:
        lhs = spec
        rhs = None
    ins = lhs.split(",")
    if len(ins) != len(ops):
        raise ShapeError("einsum: operand count")
    ell = 0
    for s, o in zip(ins, ops):
        if "..." in s:
            ell = max(ell, o.ndim - len(s.replace("...", "")))
    els = [chr(0x3B1 + i) for i in range(ell)]
    terms = []
    for s, o in zip(ins, ops):
        if "..." in s:
            k = o.ndim - len(s.replace("...", ""))
            s = s.replace("...", "".join(els[ell - k:]))
        if len(s) != o.ndim:
            raise ShapeError("einsum: subscripts %s do not match rank %d" % (s, o.ndim))
        terms.append(s)
    if rhs is None:
        alls = "".join(terms)
        rhs = "".join(els) + "".join(sorted(c for c in set(alls) if alls.count(c) == 1 and c not in els))
    else:
        rhs = rhs.replace("...", "".join(els))
    dims = {}
    for s, o in zip(terms, ops):
        for c, d in zip(s, o.shape):
            if c in dims and dims[c] != d:
                e = dims[c]
                if isint(d) and d == 1:
                    continue
                if isint(e) and e == 1:
                    dims[c] = d
                    continue
                raise ShapeError("einsum: dimension mismatch for %s" % c)
            dims.setdefault(c, d)
    summed = [c for c in dims if c not in rhs]
    for c in summed:
        if not isint(dims[c]):
            raise Unsupported("einsum sum over symbolic axis")
    shape = tuple(dims[c] for c in rhs)
    n = len(shape)
    maps = []
    for s, o in zip(terms, ops):
        m = {}
        for ax, c in enumerate(s):
            if not isint(o.shape[ax]):
                m[axisvar(o.ndim, ax)] = axisvar(n, rhs.index(c))
        maps.append(m)
    memos = [dict() for _ in ops]
    out = []
    for idx in indices(shape):
        env = dict(zip(rhs, idx))
        acc = []
        for sidx in itertools.product(*[range(dims[c]) for c in summed]):
            env.update(zip(summed, sidx))
            fs = []
            for s, o, m, memo in zip(terms, ops, maps, memos):
                src = [(0 if o.shape[ax] == 1 else env[c]) if isint(o.shape[ax]) else None for ax, c in enumerate(s)]
                e = o.at(src)
                if any(k != v for k, v in m.items()):
                    e = T.rename_vars(e, m, memo)
                fs.append(e)
            acc.append(T.mul(*fs))
        out.append(T.add(*acc) if len(acc) != 1 else acc[0])
    return ArrV(shape, out)


def stack(arrs, axis=0):
    shape = arrs[0].shape
    for b in arrs[1:]:
        if b.shape != shape:
            raise ShapeError("inhomogeneous shapes: %s" % ([x.shape for x in arrs],))
    n = len(shape)
    axis %= (n + 1)
    newshape = shape[:axis] + (len(arrs),) + shape[axis:]
    # inserting an axis at position `axis` shifts vars of axes left of it by one
    mapping = {}
    for ax in range(n):
        if not isint(shape[ax]):
            new = ax if ax < axis else ax + 1
            mapping[axisvar(n, ax)] = axisvar(n + 1, new)
    change = any(k != v for k, v in mapping.items())
    memo = {}
    out = []
    for idx in indices(newshape):
        src = list(idx)
        i = src.pop(axis)
        e = arrs[i].at(src)
        out.append(T.rename_vars(e, mapping, memo) if change else e)
    return ArrV(newshape, out)


def concatenate(arrs, axis=0):
    n = arrs[0].ndim
    axis %= n
    ds = [a.shape[axis] for a in arrs]
    if all(isint(d) for d in ds):
        shape = list(arrs[0].shape)
        for a in arrs[1:]:
            for k in range(n):
                if k != axis and a.shape[k] != shape[k]:
                    raise ShapeError("concatenate: mismatch %s" % ([x.shape for x in arrs],))
        shape[axis] = sum(ds)
        out = []
        for idx in indices(shape):
            i = idx[axis]
            for a, d in zip(arrs, ds):
                if i < d:
                    src = list(idx)
                    src[axis] = i
                    out.append(a.at(src))
                    break
                i -= d
        return ArrV(shape, out)
    # symbolic: piecewise
    shape = list(arrs[0].shape)
    total = T.add(*[dimterm(d) for d in ds])
    shape[axis] = total
    v = axisvar(n, axis)
    vt = var(v)
    out = []
    for idx in indices(shape):
        off = T.ZERO
        pieces = []
        for a, d in zip(arrs, ds):
            if isint(d):
                for i in range(d):
                    src = list(idx)
                    src[axis] = i
                    pieces.append((off, T.ONE, a.at(src)))
                    off = T.add(off, T.ONE)
            else:
                src = list(idx)
                src[axis] = None
                e = a.at(src)
                e = T.rename_vars(e, {v: T.sub(vt, off)})
                pieces.append((off, d, e))
                off = T.add(off, d)
        e = pieces[-1][2]
        for o, d, p in reversed(pieces[:-1]):
            e = T.ite(T.lt(vt, T.add(o, d)), p, e)
        out.append(e)
    return ArrV(shape, out)


def reshape(a, newshape):
    """symbolic axes must be kept in order; explicit axes regroup within runs"""
    newshape = list(newshape)
    minus = [i for i, d in enumerate(newshape) if isint(d) and d == -1]
    symo = [d for d in a.shape if not isint(d)]
    symn = [d for d in newshape if not isint(d)]
    if minus:
        if len(symn) < len(symo):
            # -1 must be the symbolic one (possible only if all other ints match)
            newshape[minus[0]] = symo[len(symn)] if len(symo) == len(symn) + 1 else None
            if newshape[minus[0]] is None:
                raise Unsupported("reshape")
            symn = [d for d in newshape if not isint(d)]
        else:
            tot = 1
            for d in a.shape:
                if isint(d):
                    tot *= d
            oth = 1
            for d in newshape:
                if isint(d) and d != -1:
                    oth *= d
            if oth == 0 or tot % oth:
                raise ShapeError("cannot reshape")
            newshape[minus[0]] = tot // oth
    if len(symo) != len(symn) or any(x is not y for x, y in zip(symo, symn)):
        raise Unsupported("reshape across symbolic axes")

    def runs(shape):
        r = [1]
        for d in shape:
            if isint(d):
                r[-1] *= d
            else:
                r.append(1)
        return r
    if runs(a.shape) != runs(newshape):
        if len(symo) <= 1 and _prod(a.shape) == _prod(newshape):
            raise Unsupported("reshape mixing symbolic axis")
        raise ShapeError("cannot reshape array of shape %s into %s" % (a.shape, newshape))
    n, m = a.ndim, len(newshape)
    ao = [ax for ax in range(n) if not isint(a.shape[ax])]
    no = [ax for ax in range(m) if not isint(newshape[ax])]
    mapping = {axisvar(n, x): axisvar(m, y) for x, y in zip(ao, no)}
    es = a.elems
    if any(k != v for k, v in mapping.items()):
        memo = {}
        es = [T.rename_vars(e, mapping, memo) for e in es]
    return ArrV(newshape, es, a.roots)


def _prod(s):
    p = 1
    for d in s:
        if isint(d):
            p *= d
    return p


def squeeze(a, axis=None):
    key = []
    for ax, d in enumerate(a.shape):
        if isint(d) and d == 1 and (axis is None or ax in [x % a.ndim for x in axis]):
            key.append(0)
        else:
            key.append(Sl())
    return index(a, tuple(key))


def diff(a, axis=-1):
    n = a.ndim
    axis %= n
    k1 = [Sl()] * n
    k2 = [Sl()] * n
    k1[axis] = Sl(T.ONE, None)
    k2[axis] = Sl(None, T.MONE)
    return elementwise(T.sub, index(a, tuple(k1)), index(a, tuple(k2)))
