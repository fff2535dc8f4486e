import copy
import vf
from lmfit import Parameters
from elli.fitting.params_hist import ParamsHist

ATTR = ("value", "min", "max", "vary", "brute_step", "expr", "user_data", "stderr")


def state(p):
    """what a parameter set says, as plain data"""
    out = {}
    for name in p:
        q = p[name]
        out[name] = (None if q.expr is not None else q.value, q.min, q.max, q.vary, q.brute_step, q.expr, q.user_data, q.stderr)
    return out


def same(p, want, label):
    got = state(p)
    vf.check(sorted(got) == sorted(want), label + ": names of the parameters")
    for name in want:
        for a, g, w in zip(ATTR, got[name], want[name]):
            if a in ("expr", "user_data") or g is None or w is None:
                vf.check(g == w, label + ": " + a)
            else:
                vf.equal(g, w, label + ": " + a)


def new(cls=ParamsHist):
    p = cls()
    p.add("a", vf.real("a0", 0, 10), min=0, max=10)
    p.add("b", vf.real("b0", -50, 20), vary=False)
    return p


def other(tag):
    q = Parameters()
    q.add("b", vf.real("qb" + tag, -5, 20), min=-5, max=20, vary=True)
    q.add("c", vf.real("qc" + tag, -50, 50), vary=False)
    return q


class Ref:
    """the documented behaviour, on plain data"""

    def __init__(self, p):
        self.live = state(p)
        self.hist = []
        self.bound = p.max_history_len

    def commit(self):
        self.hist.append(dict(self.live))
        self.hist = self.hist[-self.bound:]


INF = float("inf")


def par(value, min=-INF, max=INF, vary=True, brute_step=None, expr=None, user_data=None, stderr=None):
    return (value, min, max, vary, brute_step, expr, user_data, stderr)


def one(d, name, **kw):
    t = dict(zip(ATTR, d[name]))
    t.update(kw)
    d = dict(d)
    d[name] = tuple([t[a] for a in ATTR])
    return d


def op_update_value(p, r, i):
    v = vf.real("u%d" % i, 0, 10)
    r.commit()
    r.live = one(r.live, "a", value=v)
    p.update_value("a", v)


def op_update_params(p, r, i):
    q = other(str(i))
    r.commit()
    r.live = dict(r.live)
    r.live.update(state(q))
    before = state(q)
    p.update_params(q)
    same(q, before, "update_params leaves its argument unaltered")
    vf.disjoint([q["b"], q["c"]], [p["b"], p["c"]], "update_params shares no parameter with its argument")


def op_tracked_add(p, r, i):
    v = vf.real("t%d" % i, 0, 30)
    r.commit()
    r.live = dict(r.live)
    r.live["t"] = par(v, 0, 30, False)
    p.tracked_add("t", v, min=0, max=30, vary=False)


def op_commit(p, r, i):
    r.commit()
    p.commit()


def op_change(p, r, i):
    """a change that is not recorded"""
    v = vf.real("w%d" % i, 0, 10)
    p["a"].value = v
    p["b"].vary = True
    p["b"].max = 25 + i
    p["a"].brute_step = 0.5
    p["a"].user_data = "note %d" % i
    p["a"].stderr = 0.5 + i
    r.live = one(r.live, "a", value=v, brute_step=0.5, user_data="note %d" % i, stderr=0.5 + i)
    r.live = one(r.live, "b", vary=True, max=25 + i)


def op_add(p, r, i):
    v = vf.real("x%d" % i, 1, 2)
    p.add("x", v)
    r.live = dict(r.live)
    r.live["x"] = par(v)


def op_remove(p, r, i):
    if "a" in r.live and len(r.live) > 2:
        del p["b"]
        r.live = {k: v for k, v in r.live.items() if k != "b"}
        p.add("b", 1.5, vary=False)
        r.live["b"] = par(1.5, vary=False)


def op_pop(p, r, i):
    before = r.live
    got = p.pop()
    if len(r.hist) == 0:
        vf.check(got is None, "undoing with an empty history reports nothing undone")
    else:
        r.live = r.hist[-1]
        r.hist = r.hist[:-1]
        same(got, before, "pop returns the undone state")


def op_revert0(p, r, i):
    p.revert(0)
    if len(r.hist) > 0:
        r.live = r.hist[0]


def op_revert_last(p, r, i):
    p.revert(-1)
    if len(r.hist) > 0:
        r.live = r.hist[-1]


def op_bound1(p, r, i):
    p.max_history_len = 1
    r.bound = 1
    r.hist = r.hist[-1:]


def op_bound2(p, r, i):
    p.max_history_len = 2
    r.bound = 2
    r.hist = r.hist[-2:]


def op_clear(p, r, i):
    p.clear_history()
    r.hist = []


def op_copy(p, r, i):
    """a copy of the live parameters is independent of them"""
    q = p.copy()
    same(q, r.live, "copy of the live parameters")
    q["a"].value = 1.25
    q["b"].max = 3


def op_from_history(p, r, i):
    """changing what was read out of the history through its copies changes nothing"""
    for h in p.history:
        q = copy.deepcopy(h)
        q["a"].value = 1.75


OPS = {"update_value": op_update_value, "update_params": op_update_params, "tracked_add": op_tracked_add, "commit": op_commit, "change": op_change, "add": op_add,
       "remove": op_remove, "pop": op_pop, "revert(0)": op_revert0, "revert(-1)": op_revert_last, "bound 1": op_bound1, "bound 2": op_bound2, "clear": op_clear,
       "copy": op_copy, "read": op_from_history}


def run(seq):
    p = new()
    r = Ref(p)
    i = 0
    for name in seq:
        OPS[name](p, r, i)
        label = name
        same(p, r.live, label + ": live parameters")
        vf.check(p.history_len == len(r.hist), label + ": number of recorded states")
        vf.check(len(p.history) == len(r.hist), label + ": length of the history")
        vf.check(p.max_history_len == r.bound, label + ": configured bound")
        vf.check(len(p.history) <= r.bound, label + ": history is bounded")
        for h, w in zip(p.history, r.hist):
            same(h, w, label + ": recorded states, oldest first")
        for k in range(len(p.history)):
            vf.disjoint([p[n] for n in p], [p.history[k][n] for n in p.history[k]], label + ": recorded states share no parameter with the live ones")
        i += 1


def sequences(first):
    mutating = ("update_value", "update_params", "tracked_add", "commit", "change", "add", "pop", "revert(0)", "revert(-1)", "bound 1", "bound 2")
    for b in OPS:
        run((first, b))
        for c in OPS:
            run((first, b, c))


def ob_seq_update_value():
    sequences("update_value")


def ob_seq_update_params():
    sequences("update_params")


def ob_seq_tracked_add():
    sequences("tracked_add")


def ob_seq_commit():
    sequences("commit")


def ob_seq_bound():
    sequences("bound 1")
    sequences("bound 2")


def ob_seq_change():
    sequences("change")


def ob_empty():
    """nothing recorded: undo leaves the initial state in place"""
    for seq in (("pop",), ("revert(0)",), ("revert(-1)",), ("pop", "pop"), ("clear", "pop"), ("update_value", "pop", "pop"), ("update_value", "pop", "pop", "pop"),
                ("commit", "update_value", "pop", "pop", "pop", "revert(0)"), ("update_value", "clear", "pop", "revert(-1)"),
                ("update_value", "update_value", "bound 1", "pop", "pop"), ("bound 1", "update_value", "update_value", "pop", "pop", "pop")):
        run(seq)


def ob_reverse_order():
    """undo walks back through the commits"""
    run(("update_value", "update_params", "tracked_add", "update_value", "change", "commit", "pop", "pop", "pop", "pop", "pop", "pop"))
    run(("update_params", "update_value", "revert(0)", "update_value", "pop", "pop", "pop"))
    run(("tracked_add", "update_value", "update_params", "pop", "update_value", "pop", "pop", "pop"))
    run(("update_value",) * 5 + ("bound 2",) + ("pop",) * 3)
    run(("bound 2",) + ("update_value",) * 5 + ("revert(0)", "pop", "pop", "pop"))


def ob_default_bound():
    p = ParamsHist()
    p.add("a", -1.0)
    n = p.max_history_len
    vf.check(isinstance(n, int) and n >= 1, "a bound is configured")
    for k in range(n + 5):
        p.update_value("a", float(k))
        vf.check(p.history_len <= n, "history is bounded")
    vf.check(p.history_len == n, "the bound is used")
    for k in range(n):
        vf.equal(p.history[k]["a"].value, float(k + 4), "the oldest states are dropped first")
    for k in range(n):
        p.pop()
        vf.equal(p["a"].value, float(n + 3 - k), "undo in reverse order")
    p.pop()
    vf.equal(p["a"].value, 4.0, "undo of an exhausted history")


def set_bound(p, n):
    p.max_history_len = n


def ob_bound():
    for k in (1, 2, 3, 5, 6, 7, 100):
        p = new()
        for i in range(6):
            p.update_value("a", vf.real("v%d" % i, 1, 2))
        vals = [h["a"].value for h in p.history]
        live = state(p)
        p.max_history_len = k
        vf.check(p.max_history_len == k, "the bound takes the value given")
        vf.check(p.history_len == min(k, 6), "number of states after changing the bound")
        for h, w in zip(p.history, vals[-k:]):
            vf.equal(h["a"].value, w, "changing the bound keeps the newest states")
        same(p, live, "changing the bound leaves the live parameters")
    for bad in (0, -1, -50, 1.5, "3", None):
        p = new()
        for i in range(3):
            p.update_value("a", vf.real("v%d" % i, 1, 2))
        n = p.max_history_len
        vf.expect_raises(ValueError, "bound %r is refused" % (bad,), set_bound, p, bad)
        vf.check(p.max_history_len == n and p.history_len == 3, "a refused bound changes nothing")


def ob_revert():
    """every position, without altering the history"""
    for pos in (-4, -3, -2, -1, 0, 1, 2, 3):
        p = new()
        for i in range(3):
            p.update_value("a", vf.real("v%d" % i, 1, 2))
        p.tracked_add("t", 1.0)
        states = [state(h) for h in p.history]
        p.revert(pos)
        same(p, states[pos], "revert to the position")
        vf.check(p.history_len == 4, "revert keeps the history")
        for h, w in zip(p.history, states):
            same(h, w, "revert keeps the recorded states")
        p["a"].value = 1.125
        p["b"].value = 1.25
        for h, w in zip(p.history, states):
            same(h, w, "live changes after a revert")


def ob_failing():
    """a refused change leaves the live parameters as they were"""
    p = new()
    live = state(p)
    vf.expect_raises(KeyError, "update_value of an unknown parameter", p.update_value, "nonsense", 1.0)
    same(p, live, "after a refused update_value")


def ob_two():
    """two sets have separate histories"""
    p, q = new(), new()
    p.update_value("a", 1.5)
    vf.check(q.history_len == 0, "history of another set")
    q.update_value("a", 1.25)
    vf.check(p.history_len == 1, "history of another set")
    p.max_history_len = 1
    vf.check(q.max_history_len > 1, "bound of another set")
    r = p.copy()
    r.update_value("a", 1.75)
    vf.check(p.history_len == 1, "history of a copy")
    p.pop()
    vf.equal(r["a"].value, 1.75, "undo of the copied set")


def ob_bounds_restored():
    """limits, vary flags and steps come back with the values"""
    p = new()
    p.commit()
    before = state(p)
    p["a"].set(value=5.0, min=4.0, max=6.0, vary=False)
    p["b"].set(value=50.0, min=49.0, max=51.0, vary=True, brute_step=0.5)
    p.pop()
    same(p, before, "undo of changed limits")
    p.add("z", 3.0)
    p.commit()
    del p["z"]
    p.pop()
    vf.check("z" in p, "undo of a removed parameter")
    p.pop()


def ob_constrained():
    """expressions come back as they were"""
    p = new()
    p["b"].expr = "2*a"
    p.update_value("a", 1.5)
    p["b"].expr = "3*a"
    before = state(p)
    p.commit()
    p["b"].expr = None
    p["b"].vary = True
    p["b"].value = 1.75
    p.pop()
    same(p, before, "undo of a removed expression")
    p.pop()
    vf.check(p["b"].expr == "2*a", "undo of a changed expression")


def ob_update_value_kinds():
    p = new()
    p.update_value("b", vf.real("v", 1, 2))
    vf.equal(p["b"].value, vf.real("v", 1, 2), "updated value")
    vf.check(p["b"].vary is False, "vary flag is kept")
    p.update_value("a", 25.0)
    vf.equal(p["a"].value, 10, "limits apply to the updated value")
    p.pop()
    vf.equal(p["a"].value, vf.real("a0", 0, 10), "undo")


def ob_equal_states():
    """every commit records a state, also one that equals its neighbours"""
    for first in ("commit", "update_value", "update_params", "tracked_add"):
        run((first, "commit", "commit", "pop", "pop", "pop"))
        run((first, "commit", "commit", "update_value", "pop", "pop", "pop", "pop"))
    p = new()
    for n in range(3):
        p.update_value("a", vf.real("a0", 0, 10))
        vf.check(p.history_len == n + 1, "setting the value it already has is recorded like any other")
    for n in range(3):
        p.update_params(p.copy())
        vf.check(p.history_len == n + 4, "taking over equal parameters is recorded like any other")
    p = new()
    p.commit()
    p["a"].vary = False
    p.commit()
    p["a"].max = 5
    p.commit()
    vf.check(p.history_len == 3, "states that differ in limits and flags only are recorded")
    vf.check(p.history[0]["a"].vary is True and p.history[1]["a"].vary is False, "flags of the recorded states")
    vf.equal(p.history[1]["a"].max, 10, "limits of the recorded states")
    vf.equal(p.history[2]["a"].max, 5, "limits of the recorded states")
