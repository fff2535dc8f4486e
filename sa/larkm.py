"""A model of the lark parser generator (LALR(1), contextual lexer), used to read the
formula grammar the way the library does.  Only what the grammar language needs is
modelled; anything else is refused with `NotModelled`."""
import re
try:
    import re._parser as sre_parse
except ImportError:                                    # pragma: no cover
    import sre_parse


class NotModelled(Exception):
    pass


class GrammarProblem(Exception):
    """lark would refuse this grammar"""


class ParseProblem(Exception):
    """lark would refuse this text"""


COMMON = r'''
DIGIT: "0".."9"
HEXDIGIT: "a".."f"|"A".."F"|DIGIT
INT: DIGIT+
SIGNED_INT: ["+"|"-"] INT
DECIMAL: INT "." INT? | "." INT
_EXP: ("e"|"E") SIGNED_INT
FLOAT: INT _EXP | DECIMAL _EXP?
SIGNED_FLOAT: ["+"|"-"] FLOAT
NUMBER: FLOAT | INT
SIGNED_NUMBER: ["+"|"-"] NUMBER
LCASE_LETTER: "a".."z"
UCASE_LETTER: "A".."Z"
LETTER: UCASE_LETTER | LCASE_LETTER
WORD: LETTER+
CNAME: ("_"|LETTER) ("_"|LETTER|DIGIT)*
WS_INLINE: (" "|/\t/)+
WS: /[ \t\f\r\n]/+
CR : /\r/
LF : /\n/
NEWLINE: (CR? LF)+
'''

TOK = re.compile(r'''
  (?P<ws>[ \t\r]+|//[^\n]*|\#[^\n]*(?=\n|$))
 |(?P<nl>\n)
 |(?P<string>"(?:\\.|[^"\\\n])*"i?)
 |(?P<regex>/(?!/)(?:\\/|\\\\|[^/\n])*?/[imslux]*)
 |(?P<arrow>->)
 |(?P<dots>\.\.)
 |(?P<name>[!?]*_?[A-Za-z][A-Za-z0-9_]*)
 |(?P<num>-?\d+)
 |(?P<op>[|:()\[\]*+?.~{},=%])
''', re.X)


def tokenize(text):
    pos, out = 0, []
    while pos < len(text):
        m = TOK.match(text, pos)
        if not m:
            raise GrammarProblem("unexpected character %r in the grammar" % text[pos:pos + 10])
        k = m.lastgroup
        if k != "ws":
            out.append((k, m.group()))
        pos = m.end()
    out.append(("nl", "\n"))
    return out


def statements(text):
    """list of token lists, one per definition"""
    toks = tokenize(text)
    cur, out = [], []
    i = 0
    while i < len(toks):
        k, v = toks[i]
        if k == "nl":
            j = i
            while j < len(toks) and toks[j][0] == "nl":
                j += 1
            nxt = toks[j] if j < len(toks) else None
            if cur and not (nxt and nxt[1] == "|"):
                out.append(cur)
                cur = []
            i = j
            continue
        cur.append((k, v))
        i += 1
    if cur:
        out.append(cur)
    return out


class P:
    """parser of right-hand sides -> ('alt', [(seq, alias)]), ('seq', [...]), ('opt'|'star'|'plus'|'maybe', x), ('lit', s, ci), ('re', s, flags), ('ref', name), ('range', a, b)"""

    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else (None, None)

    def take(self, v=None):
        k = self.peek()
        if v is not None and k[1] != v:
            raise GrammarProblem("expected %r, found %r" % (v, k[1]))
        self.i += 1
        return k

    def alts(self):
        out = [self.seq()]
        while self.peek()[1] == "|" and self.peek()[0] == "op":
            self.take()
            out.append(self.seq())
        return ("alt", out)

    def seq(self):
        items = []
        while True:
            k, v = self.peek()
            if k is None or (k == "op" and v in "|)]") or k == "arrow":
                break
            items.append(self.item())
        alias = None
        if self.peek()[0] == "arrow":
            self.take()
            alias = self.take()[1]
        return (items, alias)

    def item(self):
        a = self.atom()
        while True:
            k, v = self.peek()
            if k == "op" and v in "*+?":
                self.take()
                a = ({"*": "star", "+": "plus", "?": "opt"}[v], a)
            elif k == "op" and v == "~":
                self.take()
                n = int(self.take()[1])
                hi = n
                if self.peek()[0] == "dots":
                    self.take()
                    hi = int(self.take()[1])
                a = ("alt", [([a] * c, None) for c in range(n, hi + 1)])
            else:
                return a

    def atom(self):
        k, v = self.take()
        if k == "op" and v == "(":
            a = self.alts()
            self.take(")")
            return a
        if k == "op" and v == "[":
            a = self.alts()
            self.take("]")
            return ("maybe", a)
        if k == "string":
            if self.peek()[0] == "dots":
                self.take()
                w = self.take()[1]
                return ("range", unquote(v)[0], unquote(w)[0])
            s, ci = unquote(v)
            return ("lit", s, ci)
        if k == "regex":
            body, fl = v[1:].rsplit("/", 1)
            return ("re", body.replace("\\/", "/"), fl)
        if k == "name":
            if self.peek()[1] == "{":
                raise NotModelled("grammar templates")
            return ("ref", v)
        raise GrammarProblem("unexpected %r in the grammar" % (v,))


def unquote(s):
    ci = s.endswith("i") and not s.endswith('"')
    s = s[1:-2] if ci else s[1:-1]
    s = re.sub(r'\\(.)', lambda m: {"n": "\n", "t": "\t", "r": "\r", "f": "\f"}.get(m.group(1), m.group(1)) if m.group(1) in 'ntrf"\\' else m.group(0), s)
    return s, ci


def is_term(name):
    return name.lstrip("_!?").isupper() or (name.lstrip("_").upper() == name.lstrip("_"))


class Pat:
    def __init__(self, kind, value, flags=()):
        self.kind, self.value, self.flags = kind, value, tuple(sorted(set(flags)))

    def regexp(self):
        s = re.escape(self.value) if self.kind == "str" else self.value
        for f in self.flags:
            s = "(?%s:%s)" % (f, s)
        return s

    def width(self):
        if self.kind == "str":
            return len(self.value), len(self.value)
        w = sre_parse.parse(self.regexp()).getwidth()
        return int(w[0]), min(int(w[1]), 4294967295)


class Termd:
    def __init__(self, name, pat, prio):
        self.name, self.pat, self.prio = name, pat, prio


class Grammar:
    def __init__(self, text, start="start", maybe_placeholders=True, keep_all_tokens=False):
        self.keep_all = keep_all_tokens
        self.maybe_placeholders = maybe_placeholders
        self.term_defs = {}      # name -> (prio, ast)
        self.rule_defs = {}      # name -> (mods, prio, ast)
        self.ignore = []
        common = None
        for st in statements(text):
            self.statement(st, COMMON)
        self.start = start
        if start not in self.rule_defs:
            raise GrammarProblem("no rule %s" % start)
        self.terms = {}
        for n, (pr, a) in self.term_defs.items():
            self.terms[n] = Termd(n, self.term_pattern(a), pr)
        self.lit_names = {}
        for n, t in self.terms.items():
            if t.pat.kind == "str":
                self.lit_names.setdefault((t.pat.value, t.pat.flags), n)
        self.rules = []          # (lhs, [syms], alias, info)
        self.helper = {}
        self.nhelp = 0
        for n, (mods, pr, a) in self.rule_defs.items():
            self.add_rule(n, mods, a)
        self.check()
        self.build()

    # ---------------------------------------------------------------- reading
    def statement(self, st, common):
        k, v = st[0]
        if v == "%":
            what = st[1][1]
            if what == "ignore":
                p = P(st[2:])
                a = p.alts()
                if len(a[1]) == 1 and len(a[1][0][0]) == 1 and a[1][0][0][0][0] == "ref":
                    self.ignore.append(a[1][0][0][0][1])
                else:
                    n = "__IGNORE_%d" % len(self.ignore)
                    self.term_defs[n] = (0, a)
                    self.ignore.append(n)
                return
            if what == "import":
                i = 2
                path = []
                while i < len(st) and (st[i][0] == "name" or st[i][1] == "."):
                    if st[i][1] != ".":
                        path.append(st[i][1])
                    i += 1
                if path[0] != "common":
                    raise NotModelled("import of %s" % ".".join(path))
                names = {}
                if i < len(st) and st[i][1] == "(":
                    for kk, vv in st[i + 1:]:
                        if kk == "name":
                            names[vv] = vv
                elif i < len(st) and st[i][0] == "arrow":
                    names[path[1]] = st[i + 1][1]
                else:
                    names[path[1]] = path[1]
                defs = {}
                for cs in statements(common):
                    p = P(cs[2:])
                    defs[cs[0][1]] = p.alts()
                for n, alias in names.items():
                    if n not in defs:
                        raise NotModelled("common.%s" % n)
                    self.term_defs[alias] = (0, self.inline(defs[n], defs))
                return
            raise NotModelled("%%%s" % what)
        if k != "name":
            raise GrammarProblem("unexpected %r" % (v,))
        i, prio = 1, 0
        if st[i][1] == ".":
            prio = int(st[i + 1][1])
            i += 2
        if st[i][1] != ":":
            raise NotModelled("definition %s" % v)
        p = P(st[i + 1:])
        a = p.alts()
        if p.i != len(p.t):
            raise GrammarProblem("unexpected %r in %s" % (p.peek()[1], v))
        mods = v[:len(v) - len(v.lstrip("!?"))]
        name = v.lstrip("!?")
        if is_term(name):
            if name in self.term_defs:
                raise GrammarProblem("Terminal %s defined more than once" % name)
            self.term_defs[name] = (prio, a)
        else:
            if name in self.rule_defs:
                raise GrammarProblem("Rule %s defined more than once" % name)
            if prio:
                raise NotModelled("rule priorities")
            self.rule_defs[name] = (mods, prio, a)

    def inline(self, a, defs):
        k = a[0]
        if k == "ref":
            return self.inline(defs[a[1]], defs)
        if k == "alt":
            return ("alt", [([self.inline(x, defs) for x in s], al) for s, al in a[1]])
        if k in ("opt", "star", "plus", "maybe"):
            return (k, self.inline(a[1], defs))
        return a

    # ---------------------------------------------------------------- terminals
    def term_pattern(self, a, depth=0):
        if depth > 40:
            raise GrammarProblem("recursive terminal")
        k = a[0]
        if k == "lit":
            return Pat("str", a[1], "i" if a[2] else "")
        if k == "re":
            return Pat("re", a[1], a[2])
        if k == "range":
            return Pat("re", "[%s-%s]" % (a[1], a[2]))
        if k == "ref":
            if a[1] not in self.term_defs:
                raise GrammarProblem("Terminal %s used but not defined" % a[1])
            return self.term_pattern(self.term_defs[a[1]][1], depth + 1)
        if k == "alt":
            alts = [self.term_seq(s, depth) for s, al in a[1]]
            if len(alts) == 1:
                return alts[0]
            alts.sort(key=lambda x: (-x.width()[1], -x.width()[0], -len(x.value)))
            fl = {x.flags for x in alts}
            if len(fl) > 1:
                return Pat("re", "(?:%s)" % "|".join(x.regexp() for x in alts))
            return Pat("re", "(?:%s)" % "|".join(Pat(x.kind, x.value).regexp() for x in alts), fl.pop())
        if k in ("opt", "maybe", "star", "plus"):
            x = self.term_pattern(a[1], depth)
            return Pat("re", "(?:%s)%s" % (x.regexp(), {"opt": "?", "maybe": "?", "star": "*", "plus": "+"}[k]))
        raise NotModelled(k)

    def term_seq(self, s, depth):
        ps = [self.term_pattern(x, depth) for x in s]
        if not ps:
            return Pat("str", "")
        if len(ps) == 1:
            return ps[0]
        return Pat("re", "".join(p.regexp() for p in ps))

    def literal(self, a):
        if a[0] == "lit":
            pat = Pat("str", a[1], "i" if a[2] else "")
        elif a[0] == "range":
            pat = Pat("re", "[%s-%s]" % (a[1], a[2]))
        else:
            pat = Pat("re", a[1], a[2])
        key = (pat.value, pat.flags) if pat.kind == "str" else (pat.value, pat.flags, "re")
        n = self.lit_names.get(key)
        if n is None:
            v = pat.value
            if pat.kind == "str" and v and (v.isalnum() or v.replace("_", "a").isalnum()) and is_term(v.upper()) and v.upper() not in self.terms and v[0].isalpha():
                n = v.upper()
            elif pat.kind == "str" and v in PUNCT and PUNCT[v] not in self.terms:
                n = PUNCT[v]
            else:
                n = "__ANON_%d" % len(self.lit_names)
            self.lit_names[key] = n
            self.terms[n] = Termd(n, pat, 0)
        return n, pat.kind == "str"

    # ---------------------------------------------------------------- rules
    def add_rule(self, name, mods, a, helper=False):
        keep = "!" in mods or self.keep_all
        for s, alias in a[1]:
            for ex in self.expand(s, name, keep):
                syms, rule_alias = ex, alias
                self.rules.append((name, [x for x in syms if x[0] != "none"], rule_alias, {
                    "expand1": "?" in mods and alias is None, "inline": helper or (name.startswith("_") and alias is None), "helper": helper,
                    "build": syms}))

    def expand(self, seq, name, keep):
        """list of symbol lists; symbol = ('t', NAME, filtered) | ('r', name) | ('none',)"""
        outs = [[]]
        for x in seq:
            opts = self.expand1(x, name, keep)
            outs = [o + p for o in outs for p in opts]
        uniq = []
        for o in outs:
            if o not in uniq:
                uniq.append(o)
        return uniq

    def expand1(self, x, name, keep):
        k = x[0]
        if k in ("lit", "re", "range"):
            n, s = self.literal(x)
            return [[("t", n, (s and not keep) or n.startswith("_") and not n.startswith("__ANON"))]]
        if k == "ref":
            n = x[1]
            if is_term(n):
                if n not in self.terms:
                    raise GrammarProblem("Terminal %s used but not defined" % n)
                return [[("t", n, n.startswith("_") and not keep)]]
            if n not in self.rule_defs:
                raise GrammarProblem("Rule %s used but not defined" % n)
            return [[("r", n)]]
        if k == "alt":
            out = []
            for s, al in x[1]:
                if al is not None:
                    raise GrammarProblem("alias inside an expression")
                out += self.expand(s, name, keep)
            return out
        if k == "opt":
            return self.expand1(x[1], name, keep) + [[]]
        if k == "maybe":
            inner = self.expand1(x[1], name, keep)
            if not self.maybe_placeholders:
                return inner + [[]]
            n = max(sum(1 for s in o if not (s[0] == "t" and s[2])) for o in inner)
            return inner + [[("none",)] * n]
        if k in ("star", "plus"):
            key = repr((x[1], keep))
            h = self.helper.get(key)
            if h is None:
                h = "__%s_rep_%d" % (name.strip("_"), self.nhelp)
                self.nhelp += 1
                self.helper[key] = h
                self.rule_defs_h = getattr(self, "rule_defs_h", set())
                self.rule_defs_h.add(h)
                inner = self.expand1(x[1], name, keep)
                for o in inner:
                    for lead in ([], [("r", h)]):
                        self.rules.append((h, [s for s in lead + o if s[0] != "none"], None, {"expand1": False, "inline": True, "helper": True, "build": lead + o}))
            return [[("r", h)]] + ([[]] if k == "star" else [])
        raise NotModelled(k)

    def check(self):
        seen = {}
        for lhs, syms, al, info in self.rules:
            key = (lhs, tuple((s[0], s[1]) for s in syms))
            if key in seen:
                raise GrammarProblem("Rules defined twice: %s" % (key,))
            seen[key] = 1

    # ---------------------------------------------------------------- LALR(1)
    def build(self):
        used, todo = set(), [self.start]
        by = {}
        for i, r in enumerate(self.rules):
            by.setdefault(r[0], []).append(i)
        while todo:
            n = todo.pop()
            if n in used:
                continue
            used.add(n)
            for i in by.get(n, []):
                todo += [s[1] for s in self.rules[i][1] if s[0] == "r"]
        R = [("$root", [("r", self.start)], None, {})] + [r for r in self.rules if r[0] in used]
        self.R = R
        by = {}
        for i, r in enumerate(R):
            by.setdefault(r[0], []).append(i)
        rhs = [[(s[0], s[1]) for s in r[1]] for r in R]
        # nullable, first
        nullable, first = set(), {n: set() for n in by}
        ch = True
        while ch:
            ch = False
            for i, r in enumerate(R):
                n = r[0]
                allnull = True
                for kd, s in rhs[i]:
                    add = {s} if kd == "t" else first[s]
                    if not add <= first[n]:
                        first[n] |= add
                        ch = True
                    if kd == "t" or s not in nullable:
                        allnull = False
                        break
                if allnull and n not in nullable:
                    nullable.add(n)
                    ch = True

        def first_of(seq, la):
            out = set()
            for kd, s in seq:
                if kd == "t":
                    out.add(s)
                    return out
                out |= first[s]
                if s not in nullable:
                    return out
            return out | la

        def closure(kernel):
            """kernel: {(rule, dot): lookaheads} -> same with closure items"""
            items = {k: set(v) for k, v in kernel.items()}
            work = list(items)
            while work:
                it = work.pop()
                r, d = it
                if d < len(rhs[r]) and rhs[r][d][0] == "r":
                    la = first_of(rhs[r][d + 1:], items[it])
                    for j in by[rhs[r][d][1]]:
                        k = (j, 0)
                        if k not in items:
                            items[k] = set(la)
                            work.append(k)
                        elif not la <= items[k]:
                            items[k] |= la
                            work.append(k)
            return items
        states, index = [], {}
        k0 = frozenset([(0, 0)])
        states.append({(0, 0): {"$END"}})
        index[k0] = 0
        trans = {}
        work = [0]
        while work:
            si = work.pop()
            cl = closure(states[si])
            goto = {}
            for (r, d), la in cl.items():
                if d < len(rhs[r]):
                    goto.setdefault(rhs[r][d], {}).setdefault((r, d + 1), set()).update(la)
            for sym, kern in goto.items():
                key = frozenset(kern)
                if key not in index:
                    index[key] = len(states)
                    states.append({k: set(v) for k, v in kern.items()})
                    work.append(index[key])
                else:
                    t = states[index[key]]
                    chg = False
                    for k, v in kern.items():
                        if not v <= t[k]:
                            t[k] |= v
                            chg = True
                    if chg:
                        work.append(index[key])
                trans[(si, sym)] = index[key]
        self.action, self.goto = [], []
        for si, kern in enumerate(states):
            act, gt = {}, {}
            for (s, sym), t in trans.items():
                if s == si:
                    (act if sym[0] == "t" else gt)[sym[1]] = ("s", t) if sym[0] == "t" else t
            red = {}
            for (r, d), la in closure(kern).items():
                if d == len(rhs[r]):
                    for a in la:
                        if a in red and red[a] != r:
                            raise GrammarProblem("Reduce/Reduce collision in terminal %s" % a)
                        red[a] = r
            for a, r in red.items():
                if a not in act:                     # shift preferred
                    act[a] = ("a",) if r == 0 else ("r", r)
            self.action.append(act)
            self.goto.append(gt)
        self.lexers = {}

    # ---------------------------------------------------------------- lexing
    def lexer(self, accepts):
        key = frozenset(accepts)
        lx = self.lexers.get(key)
        if lx is None:
            ts = [self.terms[n] for n in key | set(self.ignore) if n in self.terms]
            for n in self.ignore:
                if n not in self.terms:
                    raise GrammarProblem("Terminal %s used but not defined" % n)
            unless, embedded = {}, set()
            for rt in [t for t in ts if t.pat.kind == "re"]:
                for s in [t for t in ts if t.pat.kind == "str"]:
                    if s.prio != rt.prio:
                        continue
                    m = re.match(rt.pat.regexp(), s.pat.value)
                    if m and m.group(0) == s.pat.value:
                        unless.setdefault(rt.name, {})[s.pat.value] = s.name
                        if set(s.pat.flags) <= set(rt.pat.flags):
                            embedded.add(s.name)
            ts = [t for t in ts if t.name not in embedded]
            ts.sort(key=lambda t: (-t.prio, -t.pat.width()[1], -len(t.pat.value), t.name))
            for t in ts:
                if t.pat.width()[0] == 0:
                    raise GrammarProblem("Lexer does not allow zero-width terminals. (%s)" % t.name)
            lx = self.lexers[key] = ([(t.name, re.compile(t.pat.regexp())) for t in ts], unless)
        return lx

    def next_token(self, text, pos, accepts):
        lx, unless = self.lexer(accepts)
        while pos < len(text):
            for n, rx in lx:
                m = rx.match(text, pos)
                if m:
                    v = m.group(0)
                    n = unless.get(n, {}).get(v, n)
                    break
            else:
                raise ParseProblem("no terminal matches %r at position %d" % (text[pos:pos + 8], pos))
            pos = m.end()
            if n in self.ignore:
                continue
            return n, v, pos
        return "$END", "", pos

    # ---------------------------------------------------------------- parsing
    def parse(self, text):
        stack, vals, pos = [0], [], 0
        n, v, pos = self.next_token(text, pos, self.action[0])
        while True:
            act = self.action[stack[-1]].get(n)
            if act is None:
                raise ParseProblem("unexpected %s %r" % (n, v))
            if act[0] == "a":
                return vals[-1]
            if act[0] == "s":
                stack.append(act[1])
                vals.append(("tok", n, v))
                n, v, pos = self.next_token(text, pos, self.action[stack[-1]])
                continue
            lhs, syms, alias, info = self.R[act[1]]
            k = len(syms)
            kids = vals[len(vals) - k:] if k else []
            if k:
                del stack[-k:]
                del vals[-k:]
            stack.append(self.goto[stack[-1]][lhs])
            vals.append(self.node(lhs, syms, alias, info, kids))

    def node(self, lhs, syms, alias, info, kids):
        out, j = [], 0
        for s in info["build"]:
            if s[0] == "none":
                out.append(None)
                continue
            c = kids[j]
            j += 1
            if s[0] == "t":
                if not s[2]:
                    out.append(c)
            elif isinstance(c, tuple) and c[0] == "inl":
                out += c[1]
            else:
                out.append(c)
        if info["inline"]:
            if not info["helper"] and info.get("expand1") and len(out) == 1:
                return out[0]
            return ("inl", out)
        if info["expand1"] and len(out) == 1:
            return out[0]
        return ("tree", alias or lhs, out)


PUNCT = {'.': 'DOT', ',': 'COMMA', ':': 'COLON', ';': 'SEMICOLON', '+': 'PLUS', '-': 'MINUS', '*': 'STAR', '/': 'SLASH', '\\': 'BACKSLASH', '|': 'VBAR',
         '?': 'QMARK', '!': 'BANG', '@': 'AT', '#': 'HASH', '$': 'DOLLAR', '%': 'PERCENT', '^': 'CIRCUMFLEX', '&': 'AMPERSAND', '_': 'UNDERSCORE',
         '<': 'LESSTHAN', '>': 'MORETHAN', '=': 'EQUAL', '"': 'DBLQUOTE', '\'': 'QUOTE', '`': 'BACKQUOTE', '~': 'TILDE', '(': 'LPAR', ')': 'RPAR',
         '{': 'LBRACE', '}': 'RBRACE', '[': 'LSQB', ']': 'RSQB', '\n': 'NEWLINE', '\r\n': 'CRLF', '\t': 'TAB', ' ': 'SPACE'}


_cache = {}


def compiled(text, start="start", **kw):
    key = (text, start, tuple(sorted(kw.items())))
    if key not in _cache:
        _cache[key] = Grammar(text, start, **kw)
    return _cache[key]


if __name__ == "__main__":
    import sys
    g = Grammar(open(sys.argv[1]).read(), "assignment")
    for l in sys.argv[2:]:
        print(l, g.parse(l))
