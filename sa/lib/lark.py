"""Model of the parts of lark the library relies on (parsing itself: sa/larkm.py)."""
import vf


class LarkError(Exception):
    pass


class GrammarError(LarkError):
    pass


class ConfigurationError(LarkError, ValueError):
    pass


class UnexpectedInput(LarkError):
    pass


class ParseError(LarkError):
    pass


class LexError(LarkError):
    pass


class UnexpectedToken(ParseError, UnexpectedInput):
    pass


class UnexpectedCharacters(LexError, UnexpectedInput):
    pass


class UnexpectedEOF(ParseError, UnexpectedInput):
    pass


class VisitError(LarkError):
    def __init__(self, rule, obj, orig_exc):
        self.rule = rule
        self.obj = obj
        self.orig_exc = orig_exc


class Tree:
    __vf_partial__ = True

    def __init__(self, data, children, meta=None):
        self.data = data
        self.children = children
        self._meta = meta

    @property
    def meta(self):
        return None

    def __deepcopy__(self, memo):
        return _copy(self)

    def copy(self):
        return Tree(self.data, list(self.children))


def _copy(x):
    if isinstance(x, Tree):
        return Tree(x.data, [_copy(c) for c in x.children])
    return x


def _build(t):
    if t is None:
        return None
    if t[0] == "tok":
        return t[2]
    return Tree(t[1], [_build(c) for c in t[2]])


class Lark:
    __vf_partial__ = True

    def __init__(self, grammar, **options):
        if not isinstance(grammar, str):
            grammar = grammar.read()
        for name in options:
            if name not in ("start", "parser", "cache", "debug", "strict", "lexer", "propagate_positions", "transformer", "encoding"):
                vf.not_modelled("Lark option " + name)
        if options.get("parser", "earley") != "lalr" or options.get("lexer", "contextual") not in ("contextual", "auto"):
            vf.not_modelled("only the LALR parser is modelled")
        self.source_grammar = grammar
        self._start = options.get("start", "start")
        self._transformer = options.get("transformer")
        reason = vf.lark_check(grammar, self._start)
        if reason:
            raise GrammarError(reason)

    @classmethod
    def open(cls, grammar_filename, rel_to=None, **options):
        import os
        if rel_to:
            grammar_filename = os.path.join(os.path.dirname(rel_to), grammar_filename)
        with open(grammar_filename, encoding="utf8") as f:
            return cls(f, **options)

    def parse(self, text, start=None, on_error=None):
        if not isinstance(text, str):
            raise TypeError("Expected text of type str")
        t = vf.lark_parse(self.source_grammar, self._start if start is None else start, text)
        if t[0] == "err":
            raise UnexpectedInput(t[1])
        t = _build(t)
        if self._transformer is not None:
            return self._transformer.transform(t)
        return t


def v_args(inline=False, meta=False, tree=False, wrapper=None):
    if tree and (meta or inline):
        raise ValueError("Visitor functions cannot combine 'tree' with 'meta' or 'inline'.")
    if wrapper is not None:
        vf.not_modelled("v_args wrapper")
    mode = ("inline" if inline else "") + ("meta" if meta else "") + ("tree" if tree else "")

    def decorate(obj):
        if not isinstance(obj, type):
            obj.__vf_vargs__ = mode
            return obj
        modes = {}
        for base in [b for b in obj.__mro__[1:] if b is not object and not b.__module__ == "abc"]:
            for k, v in getattr(base, "__vf_modes__", {}).items():
                modes.setdefault(k, v)
        for name in vf.own_names(obj):
            if not name.startswith("_"):
                modes[name] = mode
        obj.__vf_modes__ = modes
        return obj
    return decorate


class Transformer:
    __vf_partial__ = True

    def __init__(self, visit_tokens=True):
        self.__visit_tokens__ = visit_tokens

    def __default__(self, data, children, meta):
        return Tree(data, children, meta)

    def __default_token__(self, token):
        return token

    def _call_userfunc(self, tree, children):
        if not vf.has_attr(self, tree.data):
            return self.__default__(tree.data, children, None)
        f = getattr(self, tree.data)
        mode = vf.fn_attr(f, "__vf_vargs__")
        if mode is None:
            mode = getattr(type(self), "__vf_modes__", {}).get(tree.data, "")
        try:
            if mode == "inline":
                return f(*children)
            if mode == "meta":
                return f(None, children)
            if mode == "inlinemeta":
                return f(None, *children)
            if mode == "tree":
                return f(Tree(tree.data, children))
            return f(children)
        except VisitError:
            raise
        except Exception as e:
            raise VisitError(tree.data, tree, e)

    def _transform_tree(self, tree):
        children = []
        for c in tree.children:
            children.append(self._transform_tree(c) if isinstance(c, Tree) else c)
        return self._call_userfunc(tree, children)

    def transform(self, tree):
        return self._transform_tree(tree)


Transformer_NonRecursive = Transformer


class Transformer_InPlace(Transformer):
    def _transform_tree(self, tree):
        for n, c in enumerate(list(tree.children)):
            if isinstance(c, Tree):
                tree.children[n] = self._transform_tree(c)
        return self._call_userfunc(tree, tree.children)


Transformer_InPlaceRecursive = Transformer_InPlace
