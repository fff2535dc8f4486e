"""Model of lmfit: parameter sets with lmfit's sharing behaviour, and a minimiser that only records its problem."""
import copy
import keyword
import vf

inf = float("inf")
CALLS = []
STARTS = []


class Parameter:
    __vf_partial__ = ('_Parameter__set_expression', '_delay_asteval', '_expr_ast', '_expr_deps', '_expr_eval', '_getval', '_init_bounds', 'from_internal',
                      'scale_gradient', 'setup_bounds')

    def __init__(self, name, value=None, vary=True, min=-inf, max=inf, expr=None, brute_step=None, user_data=None):
        self.name = name
        self.user_data = user_data
        self.min = -inf if min is None else min
        self.max = inf if max is None else max
        self.brute_step = brute_step
        self._vary = vary
        self._expr = None if expr == "" else expr
        self.stderr = None
        self.correl = None
        self.init_value = value
        self._set(-inf if value is None else value)

    def _set(self, val):
        if self.max < inf and val > self.max:
            val = self.max
        if self.min > -inf and val < self.min:
            val = self.min
        self._val = val

    @property
    def value(self):
        if self._expr is not None:
            vf.not_modelled("constrained parameters")
        return self._val

    @value.setter
    def value(self, val):
        self._set(val)

    @property
    def vary(self):
        return self._vary

    @vary.setter
    def vary(self, val):
        self._vary = val
        if val:
            self._expr = None

    @property
    def expr(self):
        return self._expr

    @expr.setter
    def expr(self, val):
        self._expr = None if val == "" else val
        if self._expr is not None:
            self._vary = False

    def set(self, value=None, vary=None, min=None, max=None, expr=None, brute_step=None, is_init_value=True):
        if vary is not None:
            self.vary = vary
        if min is not None:
            self.min = min
        if max is not None:
            self.max = max
        if value is not None:
            self.value = value
            self._expr = None
        if expr is not None:
            self.expr = expr
        if brute_step is not None:
            self.brute_step = None if brute_step == 0 else brute_step

    def __deepcopy__(self, memo):
        p = Parameter(self.name, self._val, self._vary, self.min, self.max, self._expr, self.brute_step, copy.deepcopy(self.user_data))
        p.stderr = self.stderr
        p.correl = copy.deepcopy(self.correl)
        p.init_value = self.init_value
        return p

    def __copy__(self):
        return self.__deepcopy__({})

    def __float__(self):
        return float(self.value)

    def __array__(self, dtype=None, copy=None):
        return self.value

    def __neg__(self):
        return -self.value

    def __abs__(self):
        return abs(self.value)

    def __add__(self, o):
        return self.value + o

    def __radd__(self, o):
        return o + self.value

    def __sub__(self, o):
        return self.value - o

    def __rsub__(self, o):
        return o - self.value

    def __mul__(self, o):
        return self.value * o

    def __rmul__(self, o):
        return o * self.value

    def __truediv__(self, o):
        return self.value / o

    def __rtruediv__(self, o):
        return o / self.value

    def __pow__(self, o):
        return self.value ** o

    def __rpow__(self, o):
        return o ** self.value

    def __lt__(self, o):
        return self.value < o

    def __le__(self, o):
        return self.value <= o

    def __gt__(self, o):
        return self.value > o

    def __ge__(self, o):
        return self.value >= o

    def __eq__(self, o):
        return self.value == o

    def __ne__(self, o):
        return self.value != o

    __vf_wrap__ = True

    def __vf_np__(self, r):
        return r


class Parameters:
    """a dict of Parameter objects"""
    __vf_partial__ = ('_ast_msgs', '_asteval', '_repr_html_', '_writer', 'create_uvars', 'dump', 'dumps', 'eval', 'fromkeys', 'load', 'loads', 'pretty_print',
                      'pretty_repr')

    def __init__(self, usersyms=None):
        self._d = {}

    # -- mapping
    def __getitem__(self, key):
        return self._d[key]

    def __setitem__(self, key, par):
        if key not in self._d and (not key.isidentifier() or keyword.iskeyword(key)):
            raise KeyError("'%s' is not a valid Parameters name" % key)
        if par is not None and not isinstance(par, Parameter):
            raise ValueError("'%s' is not a Parameter" % par)
        self._d[key] = par
        par.name = key

    def __delitem__(self, key):
        del self._d[key]

    def __contains__(self, key):
        return key in self._d

    def __iter__(self):
        return iter(list(self._d))

    def __len__(self):
        return len(self._d)

    def keys(self):
        return self._d.keys()

    def values(self):
        return self._d.values()

    def items(self):
        return self._d.items()

    def get(self, key, default=None):
        return self._d.get(key, default)

    def __eq__(self, other):
        if not isinstance(other, (Parameters, dict)) or len(self) != len(other):
            return False
        for key in self._d:
            if key not in other or not (self._d[key] is other[key] or self._d[key] == other[key]):
                return False
        return True

    def __ne__(self, other):
        return not self == other

    __hash__ = None

    def pop(self, *a):
        return self._d.pop(*a)

    def popitem(self):
        return self._d.popitem()

    def clear(self):
        self._d.clear()

    def setdefault(self, key, default=None):
        return self._d.setdefault(key, default)

    # -- lmfit
    def copy(self):
        return self.__deepcopy__(None)

    def __copy__(self):
        return self.__deepcopy__(None)

    def __deepcopy__(self, memo):
        new = self.__class__()
        new.add_many(*[copy.deepcopy(p) for p in self._d.values()])
        return new

    def update(self, other):
        if not isinstance(other, Parameters):
            raise ValueError("'%s' is not a Parameters object" % other)
        self.add_many(*list(other._d.values()))
        return self

    def __add__(self, other):
        out = copy.deepcopy(self)
        out.add_many(*list(other._d.values()))
        return out

    def __iadd__(self, other):
        self.update(other)
        return self

    def add(self, name, value=None, vary=None, min=-inf, max=inf, expr=None, brute_step=None, user_data=None):
        if isinstance(name, Parameter):
            if name.expr is None and expr is not None:
                name.expr = expr
            if vary is not None:
                name.vary = vary
            self.__setitem__(name.name, name)
        elif isinstance(value, Parameter):
            value = copy.deepcopy(value)
            value.name = name
            self.__setitem__(name, value)
        else:
            self.__setitem__(name, Parameter(name, value=value, vary=True if vary is None else vary, min=min, max=max, expr=expr,
                                             brute_step=brute_step, user_data=user_data))

    def add_many(self, *parlist):
        for par in parlist:
            if not isinstance(par, Parameter):
                par = Parameter(*par)
            self.__setitem__(par.name, par)

    def set(self, **kws):
        for name, val in kws.items():
            if name not in self._d:
                self.__setitem__(name, Parameter(name))
            if isinstance(val, dict):
                self._d[name].set(**val)
            else:
                self._d[name].set(value=val)

    def valuesdict(self):
        return {k: p.value for k, p in self._d.items()}

    def update_constraints(self):
        pass


class MinimizerResult:
    __vf_partial__ = True

    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)


def minimize(fcn, params, method="leastsq", args=None, kws=None, iter_cb=None, scale_covar=True, nan_policy="raise", reduce_fcn=None,
             calc_covar=True, max_nfev=None, **fit_kws):
    work = copy.deepcopy(params)
    a = [] if args is None else list(args)
    k = {} if kws is None else dict(kws)
    STARTS.append(copy.deepcopy(params))
    n = len(CALLS)
    for name in list(work):
        if work[name].vary:
            work[name].value = vf.real("fit%d_%s" % (n, name), 3 + 0.015625 * (n % 256), 3 + 0.015625 * (n % 256) + 0.0078125)
    residual = fcn(work, *a, **k)
    res = MinimizerResult(params=work, residual=residual, method=method, success=True)
    CALLS.append((fcn, params, a, k, method, res, residual))
    return res
