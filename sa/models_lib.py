"""Transfer functions of builtins, numpy and sympy entry points."""
import itertools
from fractions import Fraction

from . import terms as tm
from .terms import T, as_t
from .values import *
from . import interp as _ip
from . import models as M
from .models import (model, MODELS, to_arr, elementwise, ufunc1, as_index, to_str, termof, is_arr, is_num, dimless,
                     compare, matmul, np_dot, tensordot, transpose, reshape, getitem, strides, as_unit, _u, content,
                     sorted_items, num_leaves)


# ------------------------------------------------------------------ array construction

def shape_arg(I, v):
    v = I.force(v)
    if isinstance(v, (int, T)) and not isinstance(v, bool):
        v = (v,)
    out = []
    for x in I.iterate(v):
        x = as_index(I, I.force(x))
        if not isinstance(x, int):
            raise AnalysisError("symbolic array shape at %s" % I.loc())
        out.append(x)
    return tuple(out)


def prod(shape):
    n = 1
    for d in shape:
        n *= d
    return n


def np_array(I, args, kw):
    v = I.force(args[0])
    if isinstance(v, QuantV):
        return QuantV(np_array(I, [v.value], {}), v.unit)
    dt = kw.get("dtype", args[1] if len(args) > 1 else None)
    s, el, lib = to_arr(I, v)
    if any(isinstance(x, QuantV) for x in el):
        el = tuple(dimless(I, x) if isinstance(x, QuantV) else x for x in el)
    dtype = None
    if dt is None and el and all(isinstance(x, int) for x in el):
        dtype = "int"
    if isinstance(v, Ref) and isinstance(I.content(v), Arr):
        dtype = I.content(v).dtype if dt is None else None
    if any(isinstance(x, Opaque) for x in el) and not s:
        return Opaque("array(%s)" % el[0].name, ("array", el[0].key))
    if dt is not None:
        dtype = dtype_of(dt)
        if dtype in ("int", "f32"):
            el = tuple(M.cast(I, termof(I, x), dtype) for x in el)
    return I.new_arr(s, [termof(I, x) for x in el], "np", dtype if dtype in ("int", "bool", "f32") else None)


@model("numpy.array", "numpy.asarray", "numpy.asanyarray", "numpy.copy")
def _np_array(I, args, kw):
    return np_array(I, args, kw)


def _asarray(I, args, kw):
    v = I.force(args[0])
    dt = kw.get("dtype", args[1] if len(args) > 1 else None)
    if is_arr(I, v) and I.content(v).lib == "np" and (dt is None or dtype_of(dt) in (None, I.content(v).dtype)):
        return v
    if isinstance(v, QuantV):
        return v
    return np_array(I, args, kw)


MODELS["numpy.asarray"] = _asarray
MODELS["numpy.asanyarray"] = _asarray
MODELS["numpy.ascontiguousarray"] = _asarray
MODELS["numpy.asfarray"] = _asarray


def quantity_array(I, v):
    s, el, lib = to_arr(I, v)
    if not any(isinstance(x, QuantV) for x in el):
        return np_array(I, [v], {})
    u = next(x.unit for x in el if isinstance(x, QuantV))
    return QuantV(I.new_arr(s, [M.convert(I, x, u) if isinstance(x, QuantV) else x for x in el]), u)


def dtype_of(dt):
    if isinstance(dt, ExtV):
        p = dt.path
        if p in ("builtins.int", "numpy.int", "numpy.int_", "numpy.int64", "numpy.int32", "numpy.intp"):
            return "int"
        if p in ("builtins.bool", "numpy.bool_", "numpy.bool"):
            return "bool"
        if p in ("numpy.float32", "numpy.float16", "numpy.half"):
            return "f32"
        if p == "builtins.object":
            return "object"
    if isinstance(dt, Opaque):
        return {"dtype:int": "int", "dtype:bool": "bool"}.get(dt.name)
    if dt in ("int", "i", "i4", "i8", "int64", "int32"):
        return "int"
    if dt in ("float32", "f4", "f", "float16", "f2", "e"):
        return "f32"
    if dt in ("bool", "?"):
        return "bool"
    return None


def _fill(val):
    def f(I, args, kw):
        sh = shape_arg(I, args[0] if args else kw["shape"])
        dt = kw.get("dtype", args[1] if len(args) > 1 else None)
        dtype = dtype_of(dt)
        v = val if dtype == "int" else (bool(val) if dtype == "bool" else T.const(val))
        return I.new_arr(sh, [v] * prod(sh), "np", dtype)
    return f


MODELS["numpy.zeros"] = _fill(0)
MODELS["numpy.ones"] = _fill(1)


@model("numpy.empty")
def _empty(I, args, kw):
    sh = shape_arg(I, args[0] if args else kw["shape"])
    dtype = dtype_of(kw.get("dtype", args[1] if len(args) > 1 else None))
    return I.new_arr(sh, [tm.sym("uninit%d" % i) for i in range(prod(sh))], "np", dtype if dtype in ("int", "f32", "bool") else None)


def _fullarr(I, sh, v, dtype):
    v = I.force(v) if not isinstance(v, Ite) else v
    if is_arr(I, v) or M.seq_items(I, v) is not None:
        r = I.new_arr(sh, [T.const(0)] * prod(sh), "np", dtype)
        I.setitem(r, Ellipsis, v)
        return r
    return I.new_arr(sh, [M.cast(I, v, dtype)] * prod(sh), "np", dtype if dtype in ("int", "f32", "bool") else None)


@model("numpy.full")
def _full(I, args, kw):
    sh = shape_arg(I, args[0] if args else kw["shape"])
    v = args[1] if len(args) > 1 else kw["fill_value"]
    dt = kw.get("dtype", args[2] if len(args) > 2 else None)
    return _fullarr(I, sh, v, dtype_of(dt) if dt is not None else "int" if type(v) is int else None)


def _like_dtype(I, a, kw, args, k):
    dt = kw.get("dtype", args[k] if len(args) > k else None)
    if dt is not None:
        return dtype_of(dt)
    a = I.force(a)
    if is_arr(I, a):
        return I.content(a).dtype
    el = to_arr(I, a)[1]
    return "int" if el and all(type(x) is int for x in el) else None


def _like(val):
    def f(I, args, kw):
        s, el, lib = to_arr(I, I.force(args[0]))
        dt = _like_dtype(I, args[0], kw, args, 1)
        if kw.get("shape") is not None:
            s = shape_arg(I, kw["shape"])
        if val is None:
            return I.new_arr(s, [tm.sym("uninit%d" % i) for i in range(prod(s))], "np", dt if dt in ("int", "f32", "bool") else None)
        return _fullarr(I, s, T.const(val) if dt != "int" else val, dt)
    return f


MODELS["numpy.zeros_like"] = _like(0)
MODELS["numpy.ones_like"] = _like(1)
MODELS["numpy.empty_like"] = _like(None)


@model("numpy.full_like")
def _full_like(I, args, kw):
    s, el, lib = to_arr(I, I.force(args[0]))
    return _fullarr(I, s, args[1] if len(args) > 1 else kw["fill_value"], _like_dtype(I, args[0], kw, args, 2))


@model("numpy.eye", "numpy.identity")
def _eye(I, args, kw):
    n = as_index(I, I.force(args[0] if args else kw.get("N", kw.get("n"))))
    m = as_index(I, I.force(kw.get("M", args[1] if len(args) > 1 else None)))
    k = as_index(I, I.force(kw.get("k", args[2] if len(args) > 2 else 0)))
    m = n if m is None or not isinstance(m, int) else m
    if not isinstance(k, int) or not isinstance(n, int):
        raise AnalysisError("np.eye at %s" % I.loc())
    return I.new_arr((n, m), [T.const(1 if i + k == j else 0) for i in range(n) for j in range(m)])


@model("numpy.arange")
def _arange(I, args, kw):
    a = [as_index(I, I.force(x)) for x in args]
    if all(isinstance(x, int) for x in a):
        r = range(*a)
        if len(r) > 20100:
            raise AnalysisError("large arange at %s" % I.loc())
        return I.new_arr((len(r),), list(r), "np", "int")
    if all(isinstance(x, T) and x.as_const() is not None or isinstance(x, int) for x in a):
        s = [as_t(x).as_const() for x in a]
        lo, hi, st = (0, s[0], 1) if len(s) == 1 else (s[0], s[1], s[2] if len(s) > 2 else 1)
        out = []
        v = Fraction(lo)
        while v < hi if st > 0 else v > hi:
            if len(out) > 20100:
                raise AnalysisError("large arange at %s" % I.loc())
            out.append(T.const(v))
            v += st
        return I.new_arr((len(out),), out)
    return Opaque("arange", ("arange",) + tuple(M._key(x) for x in a))


@model("numpy.linspace", "numpy.logspace", "numpy.geomspace")
def _linspace(I, args, kw):
    raise AnalysisError("unreachable")


def _grid(kind):
    def g(I, args, kw):
        a, b = I.force(args[0]), I.force(args[1])
        n = as_index(I, I.force(args[2] if len(args) > 2 else kw.get("num", 50)))
        end = I.force(kw.get("endpoint", args[3] if len(args) > 3 else True)) is not False
        if kw.get("retstep"):
            raise AnalysisError("linspace with retstep at %s" % I.loc())
        unit = None
        if isinstance(a, QuantV) or isinstance(b, QuantV):
            unit = (a if isinstance(a, QuantV) else b).unit
            a = M.convert(I, a, unit) if isinstance(a, QuantV) else a
            b = M.convert(I, b, unit) if isinstance(b, QuantV) else b
        if isinstance(n, int) and n <= 24 and not isinstance(a, Opaque) and not isinstance(b, Opaque):
            el = []
            if kind == "geom":
                a, b = MODELS["numpy.log"](I, [a], {}), MODELS["numpy.log"](I, [b], {})
            m = n - 1 if end else n
            for i in range(n):
                d = I.binop("-", b, a)
                x = I.binop("+", a, I.binop("*", d, T.const(Fraction(i, m)) if m > 0 else 0))
                if kind == "log":
                    x = I.binop("**", kw.get("base", 10), x)
                elif kind == "geom":
                    x = MODELS["numpy.exp"](I, [x], {})
                el.append(x)
            r = I.new_arr((n,), el)
        else:
            # symbolic grid: one representative element ranging over the grid
            lo, hi = (M._key(a), M._key(b))
            I.opq += 0
            r = Opaque("obj:%sspace" % kind, (kind + "space", lo, hi, M._key(n)) + (() if end else ("open",)))
            I.event(kind + "space", (r, a, b, n) if end else (r, a, b, n, "open"))
        return QuantV(r, unit) if unit is not None else r
    return g


for _k in ("lin", "log", "geom"):
    MODELS["numpy.%sspace" % _k] = _grid(_k)


@model("numpy.meshgrid")
def _meshgrid(I, args, kw):
    parts = [I.force(a) for a in args]
    if any(isinstance(p, Opaque) for p in parts):
        out = tuple(Opaque("obj:meshgrid%d" % i, ("meshgrid", i) + tuple(M._key(p) for p in parts))
                    for i in range(len(parts)))
        I.event("meshgrid", (out, tuple(parts)))
        return out
    arrs = [to_arr(I, p) for p in parts]
    if kw.get("indexing", "xy") == "xy" and len(arrs) >= 2:
        sh = (len(arrs[1][1]), len(arrs[0][1])) + tuple(len(a[1]) for a in arrs[2:])
        pos = [1, 0] + list(range(2, len(arrs)))
    else:
        sh = tuple(len(a[1]) for a in arrs)
        pos = list(range(len(arrs)))
    out = []
    for k, a in enumerate(arrs):
        out.append(I.new_arr(sh, [a[1][idx[pos[k]]] for idx in itertools.product(*[range(d) for d in sh])]))
    return I.new_list(out)


@model("numpy.diag")
def _diag(I, args, kw):
    s, el, lib = to_arr(I, I.force(args[0]))
    k = as_index(I, I.force(kw.get("k", args[1] if len(args) > 1 else 0)))
    if len(s) == 1:
        n = s[0] + abs(k)
        out = [T.const(0)] * (n * n)
        for i in range(s[0]):
            r, c = (i, i + k) if k >= 0 else (i - k, i)
            out[r * n + c] = el[i]
        return I.new_arr((n, n), out)
    out = [el[i * s[1] + i + k] for i in range(s[0]) if 0 <= i + k < s[1]]
    return I.new_arr((len(out),), out)


MODELS["numpy.diagonal"] = _diag


@model("numpy.diagflat")
def _diagflat(I, args, kw):
    s, el, lib = to_arr(I, I.force(args[0]))
    return _diag(I, [I.new_arr((len(el),), el)], {})


# ------------------------------------------------------------------ scalar functions

def _np_fn(f, angle=False, outunit=None):
    def g(I, args, kw):
        v = args[0]
        v = I.force(v) if isinstance(v, Ite) and not num_leaves(v) else v
        if isinstance(v, QuantV):
            v = dimless(I, v)
            r = ufunc1(I, f.__name__, f, v)
            return QuantV(r, _u(1, rad=1) if outunit == "rad" else _u(1))
        if isinstance(v, (Ref,)) and isinstance(I.content(v), Inst):
            t = termof(I, v)
            if t is v:
                return ufunc1(I, g.uname, f, v)
            v = t
        if isinstance(v, Opaque):
            return Opaque("%s(%s)" % (g.uname, v.name), (g.uname, v.key))
        return ufunc1(I, g.uname, f, v)
    return g


def _sech(x):
    return tm.inv(tm.cosh(x))


def _sign(x):
    if x.is_zero():
        return tm.ZERO
    if tm.positive(x):
        return tm.ONE
    if tm.positive(-x):
        return -tm.ONE
    c = x.as_const()
    if c is not None:
        return T.const(1 if c > 0 else -1)
    return x / tm.absval(x)


def _cbrt(x):
    return tm.root(x, 3)


def _tofloor(x):
    c = x.as_const()
    if c is not None:
        return T.const(c.numerator // c.denominator)
    return tm.func("floor", (x,))


def _toceil(x):
    c = x.as_const()
    if c is not None:
        return T.const(-((-c.numerator) // c.denominator))
    return tm.func("ceil", (x,))


UN = {
    "sin": (tm.sin, None), "cos": (tm.cos, None), "tan": (tm.tan, None), "sinh": (tm.sinh, None),
    "cosh": (tm.cosh, None), "tanh": (lambda x: tm.sinh(x) / tm.cosh(x), None), "exp": (tm.exp, None),
    "log": (tm.log, None), "arccos": (tm.acos, "rad"), "arcsin": (tm.asin, "rad"), "arctan": (tm.atan, "rad"),
    "log10": (lambda x: tm.log(x) / tm.log(T.const(10)), None), "log2": (lambda x: tm.log(x) / tm.log(T.const(2)), None),
    "log1p": (lambda x: tm.log(x + 1), None), "expm1": (lambda x: tm.exp(x) - 1, None), "floor": (_tofloor, None),
    "ceil": (_toceil, None), "rint": (lambda x: T.const(round(x.as_const())) if x.as_const() is not None else tm.func("rint", (x,)), None), "exp2": (lambda x: tm.power(T.const(2), x), None),
    "deg2rad": (lambda x: x * tm.PI / 180, None), "radians": (lambda x: x * tm.PI / 180, None),
    "rad2deg": (lambda x: x * 180 / tm.PI, None), "degrees": (lambda x: x * 180 / tm.PI, None), "sign": (_sign, None),
    "trunc": (lambda x: T.const(int(x.as_const())) if x.as_const() is not None else tm.func("trunc", (x,)), None),
}
for _n, (_f, _o) in UN.items():
    _g = _np_fn(_f, outunit=_o)
    _g.uname = _n
    MODELS["numpy." + _n] = _g
    alias = {"arccos": "acos", "arcsin": "asin", "arctan": "atan"}.get(_n, _n)
    MODELS["math." + alias] = _g
    if alias not in ("degrees", "radians", "rint", "deg2rad", "rad2deg"):
        MODELS["sympy." + {"ceil": "ceiling"}.get(alias, alias)] = _g
    if _n == "log":
        MODELS["sympy.ln"] = _g

for _n, _f in {"cot": lambda x: tm.cos(x) / tm.sin(x), "sec": lambda x: tm.inv(tm.cos(x)),
               "csc": lambda x: tm.inv(tm.sin(x)), "coth": lambda x: tm.cosh(x) / tm.sinh(x), "sech": _sech,
               "csch": lambda x: tm.inv(tm.sinh(x)), "re": lambda x: x, "cbrt": _cbrt}.items():
    _g = _np_fn(_f)
    _g.uname = _n
    MODELS["sympy." + _n] = _g
    if _n == "cbrt":
        MODELS["numpy.cbrt"] = _g

SYMPY_FUN1 = {}


def _un_unit(f, power):
    """unary function that maps a quantity of unit u to unit u**power"""
    def g(I, args, kw):
        v = args[0]
        v = I.force(v) if isinstance(v, Ite) and not num_leaves(v) else v
        if isinstance(v, QuantV):
            return QuantV(ufunc1(I, g.uname, f, v.value), v.unit.pow(power))
        if isinstance(v, Ref) and isinstance(I.content(v), Inst):
            t = termof(I, v)
            if t is v:
                return ufunc1(I, g.uname, f, v)
            v = t
        if isinstance(v, Opaque):
            return Opaque("%s(%s)" % (g.uname, v.name), (g.uname, v.key))
        return ufunc1(I, g.uname, f, v)
    return g


for _n, (_f, _p, _paths) in {
    "sqrt": (tm.sqrt, Fraction(1, 2), ["numpy.sqrt", "math.sqrt", "sympy.sqrt", "numpy.emath.sqrt",
                                       "numpy.lib.scimath.sqrt"]),
    "square": (lambda x: x * x, 2, ["numpy.square"]),
    "reciprocal": (lambda x: tm.inv(x), -1, ["numpy.reciprocal"]),
    "abs": (tm.absval, 1, ["numpy.abs", "builtins.abs", "math.fabs", "sympy.Abs", "numpy.fabs"]),
    "negative": (lambda x: -x, 1, ["numpy.negative"]),
    "positive": (lambda x: x, 1, ["numpy.positive", "numpy.real", "numpy.conj", "numpy.conjugate", "numpy.nan_to_num"]),
}.items():
    _g = _un_unit(_f, _p)
    _g.uname = _n
    for _pp in _paths:
        MODELS[_pp] = _g


def _abs(I, args, kw):
    v = args[0]
    if isinstance(v, Ite):
        v = restrict(v, I.st.facts)
    if isinstance(v, Ref):
        m = I.find_method(v, "__abs__")
        if m is not None:
            return I.call(m, [], {})
    if isinstance(v, int):
        return abs(v)
    return MODELS["numpy.abs"](I, args, kw)


MODELS["builtins.abs"] = _abs


@model("numpy.isreal", "numpy.isfinite")
def _isreal(I, args, kw):
    v = args[0]
    return Ite(atom("opaque", ("isreal", M._key(v)), v, "isreal(%r)" % (v,)), True, False)


@model("numpy.isnan", "math.isnan", "numpy.isinf", "math.isinf")
def _isnan(I, args, kw):
    def f(x):
        if isinstance(x, T) and x is _ip.NAN:
            return True
        return False
    return elementwise(I, f, [args[0]])


def _bin(op):
    def f(I, args, kw):
        return I.binop(op, args[0], args[1])
    return f


for _n, _op in {"add": "+", "subtract": "-", "multiply": "*", "divide": "/", "true_divide": "/", "power": "**",
                "float_power": "**", "mod": "%", "remainder": "%", "floor_divide": "//"}.items():
    def _mkb(op):
        def f(I, args, kw):
            a, b = [np_array(I, [x], {}) if isinstance(I.force(x), (tuple,)) or M.seq_items(I, x) is not None else x
                    for x in args[:2]]
            r = I.binop(op, a, b)
            out = kw.get("out", args[2] if len(args) > 2 else None)
            if out is not None:
                o = out[0] if isinstance(out, tuple) else out
                I.setitem(o, slice(None), r)
                return o
            return r
        return f
    MODELS["numpy." + _n] = _mkb(_op)
    if _n not in ("float_power", "true_divide"):
        MODELS["operator." + {"subtract": "sub", "multiply": "mul", "divide": "truediv", "power": "pow",
                              "remainder": "mod", "floor_divide": "floordiv"}.get(_n, _n)] = _bin(_op)
MODELS["operator.mod"] = _bin("%")
MODELS["operator.matmul"] = _bin("@")
MODELS["operator.neg"] = lambda I, a, k: I.unop("-", a[0])
for _n, _op in {"eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}.items():
    MODELS["operator." + _n] = (lambda op: lambda I, a, k: compare(I, op, a[0], a[1]))(_op)
for _n, _op in {"equal": "==", "not_equal": "!=", "less": "<", "less_equal": "<=", "greater": ">",
                "greater_equal": ">="}.items():
    MODELS["numpy." + _n] = (lambda op: lambda I, a, k: compare(I, op, a[0], a[1]))(_op)
MODELS["operator.getitem"] = lambda I, a, k: I.getitem(I.force(a[0]), I.force(a[1]))


@model("builtins.pow", "math.pow", "sympy.Pow")
def _pow(I, args, kw):
    return I.binop("**", args[0], args[1])


@model("math.hypot")
def _mhypot(I, args, kw):
    s = tm.ZERO
    for a in args:
        s = I.binop("+", s, I.binop("*", a, a))
    return MODELS["numpy.sqrt"](I, [s], {})


@model("numpy.hypot")
def _hypot(I, args, kw):
    a, b = args[:2]
    if isinstance(a, QuantV) or isinstance(b, QuantV):
        s = I.binop("+", I.binop("*", a, a), I.binop("*", b, b))
        return MODELS["numpy.sqrt"](I, [s], {})
    return elementwise(I, lambda x, y: MODELS["numpy.sqrt"](I, [I.binop("+", I.binop("*", x, x), I.binop("*", y, y))], {}),
                       [a, b])


@model("numpy.arctan2", "math.atan2", "sympy.atan2")
def _atan2(I, args, kw):
    a, b = args[:2]
    q = isinstance(a, QuantV) or isinstance(b, QuantV)
    if q:
        if isinstance(a, QuantV) and isinstance(b, QuantV):
            b = M.convert(I, b, a.unit)
            a = a.value
        else:
            a, b = dimless(I, a), dimless(I, b)

    def f(x, y):
        if isinstance(x, Ite):
            return I.lift1(lambda z: f(z, y), x)
        if isinstance(y, Ite):
            return I.lift1(lambda z: f(x, z), y)
        x, y = as_t(termof(I, x)), as_t(termof(I, y))
        if x.is_zero() and y.is_zero():
            return tm.ZERO
        return tm.atan2(x, y)
    r = elementwise(I, f, [a, b])
    return QuantV(r, _u(1, rad=1)) if q else r


@model("numpy.maximum", "numpy.fmax")
def _maximum(I, args, kw):
    return elementwise(I, lambda x, y: gmax(I, x, y, True), list(args[:2]))


@model("numpy.minimum", "numpy.fmin")
def _minimum(I, args, kw):
    return elementwise(I, lambda x, y: gmax(I, x, y, False), list(args[:2]))


def gmax(I, x, y, mx):
    """first maximal / minimal of two, as a gated value"""
    c = I.truth(compare(I, ">" if mx else "<", y, x))
    return ite(c, y, x)


@model("numpy.clip")
def _clip(I, args, kw):
    v, lo, hi = args[0], args[1], args[2]

    def f(x, a, b):
        if a is not None:
            x = gmax(I, x, a, True)
        if b is not None:
            x = gmax(I, x, b, False)
        return x
    return elementwise(I, f, [v, lo, hi])


@model("numpy.where")
def _where(I, args, kw):
    if len(args) == 1:
        s, el, _ = to_arr(I, I.force(args[0]))
        idx = [i for i, x in enumerate(el) if I.force(I.truth(x))]
        if len(s) == 1:
            return (I.new_arr((len(idx),), idx),)
        return MODELS["numpy.nonzero"](I, args, kw)
    unit = None
    a, b = args[1], args[2]
    if isinstance(a, QuantV) or isinstance(b, QuantV):
        unit = (a if isinstance(a, QuantV) else b).unit
        a = M.convert(I, a, unit) if isinstance(a, QuantV) else a
        b = M.convert(I, b, unit) if isinstance(b, QuantV) else b
    r = elementwise(I, lambda c, x, y: ite(I.truth(c), x, y), [args[0], a, b])
    return QuantV(r, unit) if unit is not None else r


# ------------------------------------------------------------------ predicates on arrays

def closeness(name):
    def f(I, args, kw):
        a, b = args[0], args[1]
        names = ["rtol", "atol", "equal_nan"]
        opts = dict(zip(names, args[2:]))
        opts.update(kw)
        if isinstance(a, QuantV) or isinstance(b, QuantV):
            if isinstance(a, QuantV) and isinstance(b, QuantV):
                b = M.convert(I, b, a.unit)
                a = a.value
            else:
                a, b = dimless(I, a), dimless(I, b)
        sa, ea, _ = to_arr(I, a)
        sb, eb, _ = to_arr(I, b)
        sh = M.bshape(I, [sa, sb])
        la = [ea[i] for i in M.bindex(sa, sh)]
        lb = [eb[i] for i in M.bindex(sb, sh)]
        pairs = tuple((x, y) for x, y in zip(la, lb))
        if all(same(as_t(x) if isinstance(x, int) else x, as_t(y) if isinstance(y, int) else y) for x, y in pairs):
            return True
        ca = [as_t(x).as_const() if is_num(x) else None for x in la]
        cb = [as_t(x).as_const() if is_num(x) else None for x in lb]
        rt = as_t(opts.get("rtol", Fraction(1, 10 ** 5))).as_const()
        at = as_t(opts.get("atol", Fraction(1, 10 ** 8))).as_const()
        if None not in ca and None not in cb and rt is not None and at is not None:
            return all(abs(x - y) <= at + rt * abs(y) for x, y in zip(ca, cb))
        if len(pairs) == 1 and is_num(la[0]) and is_num(lb[0]) and name == "allclose":
            # scalar: |a - b| <= atol + rtol |b| exactly (no NaN in real arithmetic)
            rt, at = as_t(opts.get("rtol", Fraction(1, 10 ** 5))), as_t(opts.get("atol", Fraction(1, 10 ** 8)))
            x, y = as_t(la[0]), as_t(lb[0])
            return M.known(I, b_not(gtz(tm.absval(x - y) - at - rt * tm.absval(y))))
        key = (name, tuple(M._key(x) for x in la), tuple(M._key(x) for x in lb), M._key(opts.get("rtol")),
               M._key(opts.get("atol")))
        q = atom(name, key, (tuple(la), tuple(lb), opts.get("rtol"), opts.get("atol")),
                 "%s(...)" % name)
        I.event(name, (a, b, opts.get("rtol"), opts.get("atol"), q))
        return M.known(I, Ite(q, True, False))
    return f


MODELS["numpy.allclose"] = closeness("allclose")
MODELS["math.isclose"] = closeness("isclose")


@model("numpy.isclose")
def _isclose(I, args, kw):
    g = closeness("isclose")
    return elementwise(I, lambda x, y: g(I, [x, y] + list(args[2:]), kw), list(args[:2]))


@model("numpy.array_equal", "numpy.array_equiv")
def _array_equal(I, args, kw):
    sa, ea, _ = to_arr(I, I.force(args[0]))
    sb, eb, _ = to_arr(I, I.force(args[1]))
    if sa != sb:
        return False
    r = True
    for x, y in zip(ea, eb):
        r = b_and(r, I.truth(compare(I, "==", x, y)))
    return r


@model("numpy.any", "builtins.any")
def _any(I, args, kw):
    v = I.force(args[0])
    ax = I.force(kw.get("axis", args[1] if len(args) > 1 else None))
    if ax is not None and not isinstance(v, Opaque):
        def fold(xs):
            r = False
            for x in xs:
                r = b_or(r, I.truth(x))
            return r
        return reduce_(I, v, as_index(I, ax), fold, kw.get("keepdims") is True)
    if isinstance(v, Opaque):
        return Ite(atom("opaque", ("any", v.key), v, "any(%s)" % v.name), True, False)
    r = False
    for x in (to_arr(I, v)[1] if is_arr(I, v) else I.iterate(v) if not isinstance(v, (bool, int, T)) else [v]):
        r = b_or(r, I.truth(x))
        if r is True:
            return True
    return r


@model("numpy.all", "builtins.all")
def _all(I, args, kw):
    v = I.force(args[0])
    ax = I.force(kw.get("axis", args[1] if len(args) > 1 else None))
    if ax is not None and not isinstance(v, Opaque):
        def fold(xs):
            r = True
            for x in xs:
                r = b_and(r, I.truth(x))
            return r
        return reduce_(I, v, as_index(I, ax), fold, kw.get("keepdims") is True)
    if isinstance(v, Opaque):
        return Ite(atom("opaque", ("all", v.key), v, "all(%s)" % v.name), True, False)
    r = True
    for x in (to_arr(I, v)[1] if is_arr(I, v) else I.iterate(v) if not isinstance(v, (bool, int, T)) else [v]):
        r = b_and(r, I.truth(x))
        if r is False:
            return False
    return r


MODELS["numpy.logical_and"] = lambda I, a, k: elementwise(I, lambda x, y: b_and(I.truth(x), I.truth(y)), a[:2])
MODELS["numpy.logical_or"] = lambda I, a, k: elementwise(I, lambda x, y: b_or(I.truth(x), I.truth(y)), a[:2])
MODELS["numpy.logical_not"] = lambda I, a, k: elementwise(I, lambda x: b_not(I.truth(x)), a[:1])


@model("numpy.count_nonzero")
def _cnz(I, args, kw):
    s, el, _ = to_arr(I, I.force(args[0]))
    n = 0
    for x in el:
        t = I.force(I.truth(x))
        n += bool(t)
    return n


# ------------------------------------------------------------------ reductions

def reduce_(I, v, axis, f, keep=False):
    if isinstance(v, QuantV):
        return QuantV(reduce_(I, v.value, axis, f, keep), v.unit)
    s, el, lib = to_arr(I, v)
    if axis is None:
        return f(list(el))
    ax = [a % len(s) for a in (axis if isinstance(axis, tuple) else (axis,))]
    rest = [i for i in range(len(s)) if i not in ax]
    st = strides(s)
    out = []
    for ri in itertools.product(*[range(s[i]) for i in rest]):
        xs = []
        for ci in itertools.product(*[range(s[i]) for i in ax]):
            xs.append(el[sum(a * st[i] for a, i in zip(ri, rest)) + sum(a * st[i] for a, i in zip(ci, ax))])
        out.append(f(xs))
    sh = [s[i] for i in rest]
    if keep:
        sh = [1 if i in ax else s[i] for i in range(len(s))]
    if not sh:
        return out[0]
    return I.new_arr(sh, out, lib or "np")


def _fold(op, unit0):
    def f(I):
        def g(xs):
            r = None
            for x in xs:
                r = x if r is None else I.binop(op, r, x)
            return unit0 if r is None else r
        return g
    return f


def _red(f, name):
    def g(I, args, kw):
        v = I.force(args[0])
        ax = kw.get("axis", args[1] if len(args) > 1 else None)
        ax = I.force(ax)
        if isinstance(v, Opaque):
            return Opaque("%s(%s)" % (name, v.name), ("red", name, M._key(ax), v.key))
        if isinstance(ax, tuple):
            ax = tuple(as_index(I, x) for x in ax)
        return reduce_(I, v, as_index(I, ax), f(I), kw.get("keepdims") is True)
    return g


MODELS["numpy.sum"] = MODELS["math.fsum"] = _red(_fold("+", 0), "sum")
MODELS["numpy.prod"] = MODELS["math.prod"] = _red(_fold("*", 1), "prod")


def _mm(mx):
    def f(I):
        def g(xs):
            if any(isinstance(x, Opaque) for x in xs):
                return Opaque("max" if mx else "min", ("maxmin", mx) + tuple(M._key(x) for x in xs))
            r = xs[0]
            for x in xs[1:]:
                r = gmax(I, r, x, mx)
            return r
        return g
    return f


MODELS["numpy.max"] = MODELS["numpy.amax"] = MODELS["numpy.nanmax"] = _red(_mm(True), "max")
MODELS["numpy.min"] = MODELS["numpy.amin"] = MODELS["numpy.nanmin"] = _red(_mm(False), "min")


@model("numpy.mean", "numpy.average")
def _mean(I, args, kw):
    v = I.force(args[0])
    s, el, _ = to_arr(I, v)
    ax = I.force(kw.get("axis", args[1] if len(args) > 1 else None))
    r = reduce_(I, v, as_index(I, ax), _fold("+", 0)(I))
    n = len(el) if ax is None else s[ax]
    return I.binop("/", r, n)


def _cum(op):
    def g(I, args, kw):
        v = I.force(args[0])
        ax = I.force(kw.get("axis", args[1] if len(args) > 1 else None))
        if isinstance(v, Opaque):
            return Opaque("cum" + op, ("cum", op, M._key(ax), v.key))
        s, el, lib = to_arr(I, v)
        if ax is None:
            s, ax = (len(el),), 0
        ax = as_index(I, ax) % len(s)
        st = strides(s)
        out = list(el)
        for i, idx in enumerate(itertools.product(*[range(d) for d in s])):
            if idx[ax]:
                out[i] = I.binop(op, out[i - st[ax]], el[i])
        return I.new_arr(s, out, lib or "np")
    return g


MODELS["numpy.cumsum"] = _cum("+")
MODELS["numpy.cumprod"] = _cum("*")


@model("builtins.max", "builtins.min")
def _bmax(I, args, kw):
    raise AnalysisError("unreachable")


def _bmm(mx):
    def f(I, args, kw):
        xs = list(I.iterate(I.force(args[0]))) if len(args) == 1 else list(args)
        if not xs:
            if "default" in kw:
                return kw["default"]
            I.raise_builtin("ValueError", "empty sequence")
        key = kw.get("key")
        if key is not None:
            ks = [I.call(key, [x], {}) for x in xs]
            best, bk = xs[0], ks[0]
            for x, k in zip(xs[1:], ks[1:]):
                c = I.force(I.truth(compare(I, ">" if mx else "<", k, bk)))
                if c:
                    best, bk = x, k
            return best
        r = xs[0]
        for x in xs[1:]:
            r = gmax(I, r, x, mx)
        return r
    return f


MODELS["builtins.max"] = MODELS["sympy.Max"] = _bmm(True)
MODELS["builtins.min"] = MODELS["sympy.Min"] = _bmm(False)


# ------------------------------------------------------------------ linear algebra / layout

def _q2(f):
    def g(I, args, kw):
        a, b = I.force(args[0]), I.force(args[1])
        if isinstance(a, QuantV) or isinstance(b, QuantV):
            ua = a.unit if isinstance(a, QuantV) else _u(1)
            ub = b.unit if isinstance(b, QuantV) else _u(1)
            va = a.value if isinstance(a, QuantV) else a
            vb = b.value if isinstance(b, QuantV) else b
            return QuantV(f(I, va, vb), ua * ub)
        return f(I, a, b)
    return g


MODELS["numpy.dot"] = _q2(np_dot)
MODELS["numpy.matmul"] = _q2(matmul)
MODELS["numpy.vdot"] = _q2(np_dot)


def _outer(I, a, b):
    sa, ea, _ = to_arr(I, a)
    sb, eb, _ = to_arr(I, b)
    return I.new_arr((len(ea), len(eb)), [I.binop("*", x, y) for x in ea for y in eb])


MODELS["numpy.outer"] = _q2(_outer)


def _inner(I, a, b):
    sa, ea, _ = to_arr(I, a)
    sb, eb, _ = to_arr(I, b)
    if not sa or not sb:
        return I.binop("*", a, b)
    return tensordot(I, a, b, (len(sa) - 1,), (len(sb) - 1,))


MODELS["numpy.inner"] = _q2(_inner)


def _cross(I, a, b):
    _, x, _ = to_arr(I, a)
    _, y, _ = to_arr(I, b)

    def m(i, j):
        return I.binop("-", I.binop("*", x[i], y[j]), I.binop("*", x[j], y[i]))
    return I.new_arr((3,), [m(1, 2), m(2, 0), m(0, 1)])


MODELS["numpy.cross"] = _q2(_cross)


@model("numpy.tensordot")
def _tensordot(I, args, kw):
    ax = I.force(kw.get("axes", args[2] if len(args) > 2 else 2))
    a, b = I.force(args[0]), I.force(args[1])
    sa = to_arr(I, a)[0]
    if isinstance(ax, int):
        ax_a = tuple(range(len(sa) - ax, len(sa)))
        ax_b = tuple(range(ax))
    else:
        p, q = I.iterate(ax)
        ax_a = tuple(I.iterate(p)) if not isinstance(p, int) else (p,)
        ax_b = tuple(I.iterate(q)) if not isinstance(q, int) else (q,)
    return tensordot(I, a, b, ax_a, ax_b)


@model("numpy.einsum")
def _einsum(I, args, kw):
    args = [I.force(a) for a in args]
    if not isinstance(args[0], str):
        name = lambda a: "".join("abcdefghijklmnopqrstuvwxyz"[k] for k in _sints(I, a, "einsum"))
        ops, subs = args[0:len(args) // 2 * 2:2], args[1::2]
        args = [",".join(name(x) for x in subs) + ("->" + name(args[-1]) if len(args) % 2 else "")] + list(ops)
    if "out" in kw:
        raise AnalysisError("einsum with out at %s" % I.loc())
    return M.einsum(I, args)


@model("numpy.trace")
def _trace(I, args, kw):
    v = I.force(args[0])
    s, el, _ = to_arr(I, v)
    k = as_index(I, I.force(kw.get("offset", args[1] if len(args) > 1 else 0)))
    a, b = [as_index(I, I.force(kw.get("axis%d" % n, args[2 + n] if len(args) > 2 + n else n))) % len(s) for n in (0, 1)]
    st = strides(s)
    rest = [i for i in range(len(s)) if i not in (a, b)]
    out = []
    for ri in itertools.product(*[range(s[i]) for i in rest]):
        base = sum(x * st[i] for x, i in zip(ri, rest))
        r = tm.ZERO
        for i in range(s[a]):
            if 0 <= i + k < s[b]:
                r = I.binop("+", r, el[base + i * st[a] + (i + k) * st[b]])
        out.append(r)
    return I.new_arr([s[i] for i in rest], out) if rest else out[0]


@model("numpy.linalg.inv", "numpy.linalg.pinv", "scipy.linalg.inv")
def _inv(I, args, kw):
    return M.mat_inv(I, I.force(args[0]))


@model("numpy.linalg.det")
def _det(I, args, kw):
    s, rows, lib = M._rows(I, I.force(args[0]))
    return M.det([[as_t(termof(I, x)) for x in r] for r in rows])


@model("numpy.linalg.solve")
def _solve(I, args, kw):
    return matmul(I, M.mat_inv(I, I.force(args[0])), I.force(args[1]))


@model("numpy.linalg.norm")
def _norm(I, args, kw):
    v = I.force(args[0])
    u = None
    if isinstance(v, QuantV):
        u, v = v.unit, v.value
    if len(args) > 1 or kw:
        raise AnalysisError("norm options at %s" % I.loc())
    s = tm.ZERO
    for x in to_arr(I, v)[1]:
        s = I.binop("+", s, I.binop("*", x, x))
    r = MODELS["numpy.sqrt"](I, [s], {})
    return QuantV(r, u) if u is not None else r


@model("numpy.transpose")
def _transpose(I, args, kw):
    v = I.force(args[0])
    ax = I.force(kw.get("axes", args[1] if len(args) > 1 else None))
    ax = tuple(as_index(I, I.force(x)) for x in I.iterate(ax)) if ax is not None else None
    if isinstance(v, QuantV):
        return QuantV(transpose(I, v.value, ax), v.unit)
    if not is_arr(I, v):
        v = np_array(I, [v], {})
    return transpose(I, v, ax)


@model("numpy.swapaxes")
def _swapaxes(I, args, kw):
    v = I.force(args[0])
    n = len(to_arr(I, v)[0])
    ax = list(range(n))
    i, j = as_index(I, args[1]) % n, as_index(I, args[2]) % n
    ax[i], ax[j] = ax[j], ax[i]
    return transpose(I, v, tuple(ax))


@model("numpy.moveaxis")
def _moveaxis(I, args, kw):
    v = I.force(args[0])
    n = len(to_arr(I, v)[0])
    src = _sints(I, args[1] if len(args) > 1 else kw["source"], "axis")
    dst = _sints(I, args[2] if len(args) > 2 else kw["destination"], "axis")
    src = (src,) if isinstance(src, int) else src
    dst = (dst,) if isinstance(dst, int) else dst
    src = [x % n for x in src]
    dst = [x % n for x in dst]
    order = [i for i in range(n) if i not in src]
    for d, s in sorted(zip(dst, src)):
        order.insert(d, s)
    return transpose(I, v, tuple(order))


@model("numpy.rollaxis")
def _rollaxis(I, args, kw):
    v = I.force(args[0])
    n = len(to_arr(I, v)[0])
    a = args[1] % n
    st = args[2] if len(args) > 2 else kw.get("start", 0)
    if a < st:
        st -= 1
    order = [i for i in range(n) if i != a]
    order.insert(st, a)
    return transpose(I, v, tuple(order))


@model("numpy.reshape")
def _reshape(I, args, kw):
    v = I.force(args[0])
    return M.reshape_order(I, v if is_arr(I, v) else np_array(I, [v], {}), I.force(args[1] if len(args) > 1 else kw.get("shape", kw.get("newshape"))),
                           kw.get("order", args[2] if len(args) > 2 else "C"))


@model("numpy.ravel")
def _ravel(I, args, kw):
    v = I.force(args[0])
    s, el, _ = to_arr(I, v)
    order = kw.get("order", args[1] if len(args) > 1 else "C")
    if order != "C":
        return M.reshape_order(I, v if is_arr(I, v) else np_array(I, [v], {}), (len(el),), order)
    return reshape(I, v, (len(el),)) if is_arr(I, v) else I.new_arr((len(el),), el)


@model("numpy.squeeze")
def _squeeze(I, args, kw):
    v = I.force(args[0])
    s, el, _ = to_arr(I, v)
    return reshape(I, v, tuple(d for d in s if d != 1))


@model("numpy.expand_dims")
def _expand(I, args, kw):
    v = I.force(args[0])
    s, el, _ = to_arr(I, v)
    a = kw.get("axis", args[1] if len(args) > 1 else 0)
    sh = list(s)
    sh.insert(a if a >= 0 else len(s) + 1 + a, 1)
    return reshape(I, v, tuple(sh))


def concat(I, parts, axis):
    arrs = [to_arr(I, p) for p in parts]
    unit = None
    n = len(arrs[0][0])
    if any(len(a[0]) != n for a in arrs) or n == 0:
        I.raise_builtin("ValueError", "dimension mismatch in concatenate")
    axis %= n
    for a in arrs:
        if any(a[0][i] != arrs[0][0][i] for i in range(n) if i != axis):
            I.raise_builtin("ValueError", "dimension mismatch in concatenate")
    sh = list(arrs[0][0])
    sh[axis] = sum(a[0][axis] for a in arrs)
    out = []
    for idx in itertools.product(*[range(d) for d in sh]):
        k = idx[axis]
        for a in arrs:
            if k < a[0][axis]:
                break
            k -= a[0][axis]
        st = strides(a[0])
        out.append(a[1][sum((k if i == axis else idx[i]) * st[i] for i in range(n))])
    dts = set()
    return I.new_arr(sh, out)


def _parts(I, v):
    v = I.force(v)
    ps = [I.force(x) if isinstance(x, Ite) and not num_leaves(x) else x for x in I.iterate(v)]
    return ps


def _cat(fn):
    def g(I, args, kw):
        ps = _parts(I, args[0])
        if any(isinstance(p, Opaque) for p in ps):
            return Opaque("obj:stack", ("stack",) + tuple(M._key(p) for p in ps))
        if any(isinstance(p, QuantV) for p in ps):
            u = next(p.unit for p in ps if isinstance(p, QuantV))
            ps = [M.convert(I, p, u) if isinstance(p, QuantV) else p for p in ps]
            return QuantV(fn(I, ps, args, kw), u)
        return fn(I, ps, args, kw)
    return g


def _atleast(I, p, n, col=False):
    s, el, _ = to_arr(I, p)
    if len(s) >= n:
        return I.new_arr(s, el)
    if n == 1:
        return I.new_arr((1,), el)
    k = s[0] if s else 1
    return I.new_arr((k, 1) if col else (1, k), el)


def _axis(I, args, kw, d=0):
    return as_index(I, I.force(kw.get("axis", args[1] if len(args) > 1 else d)))


MODELS["numpy.concatenate"] = _cat(
    lambda I, ps, a, k: concat(I, ps, _axis(I, a, k)) if _axis(I, a, k) is not None else
    concat(I, [_ravel(I, [np_array(I, [p], {})], {}) for p in ps], 0))
MODELS["numpy.vstack"] = _cat(lambda I, ps, a, k: concat(I, [_atleast(I, p, 2) for p in ps], 0))


def _hstack(I, ps, a, k):
    ps = [_atleast(I, p, 1) for p in ps]
    return concat(I, ps, 0 if len(to_arr(I, ps[0])[0]) == 1 else 1)


MODELS["numpy.hstack"] = _cat(_hstack)
MODELS["numpy.column_stack"] = _cat(lambda I, ps, a, k: concat(I, [_atleast(I, p, 2, True) for p in ps], 1))


def _stack(I, ps, a, k):
    ax = _axis(I, a, k)
    arrs = [to_arr(I, p) for p in ps]
    n = len(arrs[0][0])
    ax %= n + 1
    return concat(I, [I.new_arr(s[:ax] + (1,) + s[ax:], el) for s, el, _ in arrs], ax)


MODELS["numpy.stack"] = _cat(_stack)
MODELS["numpy.append"] = lambda I, a, k: (
    concat(I, [_ravel(I, [np_array(I, [p], {})], {}) for p in a[:2]], 0) if k.get("axis", a[2] if len(a) > 2 else None) is None
    else concat(I, a[:2], k.get("axis", a[2] if len(a) > 2 else None)))
MODELS["numpy.r_"] = None
del MODELS["numpy.r_"]


def _sint(I, v, what):
    n = as_index(I, I.force(v))
    if not isinstance(n, int):
        raise AnalysisError("%s is not static at %s" % (what, I.loc()))
    return int(n)


def _sints(I, v, what):
    """an int or a sequence of ints -> tuple or int"""
    v = I.force(v)
    if M.seq_items(I, v) is not None or is_arr(I, v):
        return tuple(_sint(I, x, what) for x in (to_arr(I, v)[1]))
    return _sint(I, v, what)


def gather(I, v, sh, f):
    """array of shape sh whose element at idx is v[f(idx)]; units kept"""
    if isinstance(v, QuantV):
        return QuantV(gather(I, v.value, sh, f), v.unit)
    s, el, lib = to_arr(I, v)
    st = strides(s)
    out = [el[sum(a * b for a, b in zip(f(idx), st))] for idx in itertools.product(*[range(d) for d in sh])]
    return I.new_arr(tuple(sh), out, lib or "np")


def _shp(I, v):
    return to_arr(I, v.value if isinstance(v, QuantV) else v)[0]


def _guard_opaque(name):
    def d(f):
        def g(I, args, kw):
            v = I.force(args[0])
            if isinstance(v, Opaque) or isinstance(v, QuantV) and isinstance(v.value, Opaque):
                return Opaque("%s()" % name, (name,) + tuple(M._key(x) for x in args)
                              + tuple((k, M._key(x)) for k, x in sorted(kw.items())))
            return f(I, [v] + list(args[1:]), kw)
        MODELS["numpy." + name] = g
        return g
    return d


@_guard_opaque("tile")
def _tile(I, args, kw):
    v = args[0]
    reps = _sints(I, args[1] if len(args) > 1 else kw["reps"], "np.tile")
    reps = (reps,) if isinstance(reps, int) else reps
    s = _shp(I, v)
    n = max(len(s), len(reps))
    s1 = (1,) * (n - len(s)) + tuple(s)
    reps = (1,) * (n - len(reps)) + reps
    sh = tuple(a * b for a, b in zip(s1, reps))
    return gather(I, v, sh, lambda idx: [i % d for i, d in zip(idx, s1)][n - len(s):])


@_guard_opaque("repeat")
def _repeat(I, args, kw):
    v = args[0]
    n = _sints(I, args[1] if len(args) > 1 else kw["repeats"], "np.repeat")
    ax = I.force(kw.get("axis", args[2] if len(args) > 2 else None))
    if ax is None:
        v = _ravel(I, [np_array(I, [v], {})], {}) if not isinstance(v, QuantV) else v
        ax = 0
    s = list(_shp(I, v)) or [1]
    ax = as_index(I, ax) % len(s)
    n = (n,) * s[ax] if isinstance(n, int) else n
    src = [i for i, k in enumerate(n) for _ in range(k)]
    s[ax] = len(src)
    return gather(I, v, s, lambda idx: [src[i] if k == ax else i for k, i in enumerate(idx)])


def _axes(I, ax, n):
    if ax is None:
        return list(range(n))
    ax = _sints(I, ax, "axis")
    return [a % n for a in ((ax,) if isinstance(ax, int) else ax)]


@_guard_opaque("flip")
def _flip(I, args, kw):
    s = _shp(I, args[0])
    ax = _axes(I, I.force(kw.get("axis", args[1] if len(args) > 1 else None)), len(s))
    return gather(I, args[0], s, lambda idx: [s[k] - 1 - i if k in ax else i for k, i in enumerate(idx)])


MODELS["numpy.flipud"] = lambda I, a, k: _flip(I, [a[0], 0], {})
MODELS["numpy.fliplr"] = lambda I, a, k: _flip(I, [a[0], 1], {})


@_guard_opaque("roll")
def _roll(I, args, kw):
    s = _shp(I, args[0])
    n = _sints(I, kw.get("shift", args[1] if len(args) > 1 else 0), "np.roll")
    ax = I.force(kw.get("axis", args[2] if len(args) > 2 else None))
    if ax is None:
        k = 1
        for d in s:
            k *= d
        flat = gather(I, args[0], (k,), lambda idx: _unflat((idx[0] - n) % k, s))
        return reshape(I, flat, tuple(s)) if len(s) != 1 else flat
    ax = _axes(I, ax, len(s))
    n = (n,) * len(ax) if isinstance(n, int) else n
    sh = dict(zip(ax, n))
    return gather(I, args[0], s, lambda idx: [(i - sh.get(k, 0)) % s[k] for k, i in enumerate(idx)])


def _unflat(i, s):
    out = []
    for d in reversed(s):
        out.append(i % d)
        i //= d
    return out[::-1]


def _trimodel(name, keep):
    @_guard_opaque(name)
    def g(I, args, kw):
        s, el, lib = to_arr(I, args[0])
        k = _sint(I, kw.get("k", args[1] if len(args) > 1 else 0), "diagonal offset")
        out = [x if keep(idx[-2], idx[-1], k) else 0 for idx, x in
               zip(itertools.product(*[range(d) for d in s]), el)]
        return I.new_arr(s, out, lib or "np")

    def ind(I, args, kw):
        n = _sint(I, args[0], "size")
        k = _sint(I, kw.get("k", args[1] if len(args) > 1 else 0), "diagonal offset")
        m = I.force(kw.get("m", args[2] if len(args) > 2 else None))
        m = n if m is None else _sint(I, m, "size")
        ij = [(i, j) for i in range(n) for j in range(m) if keep(i, j, k)]
        return tuple(I.new_arr((len(ij),), [p[a] for p in ij], "np", "int") for a in (0, 1))
    MODELS["numpy.%s_indices" % name] = ind
    MODELS["numpy.%s_indices_from" % name] = lambda I, a, k: ind(
        I, [_shp(I, I.force(a[0]))[0]] + list(a[1:]), dict(k, m=_shp(I, I.force(a[0]))[1]))


_trimodel("tril", lambda i, j, k: j - i <= k)
_trimodel("triu", lambda i, j, k: j - i >= k)


@model("numpy.diag_indices")
def _diagind(I, args, kw):
    n, d = _sint(I, args[0], "size"), _sint(I, kw.get("ndim", args[1] if len(args) > 1 else 2), "ndim")
    return tuple(I.new_arr((n,), list(range(n)), "np", "int") for _ in range(d))


MODELS["numpy.diag_indices_from"] = lambda I, a, k: _diagind(
    I, [_shp(I, I.force(a[0]))[0], len(_shp(I, I.force(a[0])))], {})


@model("numpy.indices")
def _indices(I, args, kw):
    sh = shape_arg(I, args[0])
    all_ = list(itertools.product(*[range(d) for d in sh]))
    return I.new_arr((len(sh),) + tuple(sh), [x[k] for k in range(len(sh)) for x in all_], "np", "int")


def _splitter(exact, fixed=None):
    def g(I, args, kw):
        v = I.force(args[0])
        sec = args[1] if len(args) > 1 else kw.get("indices_or_sections")
        s = _shp(I, v)
        ax = fixed if fixed is not None else _sint(I, kw.get("axis", args[2] if len(args) > 2 else 0), "axis")
        if fixed == 1 and len(s) == 1:
            ax = 0
        ax %= len(s)
        sec = _sints(I, sec, "np.split")
        if isinstance(sec, int):
            if exact and s[ax] % sec:
                I.raise_builtin("ValueError", "array split does not result in an equal division")
            q, r = divmod(s[ax], sec)
            cuts = [0]
            for i in range(sec):
                cuts.append(cuts[-1] + q + (1 if i < r else 0))
        else:
            cuts = [0] + [min(c if c >= 0 else c + s[ax], s[ax]) for c in sec] + [s[ax]]
        return I.new_list([I.getitem(v, (slice(None),) * ax + (slice(a, max(a, b)),)) for a, b in zip(cuts, cuts[1:])])
    return g


for _n, _e, _f in (("split", True, None), ("array_split", False, None), ("hsplit", True, 1), ("vsplit", True, 0)):
    MODELS["numpy." + _n] = _guard_opaque(_n)(_splitter(_e, _f))


def _select_idx(I, el):
    out = []
    for i, x in enumerate(el):
        t = I.force(I.truth(x))
        if not isinstance(t, bool):
            raise AnalysisError("indices of an undecided mask at %s" % I.loc())
        if t:
            out.append(i)
    return out


@model("numpy.nonzero")
def _nonzero(I, args, kw):
    s, el, _ = to_arr(I, I.force(args[0]))
    ix = [_unflat(i, s) for i in _select_idx(I, el)]
    return tuple(I.new_arr((len(ix),), [x[k] for x in ix], "np", "int") for k in range(len(s)))


@model("numpy.argwhere")
def _argwhere(I, args, kw):
    s, el, _ = to_arr(I, I.force(args[0]))
    ix = [_unflat(i, s) for i in _select_idx(I, el)]
    return I.new_arr((len(ix), len(s)), [c for x in ix for c in x], "np", "int")


@model("numpy.flatnonzero")
def _flatnonzero(I, args, kw):
    ix = _select_idx(I, to_arr(I, I.force(args[0]))[1])
    return I.new_arr((len(ix),), ix, "np", "int")


@_guard_opaque("take")
def _take(I, args, kw):
    v = args[0]
    ind = I.force(args[1] if len(args) > 1 else kw["indices"])
    ax = I.force(kw.get("axis", args[2] if len(args) > 2 else None))
    if ax is None:
        s = _shp(I, v)
        v = v if len(s) == 1 else _ravel(I, [v], {})
        return I.getitem(v, ind)
    return I.getitem(v, (slice(None),) * (as_index(I, ax) % len(_shp(I, v))) + (ind,))


@_guard_opaque("delete")
def _delete(I, args, kw):
    v = args[0]
    obj = _sints(I, args[1] if len(args) > 1 else kw["obj"], "np.delete")
    ax = I.force(kw.get("axis", args[2] if len(args) > 2 else None))
    if ax is None:
        v, ax = _ravel(I, [v], {}), 0
    s = list(_shp(I, v))
    ax = as_index(I, ax) % len(s)
    gone = {o % s[ax] for o in ((obj,) if isinstance(obj, int) else obj)}
    src = [i for i in range(s[ax]) if i not in gone]
    s[ax] = len(src)
    return gather(I, v, s, lambda idx: [src[i] if k == ax else i for k, i in enumerate(idx)])


@_guard_opaque("insert")
def _insert(I, args, kw):
    s, el, lib = to_arr(I, args[0])
    ax = I.force(kw.get("axis", args[3] if len(args) > 3 else None))
    i = _sint(I, args[1], "np.insert")
    val = I.force(args[2])
    if len(s) != 1 or M.seq_items(I, val) is not None or is_arr(I, val):
        raise AnalysisError("np.insert at %s" % I.loc())
    i = i + len(el) if i < 0 else i
    return I.new_arr((len(el) + 1,), list(el[:i]) + [val] + list(el[i:]), lib or "np")


@_guard_opaque("kron")
def _kron(I, args, kw):
    sa, ea, _ = to_arr(I, args[0])
    sb, eb, _ = to_arr(I, I.force(args[1]))
    if len(sa) != 2 or len(sb) != 2:
        raise AnalysisError("np.kron at %s" % I.loc())
    sh = (sa[0] * sb[0], sa[1] * sb[1])
    return I.new_arr(sh, [I.binop("*", ea[(i // sb[0]) * sa[1] + j // sb[1]], eb[(i % sb[0]) * sb[1] + j % sb[1]])
                          for i in range(sh[0]) for j in range(sh[1])])


@_guard_opaque("broadcast_to")
def _bto(I, args, kw):
    s = _shp(I, args[0])
    sh = shape_arg(I, args[1] if len(args) > 1 else kw["shape"])
    if len(s) > len(sh) or any(a != b and a != 1 for a, b in zip(s, sh[len(sh) - len(s):])):
        I.raise_builtin("ValueError", "cannot broadcast")
    o = len(sh) - len(s)
    return gather(I, args[0], sh, lambda idx: [0 if s[k] == 1 else idx[o + k] for k in range(len(s))])


@model("numpy.broadcast_arrays")
def _barrs(I, args, kw):
    vs = [I.force(a) for a in args]
    sh = M.bshape(I, [_shp(I, v) for v in vs])
    return tuple(_bto(I, [v, tuple(sh)], {}) for v in vs)


@model("numpy.select")
def _np_select(I, args, kw):
    cs, vs = _parts(I, args[0]), _parts(I, args[1])
    r = kw.get("default", args[2] if len(args) > 2 else 0)
    for c, v in reversed(list(zip(cs, vs))):
        r = MODELS["numpy.where"](I, [c, v, r], {})
    return r


@model("numpy.ix_")
def _ix(I, args, kw):
    n = len(args)
    out = []
    for k, a in enumerate(args):
        el = to_arr(I, I.force(a))[1]
        out.append(I.new_arr((1,) * k + (len(el),) + (1,) * (n - 1 - k), list(el), "np", "int"))
    return tuple(out)


@model("numpy.polyval")
def _polyval(I, args, kw):
    r = 0
    for c in to_arr(I, I.force(args[0]))[1]:
        r = I.binop("+", I.binop("*", r, args[1]), c)
    return r


@model("numpy.linalg.multi_dot")
def _multidot(I, args, kw):
    r = None
    for p in _parts(I, args[0]):
        r = p if r is None else I.binop("@", r, p)
    return r


@model("numpy.block")
def _block(I, args, kw):
    rows = _parts(I, args[0])
    if not rows:
        raise AnalysisError("np.block at %s" % I.loc())
    if all(M.seq_items(I, r) is not None for r in rows):
        return MODELS["numpy.vstack"](I, [tuple(MODELS["numpy.hstack"](I, [tuple(_atleast(I, x, 2) for x in _parts(I, r))], {})
                                                for r in rows)], {})
    return MODELS["numpy.hstack"](I, [tuple(rows)], {})


MODELS["numpy.row_stack"] = MODELS["numpy.vstack"]


@model("numpy.fromiter")
def _fromiter(I, args, kw):
    return np_array(I, [I.new_list(list(I.iterate(I.force(args[0]))))], {})


@model("numpy.ndindex")
def _ndindex(I, args, kw):
    sh = shape_arg(I, args[0]) if len(args) == 1 else tuple(args)
    return I.new_list(list(itertools.product(*[range(d) for d in sh])))


@model("numpy.ndenumerate")
def _ndenum(I, args, kw):
    s, el, _ = to_arr(I, I.force(args[0]))
    return I.new_list([(idx, x) for idx, x in zip(itertools.product(*[range(d) for d in s]), el)])


@model("numpy.shape")
def _shape(I, args, kw):
    return to_arr(I, I.force(args[0]))[0]


@model("numpy.ndim")
def _ndim(I, args, kw):
    return len(to_arr(I, I.force(args[0]))[0])


@model("numpy.size")
def _size(I, args, kw):
    return len(to_arr(I, I.force(args[0]))[1])


@model("numpy.isscalar")
def _isscalar(I, args, kw):
    return isinstance(I.force(args[0]), (T, int, str))


@model("numpy.diff")
def _npdiff(I, args, kw):
    s, el, _ = to_arr(I, I.force(args[0]))
    if len(s) != 1 or len(args) > 1 or kw:
        raise AnalysisError("np.diff at %s" % I.loc())
    return I.new_arr((len(el) - 1,), [I.binop("-", b, a) for a, b in zip(el, el[1:])])


@model("numpy.fill_diagonal")
def _filld(I, args, kw):
    v = I.force(args[0])
    s = to_arr(I, v)[0]
    for i in range(s[0]):
        I.setitem(v, (i, i), args[1])


@model("numpy.argsort")
def _argsort(I, args, kw):
    s, el, _ = to_arr(I, I.force(args[0]))
    if len(s) != 1:
        raise AnalysisError("np.argsort at %s" % I.loc())
    ks = [M.sort_key(I, x) for x in el]
    return I.new_arr((len(el),), sorted(range(len(el)), key=lambda i: ks[i]), "np", "int")


@model("numpy.sort")
def _npsort(I, args, kw):
    s, el, _ = to_arr(I, I.force(args[0]))
    if len(s) != 1:
        raise AnalysisError("np.sort at %s" % I.loc())
    return I.new_arr((len(el),), sorted_items(I, list(el), {}))


@model("numpy.errstate", "numpy.seterr", "numpy.set_printoptions", "contextlib.nullcontext")
def _noop_ctx(I, args, kw):
    return Opaque("ctx", ("ctx",))


@model("contextlib.suppress")
def _suppress(I, args, kw):
    return Opaque("suppress", ("suppress", tuple(I.force(a) for a in args)))


# ------------------------------------------------------------------ builtins

@model("builtins.len")
def _len(I, args, kw):
    v = I.force(args[0])
    if isinstance(v, (str, tuple, range)):
        return len(v)
    if isinstance(v, QuantV):
        v = v.value
    if isinstance(v, Ref):
        c = I.content(v)
        if isinstance(c, Seq):
            if c.kind == "iter":
                I.raise_builtin("TypeError", "object of type 'iterator' has no len()")
            return len(c.items)
        if isinstance(c, Dct):
            return len(c.d)
        if isinstance(c, Arr):
            a = I.arr(v)
            if not a.shape:
                I.raise_builtin("TypeError", "len() of unsized object")
            return a.shape[0] if a.lib == "np" else len(a.el)
        m = I.find_method(v, "__len__")
        if m is not None:
            return I.force(I.call(m, [], {}))
        t = termof(I, v)
        if t is not v:
            return _len(I, [t], {})
    if isinstance(v, Opaque):
        if ("len", v.key) in KNOWN_LEN:
            return KNOWN_LEN[("len", v.key)]
        return tm.sym("len(%s)" % v.name, False)
    I.raise_builtin("TypeError", "object has no len(): %r" % (v,))


KNOWN_LEN = {}


@model("builtins.range")
def _range(I, args, kw):
    a = [as_index(I, I.force(x)) for x in args]
    if not all(isinstance(x, int) for x in a):
        if any(isinstance(x, T) and x.as_const() is None or isinstance(x, Opaque) for x in a):
            raise AnalysisError("loop bound is not static at %s" % I.loc())
        I.raise_builtin("TypeError", "range() integer argument expected")
    return range(*a)


@model("builtins.enumerate")
def _enum(I, args, kw):
    st = kw.get("start", args[1] if len(args) > 1 else 0)
    return I.new_iter([(i, x) for i, x in enumerate(I.iterate(I.force(args[0])), st)])


@model("builtins.zip")
def _zip(I, args, kw):
    return I.new_iter(list(zip(*[I.iterate(I.force(a)) for a in args])))


@model("builtins.map")
def _map(I, args, kw):
    cols = [I.iterate(I.force(a)) for a in args[1:]]
    return I.new_iter([I.call(args[0], list(xs), {}) for xs in zip(*cols)])


@model("builtins.filter")
def _filter(I, args, kw):
    out = []
    for x in I.iterate(I.force(args[1])):
        t = I.truth(x if args[0] is None else I.call(args[0], [x], {}))
        if I.force(t):
            out.append(x)
    return I.new_iter(out)


@model("builtins.reversed")
def _reversed(I, args, kw):
    return I.new_iter(list(reversed(I.iterate(I.force(args[0])))))


@model("builtins.sorted")
def _sorted(I, args, kw):
    return I.new_list(sorted_items(I, list(I.iterate(I.force(args[0]))), kw))


@model("builtins.sum")
def _sum(I, args, kw):
    r = kw.get("start", args[1] if len(args) > 1 else 0)
    for x in I.iterate(I.force(args[0])):
        r = I.binop("+", r, x)
    return r


@model("builtins.iter")
def _iter(I, args, kw):
    v = I.force(args[0])
    if isinstance(v, Ref) and isinstance(I.content(v), Seq) and I.content(v).kind == "iter":
        return v
    if len(args) > 1:
        raise AnalysisError("iter with a sentinel at %s" % I.loc())
    return I.new_iter(I.iterate(v))


@model("builtins.next")
def _next(I, args, kw):
    v = I.force(args[0])
    if isinstance(v, Ref) and isinstance(I.content(v), Inst):
        m = I.find_method(v, "__next__")
        if m is not None:
            return I.call(m, [], {})
    if not (isinstance(v, Ref) and isinstance(I.content(v), Seq) and I.content(v).kind == "iter"):
        if isinstance(v, Opaque) or isinstance(v, Ref) and not isinstance(I.content(v), Seq):
            raise AnalysisError("next() of an unknown iterator at %s" % I.loc())
        I.raise_builtin("TypeError", "object is not an iterator")
    it = I.content(v).items
    if not it:
        if len(args) > 1:
            return args[1]
        I.raise_builtin("StopIteration")
    I.put(v, Seq("iter", it[1:]))
    return it[0]


def _seqctor(kind):
    def f(I, args, kw):
        it = I.iterate(I.force(args[0])) if args else []
        if kind == "tuple":
            return tuple(it)
        if kind == "list":
            return I.new_list(it)
        return I.alloc(Seq("set", tuple(I.dedup(it))))
    return f


MODELS["builtins.list"] = _seqctor("list")
MODELS["builtins.tuple"] = _seqctor("tuple")
MODELS["builtins.set"] = _seqctor("set")
MODELS["builtins.frozenset"] = _seqctor("set")


@model("builtins.dict", "collections.OrderedDict")
def _dict(I, args, kw):
    d = {}
    if args:
        v = I.force(args[0])
        c = content(I, v)
        if isinstance(c, Dct):
            d.update(c.d)
        else:
            for p in I.iterate(v):
                k, x = I.iterate(p)
                d[I.hkey(k)] = x
    d.update(kw)
    return I.alloc(Dct(d))


@model("builtins.dict.fromkeys", "collections.OrderedDict.fromkeys")
def _fromkeys(I, args, kw):
    v = args[1] if len(args) > 1 else None
    return I.alloc(Dct({I.hkey(x): v for x in I.iterate(I.force(args[0]))}))


@model("collections.defaultdict")
def _defaultdict(I, args, kw):
    return I.alloc(Dct({}, args[0] if args else None))


@model("builtins.slice")
def _slice(I, args, kw):
    return slice(*[as_index(I, I.force(a)) for a in args])


@model("builtins.int")
def _int(I, args, kw):
    v = I.force(args[0]) if args else 0
    v = termof(I, v)
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, QuantV):
        v = dimless(I, v)
    if isinstance(v, T):
        c = v.as_const()
        if c is not None:
            return int(c)
        return tm.func("trunc", (v,))
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            I.raise_builtin("ValueError", "invalid literal for int()")
    if isinstance(v, Opaque):
        return Opaque("int(%s)" % v.name, ("int", v.key))
    if is_arr(I, v) and len(I.arr(v).el) == 1:
        return _int(I, [I.arr(v).el[0]], {})
    I.raise_builtin("TypeError", "int() argument")


@model("builtins.float", "numpy.double")
def _float(I, args, kw):
    v = args[0] if args else tm.ZERO
    if isinstance(v, Ite):
        return I.lift1(lambda x: _float(I, [x], {}), v)
    v = termof(I, v)
    if isinstance(v, int):
        return T.const(int(v))
    if isinstance(v, T):
        return v
    if isinstance(v, QuantV):
        if v.unit.dims:
            I.raise_builtin("TypeError", "only dimensionless scalar quantities can be converted to Python scalars")
        return as_t(dimless(I, v))
    if isinstance(v, str):
        s = v.strip().lower()
        if s in ("inf", "+inf", "infinity"):
            return tm.sym("inf", True)
        if s == "-inf":
            return -tm.sym("inf", True)
        if s == "nan":
            return _ip.NAN
        try:
            return T.const(Fraction(s))
        except ValueError:
            I.raise_builtin("ValueError", "could not convert string to float")
    if isinstance(v, Opaque):
        return Opaque("float(%s)" % v.name, ("float", v.key))
    if is_arr(I, v) and len(I.arr(v).el) == 1:
        return I.arr(v).el[0]
    I.raise_builtin("TypeError", "float() argument")


@model("builtins.bool", "numpy.bool_")
def _bool(I, args, kw):
    return I.truth(args[0]) if args else False


@model("builtins.complex")
def _complex(I, args, kw):
    r = args[0]
    if len(args) > 1:
        r = I.binop("+", r, I.binop("*", tm.IMAG, args[1]))
    return r


@model("builtins.repr", "builtins.ascii")
def _repr(I, args, kw):
    v = I.force(args[0])
    return repr(v) if isinstance(v, str) else to_str(I, v, ("__repr__",))


@model("builtins.str", "builtins.format")
def _str(I, args, kw):
    if not args:
        return ""
    return to_str(I, I.force(args[0]))


def round_to(v, k):
    """a number rounded to k decimals; integers stay"""
    if isinstance(v, int):
        return v
    t = as_t(v)
    c = t.as_const()
    if c is not None:
        return T.const(Fraction(round(Fraction(c), k)))
    return tm.func("round", [t, as_t(k)])


@model("numpy.around", "numpy.round", "numpy.round_")
def _np_round(I, args, kw):
    k = args[1] if len(args) > 1 else kw.get("decimals", 0)
    k = I.force(k)
    v = args[0]
    if isinstance(v, QuantV):
        return QuantV(_np_round(I, [v.value, k], {}), v.unit)
    if isinstance(v, Opaque):
        return Opaque("round(%s)" % v.name, ("round", v.key, repr(k)))
    return ufunc1(I, "round", lambda x: round_to(x, k), v)


@model("builtins.round")
def _round(I, args, kw):
    v = I.force(args[0])
    if isinstance(v, int):
        return v
    if isinstance(v, T) and v.as_const() is not None:
        return T.const(Fraction(round(v.as_const(), args[1]))) if len(args) > 1 else round(v.as_const())
    return tm.func("round", [as_t(v)] + [as_t(a) for a in args[1:]])


@model("builtins.divmod")
def _divmod(I, args, kw):
    return (I.binop("//", args[0], args[1]), I.binop("%", args[0], args[1]))


@model("math.floor")
def _mfloor(I, args, kw):
    v = args[0]
    if isinstance(v, int):
        return v
    r = MODELS["numpy.floor"](I, args, kw)
    return as_index(I, r)


@model("builtins.print")
def _print(I, args, kw):
    I.event("print", tuple(args))
    return None


@model("builtins.id", "builtins.hash")
def _id(I, args, kw):
    return Opaque("id", ("id", M._key(args[0])))


@model("builtins.callable")
def _callable(I, args, kw):
    v = I.force(args[0])
    if isinstance(v, (FuncV, BoundV, PyFn, WrapV, ClassV, ExtV, Method)):
        return True
    if isinstance(v, Ref):
        return I.find_method(v, "__call__") is not None
    if isinstance(v, Opaque):
        return Ite(atom("opaque", ("callable", v.key), v, "callable(%s)" % v.name), True, False)
    return False


@model("builtins.object.__setattr__")
def _object_setattr(I, args, kw):
    o = I.force(args[0])
    if not (isinstance(o, Ref) and isinstance(I.content(o), Inst)):
        raise AnalysisError("object.__setattr__ of %r at %s" % (o, I.loc()))
    I._raw_setattr(o, args[1], args[2])


@model("builtins.object.__getattribute__")
def _object_getattribute(I, args, kw):
    o = I.force(args[0])
    if not (isinstance(o, Ref) and isinstance(I.content(o), Inst)) or not isinstance(args[1], str):
        raise AnalysisError("object.__getattribute__ of %r at %s" % (o, I.loc()))
    return I.getattr_(o, args[1])


@model("builtins.object.__new__")
def _object_new(I, args, kw):
    return I.models.alloc_instance(I, args[0], args[1:], kw)


@model("builtins.object.__init__")
def _object_init(I, args, kw):
    return None


@model("builtins.object")
def _object(I, args, kw):
    return I.alloc(Inst(ExtV("builtins.object"), {}))


@model("builtins.type")
def _type(I, args, kw):
    v = I.force(args[0])
    if isinstance(v, Ref):
        c = I.content(v)
        if isinstance(c, Inst):
            return c.cls
        if isinstance(c, Seq):
            return ExtV("builtins." + c.kind)
        if isinstance(c, Dct):
            return ExtV("builtins.dict")
        if isinstance(c, Arr):
            return ExtV("numpy.ndarray") if c.lib == "np" else ExtV("sympy.ImmutableDenseNDimArray")
    if isinstance(v, bool):
        return ExtV("builtins.bool")
    if isinstance(v, int):
        return ExtV("builtins.int")
    if isinstance(v, T):
        return ExtV("builtins.float")
    if isinstance(v, str):
        return ExtV("builtins.str")
    if isinstance(v, tuple):
        return ExtV("builtins.tuple")
    if v is None:
        return ExtV("builtins.NoneType")
    if isinstance(v, QuantV):
        return ExtV("astropy.units.Quantity")
    if isinstance(v, ExcV):
        return v.cls
    return Opaque("type(%r)" % (v,), ("type", M._key(v)))


TYPE_T = {"builtins.float", "sympy.Expr", "sympy.Basic", "numbers.Number", "numbers.Real", "numbers.Complex", "builtins.object",
          "numpy.floating", "numpy.number", "numpy.generic", "sympy.Add", "sympy.Mul"}
TYPE_INT = {"builtins.int", "numbers.Number", "numbers.Real", "numbers.Integral", "numbers.Complex", "builtins.object"}


def isinst(I, v, t):
    if isinstance(t, tuple):
        r = False
        for x in t:
            r = b_or(r, isinst(I, v, I.force(x)))
        return r
    if isinstance(t, Ref):
        return isinst(I, v, tuple(I.iterate(t)))
    if isinstance(v, Opaque):
        if v.name.startswith("str:"):
            return isinstance(t, ExtV) and t.path in ("builtins.str", "builtins.object")
        if isinstance(t, ExtV) and t.path == "builtins.object":
            return True
        q = atom("isinst", (v.key, repr(t)), (v, t), "isinstance(%s, %r)" % (v.name, t))
        return M.known(I, Ite(q, True, False))
    if isinstance(t, Opaque):
        q = atom("isinst", (M._key(v), t.key), (v, t), "isinstance(%r, %s)" % (v, t.name))
        return M.known(I, Ite(q, True, False))
    if isinstance(t, ClassV):
        if isinstance(v, Ref):
            c = I.content(v)
            return isinstance(c, Inst) and isinstance(c.cls, ClassV) and t in c.cls.mro
        if isinstance(v, ExcV):
            return I.subclass(v.cls, t)
        return False
    if not isinstance(t, ExtV):
        raise AnalysisError("isinstance type %r at %s" % (t, I.loc()))
    p = t.path
    last = p.split(".")[-1]
    if p == "builtins.object":
        return True
    if isinstance(v, bool):
        return p in ("builtins.bool",) or p in TYPE_INT
    if isinstance(v, int):
        return p in TYPE_INT or (I.structural_eq and p in ("sympy.Expr", "sympy.Basic"))
    if isinstance(v, T):
        if p in ("sympy.Symbol",):
            g = tm.is_gen(v)
            return I.structural_eq and g is not None and g.kind == "sym"
        if p in ("sympy.Expr", "sympy.Basic"):
            return bool(I.structural_eq)
        if p == "sympy.AppliedUndef":
            g = tm.is_gen(v)
            return g is not None and g.kind == "fn"
        return p in TYPE_T
    if isinstance(v, str):
        return p in ("builtins.str",)
    if isinstance(v, tuple):
        return p in ("builtins.tuple", "collections.abc.Sequence", "collections.abc.Iterable", "typing.Sequence")
    if v is None:
        return last == "NoneType"
    if isinstance(v, QuantV):
        return p in ("astropy.units.Quantity", "numpy.ndarray") or last == "Quantity" or \
            (last == "Constant" and False)
    if isinstance(v, Unit):
        return last in ("UnitBase", "Unit", "NamedUnit", "CompositeUnit", "IrreducibleUnit")
    if isinstance(v, (FuncV, BoundV, PyFn)):
        return last in ("Callable", "FunctionType", "MethodType", "LambdaType")
    if isinstance(v, (ClassV, ExtV)):
        return p in ("builtins.type",)
    if isinstance(v, ExcV):
        return I.subclass(v.cls, t)
    if isinstance(v, range):
        return p == "builtins.range"
    if isinstance(v, slice):
        return p == "builtins.slice"
    if isinstance(v, Ref):
        c = I.content(v)
        if isinstance(c, Seq):
            return p == "builtins." + c.kind or last in ("Iterable", "Sequence", "Collection")
        if isinstance(c, Dct):
            return p == "builtins.dict" or last in ("Mapping", "MutableMapping", "Iterable")
        if isinstance(c, Arr):
            if c.lib == "np":
                return p == "numpy.ndarray"
            if c.lib == "mat":
                return last in ("MatrixBase", "Matrix", "MutableDenseMatrix", "DenseMatrix", "ImmutableMatrix")
            return last in ("ImmutableDenseNDimArray", "NDimArray", "DenseNDimArray", "ImmutableNDimArray", "Basic",
                            "MutableDenseNDimArray" if c.dtype == "mutable" else "ImmutableDenseNDimArray")
        if isinstance(c, Inst):
            if isinstance(c.cls, ClassV):
                for b in c.cls.mro:
                    if isinstance(b, ExtV) and (b.path == p or p in SYM_SUPERS.get(b.path, ())):
                        return True
                return False
            return c.cls == t
    raise AnalysisError("isinstance(%r, %s) at %s" % (v, p, I.loc()))


SYM_SUPERS = {
    "sympy.Symbol": ("sympy.Expr", "sympy.Basic", "sympy.Atom"),
    "sympy.ImmutableDenseNDimArray": ("sympy.NDimArray", "sympy.DenseNDimArray", "sympy.Basic"),
}


@model("builtins.isinstance")
def _isinstance(I, args, kw):
    return isinst(I, I.force(args[0]), I.force(args[1]))


@model("builtins.issubclass")
def _issubclass(I, args, kw):
    c, t = I.force(args[0]), I.force(args[1])
    if isinstance(t, tuple):
        return any(I.subclass(c, I.force(x)) for x in t)
    return I.subclass(c, t)


_MISSING = object()


@model("builtins.hasattr")
def _hasattr(I, args, kw):
    n0 = len(I.ctx.abrupt)
    snap = I.st.copy()
    v = I.force(args[0])
    if isinstance(v, Opaque):
        return Ite(atom("opaque", ("hasattr", v.key, args[1]), v, "hasattr(%s,%s)" % (v.name, args[1])), True, False)
    try:
        r = I.getattr_(v, I.force(args[1]), _MISSING)
    except _ip.Dead:
        new = I.ctx.abrupt[n0:]
        if all(x[0] == "raise" and I.subclass(x[2].cls, ExtV("builtins.AttributeError")) for x in new):
            del I.ctx.abrupt[n0:]
            I.st = snap
            return False
        raise
    return r is not _MISSING


@model("builtins.getattr")
def _getattr(I, args, kw):
    name = I.force(args[1])
    if isinstance(name, Opaque):
        o = I.force(args[0])
        # finite table: attribute named by a symbolic string
        return Opaque("getattr(%r,%s)" % (o, name.name), ("getattr", repr(o), name.key))
    if len(args) > 2:
        n0 = len(I.ctx.abrupt)
        r = I.getattr_(args[0], name, _MISSING)
        return args[2] if r is _MISSING else r
    return I.getattr_(args[0], name)


@model("builtins.setattr")
def _setattr(I, args, kw):
    I.setattr_(args[0], I.force(args[1]), args[2])


@model("builtins.vars")
def _vars(I, args, kw):
    if not args:
        raise AnalysisError("vars() at %s" % I.loc())
    return I.getattr_(args[0], "__dict__")


@model("builtins.globals")
def _globals(I, args, kw):
    c = I.content(I.ctx.mod.frame)
    return I.alloc(Dct(dict(c.d)))


@model("builtins.dir")
def _dir(I, args, kw):
    v = I.force(args[0])
    if isinstance(v, ModuleV):
        return I.new_list(sorted(I.content(v.frame).d))
    raise AnalysisError("dir at %s" % I.loc())


# ------------------------------------------------------------------ misc stdlib

@model("warnings.warn")
def _warn(I, args, kw):
    cat = args[1] if len(args) > 1 else kw.get("category", ExtV("builtins.UserWarning"))
    I.event("warn", (args[0] if args else kw.get("message"), cat))
    return None


@model("itertools.product")
def _iproduct(I, args, kw):
    cols = [I.iterate(I.force(a)) for a in args]
    rep = kw.get("repeat", 1)
    return I.new_list(list(itertools.product(*cols, repeat=rep)))


MODELS["itertools.permutations"] = lambda I, a, k: I.new_list(list(itertools.permutations(I.iterate(I.force(a[0])), *a[1:])))
MODELS["itertools.combinations"] = lambda I, a, k: I.new_list(list(itertools.combinations(I.iterate(I.force(a[0])), a[1])))
MODELS["itertools.combinations_with_replacement"] = lambda I, a, k: I.new_list(
    list(itertools.combinations_with_replacement(I.iterate(I.force(a[0])), a[1])))
MODELS["itertools.chain"] = lambda I, a, k: I.new_list([x for s in a for x in I.iterate(I.force(s))])
MODELS["itertools.chain.from_iterable"] = lambda I, a, k: I.new_list(
    [x for s in I.iterate(I.force(a[0])) for x in I.iterate(I.force(s))])
MODELS["itertools.repeat"] = lambda I, a, k: I.new_list([a[0]] * a[1])
MODELS["itertools.islice"] = lambda I, a, k: I.new_list(I.iterate(I.force(a[0]))[slice(*a[1:])])
MODELS["itertools.zip_longest"] = lambda I, a, k: I.new_list(
    list(itertools.zip_longest(*[I.iterate(I.force(x)) for x in a], fillvalue=k.get("fillvalue"))))
MODELS["itertools.starmap"] = lambda I, a, k: I.new_list([I.call(a[0], list(I.iterate(x)), {}) for x in I.iterate(a[1])])


@model("functools.reduce")
def _reduce(I, args, kw):
    it = list(I.iterate(I.force(args[1])))
    if len(args) > 2:
        it.insert(0, args[2])
    r = it[0]
    for x in it[1:]:
        r = I.call(args[0], [r, x], {})
    return r


@model("functools.partial")
def _partial(I, args, kw):
    f, a, k = args[0], list(args[1:]), dict(kw)
    return PyFn(lambda J, a2, k2: J.call(f, a + list(a2), {**k, **k2}), "partial")


@model("functools.lru_cache", "functools.cache")
def _memo(I, args, kw):
    if args and isinstance(args[0], (FuncV, BoundV, PyFn, WrapV)):
        return M.memoized(I, args[0])
    return PyFn(lambda J, a, k: M.memoized(J, a[0]), "lru_cache")


@model("collections.namedtuple")
def _namedtuple(I, args, kw):
    import ast
    name, fields = I.force(args[0]), I.force(args[1] if len(args) > 1 else kw["field_names"])
    fields = fields.replace(",", " ").split() if isinstance(fields, str) else [I.force(x) for x in I.iterate(fields)]
    defaults = list(I.iterate(I.force(kw["defaults"]))) if "defaults" in kw else []
    ref = I.alloc(_ip.Frame({"__name__": name, "__doc__": None}, None))
    cls = ClassV(name, [], ref, I.ctx.mod, name, ast.parse("class %s: pass" % name).body[0])
    cls.mro = I.linearize(cls)
    M.named_tuple(I, name, fields, ref)
    if defaults:
        fr = I.content(ref)
        I.put(ref, _ip.Frame({**fr.d, **dict(zip(fields[-len(defaults):], defaults))}, fr.parent))
    return cls


@model("numba.njit", "numba.jit", "numpy.vectorize")
def _cache(I, args, kw):
    if args and isinstance(args[0], (FuncV, BoundV, PyFn, WrapV)):
        return args[0]
    return PyFn(lambda J, a, k: a[0], "identity-decorator")


@model("functools.wraps")
def _wraps(I, args, kw):
    return PyFn(lambda J, a, k: a[0], "wraps")


@model("operator.itemgetter")
def _itemgetter(I, args, kw):
    ks = list(args)
    return PyFn(lambda J, a, k: J.getitem(a[0], ks[0]) if len(ks) == 1 else tuple(J.getitem(a[0], x) for x in ks),
                "itemgetter")


@model("operator.attrgetter")
def _attrgetter(I, args, kw):
    return PyFn(lambda J, a, k: J.getattr_(a[0], args[0]), "attrgetter")


def _copier(deep):
    def cp(I, v, memo):
        v = I.force(v)
        if isinstance(v, Ref):
            if v.id in memo:
                return memo[v.id]
            sub = (lambda x: cp(I, x, memo)) if deep else (lambda x: x)
            c = I.content(v)
            if isinstance(c, Inst):
                m = I.find_method(v, "__deepcopy__" if deep else "__copy__")
                if m is not None:
                    return I.call(m, [I.new_dict({})] if deep else [], {})
                r = memo[v.id] = I.alloc(Inst(c.cls, {}))
                I.put(r, Inst(c.cls, {k: sub(x) for k, x in c.d.items()}))
                return r
            if isinstance(c, Arr):
                a = I.arr(v)
                r = memo[v.id] = I.new_arr(a.shape, a.el, a.lib, a.dtype)
                return r
            if isinstance(c, Seq):
                r = memo[v.id] = I.alloc(Seq(c.kind, ()))
                I.put(r, Seq(c.kind, tuple(sub(x) for x in c.items)))
                return r
            if isinstance(c, Dct):
                r = memo[v.id] = I.alloc(Dct({}, c.default))
                I.put(r, Dct({k: sub(x) for k, x in c.d.items()}, c.default))
                return r
        if isinstance(v, tuple) and deep:
            return tuple(cp(I, x, memo) for x in v)
        if isinstance(v, QuantV):
            return QuantV(cp(I, v.value, memo), v.unit)
        return v
    return lambda I, args, kw: cp(I, args[0], {})


MODELS["copy.copy"] = _copier(False)
MODELS["copy.deepcopy"] = _copier(True)


@model("importlib.import_module")
def _import_module(I, args, kw):
    name = I.force(args[0])
    if isinstance(name, str) and name.split(".")[0] == I.package:
        m = I.load(name)
        if m is None:
            I.raise_builtin("ModuleNotFoundError", name)
        return m
    return Opaque("module", ("module", M._key(name)))


@model("inspect.isfunction")
def _isfunction(I, args, kw):
    v = I.force(args[0])
    if isinstance(v, Opaque):
        return Ite(atom("opaque", ("isfunction", v.key), v, "isfunction(%s)" % v.name), True, False)
    return isinstance(v, (FuncV, PyFn))


@model("textwrap.dedent")
def _dedent(I, args, kw):
    v = I.force(args[0])
    if isinstance(v, str):
        import textwrap
        return textwrap.dedent(v)
    return v


@model("dataclasses.dataclass")
def _dataclass(I, args, kw):
    return args[0] if args else PyFn(lambda J, a, k: a[0], "dataclass")


@model("dataclasses.field")
def _field(I, args, kw):
    return WrapV("field", kw.get("default_factory"), {k: I.force(v) if k == "init" else v for k, v in kw.items()})


@model("dataclasses.replace")
def _replace(I, args, kw):
    v = I.force(args[0])
    c = I.content(v)
    d = dict(c.d)
    d.update(kw)
    return I.alloc(Inst(c.cls, d))


@model("typing.Union", "typing.Optional", "typing.cast")
def _typing(I, args, kw):
    return args[-1] if args else None


@model("astropy.units.dimensionless_angles")
def _dimang(I, args, kw):
    return Opaque("equiv:dimensionless_angles")


# ------------------------------------------------------------------ sympy

def sp_array(I, args, kw):
    v = I.force(args[0])
    sh = args[1] if len(args) > 1 else kw.get("shape")
    s, el, lib = to_arr(I, v)
    el = [termof(I, x) for x in el]
    if sh is not None:
        sh = shape_arg(I, sh)
        if prod(sh) != len(el):
            I.raise_builtin("ValueError", "shape mismatch")
        s = sh
    return I.new_arr(s, el, "sp")


@model("sympy.ImmutableDenseNDimArray")
def _sparr(I, args, kw):
    return sp_array(I, args, kw)


@model("sympy.MutableDenseNDimArray")
def _mutarr(I, args, kw):
    r = sp_array(I, args, kw)
    c = I.content(r)
    I.put(r, Arr(c.shape, c.el, "sp", "mutable"))
    return r


@model("sympy.Matrix", "sympy.ImmutableMatrix", "sympy.ImmutableDenseMatrix")
def _matrix(I, args, kw):
    if len(args) == 3:
        r, c = as_index(I, args[0]), as_index(I, args[1])
        f = I.force(args[2])
        if isinstance(f, (FuncV, PyFn, BoundV)):
            el = [I.call(f, [i, j], {}) for i in range(r) for j in range(c)]
        else:
            el = [termof(I, x) for x in I.iterate(f)]
        return I.new_arr((r, c), el, "mat", "mutable")
    s, el, lib = to_arr(I, I.force(args[0]))
    if len(s) == 1:
        s = (s[0], 1)
    return I.new_arr(s, [termof(I, x) for x in el], "mat", "mutable")


@model("sympy.diag")
def _spdiag(I, args, kw):
    a = list(args)
    if len(a) == 1 and (isinstance(I.force(a[0]), tuple) or M.seq_items(I, a[0]) is not None):
        a = list(I.iterate(a[0]))
    n = len(a)
    return I.new_arr((n, n), [termof(I, a[i]) if i == j else 0 for i in range(n) for j in range(n)], "mat", "mutable")


@model("sympy.eye")
def _speye(I, args, kw):
    n = args[0]
    return I.new_arr((n, n), [1 if i == j else 0 for i in range(n) for j in range(n)], "mat", "mutable")


@model("sympy.NDimArray_zeros", "sympy.MutableNDimArray_zeros")
def _ndzeros(I, args, kw):
    sh = shape_arg(I, args[0] if len(args) == 1 else tuple(args))
    return I.new_arr(sh, [0] * prod(sh), "sp")


MODELS["sympy.MutableNDimArray_zeros"] = lambda I, a, k: _mutarr(I, [_ndzeros(I, a, k)], {})


@model("sympy.ones")
def _spones(I, args, kw):
    r = args[0]
    c = args[1] if len(args) > 1 else r
    return I.new_arr((r, c), [1] * (r * c), "mat", "mutable")


@model("sympy.zeros")
def _spzeros(I, args, kw):
    r = args[0]
    c = args[1] if len(args) > 1 else r
    return I.new_arr((r, c), [0] * (r * c), "mat", "mutable")


def names_of(I, s):
    import re
    s = I.force(s)
    if not isinstance(s, str):
        out = []
        for x in I.iterate(s):
            out.extend(names_of(I, x))
        return out
    out = []
    for n in [x for x in re.split(r"[\s,]+", s) if x]:
        m = re.match(r"^(.*?)(\d*):(\d+)$", n)
        if m:
            lo = int(m.group(2) or 0)
            out.extend(m.group(1) + str(i) for i in range(lo, int(m.group(3))))
        else:
            out.append(n)
    return out


@model("sympy.symbols", "sympy.var")
def _symbols(I, args, kw):
    if isinstance(I.force(args[0]), Opaque):
        raise AnalysisError("symbols() of a symbolic string at %s" % I.loc())
    ns = names_of(I, args[0])
    cls = kw.get("cls")
    isf = isinstance(cls, ExtV) and cls.path == "sympy.Function"
    out = []
    for n in ns:
        if isf:
            out.append(Opaque("ufn:" + n, ("ufn", n)))
        else:
            out.append(tm.sym(n, kw.get("positive") is True))
    if len(out) == 1 and "," not in (args[0] if isinstance(args[0], str) else ","):
        return out[0]
    return tuple(out)


@model("sympy.Symbol", "sympy.Dummy")
def _symbol(I, args, kw):
    n = I.force(args[0])
    if isinstance(n, Opaque):
        return tm.sym("sym(%s)" % n.name)
    return tm.sym(n, kw.get("positive") is True)


@model("sympy.Function")
def _function(I, args, kw):
    n = I.force(args[0])
    return Opaque("ufn:" + n, ("ufn", n))


@model("sympy.N", "sympy.nsimplify")
def _approx(I, args, kw):
    return _rational(I, args[:1], {})


@model("sympy.Rational", "fractions.Fraction", "sympy.Integer", "sympy.Float", "sympy.sympify", "sympy.S")
def _rational(I, args, kw):
    v = args[0]
    if isinstance(v, Ref) and is_arr(I, v):
        return v
    v = termof(I, v)
    if isinstance(v, str):
        try:
            v = T.const(Fraction(v))
        except ValueError:
            v = tm.sym(v)
    if isinstance(v, int):
        v = T.const(v)
    if len(args) > 1:
        return I.binop("/", v, termof(I, args[1]))
    return v


@model("sympy.besselj")
def _bessel(I, args, kw):
    return tm.bessel(as_t(termof(I, args[0])), as_t(termof(I, args[1])))


def _identity(I, args, kw):
    v = I.force(args[0])
    if M.seq_items(I, v) is not None and not isinstance(v, tuple):
        return v
    if is_arr(I, v):
        a = I.arr(v)
        return I.new_arr(a.shape, a.el, a.lib, a.dtype)
    return v


for _n in ("simplify", "expand", "factor", "cancel", "together", "trigsimp", "radsimp", "ratsimp", "powsimp", "collect",
           "nfloat", "refine", "expand_trig", "powdenest", "logcombine"):
    MODELS["sympy." + _n] = _identity


@model("sympy.Mul")
def _Mul(I, args, kw):
    r = 1
    for a in args:
        r = I.binop("*", r, a)
    return r


@model("sympy.Add")
def _Add(I, args, kw):
    r = 0
    for a in args:
        r = I.binop("+", r, a)
    return r


def sp_diff(I, args):
    v = args[0]
    if isinstance(v, Ref) and is_arr(I, v):
        a = I.arr(v)
        return I.new_arr(a.shape, [sp_diff(I, [x] + list(args[1:])) for x in a.el], a.lib)
    if isinstance(v, Ite):
        return I.lift1(lambda x: sp_diff(I, [x] + list(args[1:])), v)
    t = as_t(termof(I, v))
    i = 1
    while i < len(args):
        x = I.force(args[i])
        n = 1
        if isinstance(x, tuple):
            x, n = x
        x = as_t(termof(I, x))
        if i + 1 < len(args) and isinstance(args[i + 1], int):
            n = args[i + 1]
            i += 1
        g = tm.is_gen(x)
        if g is None:
            I.raise_builtin("ValueError", "Can't calculate derivative wrt %r" % (x,))
        for _ in range(n):
            t = tm.diffg(t, g)
        i += 1
    return t


MODELS["sympy.diff"] = lambda I, a, k: sp_diff(I, a)
MODELS["sympy.Derivative"] = lambda I, a, k: sp_diff(I, a)


def sp_subs(I, v, args):
    if isinstance(v, Ite):
        return I.lift1(lambda x: sp_subs(I, x, args), v)
    pairs = []
    if len(args) == 1:
        a = I.force(args[0])
        c = content(I, a)
        if isinstance(c, Dct):
            pairs = list(c.d.items())
        else:
            for p in I.iterate(a):
                x, y = I.iterate(p)
                pairs.append((x, y))
    else:
        pairs = [(args[0], args[1])]
    t = as_t(termof(I, v))
    for x, y in pairs:
        x, y = as_t(termof(I, I.force(x))), as_t(termof(I, I.force(y)))
        g = tm.is_gen(x)
        if g is None:
            if x.as_const() is not None:
                continue
            raise AnalysisError("subs of a compound expression at %s" % I.loc())
        t = tm.subs(t, {x: y})
    return t


def sp_atoms(I, els, types):
    out = []
    seen = set()
    for x in els:
        x = I.force(x) if isinstance(x, Ite) else x
        x = termof(I, x)
        if not isinstance(x, T):
            continue
        for g in tm.deep_gens(x).values():
            for ty in types:
                ty = I.force(ty)
                p = ty.path if isinstance(ty, ExtV) else ""
                if p == "sympy.AppliedUndef" and g.kind == "fn" and g.data[0] not in ("inv", "floor", "mod", "trunc"):
                    v = tm.gen_term(g)
                    if g.id not in seen:
                        seen.add(g.id)
                        out.append(v)
                elif p == "sympy.Symbol" and g.kind == "sym" and g.name not in ("pi", "E"):
                    if g.id not in seen:
                        seen.add(g.id)
                        out.append(tm.gen_term(g))
    return I.alloc(Seq("set", tuple(out)))


def _sparg(I, v):
    v = I.force(v) if isinstance(v, Ite) and not num_leaves(v) else v
    return termof(I, v)


@model("sympy.tensorproduct")
def _tprod(I, args, kw):
    sh, el = (), [1]
    first = True
    for a in args:
        s, e, lib = to_arr(I, _sparg(I, a))
        e = [termof(I, x) for x in e]
        if first:
            sh, el = tuple(s), list(e)
            first = False
        else:
            sh = tuple(sh) + tuple(s)
            el = [mul0(I, x, y) for x in el for y in e]
    if not sh:
        return el[0]
    return I.new_arr(sh, el, "sp")


def mul0(I, x, y):
    if is_num(x) and as_t(x).is_zero() and num_leaves(y) or is_num(y) and as_t(y).is_zero() and num_leaves(x):
        return tm.ZERO
    return I.binop("*", x, y)


@model("sympy.tensorcontraction")
def _tcon(I, args, kw):
    s, el, lib = to_arr(I, _sparg(I, args[0]))
    n = len(s)
    groups = []
    for g in args[1:]:
        ax = [as_index(I, I.force(x)) for x in I.iterate(I.force(g))]
        for a in ax:
            if not isinstance(a, int):
                raise AnalysisError("symbolic contraction axis at %s" % I.loc())
            if not 0 <= a < n:
                if -n <= a < 0:
                    pass
                else:
                    I.raise_builtin("ValueError", "contraction axis out of range")
        ax = [a % n for a in ax]
        if len(set(s[a] for a in ax)) != 1:
            I.raise_builtin("ValueError", "contraction of different dimensions")
        groups.append(ax)
    used = [a for g in groups for a in g]
    if len(set(used)) != len(used):
        I.raise_builtin("ValueError", "dimension specified more than once")
    rest = [i for i in range(n) if i not in used]
    st = strides(s)
    out = []
    for ri in itertools.product(*[range(s[i]) for i in rest]):
        base = sum(a * st[i] for a, i in zip(ri, rest))
        r = tm.ZERO
        for ci in itertools.product(*[range(s[g[0]]) for g in groups]):
            off = base + sum(c * st[a] for c, g in zip(ci, groups) for a in g)
            x = el[off]
            if is_num(x) and as_t(x).is_zero():
                continue
            r = I.binop("+", r, x)
        out.append(r)
    if not rest:
        return out[0]
    return I.new_arr([s[i] for i in rest], out, "sp")


@model("sympy.permutedims")
def _permutedims(I, args, kw):
    v = _sparg(I, args[0])
    s, el, lib = to_arr(I, v)
    perm = [as_index(I, I.force(x)) for x in I.iterate(I.force(args[1]))]
    if sorted(perm) != list(range(len(s))):
        I.raise_builtin("ValueError", "invalid permutation")
    st = strides(s)
    sh = [s[p] for p in perm]
    out = []
    for idx in itertools.product(*[range(d) for d in sh]):
        out.append(el[sum(i * st[p] for i, p in zip(idx, perm))])
    return I.new_arr(sh, out, "sp")


@model("sympy.transpose")
def _sptr(I, args, kw):
    return transpose(I, _sparg(I, args[0]), None)


@model("sympy.derive_by_array")
def _dba(I, args, kw):
    s, el, _ = to_arr(I, _sparg(I, args[0]))
    sx, ex, _ = to_arr(I, _sparg(I, args[1]))
    out = [sp_diff(I, [x, y]) for y in ex for x in el]
    sh = tuple(sx) + tuple(s)
    return I.new_arr(sh, out, "sp") if sh else out[0]


@model("sympy.lambdify")
def _lambdify(I, args, kw):
    a = I.force(args[0])
    syms = list(I.iterate(a)) if not isinstance(a, T) else [a]
    flat = list(syms)
    expr = args[1]
    I.event("lambdify", (tuple(flat), expr, kw.get("modules", args[2] if len(args) > 2 else None)))

    def f(J, vals, k):
        if len(vals) != len(flat):
            J.raise_builtin("TypeError", "lambdified function argument count")
        mp = {}
        for s, v in zip(flat, vals):
            g = tm.is_gen(as_t(termof(J, s))) if not isinstance(s, Opaque) else None
            if g is not None:
                mp[as_t(termof(J, s))] = as_t(termof(J, J.force(v)))

        def go(x):
            x = termof(J, x)
            return tm.subs(as_t(x), mp) if mp else as_t(x)
        e = J.force(expr) if isinstance(expr, Ite) else expr
        e = termof(J, e)
        if isinstance(e, (tuple,)) or M.seq_items(J, e) is not None or is_arr(J, e):
            s, el, lib = to_arr(J, e)
            return J.new_arr(s, [go(x) for x in el], "np")
        return go(e)
    return PyFn(f, "lambdified")


MODELS["sympy.lambdify.lambdify"] = _lambdify


@model("sympy.LeviCivita", "sympy.Eijk")
def _levi(I, args, kw):
    idx = [as_index(I, I.force(a)) for a in args]
    if len(set(idx)) != len(idx):
        return 0
    s = 1
    for i in range(len(idx)):
        for j in range(i):
            if idx[j] > idx[i]:
                s = -s
    return s


@model("sympy.KroneckerDelta")
def _kron(I, args, kw):
    return 1 if as_index(I, args[0]) == as_index(I, args[1]) else 0


@model("sympy.init_printing", "sympy.pprint")
def _sp_noop(I, args, kw):
    return None


# ------------------------------------------------------------------ file names

for _n in ("splitext", "basename", "dirname", "join", "split"):
    def _path_model(I, args, kw, _n=_n):
        import posixpath
        a = [I.force(x) for x in args]
        if all(isinstance(x, str) for x in a):
            return getattr(posixpath, _n)(*a)
        return Opaque("os.path." + _n)
    MODELS["os.path." + _n] = _path_model


# ------------------------------------------------------------------ ufunc methods, small concrete helpers

def _consts(I, el, what):
    cs = [as_t(x).as_const() if is_num(x) else None for x in el]
    return None if any(c is None for c in cs) else cs


def _argm(pick):
    def g(I, args, kw):
        v = I.force(args[0])
        if isinstance(v, QuantV):
            v = v.value
        if kw or len(args) > 1 or isinstance(v, Opaque):
            raise AnalysisError("arg%s at %s" % (pick.__name__, I.loc()))
        el = to_arr(I, v)[1]
        cs = _consts(I, el, "arg")
        if cs is None:
            I.opq += 1
            return Opaque("arg" + pick.__name__, ("arg" + pick.__name__,) + tuple(M._key(x) for x in el))
        return cs.index(pick(cs))
    return g


MODELS["numpy.argmax"] = _argm(max)
MODELS["numpy.argmin"] = _argm(min)


@model("numpy.unique")
def _unique(I, args, kw):
    el = to_arr(I, I.force(args[0]))[1]
    cs = _consts(I, el, "unique")
    if kw or len(args) > 1 or cs is None:
        raise AnalysisError("np.unique of undetermined values at %s" % I.loc())
    seen = {}
    for c, x in zip(cs, el):
        seen.setdefault(c, x)
    return I.new_arr((len(seen),), [seen[c] for c in sorted(seen)])


@model("numpy.ptp")
def _ptp(I, args, kw):
    return I.binop("-", MODELS["numpy.max"](I, args, kw), MODELS["numpy.min"](I, args, kw))


for _n, _op in {"add": "+", "multiply": "*", "subtract": "-", "divide": "/", "power": "**"}.items():
    MODELS["numpy.%s.outer" % _n] = (lambda op: lambda I, a, k: _uf_outer(I, op, a))(_op)
for _n, _r, _c in (("add", "sum", "cumsum"), ("multiply", "prod", "cumprod"), ("maximum", "max", None), ("minimum", "min", None),
                   ("logical_and", "all", None), ("logical_or", "any", None)):
    MODELS["numpy.%s.reduce" % _n] = (lambda r: lambda I, a, k: MODELS["numpy." + r](
        I, list(a), dict({"axis": 0} if len(a) < 2 else {}, **k)))(_r)
    if _c:
        MODELS["numpy.%s.accumulate" % _n] = (lambda r: lambda I, a, k: MODELS["numpy." + r](
            I, list(a), dict({"axis": 0} if len(a) < 2 else {}, **k)))(_c)


def _uf_outer(I, op, a):
    sa, ea, _ = to_arr(I, I.force(a[0]))
    sb, eb, _ = to_arr(I, I.force(a[1]))
    return I.new_arr(tuple(sa) + tuple(sb), [I.binop(op, x, y) for x in ea for y in eb])


@model("itertools.accumulate")
def _accumulate(I, args, kw):
    f = args[1] if len(args) > 1 else kw.get("func")
    xs = list(I.iterate(I.force(args[0])))
    if "initial" in kw:
        xs = [kw["initial"]] + xs
    out = []
    for x in xs:
        out.append(x if not out else I.binop("+", out[-1], x) if f is None else I.call(f, [out[-1], x], {}))
    return I.new_list(out)


@model("itertools.pairwise")
def _pairwise(I, args, kw):
    xs = list(I.iterate(I.force(args[0])))
    return I.new_list(list(zip(xs, xs[1:])))


@model("itertools.count")
def _count(I, args, kw):
    raise AnalysisError("itertools.count at %s" % I.loc())


@model("itertools.compress")
def _compress(I, args, kw):
    xs, m = list(I.iterate(I.force(args[0]))), list(I.iterate(I.force(args[1])))
    return I.new_list([x for x, b in zip(xs, m) if I.force(I.truth(b))])


def _mathint(f):
    def g(I, args, kw):
        a = [as_index(I, I.force(x)) for x in args]
        if not all(isinstance(x, int) for x in a):
            raise AnalysisError("math.%s at %s" % (f.__name__, I.loc()))
        return f(*[int(x) for x in a])
    return g


import math as _math
for _f in (_math.comb, _math.factorial, _math.gcd, _math.isqrt, _math.perm, _math.lcm):
    MODELS["math." + _f.__name__] = _mathint(_f)


@model("numpy.copysign", "math.copysign")
def _copysign(I, args, kw):
    def f(a, b):
        c = as_t(b).as_const() if is_num(b) else None
        if c is None or c == 0:
            raise AnalysisError("copysign at %s" % I.loc())
        m = MODELS["numpy.abs"](I, [a], {})
        return m if c > 0 else I.unop("-", m)
    return elementwise(I, f, list(args[:2]))


@model("numpy.fmod", "math.fmod")
def _fmod(I, args, kw):
    def f(a, b):
        q = MODELS["numpy.trunc"](I, [I.binop("/", a, b)], {})
        return I.binop("-", a, I.binop("*", q, b))
    return elementwise(I, f, list(args[:2]))


@model("math.dist")
def _dist(I, args, kw):
    d = I.binop("-", np_array(I, [I.force(args[0])], {}), np_array(I, [I.force(args[1])], {}))
    return MODELS["numpy.linalg.norm"](I, [d], {})


@model("numpy.float32", "numpy.float16", "numpy.half")
def _f32(I, args, kw):
    v = I.force(args[0]) if args else tm.ZERO
    if is_arr(I, v) or M.seq_items(I, v) is not None:
        return np_array(I, [v], {"dtype": "float32"})
    return M.to_f32(I, MODELS["builtins.float"](I, [v], {}))


def _atl(n):
    def g(I, args, kw):
        v = I.force(args[0])
        if len(args) != 1 or isinstance(v, Opaque):
            return Opaque("atleast_%dd" % n, ("atleast", n) + tuple(M._key(a) for a in args))
        if isinstance(v, QuantV):
            return QuantV(g(I, [v.value], kw), v.unit)
        v = v if is_arr(I, v) and I.content(v).lib == "np" else np_array(I, [v], {})
        s = to_arr(I, v)[0]
        if len(s) >= n:
            return v
        if n == 3:
            sh = {0: (1, 1, 1), 1: (1,) + tuple(s) + (1,), 2: tuple(s) + (1,)}[len(s)]
        else:
            sh = (1,) * (n - len(s)) + tuple(s)
        return reshape(I, v, sh)
    return g


for _k in (1, 2, 3):
    MODELS["numpy.atleast_%dd" % _k] = _atl(_k)


def _lazy(f):
    def g(I, args, kw):
        r = f(I, args, kw)
        if isinstance(r, Ref) and isinstance(I.content(r), Seq) and I.content(r).kind == "list":
            I.put(r, Seq("iter", I.content(r).items))
        return r
    return g


for _n in [n for n in MODELS if n.startswith("itertools.")] + ["numpy.ndindex", "numpy.ndenumerate"]:
    MODELS[_n] = _lazy(MODELS[_n])


MODELS["builtins.chr"] = lambda I, a, k: chr(as_index(I, I.force(a[0])))
MODELS["builtins.ord"] = lambda I, a, k: ord(I.force(a[0]))


@model("operator.methodcaller")
def _methodcaller(I, args, kw):
    n, a0, k0 = I.force(args[0]), list(args[1:]), dict(kw)
    return PyFn(lambda J, a, k: J.call(J.getattr_(a[0], n), a0, k0), "methodcaller")
