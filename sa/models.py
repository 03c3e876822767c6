"""Transfer functions for builtins, numpy, sympy, astropy.units and friends."""
from fractions import Fraction
import builtins as _bi
import itertools
import re
import string

from _string import formatter_field_name_split as _string_split
from . import terms as tm
from .terms import T, as_t
from .values import *
from . import interp as _ip

IDENTITY_DECORATORS = {
    "numba.njit", "numba.jit", "functools.total_ordering",
    "abc.abstractmethod", "functools.wraps", "typing.overload", "numba.njit()", "numpy.vectorize",
    "functools.singledispatch", "typing.final",
}

MODELS = {}


def model(*paths):
    def d(f):
        for p in paths:
            MODELS[p] = f
        return f
    return d


# ------------------------------------------------------------------ external names

EXT_CONST = {
    "numpy.pi": lambda: tm.PI, "math.pi": lambda: tm.PI, "sympy.pi": lambda: tm.PI, "numpy.e": lambda: tm.EULER,
    "math.e": lambda: tm.EULER, "sympy.E": lambda: tm.EULER, "sympy.I": lambda: tm.IMAG,
    "numpy.newaxis": lambda: None, "numpy.inf": lambda: tm.sym("inf", True), "math.inf": lambda: tm.sym("inf", True),
    "sympy.oo": lambda: tm.sym("inf", True), "numpy.nan": lambda: _ip.NAN, "sympy.S.Half": lambda: T.const(Fraction(1, 2)),
    "sympy.S.Zero": lambda: tm.ZERO, "sympy.S.One": lambda: tm.ONE, "math.tau": lambda: tm.PI * 2,
    "sympy.S.Pi": lambda: tm.PI, "sympy.true": lambda: True, "sympy.false": lambda: False,
    "builtins.None": lambda: None, "builtins.True": lambda: True, "builtins.False": lambda: False,
    "builtins.NotImplemented": lambda: Opaque("NotImplemented"), "builtins.Ellipsis": lambda: Ellipsis,
    "typing.TYPE_CHECKING": lambda: False,
}

ALIAS = {
    "sympy.Array": "sympy.ImmutableDenseNDimArray", "sympy.MutableDenseMatrix": "sympy.Matrix",
    "sympy.Basic": "sympy.Basic", "numpy.asmatrix": "numpy.asarray", "numpy.matrix": "numpy.array",
    "numpy.abs": "numpy.abs", "numpy.absolute": "numpy.abs", "numpy.fabs": "numpy.abs",
    "numpy.acos": "numpy.arccos", "numpy.asin": "numpy.arcsin", "numpy.atan": "numpy.arctan", "numpy.atan2": "numpy.arctan2",
    "numpy.pow": "numpy.power", "numpy.float64": "builtins.float", "numpy.longdouble": "builtins.float", "numpy.single": "numpy.float32",
    "numpy.float_": "builtins.float", "numpy.int64": "builtins.int", "numpy.intp": "builtins.int",
    "numpy.int_": "builtins.int",
}


def canon(path):
    if path.startswith("sympy."):
        last = path.rsplit(".", 1)[-1]
        if last == "zeros" and path.rsplit(".", 2)[-2].endswith("Array"):
            path = "sympy.%sNDimArray_zeros" % ("Mutable" if "Mutable" in path else "")
        elif not path.startswith("sympy.S."):
            path = "sympy." + last
    elif path.startswith("astropy.units.quantity."):
        path = "astropy.units." + path.rsplit(".", 1)[-1]
    elif path.startswith("astropy.constants."):
        pass
    return ALIAS.get(path, path)


def ext(path):
    path = canon(path)
    c = EXT_CONST.get(path)
    if c is not None:
        return c()
    return ExtV(path)


def ext_attr(v, name):
    if name in ("__name__", "__qualname__"):
        return v.path.split(".")[-1]
    p = canon(v.path + "." + name)
    c = EXT_CONST.get(p)
    if c is not None:
        return c()
    if p.startswith("astropy.units."):
        u = unit_named(name)
        if u is not None:
            return u
    if p.startswith("astropy.constants."):
        q = const_named(name)
        if q is not None:
            return q
    return ExtV(p)


EXTRA_SUPER = {
    "astropy.units.UnitsError": ("builtins.ValueError",),
    "astropy.units.UnitConversionError": ("astropy.units.UnitsError", "builtins.TypeError"),
    "astropy.units.UnitTypeError": ("astropy.units.UnitsError", "builtins.TypeError"),
    "numpy.linalg.LinAlgError": ("builtins.ValueError",),
}


def ext_subclass(c, h):
    if c == h:
        return True
    if c in EXTRA_SUPER:
        return any(ext_subclass(x, h) for x in EXTRA_SUPER[c])
    cb = getattr(_bi, c.split(".")[-1], None) if c.startswith("builtins.") else None
    hb = getattr(_bi, h.split(".")[-1], None) if h.startswith("builtins.") else None
    if isinstance(cb, type) and isinstance(hb, type):
        return issubclass(cb, hb)
    if h in ("builtins.Exception", "builtins.BaseException", "builtins.object"):
        return True
    return False


def is_exception_path(p):
    if p.startswith("builtins."):
        b = getattr(_bi, p.split(".")[-1], None)
        return isinstance(b, type) and issubclass(b, BaseException)
    return p in EXTRA_SUPER


# ------------------------------------------------------------------ units

def _u(scale, **d):
    return Unit(as_t(scale), {k: Fraction(v) for k, v in d.items()})


_PREF = {"k": 3, "M": 6, "G": 9, "m": -3, "u": -6, "n": -9, "c": -2}


def unit_named(n):
    base = {
        "m": _u(1, L=1), "s": _u(1, T=1), "kg": _u(1, M=1), "g": _u(Fraction(1, 1000), M=1),
        "rad": _u(1, rad=1), "one": _u(1), "dimensionless_unscaled": _u(1), "C": _u(1, T=1, I=1), "A": _u(1, I=1),
        "N": _u(1, M=1, L=1, T=-2), "J": _u(1, M=1, L=2, T=-2), "F": _u(1, M=-1, L=-2, T=4, I=2), "K": _u(1, K=1),
        "Pa": _u(1, M=1, L=-1, T=-2), "W": _u(1, M=1, L=2, T=-3), "V": _u(1, M=1, L=2, T=-3, I=-1),
        "min": _u(60, T=1), "h": _u(3600, T=1), "hour": _u(3600, T=1), "day": _u(86400, T=1), "d": _u(86400, T=1),
        "yr": _u(31557600, T=1), "year": _u(31557600, T=1), "second": _u(1, T=1), "meter": _u(1, L=1),
        "kilogram": _u(1, M=1), "radian": _u(1, rad=1), "gram": _u(Fraction(1, 1000), M=1),
        "Myr": _u(31557600 * 10 ** 6, T=1), "Gyr": _u(31557600 * 10 ** 9, T=1),
        "coulomb": _u(1, T=1, I=1), "kilometer": _u(1000, L=1), "ton": _u(1000, M=1), "t": _u(1000, M=1),
        "percent": _u(Fraction(1, 100)), "wk": _u(604800, T=1), "week": _u(604800, T=1), "fortnight": _u(1209600, T=1), "sday": _u(Fraction(8616409053, 100000), T=1),
        "cycle": Unit(2 * tm.PI, {"rad": Fraction(1)}), "hourangle": Unit(tm.PI / 12, {"rad": Fraction(1)}),
    }
    if n in base:
        return base[n]
    if n in ("deg", "degree"):
        return Unit(tm.PI / 180, {"rad": Fraction(1)})
    if n in ("arcmin",):
        return Unit(tm.PI / 10800, {"rad": Fraction(1)})
    if n in ("arcsec",):
        return Unit(tm.PI / 648000, {"rad": Fraction(1)})
    if n in ("M_sun", "solMass", "Msun"):
        return Unit(tm.sym("M_sun", True), {"M": Fraction(1)})
    if n in ("M_earth", "earthMass", "Mearth"):
        return Unit(tm.sym("M_earth", True), {"M": Fraction(1)})
    if n in ("R_sun", "solRad", "Rsun"):
        return Unit(tm.sym("R_sun_iau", True), {"L": Fraction(1)})
    if n in ("R_earth", "earthRad"):
        return Unit(tm.sym("R_earth_iau", True), {"L": Fraction(1)})
    if n in ("AU", "au", "astronomical_unit"):
        return _u(149597870700, L=1)
    if n in ("lyr", "lightyear"):
        return Unit(tm.sym("lyr", True), {"L": Fraction(1)})
    if n in ("pc", "parsec"):
        return Unit(tm.sym("parsec", True), {"L": Fraction(1)})
    if n in ("kpc", "Mpc", "Gpc"):
        return Unit(tm.sym("parsec", True) * (10 ** _PREF[n[0]]), {"L": Fraction(1)})
    if len(n) > 1 and n[0] in _PREF and n[1:] in ("m", "s", "g", "C", "A", "N", "J", "rad", "F", "W", "V", "Pa"):
        b = base[n[1:]]
        return Unit(b.scale * T.const(Fraction(10) ** _PREF[n[0]]), b.dims)
    return None


def const_named(n):
    d = {
        "c": (tm.sym("c", True), dict(L=1, T=-1)), "G": (tm.sym("G", True), dict(L=3, M=-1, T=-2)),
        "eps0": (tm.sym("eps0", True), dict(M=-1, L=-3, T=4, I=2)),
        "M_sun": (tm.sym("M_sun", True), dict(M=1)), "R_sun": (tm.sym("R_sun_iau", True), dict(L=1)),
        "M_earth": (tm.sym("M_earth", True), dict(M=1)), "R_earth": (tm.sym("R_earth_iau", True), dict(L=1)),
        "mu0": (tm.sym("mu0", True), dict(M=1, L=1, T=-2, I=-2)),
    }
    if n in d:
        v, u = d[n]
        return QuantV(v, _u(1, **u))
    return None


def parse_unit(I, s):
    if s.strip() == "":
        return _u(1)
    r = _u(1)
    import re
    num = True
    for tok in re.findall(r"[A-Za-z_]+[-+]?\d*|/|\*\*|\^|\(|\)|\d+", s):
        if tok == "/":
            num = False
            continue
        if tok == "1":
            continue
        m = re.match(r"([A-Za-z_]+?)([-+]?\d+)?$", tok)
        if not m:
            raise AnalysisError("unit string %r" % s)
        u = unit_named(m.group(1))
        if u is None:
            raise AnalysisError("unit %r" % m.group(1))
        e = int(m.group(2) or 1)
        r = r * u.pow(e if num else -e)
    return r


def as_unit(I, v):
    if isinstance(v, Unit):
        return v
    if isinstance(v, str):
        return parse_unit(I, v)
    if isinstance(v, QuantV):
        return Unit(v.unit.scale * as_t(v.value), v.unit.dims)
    if v is None:
        return _u(1)
    if isinstance(v, (int, T)):
        return Unit(as_t(v), {})
    raise AnalysisError("not a unit: %r at %s" % (v, I.loc()))


def nodim(u):
    return not u.dims or set(u.dims) == {"rad"}


def convert(I, q, unit):
    """value of q expressed in unit"""
    if q.unit.dims != unit.dims:
        I.raise_exc(ExcV(ExtV("astropy.units.UnitConversionError"), ("not convertible",)))
    f = q.unit.scale / unit.scale
    if f == tm.ONE:
        return q.value
    return I.binop("*", q.value, f)


def dimless(I, v):
    """plain number(s) of a dimensionless value (angles in radians)"""
    if isinstance(v, QuantV):
        if not nodim(v.unit):
            I.raise_exc(ExcV(ExtV("astropy.units.UnitTypeError"), ("needs dimensionless",)))
        f = v.unit.scale
        if f == tm.ONE:
            return v.value
        return I.binop("*", v.value, f)
    return v


def memoized(I, f):
    return WrapV("memo", f, {"cache": I.alloc(Dct({}))})


def call_memo(I, w, args, kw):
    """functools.lru_cache: the first result is kept and handed out again, the object itself included"""
    def h(v):
        v = I.force(v)
        if isinstance(v, Ref):
            c = I.content(v)
            if isinstance(c, (Dct, Arr)) and getattr(c, "lib", "np") == "np" or isinstance(c, Seq) and c.kind in ("list", "set"):
                I.raise_builtin("TypeError", "unhashable type")
        if isinstance(v, tuple):
            for x in v:
                h(x)
        return v
    a = [h(x) for x in args]
    k = {n: h(x) for n, x in kw.items()}
    key = (tuple(_key(x) for x in a), tuple(sorted((n, _key(x)) for n, x in k.items())))
    c = I.content(w.extra["cache"])
    if isinstance(c, Dct) and key in c.d:
        return c.d[key]
    r = I.call(w.func, a, k)
    c = I.content(w.extra["cache"])
    if isinstance(c, Dct):
        I.put(w.extra["cache"], Dct({**c.d, key: r}))
    return r


def named_tuple(I, name, fields, ref):
    """methods of a named tuple, added to the class body"""
    import ast
    tup = "(%s,)" % ", ".join("self." + n for n in fields)
    src = ["class %s:" % name, "    _fields = %r" % (tuple(fields),),
           "    def __iter__(self):\n        return iter(%s)" % tup,
           "    def __getitem__(self, i):\n        return %s[i]" % tup,
           "    def __len__(self):\n        return %d" % len(fields),
           "    def __eq__(self, o):\n        return %s == tuple(o)" % tup,
           "    def __hash__(self):\n        return hash(%s)" % tup,
           "    def __add__(self, o):\n        return %s + tuple(o)" % tup,
           "    def _replace(self, **k):\n        return type(self)(**{**self._asdict(), **k})",
           "    def _asdict(self):\n        return {%s}" % ", ".join("%r: self.%s" % (n, n) for n in fields)]
    body = ast.parse("\n".join(src)).body[0].body
    fr = I.content(ref)
    d = dict(fr.d)
    d["__dataclass_fields__"] = tuple(fields)
    I.put(ref, _ip.Frame(d, fr.parent))
    fr0 = I.ctx
    for st in body:
        if isinstance(st, ast.FunctionDef):
            f = I.make_func(st, st.name)
            fr = I.content(ref)
            if st.name not in fr.d:
                I.put(ref, _ip.Frame({**fr.d, st.name: f}, fr.parent))
        else:
            fr = I.content(ref)
            I.put(ref, _ip.Frame({**fr.d, "_fields": tuple(fields)}, fr.parent))


def call_quantity_input(I, w, args, kw):
    f = w.func
    if isinstance(f, FuncV):
        env = I.bind(f, args, kw)
        a = f.node.args
        anns = {}
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.annotation is not None:
                anns[x.arg] = x.annotation
        targets = dict(w.extra or {})
        for name, val in env.items():
            tgt = targets.get(name)
            if tgt is None:
                continue
            if isinstance(val, Ite):
                val = I.force(val)
            if val is None:
                continue
            opts = tgt if isinstance(tgt, (tuple,)) else (tgt,)
            ok = False
            for o in opts:
                o = I.force(o)
                if isinstance(o, Ref):
                    continue
                if isinstance(o, str) and not _isunit(o):
                    ok = True
                    continue
                u = as_unit(I, o)
                if isinstance(val, QuantV):
                    if val.unit.dims == u.dims:
                        ok = True
                elif isinstance(val, Opaque):
                    ok = True
                elif not u.dims and isinstance(val, (int, T)):
                    # plain numbers are accepted only for dimensionless targets
                    ok = True
            if not ok:
                if isinstance(val, QuantV):
                    I.raise_exc(ExcV(ExtV("astropy.units.UnitsError"), ("wrong unit for %s" % name,)))
                I.raise_builtin("TypeError", "argument %s has no unit" % name)
    return I.call_func(f, args, kw, slf=args[0] if args else None) if isinstance(f, FuncV) else I.call(f, args, kw)


def _isunit(s):
    return unit_named(s) is not None


@model("astropy.units.quantity_input", "astropy.units.decorators.quantity_input")
def _qi(I, args, kw):
    if args and isinstance(args[0], FuncV):
        return WrapV("quantity_input", args[0], {})
    k2 = dict(kw)
    return PyFn(lambda J, a, k: WrapV("quantity_input", a[0], k2), "quantity_input")


@model("astropy.units.Quantity")
def _quantity(I, args, kw):
    v = args[0]
    unit = args[1] if len(args) > 1 else kw.get("unit")
    v = I.force(v)
    if isinstance(v, QuantV):
        if unit is None:
            return v
        u = as_unit(I, I.force(unit))
        return QuantV(convert(I, v, u), u)
    if isinstance(v, (tuple,)) or (isinstance(v, Ref) and isinstance(I.content(v), Seq)):
        from .models_lib import quantity_array
        v = quantity_array(I, v)
        if isinstance(v, QuantV):
            return v if unit is None else QuantV(convert(I, v, as_unit(I, unit)), as_unit(I, unit))
    return QuantV(v, as_unit(I, I.force(unit)) if unit is not None else _u(1))


@model("astropy.units.Unit")
def _unit(I, args, kw):
    return as_unit(I, I.force(args[0]))


@model("astropy.constants.Constant")
def _constant(I, args, kw):
    names = ["abbrev", "name", "value", "unit", "uncertainty", "reference", "system"]
    d = dict(zip(names, args))
    d.update(kw)
    return QuantV(d["value"], as_unit(I, d["unit"]))


# ------------------------------------------------------------------ conversions

def is_num(v):
    return isinstance(v, (int, T))      # bool included


def num_leaves(v):
    return isinstance(v, (int, T)) or (isinstance(v, Ite) and all(isinstance(x, (int, T)) for _, x in leaves(v)))


def content(I, v):
    return I.content(v) if isinstance(v, Ref) else None


def is_arr(I, v):
    return isinstance(v, Ref) and isinstance(I.content(v), Arr)


def termof(I, v):
    """Inst carrying a term (sympy Symbol subclass) -> term"""
    if isinstance(v, Ref):
        c = I.content(v)
        if isinstance(c, Inst):
            if "__term__" in c.d:
                return c.d["__term__"]
            if "__arr__" in c.d:
                return c.d["__arr__"]
    return v


def to_int(I, v):
    """value stored into an integer array"""
    if isinstance(v, Ite):
        return ite(Ite(v.a, True, False), to_int(I, v.t), to_int(I, v.f))
    if isinstance(v, T):
        c = v.as_const()
        return int(c) if c is not None else tm.func("trunc", (v,))
    return v


def to_f32(I, v):
    """value rounded to single precision: not the identity"""
    if isinstance(v, Ite):
        return ite(Ite(v.a, True, False), to_f32(I, v.t), to_f32(I, v.f))
    if isinstance(v, T):
        c = v.as_const()
        return v if c is not None and c.denominator in (1, 2, 4) and abs(c) < 2 ** 20 else tm.func("float32", (v,))
    return v


def cast(I, v, dtype):
    return to_int(I, v) if dtype == "int" else to_f32(I, v) if dtype == "f32" else v


def as_index(I, v):
    if isinstance(v, T):
        c = v.as_const()
        if c is not None and c.denominator == 1:
            return int(c)
        return v
    return v


STRINGS = ("str", "fstring", "strcat", "join")


def _skey(I, v):
    x = to_str(I, I.force(v))
    return x if isinstance(x, str) else x.key


def to_str(I, v, names=("__str__", "__repr__")):
    """Python str or Opaque"""
    if isinstance(v, str):
        return v
    if isinstance(v, (bool, int, type(None))):
        return str(v)
    if isinstance(v, T):
        c = v.as_const()
        if c is not None:
            return str(int(c)) if c.denominator == 1 and False else ("%r" % float(c))
        return Opaque("str", ("str", v.key()))
    if isinstance(v, Ref):
        c = I.content(v)
        if isinstance(c, Inst):
            for n in names:
                m = I.find_method(v, n)
                if m is not None:
                    return I.force(I.call(m, [], {}))
        elif isinstance(c, Arr):
            sh, el, _ = to_arr(I, v)
            return Opaque("str", ("str", "arr", tuple(sh)) + tuple(_skey(I, x) for x in el))
        elif isinstance(c, Seq):
            return Opaque("str", ("str", "seq") + tuple(_skey(I, x) for x in c.items))
        return Opaque("str", ("str", "ref", v.id))
    if isinstance(v, tuple):
        return Opaque("str", ("str", "seq") + tuple(_skey(I, x) for x in v))
    if isinstance(v, QuantV) and isinstance(v.value, Ref):
        return Opaque("str", ("str", "quant", _skey(I, v.value), repr(v.unit)))
    if isinstance(v, Opaque):
        return v if v.key and v.key[0] in STRINGS else Opaque("str", ("str", v.key))
    if isinstance(v, ExcV):
        if v.inst is not None:
            return to_str(I, v.inst)
        return to_str(I, I.force(v.args[0])) if v.args else ""
    if isinstance(v, ClassV):
        return "<class '%s'>" % v.qual
    return Opaque("str", ("str", repr(v)))


# ------------------------------------------------------------------ truth / compare

def truth(I, v):
    if v is True or v is False:
        return v
    if v is None:
        return False
    if isinstance(v, Ite):
        v = restrict(v, I.st.facts)
        if isinstance(v, Ite):
            return ite(Ite(v.a, True, False), truth(I, v.t), truth(I, v.f))
        return truth(I, v)
    if isinstance(v, int):
        return v != 0
    if isinstance(v, T):
        if I.structural_eq:
            return not v.is_zero()
        return b_not(known(I, eqz(v)))
    if isinstance(v, (str, tuple)):
        return len(v) > 0
    if isinstance(v, QuantV):
        return truth(I, v.value)
    if isinstance(v, Ref):
        c = I.content(v)
        if isinstance(c, Seq):
            return c.kind == "iter" or len(c.items) > 0
        if isinstance(c, Dct):
            return len(c.d) > 0
        if isinstance(c, Arr):
            a = I.arr(v)
            if len(a.el) == 1:
                return truth(I, a.el[0])
            if a.lib == "sp":
                return True
            if not a.el:
                return False
            I.raise_builtin("ValueError", "truth value of an array is ambiguous")
        if isinstance(c, Inst):
            if "__term__" in c.d:
                return truth(I, c.d["__term__"])
            m = I.find_method(v, "__bool__")
            if m is not None:
                return truth(I, I.call(m, [], {}))
            m = I.find_method(v, "__len__")
            if m is not None:
                return truth(I, I.call(m, [], {}))
            return True
    if isinstance(v, Opaque):
        a = atom("truth", v.key, v, "bool(%s)" % v.name)
        return known(I, Ite(a, True, False))
    return True


def known(I, b):
    return restrict(b, I.st.facts)


def seq_items(I, v):
    if isinstance(v, tuple):
        return v
    if isinstance(v, Ref):
        c = I.content(v)
        if isinstance(c, Seq):
            return c.items
    return None


def compare(I, op, a, b):
    if op in ("is", "is not"):
        r = is_same(I, a, b)
        return r if op == "is" else b_not(r)
    if op in ("in", "not in"):
        r = contains(I, I.force(b), a)
        return r if op == "in" else b_not(r)
    if isinstance(a, Ite) or isinstance(b, Ite):
        a = restrict(a, I.st.facts)
        b = restrict(b, I.st.facts)
        if isinstance(a, Ite) or isinstance(b, Ite):
            for x in (a, b):
                if isinstance(x, Ite) and any(not isinstance(y, (T, int, str, type(None))) for _, y in leaves(x)):
                    raise SplitNeeded(x.a)
            q = min([x.a for x in (a, b) if isinstance(x, Ite)], key=lambda z: z.id)
            return ite(Ite(q, True, False), compare(I, op, cof(a, q, True), cof(b, q, True)),
                       compare(I, op, cof(a, q, False), cof(b, q, False)))
    a, b = termof(I, a), termof(I, b)
    if is_num(a) and is_num(b):
        if isinstance(a, int) and isinstance(b, int):
            return {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
        d = as_t(a) - as_t(b)
        if op in ("==", "!="):
            if I.structural_eq:
                r = d.is_zero()
            else:
                r = known(I, eqz(d))
            return r if op == "==" else b_not(r)
        if op == ">":
            return known(I, gtz(d))
        if op == "<":
            return known(I, gtz(-d))
        if op == ">=":
            return b_not(known(I, gtz(-d)))
        return b_not(known(I, gtz(d)))
    # user-defined comparison
    for x, y, o in ((a, b, op), (b, a, SWAP_[op])):
        if isinstance(x, Ref):
            c = I.content(x)
            if isinstance(c, Inst):
                m = I.find_method(x, _ip.CDUNDER[o])
                if m is not None:
                    return I.truth(I.call(m, [y], {}))
    if isinstance(a, QuantV) or isinstance(b, QuantV):
        if op in ("==", "!=") and not (isinstance(a, (QuantV, T, int)) and isinstance(b, (QuantV, T, int))):
            return op == "!="
        if not isinstance(a, QuantV):
            a, b, op = b, a, SWAP_[op]
        if isinstance(b, QuantV):
            if a.unit.dims != b.unit.dims:
                if op in ("==", "!="):
                    return op == "!="
                I.raise_exc(ExcV(ExtV("astropy.units.UnitConversionError"), ()))
            return compare(I, op, I.binop("*", a.value, a.unit.scale), I.binop("*", b.value, b.unit.scale))
        if a.unit.dims:
            # comparison with 0 / inf / nan is allowed for any unit
            if is_num(b) and as_t(b).is_zero():
                return compare(I, op, a.value, b)
            if op in ("==", "!="):
                return op == "!="
            I.raise_exc(ExcV(ExtV("astropy.units.UnitConversionError"), ()))
        return compare(I, op, I.binop("*", a.value, a.unit.scale), b)
    if is_arr(I, a) or is_arr(I, b):
        if op in ("==", "!=") and (is_arr(I, a) and I.arr(a).lib == "sp" or is_arr(I, b) and I.arr(b).lib == "sp"):
            if is_arr(I, a) and is_arr(I, b):
                x, y = I.arr(a), I.arr(b)
                r = x.shape == y.shape
                if r:
                    r = True
                    for p, q in zip(x.el, y.el):
                        r = b_and(r, compare(I, "==", p, q))
            else:
                r = False
            return r if op == "==" else b_not(r)
        return elementwise(I, lambda p, q: compare(I, op, p, q), [a, b])
    if op in ("==", "!="):
        r = equal_values(I, a, b)
        return r if op == "==" else b_not(r)
    sa, sb = seq_items(I, a), seq_items(I, b)
    if isinstance(a, str) and isinstance(b, str):
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
    if sa is not None and sb is not None:
        c0 = content(I, a)
        if isinstance(c0, Seq) and c0.kind == "set":
            sub = True
            for x in (sa if op in ("<=", "<") else sb):
                sub = b_and(sub, contains(I, b if op in ("<=", "<") else a, x))
            return sub
        return lex(I, op, sa, sb)
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        k = ("cmp", op, _key(a), _key(b))
        return known(I, Ite(atom("opaque", k, (op, a, b), "%r %s %r" % (a, op, b)), True, False))
    I.raise_builtin("TypeError", "unorderable %r %s %r" % (a, op, b))


SWAP_ = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}


def lex(I, op, a, b):
    strict = op[0]
    for i in range(min(len(a), len(b))):
        e = I.truth(compare(I, "==", a[i], b[i]))
        if e is True:
            continue
        if e is False:
            return compare(I, strict, a[i], b[i])
        return ite(e, lex(I, op, a[i + 1:], b[i + 1:]), I.truth(compare(I, strict, a[i], b[i])))
    return {"<": len(a) < len(b), "<=": len(a) <= len(b), ">": len(a) > len(b), ">=": len(a) >= len(b)}[op]


def _key(v):
    if isinstance(v, T):
        return v.key()
    if isinstance(v, Opaque):
        return v.key
    if isinstance(v, tuple):
        return tuple(_key(x) for x in v)
    if isinstance(v, (str, int, type(None), bool)):
        return (type(v).__name__, v)
    if isinstance(v, Ref):
        return ("ref", v.id)
    if isinstance(v, QuantV):
        return ("q", _key(v.value), v.unit.scale.key(), tuple(sorted(v.unit.dims.items())))
    return repr(v)


def equal_values(I, a, b):
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            if a.key == b.key:
                return True
            k = tuple(sorted([repr(a.key), repr(b.key)]))
            return known(I, Ite(atom("opaque", ("eq",) + k, ("==", a, b), "%r == %r" % (a, b)), True, False))
        o, c = (a, b) if isinstance(a, Opaque) else (b, a)
        if isinstance(c, str):
            q = atom("streq", (o.key, c), (o, c), "%s == %r" % (o.name, c))
            if q.id not in I.st.facts:
                # exclusive alternatives already established?
                for x in ATOMS:
                    if x.kind == "streq" and x is not q and x.data[0].key == o.key and I.st.facts.get(x.id) is True:
                        return False
            return known(I, Ite(q, True, False))
        if c is None and o.name.startswith("str:"):
            return False
        k = ("eqc", o.key, _key(c))
        return known(I, Ite(atom("opaque", k, ("==", o, c), "%r == %r" % (o, c)), True, False))
    sa, sb = seq_items(I, a), seq_items(I, b)
    if sa is not None and sb is not None:
        if isinstance(a, tuple) != isinstance(b, tuple):
            return False
        ca = content(I, a)
        if isinstance(ca, Seq) and ca.kind == "set":
            if len(sa) != len(sb):
                return False
            r = True
            for x in sa:
                r = b_and(r, contains(I, b, x))
            return r
        if len(sa) != len(sb):
            return False
        r = True
        for x, y in zip(sa, sb):
            r = b_and(r, I.truth(compare(I, "==", x, y)))
            if r is False:
                return False
        return r
    if isinstance(a, Ref) and isinstance(b, Ref):
        if a == b:
            return True
        ca, cb = I.content(a), I.content(b)
        if isinstance(ca, Dct) and isinstance(cb, Dct):
            if set(ca.d) != set(cb.d):
                return False
            r = True
            for k in ca.d:
                r = b_and(r, I.truth(compare(I, "==", ca.d[k], cb.d[k])))
            return r
        if isinstance(ca, Inst) and isinstance(cb, Inst) and ca.cls is cb.cls and isinstance(ca.cls, ClassV):
            fs = I.class_lookup(ca.cls, "__dataclass_eq__")
            if fs is not None:
                r = True
                for n in fs[0]:
                    r = b_and(r, I.truth(compare(I, "==", I.getattr_(a, n), I.getattr_(b, n))))
                    if r is False:
                        return False
                return r
        return False
    if isinstance(a, Unit) and isinstance(b, Unit):
        return a.same(b)
    if type(a) is not type(b):
        if isinstance(a, Unit) and isinstance(b, str):
            return a.same(parse_unit(I, b))
        return False
    if isinstance(a, (str, type(None), bool, ExtV, Ref, slice, range)):
        return a == b
    return a is b or same(a, b)


def is_same(I, a, b):
    if isinstance(a, Ite) or isinstance(b, Ite):
        a = restrict(a, I.st.facts)
        b = restrict(b, I.st.facts)
        if isinstance(a, Ite) or isinstance(b, Ite):
            q = min([x.a for x in (a, b) if isinstance(x, Ite)], key=lambda z: z.id)
            return ite(Ite(q, True, False), is_same(I, cof(a, q, True), cof(b, q, True)),
                       is_same(I, cof(a, q, False), cof(b, q, False)))
    if a is UNDEF or b is UNDEF:
        I.force(UNDEF)
    if isinstance(a, Opaque) and b is None or isinstance(b, Opaque) and a is None:
        o = a if isinstance(a, Opaque) else b
        if o.name.startswith(("str:", "obj:")):
            return False
        return known(I, Ite(atom("isnone", o.key, o, "%s is None" % o.name), True, False))
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return a.key == b.key
    if isinstance(a, Opaque) and isinstance(b, (bool, str)) or isinstance(b, Opaque) and isinstance(a, (bool, str)):
        return equal_values(I, a, b)
    if type(a) is not type(b):
        return False
    if isinstance(a, (bool, type(None), int, str, Ref, ExtV)):
        return a == b
    if isinstance(a, T):
        return a is b or tm.equal(a, b)
    return a is b or (isinstance(a, BoundV) and same(a, b))


def contains(I, cont, x):
    if isinstance(cont, str):
        x = I.force(x)
        if isinstance(x, str):
            return x in cont
        raise AnalysisError("%r in str" % (x,))
    items = None
    if isinstance(cont, Ref):
        c = I.content(cont)
        if isinstance(c, Dct):
            items = list(c.d)
        elif isinstance(c, Seq):
            items = c.items
            if c.kind == "iter":       # membership consumes up to the match
                for j, y in enumerate(items):
                    if y is x or I.force(I.truth(compare(I, "==", x, y))):
                        I.put(cont, Seq("iter", items[j + 1:]))
                        return True
                I.put(cont, Seq("iter", ()))
                return False
        elif isinstance(c, Arr):
            items = I.arr(cont).el
        elif isinstance(c, Inst):
            m = I.find_method(cont, "__contains__")
            if m is not None:
                return I.truth(I.call(m, [x], {}))
            items = list(I.iterate(cont))
    elif isinstance(cont, (tuple, range)):
        items = list(cont)
    elif isinstance(cont, Opaque):
        k = ("in", _key(x), cont.key)
        return known(I, Ite(atom("opaque", k, ("in", x, cont), "%r in %r" % (x, cont)), True, False))
    if items is None:
        items = list(I.iterate(cont))
    r = False
    for y in items:
        if y is x or (isinstance(x, (PyFn, FuncV, BoundV, ClassV)) and not isinstance(y, Opaque)):
            e = (y is x)
        else:
            e = I.truth(compare(I, "==", x, y))
        r = b_or(r, e)
        if r is True:
            return True
    return r


# ------------------------------------------------------------------ arithmetic

def binop(I, op, a, b):
    ta, tb = type(a), type(b)
    if ta is bool:
        if tb is bool and op in "&|^":
            return {"&": a and b, "|": a or b, "^": a != b}[op]
        a = int(a)
    if tb is bool:
        b = int(b)
    if isinstance(a, int) and isinstance(b, int):
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if op == "/":
            if b == 0:
                I.raise_builtin("ZeroDivisionError", "division by zero")
            return T.const(Fraction(a, b))
        if op == "**":
            if b >= 0:
                return a ** b
            return T.const(Fraction(a) ** b) if a else _ip.NAN
        if op in ("//", "%"):
            if b == 0:
                I.raise_builtin("ZeroDivisionError", "division by zero")
            return a // b if op == "//" else a % b
        return {"&": a & b, "|": a | b, "^": a ^ b, "<<": a << b if b >= 0 else 0, ">>": a >> b if b >= 0 else 0}[op] \
            if op in ("&", "|", "^", "<<", ">>") else _type_err(I, op, a, b)
    if is_num(a) and is_num(b):
        return I.num(op, as_t(a), as_t(b))
    # strings / tuples / lists
    if isinstance(a, str):
        if op == "+" and isinstance(b, str):
            return a + b
        if op == "*" and isinstance(b, int):
            return a * b
        if op == "%":
            return fmt_percent(I, a, b)
        if isinstance(b, Opaque):
            return Opaque("strcat", ("strcat", op, a, b.key))
    if isinstance(b, str):
        if op == "*" and isinstance(a, int):
            return a * b
        if isinstance(a, Opaque):
            return Opaque("strcat", ("strcat", op, a.key, b))
    if isinstance(a, tuple) and isinstance(b, tuple) and op == "+":
        return a + b
    if isinstance(a, tuple) and isinstance(b, int) and op == "*":
        return a * b
    if isinstance(b, tuple) and isinstance(a, int) and op == "*":
        return a * b
    # units
    if isinstance(a, Unit) or isinstance(b, Unit):
        r = unit_op(I, op, a, b)
        if r is not NotImplemented:
            return r
    if isinstance(a, Ref) or isinstance(b, Ref):
        ca = I.content(a) if isinstance(a, Ref) else None
        cb = I.content(b) if isinstance(b, Ref) else None
        if isinstance(ca, Inst) and ("__term__" in ca.d or "__arr__" in ca.d):
            return binop2(I, op, termof(I, a), b)
        if isinstance(cb, Inst) and ("__term__" in cb.d or "__arr__" in cb.d):
            return binop2(I, op, a, termof(I, b))
        if isinstance(ca, Arr) or isinstance(cb, Arr):
            if isinstance(a, QuantV) or isinstance(b, QuantV):
                return quant_op(I, op, a, b)
            return arr_op(I, op, a, b, ca, cb)
        if isinstance(ca, Inst):
            m = I.find_method(a, "__%s__" % _ip.DUNDER[op])
            if m is not None:
                r = I.call(m, [b], {})
                if not (isinstance(r, Opaque) and r.name == "NotImplemented"):
                    return r
        if isinstance(cb, Inst):
            m = I.find_method(b, "__r%s__" % _ip.DUNDER[op])
            if m is not None:
                r = I.call(m, [a], {})
                if not (isinstance(r, Opaque) and r.name == "NotImplemented"):
                    return r
        if isinstance(ca, Seq) and isinstance(cb, Seq):
            if op == "+" and ca.kind == "list":
                return I.new_list(ca.items + cb.items)
            if ca.kind == "set":
                if op == "|":
                    return I.alloc(Seq("set", tuple(I.dedup(ca.items + cb.items))))
                if op == "&":
                    return I.alloc(Seq("set", tuple(x for x in ca.items if any(same(x, y) for y in cb.items))))
                if op in ("-", "^"):
                    r = tuple(x for x in ca.items if not any(same(x, y) for y in cb.items))
                    if op == "^":
                        r += tuple(y for y in cb.items if not any(same(x, y) for x in ca.items))
                    return I.alloc(Seq("set", r))
        if isinstance(ca, Seq) and isinstance(b, int) and op == "*":
            return I.new_list(ca.items * b)
        if isinstance(cb, Seq) and isinstance(a, int) and op == "*":
            return I.new_list(cb.items * a)
        if isinstance(ca, Dct) and isinstance(cb, Dct) and op == "|":
            return I.alloc(Dct({**ca.d, **cb.d}))
    if isinstance(a, QuantV) or isinstance(b, QuantV):
        r = quant_op(I, op, a, b)
        if r is not NotImplemented:
            return r
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return Opaque("(%r%s%r)" % (a, op, b), ("binop", op, _key(a), _key(b)))
    if a is None or b is None or isinstance(a, (str, tuple)) or isinstance(b, (str, tuple)):
        _type_err(I, op, a, b)
    _type_err(I, op, a, b)


def binop2(I, op, a, b):
    return I.binop(op, a, b)


def _type_err(I, op, a, b):
    I.raise_builtin("TypeError", "unsupported operand types for %s: %r and %r" % (op, a, b))


def fstring(parts):
    """text made of the given pieces"""
    if all(isinstance(p, str) for p in parts):
        return "".join(parts)
    return Opaque("fstring", ("fstring",) + tuple(p if isinstance(p, str) else p.key for p in parts))


def fmt_one(I, x, conv, spec):
    """x as text, converted (None, "r", "s", "a") and formatted by spec (a text or None)"""
    x = I.force(x)
    if conv in ("r", "a"):
        x = MODELS["builtins.repr"](I, [x], {})
    elif conv == "s":
        x = to_str(I, x)
    if spec not in (None, ""):
        if isinstance(x, (str, int, float)) and isinstance(spec, str):
            try:
                return format(x, spec)
            except (ValueError, TypeError) as e:
                I.raise_builtin(type(e).__name__, str(e))
        x = to_str(I, x)
        return Opaque("str", ("str", x if isinstance(x, str) else x.key, spec if isinstance(spec, str) else spec.key))
    if isinstance(x, (str, int)) and not isinstance(x, bool):
        return str(x)
    return to_str(I, x)


_PERCENT = re.compile(r"%(?:\((\w*)\))?([#0\- +]*(?:\d+|\*)?(?:\.\d+)?)([a-zA-Z%])")


def fmt_percent(I, s, b):
    b = I.force(b)
    args = list(b) if isinstance(b, tuple) else [b]
    maps = I.content(b).d if isinstance(b, Ref) and isinstance(I.content(b), Dct) else None
    parts, pos, used = [], 0, 0
    for m in _PERCENT.finditer(s):
        parts.append(s[pos:m.start()])
        pos = m.end()
        key, flags, c = m.groups()
        if c == "%":
            parts.append("%")
            continue
        if "*" in flags:
            raise AnalysisError("%% format %r" % s)
        if key is not None:
            if maps is None:
                I.raise_builtin("TypeError", "format requires a mapping")
            if key not in maps:
                I.raise_builtin("KeyError", key)
            x = maps[key]
        else:
            if used >= len(args):
                I.raise_builtin("TypeError", "not enough arguments for format string")
            x = args[used]
            used += 1
        if c in "sra" and not flags:
            parts.append(fmt_one(I, x, "s" if c == "s" else "r", None))
        elif c in "di" and not flags and isinstance(I.force(x), int):
            parts.append(str(I.force(x)))
        else:
            parts.append(fmt_one(I, x, "s" if c == "s" else None, flags + c))
    parts.append(s[pos:])
    if maps is None and used < len(args):
        I.raise_builtin("TypeError", "not all arguments converted during string formatting")
    return fstring([p for p in parts if p != ""])


def fmt_braces(I, s, a, kw):
    auto = [0]

    def field(name):
        first, rest = _string_split(name)
        if first == "":
            first = auto[0]
            auto[0] += 1
        if isinstance(first, int):
            if first >= len(a):
                I.raise_builtin("IndexError", "Replacement index %d out of range for positional args tuple" % first)
            x = a[first]
        else:
            if first not in kw:
                I.raise_builtin("KeyError", first)
            x = kw[first]
        for attr, k in rest:
            x = I.getattr_(I.force(x), k) if attr else I.getitem(I.force(x), k)
        return x

    def go(s):
        parts = []
        try:
            fields = list(string.Formatter().parse(s))
        except ValueError as e:
            I.raise_builtin("ValueError", str(e))
        for lit, name, spec, conv in fields:
            if lit:
                parts.append(lit)
            if name is not None:
                x = field(name)
                parts.append(fmt_one(I, x, conv, go(spec) if spec else None))
        return fstring(parts)
    return go(s)


def unit_op(I, op, a, b):
    if isinstance(a, Unit) and isinstance(b, Unit):
        if op == "*":
            return a * b
        if op == "/":
            return a * b.inv()
        return NotImplemented
    if isinstance(a, Unit):
        if op == "**":
            e = as_t(b).as_const()
            if e is None:
                raise AnalysisError("symbolic unit power")
            return a.pow(e)
        if op in ("*", "/") and isinstance(b, QuantV):
            return QuantV(b.value if op == "*" else I.binop("/", 1, b.value),
                          a * b.unit if op == "*" else a * b.unit.inv())
        if op == "*":
            return QuantV(b, a)
        if op == "/":
            return QuantV(I.binop("/", 1, b), a)
        return NotImplemented
    # a is value
    if isinstance(a, QuantV):
        if op == "*":
            return QuantV(a.value, a.unit * b)
        if op == "/":
            return QuantV(a.value, a.unit * b.inv())
        return NotImplemented
    if isinstance(a, Ref) and isinstance(I.content(a), Seq) or isinstance(a, tuple):
        a = np_array(I, [a], {})
    if op == "*":
        return QuantV(a, b)
    if op == "/":
        return QuantV(a, b.inv())
    return NotImplemented


def quant_op(I, op, a, b):
    if isinstance(a, Ref) and isinstance(I.content(a), Seq):
        a = np_array(I, [a], {})
    if isinstance(b, Ref) and isinstance(I.content(b), Seq):
        b = np_array(I, [b], {})
    if op in ("*", "/"):
        va, ua = (a.value, a.unit) if isinstance(a, QuantV) else (a, _u(1))
        vb, ub = (b.value, b.unit) if isinstance(b, QuantV) else (b, _u(1))
        return QuantV(I.binop(op, va, vb), ua * ub if op == "*" else ua * ub.inv())
    if op in ("+", "-"):
        if isinstance(a, QuantV) and isinstance(b, QuantV):
            return QuantV(I.binop(op, a.value, convert(I, b, a.unit)), a.unit)
        q, o = (a, b) if isinstance(a, QuantV) else (b, a)
        if is_num(o) and as_t(o).is_zero():
            return QuantV(I.binop(op, a.value if a is q else a, b.value if b is q else b), q.unit)
        if not q.unit.dims:
            v = I.binop("*", q.value, q.unit.scale)
            return QuantV(I.binop(op, v if a is q else a, v if b is q else b), _u(1))
        I.raise_exc(ExcV(ExtV("astropy.units.UnitConversionError"), ()))
    if op == "**":
        if isinstance(a, QuantV) and not isinstance(b, QuantV):
            e = as_t(b).as_const() if is_num(b) else None
            if e is None:
                raise AnalysisError("quantity power at %s" % I.loc())
            return QuantV(I.binop("**", a.value, b), a.unit.pow(e))
        if isinstance(b, QuantV):
            return I.binop("**", a, dimless(I, b))
    if op == "@":
        va, ua = (a.value, a.unit) if isinstance(a, QuantV) else (a, _u(1))
        vb, ub = (b.value, b.unit) if isinstance(b, QuantV) else (b, _u(1))
        return QuantV(I.binop(op, va, vb), ua * ub)
    if op in ("%", "//"):
        if isinstance(a, QuantV) and isinstance(b, QuantV):
            r = I.binop(op, a.value, convert(I, b, a.unit))
            return QuantV(r, a.unit) if op == "%" else QuantV(r, _u(1))
    return NotImplemented


def arr_op(I, op, a, b, ca, cb):
    lib = "sp" if (isinstance(ca, Arr) and ca.lib in ("sp", "mat")) or (isinstance(cb, Arr) and cb.lib in ("sp", "mat")) else "np"
    if op == "@" or (op == "*" and isinstance(ca, Arr) and isinstance(cb, Arr) and ca.lib == "mat" and cb.lib == "mat"):
        return matmul(I, a, b)
    if op == "**" and isinstance(ca, Arr) and ca.lib == "mat":
        n = b
        if n == -1:
            return mat_inv(I, a)
        r = a
        for _ in range(n - 1):
            r = matmul(I, r, a)
        return r
    if lib == "sp" and op == "*" and isinstance(ca, Arr) and isinstance(cb, Arr):
        I.raise_builtin("ValueError", "sympy arrays do not multiply elementwise")
    return elementwise(I, lambda x, y: I.binop(op, x, y), [a, b])


def lift_el(I, f, xs):
    return f(*xs)


def to_arr(I, v):
    """(shape, elements, lib) of array-like"""
    if isinstance(v, QuantV):
        raise AnalysisError("quantity where array expected at %s" % I.loc())
    if isinstance(v, Ref):
        c = I.content(v)
        if isinstance(c, Arr):
            a = I.arr(v)
            return a.shape, a.el, a.lib
        if isinstance(c, Seq):
            return nest(I, c.items)
        if isinstance(c, Inst):
            t = termof(I, v)
            if t is not v:
                return to_arr(I, t)
            if I.find_method(v, "__array__") is None and I.class_lookup(c.cls, "__len__") is not None \
                    and I.class_lookup(c.cls, "__getitem__") is not None:
                return nest(I, tuple(I.iterate(v)))
    if isinstance(v, (tuple, range)):
        return nest(I, tuple(v))
    return (), (v,), None


def nest(I, items):
    if not items:
        return (0,), (), None
    subs = [to_arr(I, I.force(x) if isinstance(x, Ite) and not num_leaves(x) else x) for x in items]
    s0 = subs[0][0]
    if any(s[0] != s0 for s in subs):
        # ragged
        I.raise_builtin("ValueError", "inhomogeneous shape")
    el = []
    for s in subs:
        el.extend(s[1])
    return (len(items),) + s0, tuple(el), subs[0][2]


def bshape(I, shapes):
    n = max(len(s) for s in shapes)
    out = []
    for i in range(n):
        d = 1
        for s in shapes:
            j = i - (n - len(s))
            if j >= 0 and s[j] != 1:
                if d != 1 and d != s[j]:
                    I.raise_builtin("ValueError", "operands could not be broadcast %s" % (shapes,))
                d = s[j]
        if any((i - (n - len(s))) >= 0 and s[i - (n - len(s))] == 0 for s in shapes):
            d = 0
        out.append(d)
    return tuple(out)


def strides(shape):
    st = []
    k = 1
    for d in reversed(shape):
        st.append(k)
        k *= d
    return tuple(reversed(st))


def bindex(shape, out):
    """list of flat indices into shape for each position of out"""
    n = len(out)
    st = strides(shape)
    res = []
    off = n - len(shape)
    for idx in itertools.product(*[range(d) for d in out]):
        f = 0
        for j, d in enumerate(shape):
            if d != 1:
                f += idx[off + j] * st[j]
        res.append(f)
    return res


def elementwise(I, f, args, lib=None):
    """apply scalar function over broadcast array arguments; scalars stay scalars"""
    parts = [to_arr(I, a) if not (isinstance(a, Ite) and num_leaves(a)) else ((), (a,), None) for a in args]
    shapes = [p[0] for p in parts]
    if all(s == () for s in shapes):
        return f(*[p[1][0] for p in parts])
    out = bshape(I, shapes)
    idx = [bindex(s, out) for s in shapes]
    n = 1
    for d in out:
        n *= d
    el = []
    for k in range(n):
        el.append(f(*[p[1][ix[k]] for p, ix in zip(parts, idx)]))
    if lib is None and all(type(x) is int for x in el) and all(
            type(a) is int or isinstance(a, Ref) and isinstance(I.content(a), Arr) and I.arr(a).dtype == "int" for a in args):
        return I.new_arr(out, el, "np", "int")
    if lib is None:
        lib = next((p[2] for p in parts if p[2]), "np") or "np"
        if any(p[2] == "sp" for p in parts):
            lib = "sp"
    return I.new_arr(out, el, lib)


def ufunc1(I, name, f, v):
    """unary numpy/sympy/math function"""
    if isinstance(v, QuantV):
        raise AnalysisError("ufunc on quantity")

    def g(x):
        if isinstance(x, Ite):
            return I.lift1(g, x)
        if isinstance(x, bool):
            x = int(x)
        if isinstance(x, int):
            x = T.const(x)
        if isinstance(x, T):
            try:
                return f(x)
            except ZeroDivisionError:
                return _ip.NAN
        if isinstance(x, Ref):
            t = termof(I, x)
            if t is not x:
                return g(t)
            m = I.find_method(x, name)
            if m is not None:
                return I.call(m, [], {})
            I.raise_builtin("TypeError", "no method %s for ufunc" % name)
        if isinstance(x, Opaque):
            return Opaque("%s(%s)" % (name, x.name), (name, x.key))
        if isinstance(x, QuantV):
            return g(dimless(I, x))
        I.raise_builtin("TypeError", "ufunc %s on %r" % (name, x))
    return elementwise(I, g, [v])


def matmul(I, a, b):
    sa, ea, la = to_arr(I, a)
    sb, eb, lb = to_arr(I, b)
    if not sa or not sb:
        I.raise_builtin("ValueError", "matmul of scalars")
    lib = la or lb or "np"
    if len(sa) == 1 and len(sb) == 1:
        if sa != sb:
            I.raise_builtin("ValueError", "matmul shape mismatch")
        return dotsum(I, ea, eb)
    a2 = sa if len(sa) > 1 else (1,) + sa
    b2 = sb if len(sb) > 1 else sb + (1,)
    if a2[-1] != b2[-2]:
        I.raise_builtin("ValueError", "matmul shape mismatch %s %s" % (sa, sb))
    batch = bshape(I, [a2[:-2] or (1,), b2[:-2] or (1,)]) if (len(a2) > 2 or len(b2) > 2) else ()
    n, k, m = a2[-2], a2[-1], b2[-1]
    out = []
    ia = bindex(a2[:-2], batch) if batch else [0]
    ib = bindex(b2[:-2], batch) if batch else [0]
    for p, q in zip(ia, ib):
        oa, ob = p * n * k, q * k * m
        for i in range(n):
            for j in range(m):
                out.append(dotsum(I, [ea[oa + i * k + x] for x in range(k)], [eb[ob + x * m + j] for x in range(k)]))
    shape = tuple(batch) + ((n,) if len(sa) > 1 else ()) + ((m,) if len(sb) > 1 else ())
    return I.new_arr(shape, out, lib)


def dotsum(I, xs, ys):
    r = None
    for x, y in zip(xs, ys):
        if is_num(x) and as_t(x).is_zero() and num_leaves(y) or is_num(y) and as_t(y).is_zero() and num_leaves(x):
            continue
        p = I.binop("*", x, y)
        r = p if r is None else I.binop("+", r, p)
    return tm.ZERO if r is None else r


def np_dot(I, a, b):
    sa, ea, la = to_arr(I, a)
    sb, eb, lb = to_arr(I, b)
    if not sa or not sb:
        return I.binop("*", a, b)
    if len(sb) <= 2 and len(sa) <= 2 or len(sb) == 1:
        if len(sb) == 1 and len(sa) > 2:
            k = sa[-1]
            n = len(ea) // k
            return I.new_arr(sa[:-1], [dotsum(I, ea[i * k:(i + 1) * k], eb) for i in range(n)])
        return matmul(I, a, b)
    return tensordot(I, a, b, (len(sa) - 1,), (len(sb) - 2,))


def tensordot(I, a, b, ax, bx):
    sa, ea, la = to_arr(I, a)
    sb, eb, lb = to_arr(I, b)
    ax = [x % len(sa) for x in ax]
    bx = [x % len(sb) for x in bx]
    fa = [i for i in range(len(sa)) if i not in ax]
    fb = [i for i in range(len(sb)) if i not in bx]
    st_a, st_b = strides(sa), strides(sb)
    out = []
    shape = [sa[i] for i in fa] + [sb[i] for i in fb]
    for ia in itertools.product(*[range(sa[i]) for i in fa]):
        for ib in itertools.product(*[range(sb[i]) for i in fb]):
            xs, ys = [], []
            for c in itertools.product(*[range(sa[i]) for i in ax]):
                p = sum(i * st_a[k] for i, k in zip(ia, fa)) + sum(i * st_a[k] for i, k in zip(c, ax))
                q = sum(i * st_b[k] for i, k in zip(ib, fb)) + sum(i * st_b[k] for i, k in zip(c, bx))
                xs.append(ea[p])
                ys.append(eb[q])
            out.append(dotsum(I, xs, ys))
    if not shape:
        return out[0]
    return I.new_arr(shape, out, la or "np")


def einsum(I, args):
    sub = args[0].replace(" ", "")
    ops = [to_arr(I, a) for a in args[1:]]
    if "->" in sub:
        ins, out = sub.split("->")
    else:
        ins = sub
        letters = [c for c in ins if c != ","]
        out = "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
    ins = ins.split(",")
    if "..." in sub:
        raise AnalysisError("einsum ellipsis")
    dim = {}
    for s, o in zip(ins, ops):
        if len(s) != len(o[0]):
            I.raise_builtin("ValueError", "einsum operand rank")
        for c, d in zip(s, o[0]):
            if dim.setdefault(c, d) != d:
                I.raise_builtin("ValueError", "einsum dims")
    summ = [c for c in dim if c not in out]
    res = []
    for oi in itertools.product(*[range(dim[c]) for c in out]):
        env = dict(zip(out, oi))
        acc = None
        for si in itertools.product(*[range(dim[c]) for c in summ]):
            env.update(zip(summ, si))
            p = None
            zero = False
            for s, o in zip(ins, ops):
                f = 0
                for c, d in zip(s, o[0]):
                    f = f * d + env[c]
                x = o[1][f]
                if is_num(x) and as_t(x).is_zero():
                    zero = True
                    break
                p = x if p is None else I.binop("*", p, x)
            if zero:
                continue
            acc = p if acc is None else I.binop("+", acc, p)
        res.append(tm.ZERO if acc is None else acc)
    if not out:
        return res[0]
    return I.new_arr([dim[c] for c in out], res)


# ------------------------------------------------------------------ linear algebra

def _rows(I, v):
    s, e, lib = to_arr(I, v)
    if len(s) != 2:
        raise AnalysisError("matrix expected at %s" % I.loc())
    return s, [list(e[i * s[1]:(i + 1) * s[1]]) for i in range(s[0])], lib


INV_TABLE = {}      # key of matrix -> list of atoms, for opaque inverses


def mat_inv_terms(I, rows):
    """exact inverse of a matrix of terms via block structure + adjugate"""
    n = len(rows)
    rows = [[as_t(x) for x in r] for r in rows]
    # connected components (block diagonal up to permutation)
    comp = list(range(n))

    def find(i):
        while comp[i] != i:
            i = comp[i]
        return i
    for i in range(n):
        for j in range(n):
            if i != j and not rows[i][j].is_zero():
                a, b = find(i), find(j)
                comp[max(a, b)] = min(a, b)
    out = [[tm.ZERO] * n for _ in range(n)]
    groups = {}
    for i in range(n):
        groups.setdefault(find(i), []).append(i)
    for g in groups.values():
        sub = [[rows[i][j] for j in g] for i in g]
        if len(g) > 2 and getattr(I, "opaque_inverse", True):
            inv = opaque_inv(I, sub)
        else:
            d = det(sub)
            if d.is_zero():
                I.raise_exc(ExcV(ExtV("numpy.linalg.LinAlgError"), ("singular",)))
            di = tm.inv(d)
            m = len(g)
            inv = [[None] * m for _ in range(m)]
            for i in range(m):
                for j in range(m):
                    minor = [[sub[r][c] for c in range(m) if c != i] for r in range(m) if r != j]
                    x = det(minor) if minor else tm.ONE
                    inv[i][j] = x * di * ((-1) ** (i + j))
        for i, gi in enumerate(g):
            for j, gj in enumerate(g):
                out[gi][gj] = inv[i][j]
    return out


def det(m):
    n = len(m)
    if n == 0:
        return tm.ONE
    if n == 1:
        return m[0][0]
    if n == 2:
        return m[0][0] * m[1][1] - m[0][1] * m[1][0]
    r = tm.ZERO
    for j in range(n):
        if m[0][j].is_zero():
            continue
        r = r + m[0][j] * det([row[:j] + row[j + 1:] for row in m[1:]]) * ((-1) ** j)
    return r


_INVID = {}
_INVINFO = {}


def opaque_inv(I, sub):
    """inverse represented by fresh atoms inv(M)[i,j], with the derivative rule
    d(M^-1) = -M^-1 dM M^-1; symmetric if M is symmetric"""
    n = len(sub)
    key = tuple(x.key() for r in sub for x in r)
    if key not in _INVID:
        _INVID[key] = len(_INVID)
        symm = all(sub[i][j] == sub[j][i] for i in range(n) for j in range(i))
        _INVINFO[_INVID[key]] = (sub, symm)
    k = _INVID[key]
    sub, symm = _INVINFO[k]
    out = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            a, b = (i, j) if (not symm or i <= j) else (j, i)
            out[i][j] = tm.func("inv", (T.const(k), T.const(a), T.const(b)))
    return out


def _inv_deriv(g, v):
    if g.kind != "fn" or g.data[0] != "inv":
        return None
    k, i, j = [int(a.as_const()) for a in g.data[1]]
    sub, symm = _INVINFO[k]
    n = len(sub)

    def at(a, b):
        if symm and a > b:
            a, b = b, a
        return tm.func("inv", (T.const(k), T.const(a), T.const(b)))
    r = tm.ZERO
    for a in range(n):
        for b in range(n):
            d = tm.diffg(sub[a][b], v)
            if d.n:
                r = r - at(i, a) * d * at(b, j)
    return r


tm.DERIV_HOOKS.append(_inv_deriv)


def mat_inv(I, v):
    s, rows, lib = _rows(I, v)
    if s[0] != s[1]:
        I.raise_builtin("ValueError", "non-square")
    if any(isinstance(x, Ite) for r in rows for x in r):
        for r in rows:
            for x in r:
                if isinstance(x, Ite):
                    I.force(x)
    out = mat_inv_terms(I, rows)
    return I.new_arr(s, [x for r in out for x in r], lib or "np")


# ------------------------------------------------------------------ indexing

def norm_index(I, shape, k):
    """returns (out_shape, flat indices, is_scalar)"""
    if not isinstance(k, tuple):
        k = (k,)
    k = list(k)
    n_real = sum(1 for x in k if x is not None and x is not Ellipsis)
    if Ellipsis in [x for x in k if x is Ellipsis]:
        i = next(j for j, x in enumerate(k) if x is Ellipsis)
        k[i:i + 1] = [slice(None)] * (len(shape) - n_real)
    else:
        k += [slice(None)] * (len(shape) - n_real)
    if len([x for x in k if x is not None]) > len(shape):
        I.raise_builtin("IndexError", "too many indices")
    dims = []      # list of (list of indices) or int or newaxis
    ax = 0
    fancy = []
    for x in k:
        if x is None:
            dims.append(("new",))
            continue
        d = shape[ax]
        if isinstance(x, bool):
            raise AnalysisError("boolean index at %s" % I.loc())
        if isinstance(x, int):
            if not -d <= x < d:
                I.raise_builtin("IndexError", "index %d out of bounds for axis of size %d" % (x, d))
            dims.append(("int", ax, x % d))
        elif isinstance(x, slice):
            if any(isinstance(y, (T, Opaque)) for y in (x.start, x.stop, x.step)):
                raise AnalysisError("symbolic slice at %s" % I.loc())
            dims.append(("rng", ax, list(range(*x.indices(d)))))
        elif isinstance(x, (Ref, tuple, range)):
            s, e, lib = to_arr(I, x)
            e = [as_index(I, y) for y in e]
            if e and all(isinstance(y, bool) for y in e):
                e = [i for i, y in enumerate(e) if y]
                s = (len(e),)
            if not all(isinstance(y, int) for y in e):
                raise AnalysisError("symbolic fancy index at %s" % I.loc())
            fancy.append((len(dims), ax, s, [y % d for y in e]))
            dims.append(("fancy", ax, [y % d for y in e], s))
        else:
            raise AnalysisError("symbolic index %r at %s" % (x, I.loc()))
        ax += 1
    st = strides(shape)
    if len(fancy) > 1 or fancy and any(d[0] == "int" for d in dims):
        # integers take part in the broadcast of the index arrays
        adv = [i for i, d in enumerate(dims) if d[0] in ("fancy", "int")]
        shp = {i: dims[i][3] if dims[i][0] == "fancy" else () for i in adv}
        val = {i: dims[i][2] if dims[i][0] == "fancy" else [dims[i][2]] for i in adv}
        bs = tuple(bshape(I, [shp[i] for i in adv]))
        lists = {i: [val[i][q] for q in bindex(shp[i], bs)] for i in adv}
        cnt = 1
        for d in bs:
            cnt *= d
        adjacent = adv == list(range(adv[0], adv[-1] + 1))
        before = []
        after = []
        for i, d in enumerate(dims):
            if i not in shp:
                (before if adjacent and i < adv[0] else after).append(d)
        size = lambda d: 1 if d[0] == "new" else len(d[2])
        oshape = [size(d) for d in before] + list(bs) + [size(d) for d in after]
        offs = [0]
        for d in before + [None] + after:
            if d is None:
                offs = [o + sum(lists[i][c] * st[dims[i][1]] for i in adv) for o in offs for c in range(cnt)]
            elif d[0] != "new":
                offs = [o + q * st[d[1]] for o in offs for q in d[2]]
        return tuple(oshape), offs, False
    oshape = []
    offs = [0]
    for d in dims:
        if d[0] == "new":
            oshape.append(1)
        elif d[0] == "int":
            offs = [o + d[2] * st[d[1]] for o in offs]
        elif d[0] == "rng":
            oshape.append(len(d[2]))
            offs = [o + i * st[d[1]] for o in offs for i in d[2]]
        else:
            oshape.extend(d[3])
            offs = [o + i * st[d[1]] for o in offs for i in d[2]]
    scalar = all(d[0] == "int" for d in dims)
    return tuple(oshape), offs, scalar


def basic(k):
    ks = k if isinstance(k, tuple) else (k,)
    return not any(isinstance(x, (Ref, tuple, range)) for x in ks)


def getitem(I, o, k):
    if isinstance(k, slice) is False and isinstance(k, Ite):
        k = I.force(k)
    if isinstance(o, (str, tuple, range)):
        if isinstance(k, slice):
            return o[k]
        if isinstance(k, int):
            try:
                return o[k]
            except IndexError:
                I.raise_builtin("IndexError", "index out of range")
        if isinstance(k, T):
            raise AnalysisError("symbolic index at %s" % I.loc())
        I.raise_builtin("TypeError", "indices must be integers, got %r" % (k,))
    if isinstance(o, QuantV):
        return QuantV(getitem(I, o.value, k), o.unit)
    if isinstance(o, Ref):
        c = I.content(o)
        if isinstance(c, Seq):
            if c.kind in ("iter", "set"):
                I.raise_builtin("TypeError", "'%s' object is not subscriptable" % c.kind)
            if isinstance(k, slice):
                return I.new_list(c.items[k])
            if isinstance(k, (Ref,)) and isinstance(I.content(k), Inst):
                t = termof(I, k)
                k = as_index(I, t)
            if isinstance(k, bool):
                k = int(k)
            if not isinstance(k, int):
                if isinstance(k, (T, Opaque)):
                    raise AnalysisError("symbolic list index at %s" % I.loc())
                I.raise_builtin("TypeError", "list indices must be integers")
            if not -len(c.items) <= k < len(c.items):
                I.raise_builtin("IndexError", "list index out of range")
            return c.items[k]
        if isinstance(c, Dct):
            kk = I.hkey(k)
            if isinstance(kk, Opaque):
                # gated lookup over the concrete keys
                res = None
                for x in c.d:
                    e = I.truth(compare(I, "==", kk, x))
                    if isinstance(e, Ite):
                        raise SplitNeeded(e.a)
                    if e is True:
                        return c.d[x]
                I.raise_builtin("KeyError", kk)
            if kk in c.d:
                v = c.d[kk]
                return v
            for x in c.d:
                if same(x, kk):
                    return c.d[x]
            if c.default is not None:
                v = I.call(c.default, [], {})
                d = dict(I.content(o).d)
                d[kk] = v
                I.put(o, Dct(d, c.default))
                return v
            I.raise_builtin("KeyError", kk)
        if isinstance(c, Arr):
            a = I.arr(o)
            if isinstance(k, Ref) and a.lib == "np" and isinstance(I.content(k), Seq):
                pass
            if isinstance(k, Ref) and a.lib != "np":
                k = tuple(I.iterate(k))
            ks = k if isinstance(k, tuple) else (k,)
            if any(isinstance(x, bool) for x in ks):
                ks = tuple(int(x) if isinstance(x, bool) else x for x in ks)
                k = ks
            if a.lib == "sp" and isinstance(k, int) and len(a.shape) == 0:
                return a.el[0]
            if a.lib == "mat" and isinstance(k, int):
                return a.el[k]
            if a.shape == () and k == ():
                return a.el[0]
            # boolean mask
            if isinstance(k, Ref):
                s, e, _ = to_arr(I, k)
                if e and all(isinstance(x, (bool, Ite)) for x in e) and s == a.shape:
                    out = []
                    for m, x in zip(e, a.el):
                        m = I.force(m)
                        if m:
                            out.append(x)
                    return I.new_arr((len(out),), out)
            sh, idx, scalar = norm_index(I, a.shape, k)
            if scalar:
                return a.el[idx[0]]
            if a.lib == "np" and basic(k):
                base = c.view if c.view is not None else (o.id, None)
                bi = tuple(base[1][i] for i in idx) if base[1] is not None else tuple(idx)
                return I.alloc(Arr(sh, None, "np", c.dtype, (base[0], bi)))
            return I.new_arr(sh, [a.el[i] for i in idx], a.lib)
        if isinstance(c, Inst):
            m = I.find_method(o, "__getitem__")
            if m is not None:
                return I.call(m, [k], {})
            t = termof(I, o)
            if t is not o:
                return getitem(I, t, k)
    if isinstance(o, Opaque):
        return Opaque("%s[%s]" % (o.name, k), ("item", o.key, _key(k)))
    if isinstance(o, ClassV):
        mem = I.class_lookup(o, "__enum_members__")
        if mem is not None:
            for m in mem[0]:
                if I.content(m).d["name"] == k:
                    return m
            I.raise_builtin("KeyError", str(k))
    if isinstance(o, (ExtV, ClassV)):
        return o      # generic alias
    I.raise_builtin("TypeError", "object is not subscriptable: %r" % (o,))


def setitem(I, o, k, v):
    if isinstance(o, QuantV):
        if isinstance(v, QuantV):
            v = convert(I, v, o.unit)
        return setitem(I, o.value, k, v)
    if isinstance(o, Ref):
        c = I.content(o)
        if isinstance(c, Seq):
            items = list(c.items)
            if isinstance(k, slice):
                items[k] = list(I.iterate(v))
            else:
                if not isinstance(k, int):
                    raise AnalysisError("symbolic list store at %s" % I.loc())
                if not -len(items) <= k < len(items):
                    I.raise_builtin("IndexError", "list assignment index out of range")
                items[k] = v
            I.put(o, Seq(c.kind, tuple(items)))
            I.write_loc[(o.id, k if isinstance(k, int) else None)] = I.loc()
            return
        if isinstance(c, Dct):
            d = dict(c.d)
            d[I.hkey(k)] = v
            I.put(o, Dct(d, c.default))
            I.write_loc[(o.id, None)] = I.loc()
            return
        if isinstance(c, Arr):
            a = I.arr(o)
            if a.lib == "sp" and getattr(c, "dtype", None) != "mutable":
                I.raise_builtin("TypeError", "immutable array")
            if isinstance(k, Ref):
                s, e, _ = to_arr(I, k)
                if e and all(isinstance(x, (bool, Ite)) for x in e) and s == a.shape:
                    vs = to_arr(I, v)
                    if vs[0] not in ((), (1,)):
                        raise AnalysisError("masked array store at %s" % I.loc())
                    I.set_els(o, [(i, ite(m, vs[1][0], x)) for i, (m, x) in enumerate(zip(e, a.el))])
                    return
            sh, idx, scalar = norm_index(I, a.shape, k)
            if scalar:
                if isinstance(v, QuantV):
                    if v.unit.dims:
                        I.raise_builtin("TypeError", "only dimensionless scalar quantities can be converted")
                    v = dimless(I, v)
                if is_arr(I, v):
                    av = I.arr(v)
                    if len(av.el) == 1:
                        v = av.el[0]
                    else:
                        I.raise_builtin("ValueError", "setting an array element with a sequence")
                v = cast(I, v, a.dtype)
                I.set_el(o, idx[0], v)
                return
            if isinstance(v, QuantV):
                v = dimless(I, v)
            vs, ve, _ = to_arr(I, v) if not (isinstance(v, Ite) and num_leaves(v)) else ((), (v,), None)
            while len(vs) > len(sh) and vs[0] == 1:
                vs = vs[1:]
            if bshape(I, [vs, sh]) != tuple(sh):
                I.raise_builtin("ValueError", "could not broadcast %s into %s" % (vs, sh))
            bi = bindex(vs, sh)
            if a.dtype in ("int", "f32"):
                ve = [cast(I, x, a.dtype) for x in ve]
            I.set_els(o, [(i, ve[j]) for i, j in zip(idx, bi)])
            return
        if isinstance(c, Inst):
            m = I.find_method(o, "__setitem__")
            if m is not None:
                I.call(m, [k, v], {})
                return
    if isinstance(o, Opaque):
        I.event("opaque-setitem", (o, k, v))
        return
    I.raise_builtin("TypeError", "object does not support item assignment: %r" % (o,))


def iterate(I, v):
    v = I.force(v)
    if isinstance(v, (tuple, range, str)):
        return list(v)
    if isinstance(v, QuantV):
        return [QuantV(x, v.unit) for x in iterate(I, v.value)]
    if isinstance(v, Ref):
        c = I.content(v)
        if isinstance(c, Seq):
            if c.kind == "iter" and c.items:
                I.put(v, Seq("iter", ()))
            return list(c.items)
        if isinstance(c, Dct):
            return list(c.d)
        if isinstance(c, Arr):
            a = I.arr(v)
            if not a.shape:
                if a.lib == "sp":
                    return list(a.el)
                I.raise_builtin("TypeError", "iteration over a 0-d array")
            if a.lib == "mat":
                return list(a.el)
            if len(a.shape) == 1:
                return list(a.el)
            return [getitem(I, v, i) for i in range(a.shape[0])]
        if isinstance(c, Inst):
            m = I.find_method(v, "__iter__")
            if m is not None:
                return iterate(I, I.call(m, [], {}))
            g = I.find_method(v, "__getitem__")
            if g is not None:
                ln = I.find_method(v, "__len__")
                if ln is not None:
                    n = I.force(I.call(ln, [], {}))
                    return [I.call(g, [i], {}) for i in range(n)]
                # old-style sequence protocol: stop at IndexError
                out = []
                for i in range(64):
                    n0 = len(I.ctx.abrupt)
                    snap = I.st.copy()
                    try:
                        out.append(I.call(g, [i], {}))
                    except _ip.Dead:
                        new = I.ctx.abrupt[n0:]
                        if len(new) == 1 and new[0][0] == "raise" and I.subclass(new[0][2].cls, ExtV("builtins.IndexError")):
                            del I.ctx.abrupt[n0:]
                            I.st = new[0][1]
                            return out
                        raise
                raise AnalysisError("unbounded sequence iteration at %s" % I.loc())
            t = termof(I, v)
            if t is not v:
                return iterate(I, t)
    if isinstance(v, Opaque):
        raise AnalysisError("iteration over unknown value %r at %s" % (v, I.loc()))
    if isinstance(v, ClassV):
        mem = I.class_lookup(v, "__enum_members__")
        if mem is not None:
            return list(mem[0])
    I.raise_builtin("TypeError", "object is not iterable: %r" % (v,))


# ------------------------------------------------------------------ instances / attributes

def alloc_instance(I, cls, args, kw):
    for b in cls.mro:
        if isinstance(b, ExtV):
            if b.path == "sympy.Symbol":
                nm = I.force(args[0])
                pos = kw.get("positive") is True
                return I.alloc(Inst(cls, {"__term__": tm.sym(nm, pos), "name": nm}))
            if b.path in ("sympy.ImmutableDenseNDimArray", "sympy.MutableDenseNDimArray"):
                sh = I.force(args[1] if len(args) > 1 else kw.get("shape"))
                arr = sp_array(I, [args[0]] if sh is None else [args[0], sh], {})
                return I.alloc(Inst(cls, {"__arr__": arr}))
    return I.alloc(Inst(cls, {}))


def super_ext(I, cls, name, obj, objcls):
    h = I.hooks.get("%s.%s" % (cls.path, name))
    if h is not None:           # a check supplies the behaviour of a library base class method
        return PyFn(lambda J, a, k: h(J, obj, list(a), dict(k)), "super." + name)
    if name == "__new__":
        def f(J, a, k):
            return alloc_instance(J, a[0], a[1:], k)
        return PyFn(f, "ext.__new__")
    if name == "__init__":
        def g(J, a, k):
            if isinstance(obj, Ref):
                c = J.content(obj)
                if is_exception_path(cls.path):
                    J.put(obj, c.with_("args", tuple(a)))
            return None
        return PyFn(g, "ext.__init__")
    if name == "__setattr__":
        return PyFn(lambda J, a, k: J._raw_setattr(obj, a[0], a[1]), "object.__setattr__")
    if name in ("__str__", "__repr__"):
        def h(J, a, k):
            c = J.content(obj)
            ar = c.d.get("args", ())
            return to_str(J, J.force(ar[0])) if len(ar) == 1 else Opaque("str")
        return PyFn(h, "ext.__str__")
    if isinstance(obj, Ref):
        t = termof(I, obj)
        if t is not obj:
            return I.getattr_(t, name)
    return Opaque("%s.%s" % (cls.path, name))


def inst_attr(I, ref, c, name):
    t = c.d.get("__term__")
    if t is None:
        t = c.d.get("__arr__")
    if t is not None:
        return value_attr(I, t, name, NotImplemented) if not isinstance(t, Ref) else arr_attr(I, t, name)
    if name == "__doc__":
        return None
    if name == "args" and isinstance(c.cls, ClassV):
        return c.d.get("args", NotImplemented)
    return NotImplemented


def arr_attr(I, v, name):
    a = I.arr(v)
    if name == "shape":
        return a.shape
    if name == "ndim":
        return len(a.shape)
    if name == "size":
        return len(a.el)
    if name == "T":
        return transpose(I, v, None)
    if name == "dtype":
        return Opaque("dtype:%s" % a.dtype)
    if name == "real":
        return v
    if name == "flat":
        return I.new_list(a.el)
    if name == "free_symbols":
        return free_symbols(I, a.el)
    if name == "is_symmetric":
        return Method(v, name)
    if name == "rows":
        return a.shape[0]
    if name == "cols":
        return a.shape[1]
    if name == "base":
        return None
    if name in ARR_METHODS or name in ("rank",):
        return Method(v, name)
    return None if False else NotImplemented


def free_symbols(I, els):
    out = {}
    for x in els:
        x = I.force(x) if isinstance(x, Ite) else x
        x = termof(I, x)
        if isinstance(x, T):
            for g in tm.deep_gens(x).values():
                if g.kind == "sym" and g.name not in ("pi", "E"):
                    out[g.id] = tm.gen_term(g)
    return I.alloc(Seq("set", tuple(out[i] for i in sorted(out))))


def value_attr(I, v, name, default=NotImplemented):
    if isinstance(v, Ref):
        c = I.content(v)
        if isinstance(c, Arr):
            r = arr_attr(I, v, name)
            if r is not NotImplemented:
                return r
            if default is not NotImplemented:
                return default
            I.raise_builtin("AttributeError", "array has no attribute %s" % name)
        if isinstance(c, Seq) and c.kind == "iter":
            if name in ("__next__", "__iter__", "close"):
                return Method(v, name)
            if default is not NotImplemented:
                return default
            I.raise_builtin("AttributeError", "iterator has no attribute %s" % name)
        if isinstance(c, Seq):
            if name in ("append", "extend", "insert", "remove", "pop", "sort", "index", "count", "reverse", "copy",
                        "clear", "add", "update", "union", "intersection", "difference", "discard", "issubset", "isdisjoint", "symmetric_difference",
                        "issuperset", "__len__", "__iter__", "__contains__", "__getitem__", "__class__"):
                return Method(v, name)
            if default is not NotImplemented:
                return default
            I.raise_builtin("AttributeError", "%s has no attribute %s" % (c.kind, name))
        if isinstance(c, Dct):
            return Method(v, name)
        if isinstance(c, Frame):
            raise AnalysisError("frame attr")
    if isinstance(v, QuantV):
        if name == "value":
            return v.value
        if name == "unit":
            return v.unit
        if name == "si":
            f = v.unit.scale
            return QuantV(v.value if f == tm.ONE else I.binop("*", v.value, f), Unit(tm.ONE, v.unit.dims))
        if name == "cgs":
            raise AnalysisError("cgs")
        if name in ("shape", "ndim", "size"):
            if is_arr(I, v.value):
                return arr_attr(I, v.value, name)
            return {"shape": (), "ndim": 0, "size": 1}[name]
        if name == "T":
            return QuantV(I.getattr_(v.value, "T"), v.unit)
        if name == "isscalar":
            return not is_arr(I, v.value)
        if name in ("uncertainty", "name", "abbrev", "reference"):
            return Opaque("const." + name)
        if name in ("to", "to_value", "decompose", "copy", "dot", "sum", "__class__", "reshape", "ravel", "flatten",
                    "is_equivalent", "astype", "item", "max", "min", "tolist", "__add__", "__mul__"):
            return Method(v, name)
        if default is not NotImplemented:
            return default
        I.raise_builtin("AttributeError", "Quantity has no attribute %s" % name)
    if isinstance(v, Unit):
        if name in ("is_equivalent", "to", "decompose", "to_string", "in_units", "get_converter"):
            return Method(v, name)
        if name == "si":
            return Unit(tm.ONE, v.dims) if v.scale == tm.ONE else v
        if name == "physical_type":
            return Opaque("ptype", ("ptype", tuple(sorted(v.dims.items()))))
        if name == "scale":
            return v.scale
        if default is not NotImplemented:
            return default
        return Opaque("unit." + name)
    if isinstance(v, (T, int)) and not isinstance(v, bool):
        return num_attr(I, v, name, default)
    if isinstance(v, bool):
        return Method(v, name)
    if isinstance(v, str):
        if hasattr(str, name):
            return Method(v, name)
        if default is not NotImplemented:
            return default
        I.raise_builtin("AttributeError", "str has no attribute %s" % name)
    if isinstance(v, tuple):
        if hasattr(tuple, name):
            return Method(v, name)
        if default is not NotImplemented:
            return default
        I.raise_builtin("AttributeError", "tuple has no attribute %s" % name)
    if isinstance(v, (FuncV, BoundV, PyFn, WrapV)):
        f = v
        while isinstance(f, (BoundV, WrapV)):
            if isinstance(f, WrapV) and f.kind == "property" and name in ("setter", "getter", "deleter"):
                return Method(f, name)
            if isinstance(f, BoundV) and name == "__self__":
                return f.self
            f = f.func
        if name in ("__name__", "__qualname__"):
            return f.node.name if isinstance(f, FuncV) and hasattr(f.node, "name") else getattr(f, "name", "<lambda>")
        if name in ("__doc__", "__wrapped__", "__module__", "__dict__", "__defaults__"):
            return Opaque("fn." + name)
        if name in ("cache_clear", "cache_info", "py_func"):
            return PyFn(lambda J, a, k: None, name) if name != "py_func" else f
        if default is not NotImplemented:
            return default
        I.raise_builtin("AttributeError", "function has no attribute %s" % name)
    if isinstance(v, ExtV):
        return ext_attr(v, name)
    if isinstance(v, ExcV):
        if v.inst is not None:
            return I.getattr_(v.inst, name)
        if name == "args":
            return v.args
        return Opaque("exc." + name)
    if isinstance(v, Opaque):
        if v.name.startswith("str:") and hasattr(str, name):
            return Method(v, name)
        return Opaque("%s.%s" % (v.name, name), ("attr", v.key, name))
    if isinstance(v, range):
        return Method(v, name)
    if isinstance(v, slice):
        return getattr(v, name)
    if default is not NotImplemented:
        return default
    if v is None:
        I.raise_builtin("AttributeError", "NoneType has no attribute %s" % name)
    raise AnalysisError("attribute %s of %r at %s" % (name, v, I.loc()))


NUMPY_ONLY = {"shape", "ndim", "size", "T", "tolist", "reshape", "dtype", "dot", "transpose", "astype", "item", "sum",
              "real", "imag"}
SYMPY_ATTRS = {"is_Function", "is_Symbol", "is_number", "is_Number", "is_positive", "is_real", "is_zero", "is_Add",
               "is_Mul", "is_Pow"}
NUM_METHODS = {"subs", "diff", "simplify", "expand", "factor", "doit", "evalf", "n", "xreplace", "replace", "has",
               "atoms", "equals", "item", "conjugate", "sqrt", "trigsimp", "cancel", "together", "is_integer", "copy",
               "limit", "series", "coeff", "as_numer_denom", "collect", "rewrite", "radsimp", "powsimp", "ratsimp",
               "nsimplify", "__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__truediv__",
               "__rtruediv__", "__pow__", "__neg__", "integrate", "bit_length", "as_integer_ratio", "__float__",
               "__eq__", "__ne__", "__lt__", "__gt__", "round", "astype", "tolist", "sum", "dot", "transpose", "reshape"}


def num_attr(I, v, name, default):
    t = as_t(v)
    if I.structural_eq and isinstance(v, T) and name in NUMPY_ONLY:
        if default is not NotImplemented:
            return default
        I.raise_builtin("AttributeError", "expression has no attribute %s" % name)
    if name == "free_symbols":
        return free_symbols(I, [t])
    if name in ("real",):
        return v
    if name == "imag":
        return 0
    if name == "T":
        return v
    if name == "shape":
        if isinstance(v, T):
            return ()
    if name in ("ndim",) and isinstance(v, T):
        return 0
    if name == "size" and isinstance(v, T):
        return 1
    if name == "name":
        g = tm.is_gen(t)
        if g is not None:
            return g.name if g.kind == "sym" else g.data[0] if g.kind in ("fn",) else g.name
    if name == "dtype":
        return Opaque("dtype")
    if name in SYMPY_ATTRS:
        g = tm.is_gen(t)
        if name == "is_Symbol":
            return g is not None and g.kind == "sym"
        if name in ("is_number", "is_Number"):
            return not any(x.kind == "sym" and x.name not in ("pi", "E") for x in tm.deep_gens(t).values())
        if name == "is_zero":
            return t.is_zero()
        if name == "is_Function":
            return g is not None and g.kind in ("fn", "sin", "cos", "exp", "log", "bessel")
        return Opaque(name, (name, t.key()))
    if name == "func":
        g = tm.is_gen(t)
        if g is not None and g.kind == "fn":
            return Opaque("ufn:" + g.data[0], ("ufn", g.data[0]))
    if name == "args":
        g = tm.is_gen(t)
        if g is not None:
            return tuple(tm.gen_args(g))
        raise AnalysisError("sympy .args at %s" % I.loc())
    if name in NUM_METHODS:
        return Method(v, name)
    if default is not NotImplemented:
        return default
    I.raise_builtin("AttributeError", "number has no attribute %s" % name)


# ------------------------------------------------------------------ methods

ARR_METHODS = {"tolist", "reshape", "dot", "sum", "prod", "copy", "transpose", "flatten", "ravel", "astype", "trace",
               "inv", "det", "subs", "applyfunc", "rank", "tomatrix", "diff", "atoms", "simplify", "min", "max",
               "squeeze", "item", "conj", "conjugate", "fill", "as_mutable", "as_immutable", "mean", "any", "all",
               "swapaxes", "round", "norm", "adjugate", "T", "append", "__getitem__", "__len__", "expand", "doit",
               "inverse", "LUsolve", "is_symmetric", "row", "col", "tofile", "nonzero", "diagonal", "repeat", "cumsum",
               "argmax", "argmin", "clip", "xreplace", "pinv", "adjoint", "trigsimp", "__str__", "__repr__", "__iter__",
               "has", "evalf", "__setitem__", "view", "take", "std", "__array__", "equals", "row_insert"}


def call_method(I, o, name, args, kw):
    args = [a for a in args]
    if isinstance(o, Ref):
        c = I.content(o)
        if isinstance(c, Seq) and c.kind == "iter":
            return o if name == "__iter__" else None if name == "close" else MODELS["builtins.next"](I, [o], {})
        if isinstance(c, Seq):
            return seq_method(I, o, c, name, args, kw)
        if isinstance(c, Dct):
            return dict_method(I, o, c, name, args, kw)
        if isinstance(c, Arr):
            return arr_method(I, o, name, args, kw)
    if isinstance(o, QuantV):
        return quant_method(I, o, name, args, kw)
    if isinstance(o, Unit):
        if name == "is_equivalent":
            return o.dims == as_unit(I, I.force(args[0])).dims
        if name in ("to", "in_units"):
            u = as_unit(I, I.force(args[0]))
            if u.dims != o.dims:
                I.raise_exc(ExcV(ExtV("astropy.units.UnitConversionError"), ()))
            f = o.scale / u.scale
            return f if len(args) < 2 else I.binop("*", args[1], f)
        if name == "decompose":
            return o
        return Opaque("unit.%s" % name)
    if isinstance(o, str):
        return str_method(I, o, name, args, kw)
    if isinstance(o, Opaque) and o.name.startswith("str:"):
        return Opaque("str:%s.%s" % (o.name[4:], name), ("strm", o.key, name) + tuple(_key(a) for a in args))
    if isinstance(o, tuple):
        if name == "index":
            for i, x in enumerate(o):
                e = I.truth(compare(I, "==", x, args[0]))
                if isinstance(e, Ite):
                    raise SplitNeeded(e.a)
                if e:
                    return i
            I.raise_builtin("ValueError", "not in tuple")
        if name == "count":
            return sum(1 for x in o if I.truth(compare(I, "==", x, args[0])) is True)
    if isinstance(o, (T, int)):
        return num_method(I, o, name, args, kw)
    if isinstance(o, WrapV):
        raise AnalysisError("property method call")
    raise AnalysisError("method %s of %r at %s" % (name, o, I.loc()))


def quant_method(I, q, name, args, kw):
    if name in ("to", "to_value"):
        if not args and not kw:
            return q.value
        u = as_unit(I, I.force(args[0] if args else kw.get("unit")))
        eq = kw.get("equivalencies") or (args[1] if len(args) > 1 else None)
        if eq is not None and q.unit.dims != u.dims:
            d1 = {k: v for k, v in q.unit.dims.items() if k != "rad"}
            d2 = {k: v for k, v in u.dims.items() if k != "rad"}
            if d1 == d2:
                q = QuantV(q.value, Unit(q.unit.scale, u.dims))
        v = convert(I, q, u)
        return v if name == "to_value" else QuantV(v, u)
    if name == "decompose":
        return I.getattr_(q, "si")
    if name == "is_equivalent":
        return q.unit.dims == as_unit(I, I.force(args[0])).dims
    if name == "copy":
        return QuantV(q.value if not isinstance(q.value, Ref) else np_array(I, [q.value], {}), q.unit)
    if name == "item":
        return q
    if name == "dot":
        o = args[0]
        if isinstance(o, QuantV):
            return QuantV(np_dot(I, q.value, o.value), q.unit * o.unit)
        return QuantV(np_dot(I, q.value, o), q.unit)
    return QuantV(I.call(I.getattr_(q.value, name), args, kw), q.unit)


def str_method(I, s, name, args, kw):
    a = [I.force(x) for x in args]
    if name == "join":
        items = [to_str(I, I.force(x)) for x in I.iterate(a[0])]
        if all(isinstance(x, str) for x in items):
            return s.join(items)
        return Opaque("join", ("join", s) + tuple(x if isinstance(x, str) else x.key for x in items))
    if name == "format":
        return fmt_braces(I, s, list(args), kw)
    if name == "format_map":
        return fmt_braces(I, s, [], I.content(a[0]).d)
    try:
        conv = []
        for x in a:
            if isinstance(x, (str, int, tuple, type(None))):
                conv.append(x)
            else:
                raise AnalysisError("str.%s argument %r" % (name, x))
        r = getattr(s, name)(*conv, **kw)
    except (ValueError, IndexError, TypeError) as e:
        I.raise_builtin(type(e).__name__, str(e))
    if isinstance(r, list):
        return I.new_list(r)
    return r


def seq_method(I, o, c, name, args, kw):
    it = list(c.items)
    if name == "append":
        it.append(args[0])
    elif name == "add":
        it = I.dedup(it + [args[0]])
    elif name == "extend":
        it.extend(I.iterate(args[0]))
    elif name == "update":
        for a in args:
            it = I.dedup(it + list(I.iterate(a)))
    elif name == "insert":
        it.insert(I.force(args[0]), args[1])
    elif name in ("remove", "discard"):
        for i, x in enumerate(it):
            e = I.truth(compare(I, "==", x, args[0]))
            if isinstance(e, Ite):
                raise SplitNeeded(e.a)
            if e:
                del it[i]
                break
        else:
            if name == "remove":
                I.raise_builtin("ValueError", "list.remove(x): x not in list")
            return None
    elif name == "pop":
        i = as_index(I, I.force(args[0])) if args else -1
        if not it:
            I.raise_builtin("IndexError", "pop from empty list")
        r = it.pop(i)
        I.put(o, Seq(c.kind, tuple(it)))
        I.write_loc[(o.id, None)] = I.loc()
        return r
    elif name == "sort":
        it = sorted_items(I, it, kw)
    elif name == "reverse":
        it.reverse()
    elif name == "clear":
        it = []
    elif name == "copy":
        return I.alloc(Seq(c.kind, tuple(it)))
    elif name == "index":
        for i, x in enumerate(it):
            e = I.truth(compare(I, "==", x, args[0]))
            if isinstance(e, Ite):
                raise SplitNeeded(e.a)
            if e:
                return i
        I.raise_builtin("ValueError", "not in list")
    elif name == "count":
        return sum(1 for x in it if I.truth(compare(I, "==", x, args[0])) is True)
    elif name == "union":
        for a in args:
            it = it + list(I.iterate(a))
        return I.alloc(Seq("set", tuple(I.dedup(it))))
    elif name == "intersection":
        ys = list(I.iterate(args[0]))
        return I.alloc(Seq("set", tuple(x for x in it if any(same(x, y) for y in ys))))
    elif name == "difference":
        ys = list(I.iterate(args[0]))
        return I.alloc(Seq("set", tuple(x for x in it if not any(same(x, y) for y in ys))))
    elif name == "isdisjoint":
        ys = list(I.iterate(args[0]))
        return not any(same(x, y) for y in ys for x in it)
    elif name == "symmetric_difference":
        return I.binop("^", o, I.alloc(Seq("set", tuple(I.iterate(args[0])))))
    elif name == "issubset":
        ys = list(I.iterate(args[0]))
        return all(any(same(x, y) for y in ys) for x in it)
    elif name == "issuperset":
        ys = list(I.iterate(args[0]))
        return all(any(same(x, y) for y in it) for x in ys)
    elif name == "__len__":
        return len(it)
    elif name == "__getitem__":
        return getitem(I, o, args[0])
    elif name == "__contains__":
        return contains(I, o, args[0])
    else:
        raise AnalysisError("list method %s" % name)
    I.put(o, Seq(c.kind, tuple(it)))
    I.write_loc[(o.id, None)] = I.loc()
    return None


def sorted_items(I, items, kw):
    key = kw.get("key")
    rev = I.force(kw.get("reverse", False))
    keyed = []
    for x in items:
        k = I.force(I.call(key, [x], {})) if key is not None else x
        k2 = sort_key(I, k)
        keyed.append((k2, x))
    keyed.sort(key=lambda p: p[0], reverse=bool(rev))
    return [x for _, x in keyed]


def sort_key(I, k):
    if isinstance(k, T):
        c = k.as_const()
        if c is None:
            raise AnalysisError("sort of symbolic values at %s" % I.loc())
        return c
    if isinstance(k, (int, str)):
        return k
    if isinstance(k, tuple):
        return tuple(sort_key(I, I.force(x)) for x in k)
    raise AnalysisError("sort key %r at %s" % (k, I.loc()))


def dict_method(I, o, c, name, args, kw):
    if name == "get":
        k = I.hkey(args[0])
        d = args[1] if len(args) > 1 else None
        if isinstance(k, Opaque):
            for x in c.d:
                e = I.truth(compare(I, "==", k, x))
                if isinstance(e, Ite):
                    raise SplitNeeded(e.a)
                if e:
                    return c.d[x]
            return d
        if k in c.d:
            return c.d[k]
        return d
    if name == "items":
        return I.new_list([(k, v) for k, v in c.d.items()])
    if name == "keys":
        return I.new_list(list(c.d))
    if name == "values":
        return I.new_list(list(c.d.values()))
    if name == "pop":
        k = I.hkey(args[0])
        d = dict(c.d)
        if k in d:
            v = d.pop(k)
            I.put(o, Dct(d, c.default))
            I.write_loc[(o.id, None)] = I.loc()
            return v
        if len(args) > 1:
            return args[1]
        I.raise_builtin("KeyError", k)
    if name == "setdefault":
        k = I.hkey(args[0])
        if k in c.d:
            return c.d[k]
        d = dict(c.d)
        d[k] = args[1] if len(args) > 1 else None
        I.put(o, Dct(d, c.default))
        I.write_loc[(o.id, None)] = I.loc()
        return d[k]
    if name == "update":
        d = dict(c.d)
        if args:
            a = I.force(args[0])
            ca = content(I, a)
            if isinstance(ca, Dct):
                d.update(ca.d)
            else:
                for p in I.iterate(a):
                    k, v = I.iterate(p)
                    d[I.hkey(k)] = v
        d.update(kw)
        I.put(o, Dct(d, c.default))
        I.write_loc[(o.id, None)] = I.loc()
        return None
    if name == "copy":
        return I.alloc(Dct(dict(c.d), c.default))
    if name == "clear":
        I.put(o, Dct({}, c.default))
        I.write_loc[(o.id, None)] = I.loc()
        return None
    if name == "__contains__":
        return contains(I, o, args[0])
    raise AnalysisError("dict method %s" % name)


def arr_method(I, o, name, args, kw):
    a = I.arr(o)
    if name == "tolist":
        if a.lib == "sp" and not a.shape:
            I.raise_builtin("IndexError", "tuple index out of range")
        return tolist(I, a.shape, a.el)
    if name == "__len__":
        return a.shape[0]
    if name == "rank":
        if a.lib == "mat":
            raise AnalysisError("matrix rank")
        return len(a.shape)
    if name == "reshape":
        sh = args[0] if len(args) == 1 else tuple(args)
        return reshape_order(I, o, sh, kw.get("order", "C"))
    if name == "dot":
        b = args[0]
        if isinstance(b, QuantV):
            return QuantV(np_dot(I, o, b.value), b.unit)
        return np_dot(I, o, b)
    if name == "copy" or name in ("as_mutable", "as_immutable", "conj", "conjugate", "doit", "expand", "trigsimp", "evalf",
                                  "view", "__array__"):
        return I.new_arr(a.shape, a.el, a.lib, "mutable" if name == "as_mutable" else a.dtype)
    if name == "simplify":
        return I.new_arr(a.shape, a.el, a.lib, a.dtype)
    if name == "astype":
        dt = models_lib.dtype_of(I.force(args[0] if args else kw.get("dtype")))
        return I.new_arr(a.shape, [cast(I, termof(I, x), dt) for x in a.el], a.lib, dt if dt in ("int", "f32", "bool") else None)
    if name == "transpose":
        ax = None
        if args:
            ax = args[0] if len(args) == 1 and not isinstance(args[0], int) else tuple(args)
            if ax is not None:
                ax = tuple(I.iterate(ax))
        return transpose(I, o, ax)
    if name == "swapaxes":
        ax = list(range(len(a.shape)))
        i, j = args
        ax[i], ax[j] = ax[j], ax[i]
        return transpose(I, o, tuple(ax))
    if name in ("flatten", "ravel"):
        order = I.force(kw.get("order", args[0] if args else "C"))
        if order != "C":
            return reshape_order(I, o, (len(a.el),), order)
        if name == "ravel" and a.lib == "np":
            return reshape(I, o, (len(a.el),))
        return I.new_arr((len(a.el),), a.el, a.lib)
    if name in ("sum", "prod", "min", "max", "mean", "any", "all", "trace", "argmax", "argmin", "cumsum", "round",
                "squeeze", "clip", "diagonal", "repeat", "nonzero", "std", "take"):
        return call_ext(I, "numpy." + name, [o] + args, kw)
    if name == "item":
        return a.el[0] if not args else a.el[args[0]]
    if name in ("inv", "inverse", "pinv"):
        return mat_inv(I, o)
    if name == "det":
        s, rows, lib = _rows(I, o)
        return det([[as_t(termof(I, x)) for x in r] for r in rows])
    if name == "adjugate":
        d = det([[as_t(termof(I, x)) for x in r] for r in _rows(I, o)[1]])
        r = mat_inv(I, o)
        return I.binop("*", r, d)
    if name == "fill":
        I.set_els(o, [(i, args[0]) for i in range(len(a.el))])
        return None
    if name in ("subs", "xreplace"):
        return I.new_arr(a.shape, [num_method(I, x, "subs", args, kw) for x in a.el], a.lib)
    if name == "diff":
        return I.new_arr(a.shape, [sp_diff(I, [x] + args) for x in a.el], a.lib)
    if name == "applyfunc":
        if a.lib == "sp" and not a.shape:
            I.raise_builtin("TypeError", "object of type 'map' has no len()")      # sympy: rank 0
        return I.new_arr(a.shape, [I.call(args[0], [x], {}) for x in a.el], a.lib)
    if name == "tomatrix":
        return I.new_arr(a.shape, a.el, "mat", "mutable")
    if name == "atoms":
        return sp_atoms(I, a.el, args)
    if name == "norm":
        return call_ext(I, "numpy.linalg.norm", [o], {})
    if name == "is_symmetric":
        s, rows, lib = _rows(I, o)
        return all(same(rows[i][j], rows[j][i]) for i in range(s[0]) for j in range(i))
    if name == "row":
        return I.new_arr((1, a.shape[1]), a.el[args[0] * a.shape[1]:(args[0] + 1) * a.shape[1]], a.lib)
    if name == "col":
        return I.new_arr((a.shape[0], 1), a.el[args[0]::a.shape[1]], a.lib)
    if name in ("__str__", "__repr__"):
        return to_str(I, o)
    if name == "__getitem__":
        return getitem(I, o, args[0])
    if name == "__setitem__":
        return setitem(I, o, args[0], args[1])
    if name == "__iter__":
        return I.new_list(I.iterate(o))
    raise AnalysisError("array method %s at %s" % (name, I.loc()))


def tolist(I, shape, el):
    if not shape:
        return el[0]
    if len(shape) == 1:
        return I.new_list(el)
    n = len(el) // shape[0] if shape[0] else 0
    return I.new_list([tolist(I, shape[1:], el[i * n:(i + 1) * n]) for i in range(shape[0])])


def reshape_order(I, o, sh, order="C"):
    order = I.force(order)
    if order in ("C", "A", "K", None):
        return reshape(I, o, sh)
    if order != "F":
        raise AnalysisError("array order %r at %s" % (order, I.loc()))
    s, el, lib = to_arr(I, o)
    flat = to_arr(I, transpose(I, I.new_arr(s, el, lib or "np"), None))[1] if len(s) > 1 else el
    if isinstance(sh, int):
        sh = (sh,)
    sh = [as_index(I, I.force(x)) for x in (sh if isinstance(sh, tuple) else I.iterate(sh))]
    r = reshape(I, I.new_arr((len(flat),), flat, lib or "np"), tuple(reversed(sh)))
    return transpose(I, r, None) if len(sh) > 1 else r


def reshape(I, o, sh):
    s, el, lib = to_arr(I, o)
    if isinstance(sh, int):
        sh = (sh,)
    sh = [as_index(I, I.force(x)) for x in (sh if isinstance(sh, tuple) else I.iterate(sh))]
    n = len(el)
    if -1 in sh:
        k = 1
        for d in sh:
            if d != -1:
                k *= d
        sh[sh.index(-1)] = n // k if k else 0
    k = 1
    for d in sh:
        k *= d
    if k != n:
        I.raise_builtin("ValueError", "cannot reshape")
    if isinstance(o, Ref):
        c = I.content(o)
        if isinstance(c, Arr) and c.lib == "np":
            base = c.view if c.view is not None else (o.id, tuple(range(n)))
            return I.alloc(Arr(sh, None, "np", c.dtype, base))
    return I.new_arr(sh, el, lib or "np")


def transpose(I, o, axes):
    s, el, lib = to_arr(I, o)
    n = len(s)
    if axes is None:
        axes = tuple(reversed(range(n)))
    axes = tuple(a % n for a in axes) if n else ()
    st = strides(s)
    out = []
    sh = tuple(s[a] for a in axes)
    for idx in itertools.product(*[range(d) for d in sh]):
        out.append(sum(i * st[a] for i, a in zip(idx, axes)))
    if isinstance(o, Ref):
        c = I.content(o)
        if isinstance(c, Arr) and c.lib == "np":
            if c.view is not None:
                return I.alloc(Arr(sh, None, "np", c.dtype, (c.view[0], tuple(c.view[1][i] for i in out))))
            return I.alloc(Arr(sh, None, "np", c.dtype, (o.id, tuple(out))))
    return I.new_arr(sh, [el[i] for i in out], lib or "np")


def num_method(I, v, name, args, kw):
    if name in ("subs", "xreplace", "replace"):
        return sp_subs(I, v, args)
    if name == "diff":
        return sp_diff(I, [v] + args)
    if name in ("simplify", "expand", "factor", "doit", "evalf", "n", "trigsimp", "cancel", "together", "collect", "rewrite",
                "radsimp", "powsimp", "ratsimp", "nsimplify", "conjugate", "item", "copy", "astype", "tolist",
                "sum", "transpose", "reshape"):
        return v
    if name in ("round", "__round__"):
        return call_ext(I, "numpy.round", [v] + list(args), kw)
    if name == "__float__":
        return as_t(v)
    if name == "equals":
        return as_t(v) == as_t(termof(I, args[0]))
    if name == "has":
        gs = tm.deep_gens(as_t(v))
        for a in args:
            g = tm.is_gen(as_t(termof(I, a)))
            if g is not None and g.id in gs:
                return True
        return False
    if name == "atoms":
        return sp_atoms(I, [v], args)
    if name.startswith("__"):
        n = name.strip("_")
        inv = {x: k for k, x in _ip.DUNDER.items()}
        if n in inv:
            return I.binop(inv[n], v, args[0])
        if n[0] == "r" and n[1:] in inv:
            return I.binop(inv[n[1:]], args[0], v)
        if n == "neg":
            return I.unop("-", v)
        for k, d in _ip.CDUNDER.items():
            if d == name:
                return compare(I, k, v, args[0])
    if name == "dot":
        return I.binop("*", v, args[0])
    raise AnalysisError("number method %s at %s" % (name, I.loc()))


# ------------------------------------------------------------------ calls of external functions

PURE_OPAQUE = set()


def call_ext(I, path, args, kw):
    f = I.hooks.get(path) or MODELS.get(path)
    if f is not None:
        return f(I, list(args), dict(kw))
    if is_exception_path(path):
        return ExcV(ExtV(path), tuple(args))
    if path.startswith("sympy.") and path.split(".")[-1] in SYMPY_FUN1:
        return ufunc1(I, path.split(".")[-1], SYMPY_FUN1[path.split(".")[-1]], args[0])
    I.event("call:" + path, tuple(args), dict(kw))
    I.opq += 1
    return Opaque("%s#%d" % (path, I.opq), ("callres", path, I.opq))


def call_opaque(I, f, args, kw):
    if isinstance(f.key, tuple) and f.key and f.key[0] == "ufn":
        return tm.func(f.key[1], [as_t(termof(I, I.force(a))) for a in args])
    if isinstance(f.key, tuple) and f.key and f.key[0] == "ufnclass":
        raise AnalysisError("Function class call")
    I.event("call:" + f.name, tuple(args), dict(kw))
    h = I.hooks.get("opaque:" + f.name)
    if h is not None:
        return h(I, list(args), dict(kw))
    I.opq += 1
    base = f.name if len(f.name) < 60 else f.name[:57] + "..."
    return Opaque("%s()#%d" % (base, I.opq), ("callres", f.key, I.opq))


from . import models_lib  # noqa: E402,F401  (registers library transfer functions)
from .models_lib import np_array, sp_array, sp_subs, sp_diff, sp_atoms, SYMPY_FUN1  # noqa: E402
