"""Abstract values: gated values (decision diagrams over interned predicates), heap
references, functions, classes, quantities and opaque external values."""
from fractions import Fraction
from . import terms as tm
from .terms import T


class AnalysisError(Exception):
    """The analysis cannot decide (unsupported construct, vanished anchor ...)."""


class SplitNeeded(Exception):
    """An operation that cannot be lifted met a gated value; the statement is analysed once
    under each polarity of the predicate and the results are joined."""

    def __init__(self, atom):
        self.atom = atom


# ------------------------------------------------------------------ predicates

class Atom:
    __slots__ = ("id", "kind", "key", "data", "desc")

    def __repr__(self):
        return self.desc


_ATOMS = {}
ATOMS = []


def atom(kind, key, data, desc):
    k = (kind, key)
    a = _ATOMS.get(k)
    if a is None:
        a = Atom()
        a.id = len(ATOMS)
        a.kind = kind
        a.key = key
        a.data = data
        a.desc = desc
        ATOMS.append(a)
        _ATOMS[k] = a
    return a


class Ite:
    __slots__ = ("a", "t", "f")

    def __init__(self, a, t, f):
        self.a = a
        self.t = t
        self.f = f

    def __repr__(self):
        return "ite(%s, %r, %r)" % (self.a.desc, self.t, self.f)

    def __iter__(self):
        raise SplitNeeded(self.a)

    def __getitem__(self, i):
        raise SplitNeeded(self.a)


def same(x, y):
    if x is y:
        return True
    if isinstance(x, T) and isinstance(y, T):
        return tm.equal(x, y)
    if isinstance(x, Ite) and isinstance(y, Ite):
        return x.a is y.a and same(x.t, y.t) and same(x.f, y.f)
    if type(x) is not type(y):
        return False
    if isinstance(x, (bool, int, str, type(None), Ref, ExtV)):
        return x == y
    if isinstance(x, tuple):
        return len(x) == len(y) and all(same(a, b) for a, b in zip(x, y))
    if isinstance(x, QuantV):
        return same(x.value, y.value) and x.unit.same(y.unit)
    if isinstance(x, BoundV):
        return x.func is y.func and same(x.self, y.self)
    if isinstance(x, Opaque):
        return x.key == y.key
    return False


def mk(a, t, f):
    if same(t, f):
        return t
    return Ite(a, t, f)


def cof(v, a, val):
    """cofactor of v w.r.t. atom a (a has minimal id among those that can be at top)"""
    if isinstance(v, Ite) and v.a is a:
        return v.t if val else v.f
    return v


def ite(B, x, y):
    if B is True:
        return x
    if B is False:
        return y
    if same(x, y):
        return x
    tops = [v.a for v in (B, x, y) if isinstance(v, Ite)]
    a = min(tops, key=lambda q: q.id)
    return mk(a, ite(cof(B, a, True), cof(x, a, True), cof(y, a, True)),
              ite(cof(B, a, False), cof(x, a, False), cof(y, a, False)))


def b_not(b):
    return ite(b, False, True)


def b_and(x, y):
    return ite(x, y, False)


def b_or(x, y):
    return ite(x, True, y)


def restrict(v, facts):
    if not isinstance(v, Ite):
        return v
    f = facts.get(v.a.id)
    if f is True:
        return restrict(v.t, facts)
    if f is False:
        return restrict(v.f, facts)
    t, e = restrict(v.t, facts), restrict(v.f, facts)
    if t is v.t and e is v.f:
        return v
    return mk(v.a, t, e)


def leaves(v, path=()):
    if isinstance(v, Ite):
        for x in leaves(v.t, path + ((v.a, True),)):
            yield x
        for x in leaves(v.f, path + ((v.a, False),)):
            yield x
    else:
        yield path, v


def implied(a, val):
    """facts implied by atom a = val (excluding itself)"""
    out = {}
    if a.kind == "eqz" and val:
        t = a.data
        for s in (t, -t):
            g = _ATOMS.get(("gtz", _gkey(s)))
            if g is not None:
                out[g.id] = False
    elif a.kind == "gtz" and val:
        t = a.data
        g = _ATOMS.get(("gtz", _gkey(-t)))
        if g is not None:
            out[g.id] = False
        g = _ATOMS.get(("eqz", _ekey(t)))
        if g is not None:
            out[g.id] = False
        # t > 0 implies t + c > 0 handled lazily in gtz()
    elif a.kind == "streq" and val:
        for b in ATOMS:
            if b.kind == "streq" and b is not a and b.data[0] is a.data[0]:
                out[b.id] = False
    return out


def _ekey(t):
    n = t.n
    c, p = tm._primitive(n)
    return frozenset(p.items())


def _gkey(t):
    return (1 if t.c > 0 else -1, frozenset(t.n.items()), t.d)


def eqz(t):
    """boolean 't == 0'"""
    if t.is_zero():
        return True
    if t.is_const():
        return False
    if tm.positive(t) or tm.positive(-t):
        return False
    # drop positive factors
    n = t.n
    c, p = tm._primitive(n)
    if len(p) <= 60:
        fl = [f for f, e in tm.factor_poly(p)]
        res = False
        for f in fl:
            ft = tm._mk(Fraction(1), f, {})
            if ft.is_const() or tm.positive(ft) or tm.positive(-ft):
                continue
            k, pp = tm._primitive(f)
            a = atom("eqz", frozenset(pp.items()), tm._mk(Fraction(1), pp, {}), "%s == 0" % tm.short(ft))
            res = b_or(res, Ite(a, True, False))
        return res
    a = atom("eqz", frozenset(p.items()), tm._mk(Fraction(1), p, {}), "%s == 0" % tm.short(t))
    return Ite(a, True, False)


def gtz(t):
    """boolean 't > 0'"""
    c = t.as_const()
    if c is not None:
        return c > 0
    if tm.positive(t):
        return True
    if tm.positive(-t):
        return False
    n = t.n
    dd = t.d
    if t.d and all(tm.positive(tm._mk(Fraction(1), tm._FACTS[i].p, {})) or e % 2 == 0 for i, e in t.d):
        dd = ()
    t = T(Fraction(1 if t.c > 0 else -1), n, dd)
    # divide out positive monomial generators
    cm = tm._common_mono(n)
    sub = 0
    for g, e in cm:
        if g.positive:
            sub += e << g.shift
        elif e >= 2:
            sub += (e - e % 2) << g.shift
    if sub:
        t = T(t.c, {m - sub: v for m, v in n.items()}, dd)
        if t.as_const() is not None:
            return t.as_const() > 0
    a = atom("gtz", _gkey(t), t, "%s > 0" % tm.short(t))
    return Ite(a, True, False)


# ------------------------------------------------------------------ values

class Ref:
    __slots__ = ("id",)

    def __init__(self, i):
        self.id = i

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(("ref", self.id))

    def __repr__(self):
        return "Ref%d" % self.id


class ExtV:
    """external (library) entity, identified by its canonical dotted path"""
    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def __eq__(self, o):
        return isinstance(o, ExtV) and o.path == self.path

    def __hash__(self):
        return hash(("ext", self.path))

    def __repr__(self):
        return "<ext %s>" % self.path


class ModuleV:
    __slots__ = ("name", "frame", "path")

    def __init__(self, name, frame, path):
        self.name = name
        self.frame = frame
        self.path = path

    def __repr__(self):
        return "<module %s>" % self.name


class FuncV:
    __slots__ = ("node", "closure", "mod", "qual", "defaults", "kwdefaults", "cls", "kind", "inner", "extra")

    def __init__(self, node, closure, mod, qual, defaults, kwdefaults, cls=None):
        self.node = node
        self.closure = closure
        self.mod = mod
        self.qual = qual
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.cls = cls
        self.kind = None
        self.inner = None
        self.extra = None

    def __repr__(self):
        return "<func %s>" % self.qual


class WrapV:
    """decorated callable: staticmethod / classmethod / property / quantity_input"""
    __slots__ = ("kind", "func", "extra")

    def __init__(self, kind, func, extra=None):
        self.kind = kind
        self.func = func
        self.extra = extra

    def __repr__(self):
        return "<%s %r>" % (self.kind, self.func)


class BoundV:
    __slots__ = ("func", "self")

    def __init__(self, func, slf):
        self.func = func
        self.self = slf

    def __repr__(self):
        return "<bound %r of %r>" % (self.func, self.self)


class Method:
    """method of a builtin-modelled value"""
    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj = obj
        self.name = name

    def __repr__(self):
        return "<method %s of %r>" % (self.name, self.obj)


class PyFn:
    """callable supplied by a check (an arbitrary user function, e.g. a metric)"""
    __slots__ = ("fn", "name")

    def __init__(self, fn, name):
        self.fn = fn
        self.name = name

    def __repr__(self):
        return "<user function %s>" % self.name


class SuperV:
    __slots__ = ("cls", "self")

    def __init__(self, cls, slf):
        self.cls = cls
        self.self = slf


class ClassV:
    __slots__ = ("name", "bases", "ref", "mod", "qual", "node", "mro")

    def __init__(self, name, bases, ref, mod, qual, node):
        self.name = name
        self.bases = bases
        self.ref = ref
        self.mod = mod
        self.qual = qual
        self.node = node
        self.mro = None

    def __repr__(self):
        return "<class %s>" % self.qual


class ExcV:
    __slots__ = ("cls", "args", "inst")

    def __init__(self, cls, args, inst=None):
        self.cls = cls
        self.args = args
        self.inst = inst

    def name(self):
        return self.cls.name if isinstance(self.cls, ClassV) else (
            self.cls.path.split(".")[-1] if isinstance(self.cls, ExtV) else str(self.cls))

    def __repr__(self):
        return "<exc %s%r>" % (self.name(), self.args)


class Opaque:
    __slots__ = ("key", "name")

    def __init__(self, name, key=None):
        self.name = name
        self.key = key if key is not None else ("opq", name)

    def __repr__(self):
        return "<opaque %s>" % self.name

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return isinstance(o, Opaque) and o.key == self.key


class Unit:
    __slots__ = ("scale", "dims")

    def __init__(self, scale, dims):
        self.scale = scale
        self.dims = {k: v for k, v in dims.items() if v}

    def same(self, o):
        return self.dims == o.dims and tm.equal(self.scale, o.scale)

    def __mul__(self, o):
        d = dict(self.dims)
        for k, v in o.dims.items():
            d[k] = d.get(k, 0) + v
        return Unit(self.scale * o.scale, d)

    def pow(self, e):
        e = Fraction(e)
        return Unit(tm.power(self.scale, T.const(e)), {k: v * e for k, v in self.dims.items()})

    def inv(self):
        return self.pow(-1)

    def __repr__(self):
        return "<unit %r %s>" % (self.scale, self.dims)


class QuantV:
    __slots__ = ("value", "unit")

    def __init__(self, value, unit):
        self.value = value
        self.unit = unit

    def __repr__(self):
        return "<Quantity %r %r>" % (self.value, self.unit)


# ------------------------------------------------------------------ heap contents

class Inst:
    __slots__ = ("cls", "d")

    def __init__(self, cls, d):
        self.cls = cls
        self.d = d

    def with_(self, k, v):
        d = dict(self.d)
        d[k] = v
        return Inst(self.cls, d)


class Frame:
    __slots__ = ("d", "parent", "keep")

    def __init__(self, d, parent):
        self.d = d
        self.parent = parent


class Seq:
    """list / set (ordered) contents"""
    __slots__ = ("kind", "items")

    def __init__(self, kind, items):
        self.kind = kind
        self.items = items


class Dct:
    __slots__ = ("d", "default")

    def __init__(self, d, default=None):
        self.d = d
        self.default = default


class Arr:
    """dense array, row-major; lib is 'np' or 'sp' (sympy)"""
    __slots__ = ("shape", "el", "lib", "dtype", "view")

    def __init__(self, shape, el, lib="np", dtype=None, view=None):
        self.shape = tuple(shape)
        self.el = el
        self.lib = lib
        self.dtype = dtype
        self.view = view        # (base id, index tuple) -> el is None


class CondContent:
    __slots__ = ("B", "t", "f")

    def __init__(self, B, t, f):
        self.B = B
        self.t = t
        self.f = f


class Undef:
    def __repr__(self):
        return "<undefined>"


UNDEF = Undef()
