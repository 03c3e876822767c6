"""Term domain of the value-flow analysis.

A term is an exact element of a multivariate function field over Q: a
polynomial numerator over interned generators divided by a product of interned
polynomial factors.  Generators are symbols, sin/cos of an angle, roots,
exponentials, symbolic powers, uninterpreted functions (and their formal
derivatives) and a few special functions.  Algebraic generators carry their
minimal relation (cos^2 = 1 - sin^2, root^q = radicand), so that two terms are
equal in the domain iff the reduced numerator of their difference is the zero
polynomial.  Terms are evaluated numerically only in witness.py, to separate two
terms whose normal forms differ; the analysed code itself never is.
"""
from fractions import Fraction
from math import gcd
from functools import reduce as _freduce

SLOT = 16
SMASK = (1 << SLOT) - 1


class TermError(Exception):
    value = None        # what was given instead of a term


class Gen:
    __slots__ = ("id", "kind", "key", "data", "positive", "name", "q", "rad",
                 "shift", "one", "reals")

    def __repr__(self):
        return self.name


GENS = []
_INTERN = {}
_HIGH = [0]      # mask of bits that may signal exponent >= q of an algebraic generator
_GUARD = [0]     # guard bits of all slots
_ALG = []        # algebraic generators


def _mkgen(kind, key, data, name, positive=False, q=None, rad=None):
    k = (kind, key)
    g = _INTERN.get(k)
    if g is not None:
        if positive and not g.positive:
            g.positive = True
        return g
    g = Gen()
    g.id = len(GENS)
    g.kind = kind
    g.key = key
    g.data = data
    g.positive = positive
    g.name = name
    g.q = q
    g.rad = rad
    g.shift = SLOT * g.id
    g.one = 1 << g.shift
    GENS.append(g)
    _INTERN[k] = g
    _GUARD[0] |= 1 << (g.shift + SLOT - 1)
    if q is not None:
        _ALG.append(g)
        lo = q.bit_length() - 1          # any value >= q has a bit at or above lo
        _HIGH[0] |= (((1 << (SLOT - 1)) - 1) >> lo << lo) << g.shift
    return g


# ------------------------------------------------------------------ polynomials
# dict: packed monomial (int) -> int coefficient

def _padd(a, b, ca=1, cb=1):
    if ca == 1:
        r = dict(a)
    else:
        r = {m: c * ca for m, c in a.items()}
    for m, c in b.items():
        v = r.get(m, 0) + c * cb
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def _pmul(a, b):
    if len(a) > len(b):
        a, b = b, a
    if len(a) == 1:
        (m1, c1), = a.items()
        r = {m1 + m: c1 * c for m, c in b.items()}
    else:
        r = {}
        get = r.get
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = m1 + m2
                r[m] = get(m, 0) + c1 * c2
        r = {m: c for m, c in r.items() if c}
    return _preduce(r)


_PRED_CACHE = {}


def _preduce(p):
    high = _HIGH[0]
    hit = [m for m in p if m & high]
    if not hit:
        return p
    work = dict(p)
    out = {}
    pending = [m for m in hit]
    for m in work:
        if not (m & high):
            out[m] = work[m]
    todo = {m: work[m] for m in hit}
    n = 0
    while todo:
        m, c = todo.popitem()
        if not c:
            continue
        g = None
        for a in _ALG:
            e = (m >> a.shift) & SMASK
            if e >= a.q:
                g = a
                break
        if g is None:
            v = out.get(m, 0) + c
            if v:
                out[m] = v
            else:
                out.pop(m, None)
            continue
        k, rem = divmod(e, g.q)
        base = m - (k * g.q << g.shift)
        radk = _radpow(g, k)
        for mm, cc in radk.items():
            x = base + mm
            v = todo.get(x, 0) if (x & high) else out.get(x, 0)
            v += c * cc
            if x & high:
                todo[x] = v
            else:
                if v:
                    out[x] = v
                else:
                    out.pop(x, None)
        n += 1
        if n > 2000000:
            raise TermError("reduction too large")
    return out


_RADPOW = {}


def _radpow(g, k):
    r = _RADPOW.get((g.id, k))
    if r is None:
        r = {0: 1}
        for _ in range(k):
            r = _pmul(r, g.rad)
        _RADPOW[(g.id, k)] = r
    return r


def _content(p):
    g = 0
    for c in p.values():
        g = gcd(g, c)
        if g == 1:
            break
    return g


def _monodiv(m1, m2):
    """m1 / m2 or None."""
    G = _GUARD[0]
    x = (m1 | G) - m2
    if x & G == G:
        return x & ~G
    return None


def _pdiv(a, b):
    """exact quotient a/b as polynomial with int coefficients (b primitive), else None."""
    if not a:
        return {}
    lb = max(b)
    cb = b[lb]
    if len(b) == 1:
        r = {}
        for m, c in a.items():
            x = _monodiv(m, lb)
            if x is None or c % cb:
                return None
            r[x] = c // cb
        return r
    la = max(a)
    if _monodiv(la, lb) is None:
        return None
    if _monodiv(min(a), min(b)) is None:
        return None
    import heapq
    rem = dict(a)
    heap = [-m for m in rem]
    heapq.heapify(heap)
    quo = {}
    bi = [(m, c) for m, c in b.items() if m != lb]
    steps = 0
    while heap:
        m = -heapq.heappop(heap)
        c = rem.pop(m, 0)
        if not c:
            continue
        x = _monodiv(m, lb)
        if x is None or c % cb:
            return None
        qc = c // cb
        quo[x] = qc
        for mb, cbb in bi:
            y = mb + x
            if y in rem:
                v = rem[y] - qc * cbb
                rem[y] = v
            else:
                rem[y] = -qc * cbb
                heapq.heappush(heap, -y)
        steps += 1
        if steps > 200000:
            return None
    return quo


# ------------------------------------------------------------------ factors

class Factor:
    __slots__ = ("id", "p", "gen")


_FACT = {}
_FACTS = []


def _factor(p):
    """intern primitive polynomial with positive leading coefficient"""
    k = frozenset(p.items())
    f = _FACT.get(k)
    if f is None:
        f = Factor()
        f.id = len(_FACTS)
        f.p = dict(p)
        f.gen = None
        _FACT[k] = f
        _FACTS.append(f)
    return f


def _primitive(p):
    """(int content with sign, primitive poly)"""
    if not p:
        return 0, {}
    c = _content(p)
    if p[max(p)] < 0:
        c = -c
    if c == 1:
        return 1, p
    return c, {m: v // c for m, v in p.items()}


def _unpack(m):
    out = []
    i = 0
    while m:
        e = m & SMASK
        if e:
            out.append((GENS[i], e))
        m >>= SLOT
        i += 1
    return out


def _common_mono(p):
    it = iter(p)
    m0 = next(it)
    gens = _unpack(m0)
    for m in it:
        ng = []
        for g, e in gens:
            x = (m >> g.shift) & SMASK
            if x:
                ng.append((g, min(e, x)))
        gens = ng
        if not gens:
            break
    return gens


class T:
    """c * n / prod(f**e)"""
    __slots__ = ("c", "n", "d", "_h")

    def __init__(self, c, n, d):
        self.c = c
        self.n = n
        self.d = d
        self._h = None

    # -- construction
    @staticmethod
    def const(x):
        x = Fraction(x)
        if x == 0:
            return ZERO
        return T(x, {0: 1}, ())

    def key(self):
        if self._h is None:
            self._h = (self.c, frozenset(self.n.items()), self.d)
        return self._h

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, other):
        if not isinstance(other, T):
            if isinstance(other, (int, Fraction)):
                other = T.const(other)
            else:
                return NotImplemented
        return equal(self, other)

    def is_zero(self):
        return not self.n

    def is_const(self):
        return not self.n or (len(self.n) == 1 and 0 in self.n and not self.d)

    def as_const(self):
        if not self.n:
            return Fraction(0)
        if self.is_const():
            return self.c * self.n[0]
        return None

    def __neg__(self):
        return T(-self.c, self.n, self.d)

    def __add__(self, o):
        o = as_t(o)
        return add(self, o)

    __radd__ = __add__

    def __sub__(self, o):
        return add(self, -as_t(o))

    def __rsub__(self, o):
        return add(as_t(o), -self)

    def __mul__(self, o):
        return mul(self, as_t(o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        return mul(self, inv(as_t(o)))

    def __rtruediv__(self, o):
        return mul(as_t(o), inv(self))

    def __pow__(self, o):
        return power(self, as_t(o))

    def __rpow__(self, o):
        return power(as_t(o), self)

    def __repr__(self):
        return show(self)


def as_t(x):
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return T.const(int(x))
    if isinstance(x, (int, Fraction)):
        return T.const(x)
    if isinstance(x, float):
        return T.const(Fraction(repr(x)))
    e = TermError("not a term: %r" % (x,))
    e.value = x
    raise e


ZERO = T(Fraction(0), {}, ())
ONE = T(Fraction(1), {0: 1}, ())


def _mk(c, p, d):
    """normalise: p int poly (reduced), d dict factor->exp (positive)"""
    if not p or not c:
        return ZERO
    k, p = _primitive(p)
    c = c * k
    if d:
        d = {f: e for f, e in d.items() if e}
        for f in list(d):
            while d[f] > 0:
                if p == f.p:
                    qn = {0: 1}
                else:
                    qn = _pdiv(p, f.p)
                if qn is None:
                    break
                p = qn
                d[f] -= 1
            if not d[f]:
                del d[f]
        if d:
            k, p = _primitive(p)
            c = c * k
        dt = tuple(sorted(((f.id, e) for f, e in d.items())))
    else:
        dt = ()
    return T(c, p, dt)


def _dd(t):
    return {_FACTS[i]: e for i, e in t.d}


def mul(a, b):
    if not a.n or not b.n:
        return ZERO
    ac = a.as_const() if not a.d else None
    if ac is not None:
        return T(b.c * ac, b.n, b.d)
    bc = b.as_const() if not b.d else None
    if bc is not None:
        return T(a.c * bc, a.n, a.d)
    an, bn = a.n, b.n
    c = a.c * b.c
    ad, bd = _dd(a), _dd(b)
    for f in list(bd):
        while bd[f]:
            qn = {0: 1} if an == f.p else _pdiv(an, f.p)
            if qn is None:
                break
            an = qn
            bd[f] -= 1
    for f in list(ad):
        while ad[f]:
            qn = {0: 1} if bn == f.p else _pdiv(bn, f.p)
            if qn is None:
                break
            bn = qn
            ad[f] -= 1
    for f, e in bd.items():
        ad[f] = ad.get(f, 0) + e
    high = _HIGH[0]
    p = _pmul(an, bn)
    if _ALG:
        return _mk(c, p, ad)
    return _mk(c, p, ad)


def inv(a):
    if not a.n:
        raise ZeroDivisionError("division by the zero term")
    r = _INVC.get(a)
    # numerator becomes factors
    d = {}
    p = a.n
    if len(p) == 1:
        (m, co), = p.items()
        for g, e in _unpack(m):
            f = _factor({g.one: 1})
            d[f] = d.get(f, 0) + e
        c = Fraction(1) / (a.c * co)
    else:
        cm = _common_mono(p)
        if cm:
            sub = 0
            for g, e in cm:
                f = _factor({g.one: 1})
                d[f] = d.get(f, 0) + e
                sub += e << g.shift
            p = {m - sub: v for m, v in p.items()}
        c = Fraction(1) / a.c
        for f, e in _split(p):
            d[f] = d.get(f, 0) + e
    num = {0: 1}
    for i, e in a.d:
        for _ in range(e):
            num = _pmul(num, _FACTS[i].p)
    return _mk(c, num, d)


_INVC = {}
_SPLIT = {}


def _split(p):
    """split a primitive multi-term polynomial over known factors (trial), then sqf via sympy"""
    k = frozenset(p.items())
    r = _SPLIT.get(k)
    if r is not None:
        return r
    if len(p) > 400:
        r = [(_factor(p), 1)]
    else:
        r = [(_factor(q), e) for q, e in factor_poly(p)]
        # factors may be non primitive sign: product sign fixed by factor_poly
    _SPLIT[k] = r
    return r


_FP = {}


class _Late(Exception):
    pass


_DEADLINE = [None]


def _factor_list(pe):
    """factorisation over the integers. sympy picks evaluation points at random and, rarely, an unlucky choice does not end: the choice is fixed, and another
    one is tried when it takes long"""
    import time
    from sympy.core import random as srandom
    from sympy.polys import densearith as da
    if not getattr(da, "_verif_guarded", False):
        mul = da.dup_mul

        def dup_mul(f, g, K):
            if _DEADLINE[0] is not None and time.monotonic() > _DEADLINE[0]:
                raise _Late()
            return mul(f, g, K)
        da.dup_mul = dup_mul
        da._verif_guarded = True
    for i, limit in enumerate((5, 5, 10, 20, 40)):
        srandom.seed(1 + i)
        _DEADLINE[0] = time.monotonic() + limit
        try:
            return pe.factor_list()
        except _Late:
            continue
        finally:
            _DEADLINE[0] = None
    return pe.sqf_list()


def factor_poly(p):
    """irreducible factorisation of a primitive integer polynomial (leading coeff>0): list of
    (primitive poly with positive leading coeff, exp).  Product equals p."""
    k = frozenset(p.items())
    r = _FP.get(k)
    if r is not None:
        return r
    if len(p) == 1:
        (m, c), = p.items()
        r = [({g.one: 1}, e) for g, e in _unpack(m)]
        if abs(c) != 1:
            r.append(({0: c}, 1))
        _FP[k] = r
        return r
    gens = {}
    for m in p:
        for g, e in _unpack(m):
            gens[g.id] = g
    gl = [gens[i] for i in sorted(gens, reverse=True)]
    from sympy.polys.rings import ring
    from sympy import ZZ
    R = ring(["g%d" % g.id for g in gl], ZZ)[0]
    d = {}
    for m, c in p.items():
        d[tuple((m >> g.shift) & SMASK for g in gl)] = c
    pe = R.from_dict(d)
    try:
        co, fl = _factor_list(pe)
    except Exception:
        r = [(p, 1)]
        _FP[k] = r
        return r
    r = []
    sign = 1
    for f, e in fl:
        q = {}
        for mon, c in f.terms():
            mm = 0
            for g, x in zip(gl, mon):
                mm += x << g.shift
            q[mm] = int(c)
        kk, q = _primitive(q)
        if kk < 0 and e % 2:
            sign = -sign
        r.append((q, e))
    if int(co) * sign != 1:
        # constant left (should not happen for primitive input)
        r.append(({0: int(co) * sign}, 1))
    _FP[k] = r
    return r


def add(a, b):
    if not a.n:
        return b
    if not b.n:
        return a
    if a.d == b.d:
        den = a.c.denominator * b.c.denominator // gcd(a.c.denominator, b.c.denominator)
        ca = int(a.c * den)
        cb = int(b.c * den)
        p = _padd(a.n, b.n, ca, cb)
        return _mk(Fraction(1, den), p, _dd(a))
    ad, bd = _dd(a), _dd(b)
    d = dict(ad)
    for f, e in bd.items():
        if d.get(f, 0) < e:
            d[f] = e
    an, bn = a.n, b.n
    for f, e in d.items():
        for _ in range(e - ad.get(f, 0)):
            an = _pmul(an, f.p)
        for _ in range(e - bd.get(f, 0)):
            bn = _pmul(bn, f.p)
    den = a.c.denominator * b.c.denominator // gcd(a.c.denominator, b.c.denominator)
    ca = int(a.c * den)
    cb = int(b.c * den)
    p = _padd(an, bn, ca, cb)
    return _mk(Fraction(1, den), p, d)


def equal(a, b):
    if a.c == b.c and a.d == b.d and a.n == b.n:
        return True
    return add(a, -b).is_zero()


def tsum(xs):
    r = ZERO
    for x in xs:
        r = add(r, as_t(x))
    return r


# ------------------------------------------------------------------ generators

def gen_term(g):
    return T(Fraction(1), {g.one: 1}, ())


def sym(name, positive=False):
    return gen_term(_mkgen("sym", name, None, name, positive))


def is_gen(t):
    """the single generator of t if t is exactly one generator"""
    if t.d or t.c != 1 or len(t.n) != 1:
        return None
    (m, c), = t.n.items()
    if c != 1:
        return None
    u = _unpack(m)
    if len(u) == 1 and u[0][1] == 1:
        return u[0][0]
    return None


def func(name, args, positive=False):
    """uninterpreted function application"""
    args = tuple(args)
    key = (name, tuple(a.key() if isinstance(a, T) else a for a in args))
    return gen_term(_mkgen("fn", key, (name, args, ()), "%s(%s)" % (name, ", ".join(short(a) for a in args)), positive))


def _fnderiv(name, args, idx):
    key = (name, tuple(a.key() if isinstance(a, T) else a for a in args), idx)
    return gen_term(_mkgen("fnd", key, (name, args, idx), "D%s%s(%s)" % (list(idx), name, ", ".join(short(a) for a in args))))


PI = gen_term(_mkgen("sym", "pi", None, "pi", True))
EULER = gen_term(_mkgen("sym", "E", None, "E", True))
IMAG = gen_term(_mkgen("root", ("I",), (None, 2), "I", False, 2, {0: -1}))


def _neg_canonical(t):
    """True if t should be negated to be canonical"""
    if not t.n:
        return False
    return t.c < 0


def _monoterms(t):
    """write t as list of (coef Fraction, T with c=1 single monomial / den)"""
    out = []
    for m, c in sorted(t.n.items()):
        out.append((t.c * c, _mk(Fraction(1), {m: 1}, _dd(t))))
    # merge normalisation: each piece may have c != 1
    res = []
    for c, x in out:
        res.append((c * x.c, T(Fraction(1), x.n, x.d)))
    return res


def _trig_base(t):
    """sin, cos of a single canonical base term (not split)"""
    g = is_gen(t)
    if g is not None:
        if g.kind == "atan2":
            y, x = g.data
            rho = sqrt(add(mul(y, y), mul(x, x)))
            return mul(y, inv(rho)), mul(x, inv(rho))
        if g.kind == "acos":
            u, = g.data
            return sqrt(ONE - u * u), u
        if g.kind == "asin":
            u, = g.data
            return u, sqrt(ONE - u * u)
        if g.kind == "atan":
            u, = g.data
            w = sqrt(ONE + u * u)
            return u / w, ONE / w
    k = t.key()
    s = _mkgen("sin", k, (t,), "sin(%s)" % short(t))
    c = _INTERN.get(("cos", k))
    if c is None:
        c = _mkgen("cos", k, (t,), "cos(%s)" % short(t), False, 2, {0: 1, 2 * s.one: -1})
    return gen_term(s), gen_term(c)


_SC = {}


def sincos(t):
    k = t.key()
    r = _SC.get(k)
    if r is None:
        r = _sincos(t)
        _SC[k] = r
    return r


def _sincos(t):
    if not t.n:
        return ZERO, ONE
    if t.c < 0:
        s, c = sincos(-t)
        return -s, c
    S, C = ZERO, ONE
    for co, base in _monoterms(t):
        if equal(base, PI):
            # exact multiples
            k = co % 2
            tab = {Fraction(0): (0, 1), Fraction(1, 2): (1, 0), Fraction(1): (0, -1), Fraction(3, 2): (-1, 0)}
            if k in tab:
                s, c = (T.const(tab[k][0]), T.const(tab[k][1]))
            else:
                s, c = _pi_frac(k)
        else:
            neg = co < 0
            co = abs(co)
            num, den = co.numerator, co.denominator
            b = base if den == 1 else mul(base, T.const(Fraction(1, den)))
            if num > 24:
                b = mul(base, T.const(co))
                num = 1
            s1, c1 = _trig_base(b)
            s, c = s1, c1
            for _ in range(num - 1):
                s, c = s * c1 + c * s1, c * c1 - s * s1
            if neg:
                s = -s
        S, C = S * c + C * s, C * c - S * s
    return S, C


def _pi_frac(k):
    half = T.const(Fraction(1, 2))
    s2 = power(T.const(2), half) * half
    s3 = power(T.const(3), half) * half
    tab = {Fraction(1, 4): (s2, s2), Fraction(1, 6): (half, s3), Fraction(1, 3): (s3, half)}
    sx, cx = 1, 1
    kk = k
    if kk > 1:
        kk = 2 - kk
        sx = -1
    if kk > Fraction(1, 2):
        kk = 1 - kk
        cx = -1
    if kk in tab:
        s, c = tab[kk]
        return s * sx, c * cx
    return _trig_base(mul(PI, T.const(k)))


def sin(t):
    return sincos(as_t(t))[0]


def cos(t):
    return sincos(as_t(t))[1]


def tan(t):
    s, c = sincos(as_t(t))
    return s / c


EXPD = 12


def exp(t):
    t = as_t(t)
    if not t.n:
        return ONE
    g = is_gen(t)
    if g is not None and g.kind == "log":
        return g.data[0]
    r = ONE
    for co, base in _monoterms(t):
        bg = is_gen(base)
        if bg is not None and bg.kind == "log":
            r = r * power(bg.data[0], T.const(co))
            continue
        e = co * EXPD
        if e.denominator == 1 and abs(e) < 4000:
            gg = _mkgen("exp", (base.key(), EXPD), (mul(base, T.const(Fraction(1, EXPD))),),
                        "exp(%s/%d)" % (short(base), EXPD), not is_cx(base))
            ee = int(e)
        else:
            bb = mul(base, T.const(abs(co)))
            gg = _mkgen("exp", (bb.key(), 1), (bb,), "exp(%s)" % short(bb), not is_cx(bb))
            ee = 1 if co > 0 else -1
        x = T(Fraction(1), {abs(ee) << gg.shift: 1}, ())
        r = r * (x if ee > 0 else inv(x))
    return r


def sinh(t):
    t = as_t(t)
    return (exp(t) - exp(-t)) / 2


def cosh(t):
    t = as_t(t)
    return (exp(t) + exp(-t)) / 2


def log(t):
    t = as_t(t)
    if t == ONE:
        return ZERO
    g = is_gen(t)
    if g is EULER_G:
        return ONE
    if g is not None and g.kind == "exp":
        return g.data[0]
    return gen_term(_mkgen("log", t.key(), (t,), "log(%s)" % short(t)))


EULER_G = is_gen(EULER)


_CX = {}


def _gen_cx(g):
    r = _CX.get(g.id)
    if r is None:
        if g.kind == "root" and g.data[0] is None:
            r = True
        elif g.kind in ("sym", "abs"):
            r = False
        else:
            r = any(is_cx(x) for x in _flat(g.data))
        _CX[g.id] = r
    return r


def _flat(d):
    if isinstance(d, T):
        yield d
    elif isinstance(d, (tuple, list)):
        for x in d:
            yield from _flat(x)


def is_cx(t):
    """the term may take non-real values for real symbols: it contains the imaginary unit outside an absolute value"""
    return any(_gen_cx(g) for g in gens_of(t))


def positive(t):
    """syntactic positivity (sound, incomplete)"""
    if not t.n:
        return False
    if is_cx(t):
        return False
    if t.c < 0:
        return False
    return _ppos(t.n) and all(_ppos(_FACTS[i].p) or e % 2 == 0 for i, e in t.d)


POSITIVE_POLYS = set()


def declare_positive(t):
    t = as_t(t)
    POSITIVE_POLYS.add(frozenset(t.n.items()))


def _ppos(p):
    if frozenset(p.items()) in POSITIVE_POLYS:
        return True
    if _ppos0(p):
        return True
    # rewrite sin^2 as 1 - cos^2
    ss = {}
    for m in p:
        for g, e in _unpack(m):
            if g.kind == "sin" and e >= 2:
                ss[g.id] = g
    for g in ss.values():
        c = _INTERN.get(("cos", g.key))
        q = {}
        for m, co in p.items():
            e = (m >> g.shift) & SMASK
            k = e // 2
            base = m - (2 * k << g.shift)
            # (1-c^2)^k
            from math import comb
            for j in range(k + 1):
                mm = base + (2 * j << c.shift)
                v = q.get(mm, 0) + co * comb(k, j) * (-1) ** j
                if v:
                    q[mm] = v
                else:
                    q.pop(mm, None)
        if _ppos0(q):
            return True
    return False


def _ppos0(p):
    strict = False
    for m, c in p.items():
        if c < 0:
            return False
        ok = True
        st = True
        for g, e in _unpack(m):
            if g.positive or g.kind == "root" and g.data[0] is not None or g.kind == "abs":
                continue
            if e % 2:
                ok = False
                break
        if not ok:
            return False
    return True


def absval(t):
    t = as_t(t)
    c = t.as_const()
    if c is not None:
        return T.const(abs(c))
    if positive(t):
        return t
    if positive(-t):
        return -t
    if t.c < 0:
        t = -t
    if t.d:
        num = T(Fraction(1), t.n, ())
        den = inv(T(Fraction(1), {0: 1}, t.d))
        return absval(num) / absval(den) * T.const(abs(t.c))
    co = t.c
    r = T.const(abs(co))
    for f, e in factor_poly(t.n):
        ft = _mk(Fraction(1), f, {})
        cc = _gauss(ft) if is_cx(ft) else None
        if cc is not None:
            x = root(T.const(cc[0] * cc[0] + cc[1] * cc[1]), 2)
        elif is_cx(ft):
            x = ONE if ft.c == 1 and is_gen(ft) is is_gen(IMAG) else \
                gen_term(_mkgen("abs", frozenset(f.items()), (ft,), "|%s|" % short(ft), True))
        elif positive(-ft):
            x = -ft
        elif positive(ft) or e % 2 == 0:
            x = ft
        else:
            x = gen_term(_mkgen("abs", frozenset(f.items()), (ft,), "|%s|" % short(ft), False, 2, _pmul(f, f)))
        for _ in range(e):
            r = r * x
    return r


def _gauss(t):
    """(re, im) of a number with rational parts, else None"""
    r = [0, 0]
    if t.d:
        return None
    for m, c in t.n.items():
        g = list(_unpack(m))
        if not g:
            r[0] += c * t.c
        elif len(g) == 1 and g[0][1] == 1 and g[0][0] is is_gen(IMAG):
            r[1] += c * t.c
        else:
            return None
    return r


def sqrt(t):
    return root(as_t(t), 2)


_ROOT = {}


def root(t, q):
    """principal q-th root"""
    if is_cx(t) and t.n:
        raise TermError("root of the complex term %s" % short(t))
    k = (t.key(), q)
    r = _ROOT.get(k)
    if r is None:
        r = _root(t, q)
        _ROOT[k] = r
    return r


def _int_factor(n):
    out = {}
    p = 2
    while p * p <= n and p < 100000:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        p += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def _int_root(n, q):
    """q-th root of positive int as term"""
    r = ONE
    rest = 1
    for p, e in _int_factor(n).items():
        k, rem = divmod(e, q)
        r = r * T.const(p ** k)
        if rem:
            g = _root_gen({0: p}, q)
            x = gen_term(g)
            for _ in range(rem):
                r = r * x
    return r


def _root_gen(poly, q):
    t = _mk(Fraction(1), poly, {})
    return _mkgen("root", (frozenset(poly.items()), q), (t, q),
                  ("sqrt(%s)" % short(t)) if q == 2 else "(%s)^(1/%d)" % (short(t), q), False, q, dict(poly))


def _root(t, q):
    if not t.n:
        return ZERO
    # t = c * n / d ; make denominator a q-th power
    c = t.c
    n = t.n
    out = ONE
    # rational content
    num = c.numerator
    den = c.denominator
    neg = num < 0
    num = abs(num)
    out = _int_root(num * den ** (q - 1), q) / den
    pend = dict(n)
    if neg:
        if q % 2:
            out = -out
        else:
            pend = {m: -v for m, v in n.items()}
    fl = []
    sign = 1
    k, prim = _primitive(pend)   # k == -1 if neg
    if k < 0 and q % 2 == 0:
        sign = -1
    for f, e in factor_poly(prim):
        if len(f) == 1 and 0 in f:
            out = out * _int_root(abs(f[0]), q)
            if f[0] < 0:
                sign = -sign
            continue
        fl.append((f, e))
    for i, e in t.d:
        fl.append((_FACTS[i].p, -e))
    flip = []
    for f, e in fl:
        ft = _mk(Fraction(1), f, {})
        kk, rem = divmod(e, q)
        if kk:
            base = ft
            if q % 2 == 0 and kk % 2:
                base = absval(ft)
            x = base if kk > 0 else inv(base)
            for _ in range(abs(kk)):
                out = out * x
        if rem:
            if rem % 2 and positive(-ft):
                f = {m: -v for m, v in f.items()}
                ft = -ft
                sign = -sign
            flip.append((f, ft, rem))
    if sign < 0:
        # distribute the sign: find an odd factor that is not known to be positive and negate it
        done = False
        for i, (f, ft, rem) in enumerate(flip):
            if rem % 2 and not positive(ft):
                nf = {m: -v for m, v in f.items()}
                flip[i] = (nf, -ft, rem)
                done = True
                break
        if not done:
            if q == 2:
                out = out * IMAG
            else:
                flip.append(({0: -1}, -ONE, 1))
    for f, ft, rem in flip:
        g = _root_gen(f, q)
        x = gen_term(g)
        for _ in range(rem):
            out = out * x
    return out


def power(b, e):
    ec = e.as_const()
    if ec is not None:
        if ec.denominator == 1:
            n = int(ec)
            if n == 0:
                return ONE
            if n < 0:
                return power(inv(b), T.const(-n))
            if n > 64:
                return gen_term(_mkgen("pow", (b.key(), e.key()), (b, e), "(%s)^%s" % (short(b), short(e))))
            r = None
            base = b
            while n:
                if n & 1:
                    r = base if r is None else r * base
                n >>= 1
                if n:
                    base = base * base
            return r
        bg = is_gen(b)
        if bg is not None and bg.kind == "exp":
            return exp(bg.data[0] * e)
        if ec.denominator > 64:
            k = ec.numerator // ec.denominator
            fr = ec - k
            x = gen_term(_mkgen("pow", (b.key(), T.const(fr).key()), (b, T.const(fr)), "(%s)^%s" % (short(b), fr)))
            return x * power(b, T.const(k))
        r = root(b, ec.denominator)
        return power(r, T.const(ec.numerator))
    if b == ONE:
        return ONE
    if b == EULER:
        return exp(e)
    bg = is_gen(b)
    if bg is not None and bg.kind == "exp":
        return exp(bg.data[0] * e)
    if bg is not None and bg.kind == "pow":
        return power(bg.data[0], bg.data[1] * e)
    # symbolic exponent: base^(sum c_i m_i) = prod (base^m_i)^c_i
    if not b.n:
        return gen_term(_mkgen("pow", (b.key(), e.key()), (b, e), "0^%s" % short(e)))
    r = ONE
    for co, base in _monoterms(e):
        if base == ONE:
            r = r * power(b, T.const(co))
            continue
        # orient the base canonically: if numerator is constant, invert
        bb, sgn = b, 1
        if len(b.n) == 1 and 0 in b.n and b.d:
            bb, sgn = inv(b), -1
        cc = co * sgn
        x = gen_term(_mkgen("pow", (bb.key(), (base * T.const(Fraction(1, cc.denominator))).key()),
                            (bb, base * T.const(Fraction(1, cc.denominator))),
                            "(%s)^(%s/%d)" % (short(bb), short(base), cc.denominator)))
        r = r * power(x, T.const(cc.numerator))
    return r


def atan2(y, x):
    y, x = as_t(y), as_t(x)
    if not y.n and positive(x):
        return ZERO
    # strip common positive factor
    return gen_term(_mkgen("atan2", (y.key(), x.key()), (y, x), "atan2(%s, %s)" % (short(y), short(x))))


def acos(u):
    u = as_t(u)
    c = u.as_const()
    if c is not None:
        if c == 1:
            return ZERO
        if c == 0:
            return PI / 2
        if c == -1:
            return PI
    return gen_term(_mkgen("acos", u.key(), (u,), "acos(%s)" % short(u)))


def asin(u):
    u = as_t(u)
    if u.is_zero():
        return ZERO
    return gen_term(_mkgen("asin", u.key(), (u,), "asin(%s)" % short(u)))


def atan(u):
    u = as_t(u)
    if u.is_zero():
        return ZERO
    return gen_term(_mkgen("atan", u.key(), (u,), "atan(%s)" % short(u)))


def bessel(n, x):
    n, x = as_t(n), as_t(x)
    nc = n.as_const()
    if nc == -1:
        return -bessel(ONE, x)
    return gen_term(_mkgen("bessel", (n.key(), x.key()), (n, x), "J%s(%s)" % (short(n), short(x))))


# ------------------------------------------------------------------ traversal

def gens_of(t):
    out = {}
    for m in t.n:
        for g, _ in _unpack(m):
            out[g.id] = g
    for i, _ in t.d:
        for m in _FACTS[i].p:
            for g, _ in _unpack(m):
                out[g.id] = g
    return [out[i] for i in sorted(out)]


def deep_gens(t, acc=None):
    """all generators occurring in t, including inside arguments"""
    if acc is None:
        acc = {}
    for g in gens_of(t):
        if g.id in acc:
            continue
        acc[g.id] = g
        for a in gen_args(g):
            if isinstance(a, T):
                deep_gens(a, acc)
    return acc


def gen_args(g):
    k = g.kind
    if k == "sym":
        return ()
    if k in ("fn", "fnd"):
        return g.data[1]
    if k == "root":
        return (g.data[0],) if g.data[0] is not None else ()
    return g.data


_DG = {}
DERIV_HOOKS = []   # callables (gen, var) -> T or None for uninterpreted functions


def _dgen(g, v):
    k = (g.id, v.id)
    r = _DG.get(k)
    if r is None:
        r = _dgen0(g, v)
        _DG[k] = r
    return r


def _dgen0(g, v):
    if g is v:
        return ONE
    k = g.kind
    if k == "sym":
        return ZERO
    if k in ("fn", "fnd"):
        for h in DERIV_HOOKS:
            r = h(g, v)
            if r is not None:
                return r
        name, args, idx = g.data
        r = ZERO
        for i, a in enumerate(args):
            if not isinstance(a, T):
                continue
            da = diffg(a, v)
            if da.n:
                r = r + _fnderiv(name, args, tuple(sorted(idx + (i,)))) * da
        return r
    if k == "sin":
        a, = g.data
        return cos(a) * diffg(a, v)
    if k == "cos":
        a, = g.data
        return -sin(a) * diffg(a, v)
    if k == "exp":
        a, = g.data
        return gen_term(g) * diffg(a, v)
    if k == "log":
        a, = g.data
        return diffg(a, v) / a
    if k == "root":
        a, q = g.data
        if a is None:
            return ZERO
        da = diffg(a, v)
        if not da.n:
            return ZERO
        return gen_term(g) * da / (a * q)
    if k == "pow":
        b, e = g.data
        r = ZERO
        db = diffg(b, v)
        if db.n:
            r = r + e * gen_term(g) / b * db
        de = diffg(e, v)
        if de.n:
            r = r + gen_term(g) * log(b) * de
        return r
    if k == "abs":
        a, = g.data
        da = diffg(a, v)
        if not da.n:
            return ZERO
        return gen_term(g) / a * da
    if k == "atan2":
        y, x = g.data
        dy, dx = diffg(y, v), diffg(x, v)
        if not dy.n and not dx.n:
            return ZERO
        return (x * dy - y * dx) / (x * x + y * y)
    if k == "acos":
        a, = g.data
        da = diffg(a, v)
        if not da.n:
            return ZERO
        return -da / sqrt(ONE - a * a)
    if k == "asin":
        a, = g.data
        da = diffg(a, v)
        if not da.n:
            return ZERO
        return da / sqrt(ONE - a * a)
    if k == "atan":
        a, = g.data
        return diffg(a, v) / (ONE + a * a)
    if k == "bessel":
        n, x = g.data
        dx = diffg(x, v)
        if not dx.n:
            return ZERO
        nc = n.as_const()
        if nc == 0:
            return -bessel(1, x) * dx
        if nc == 1:
            return (bessel(0, x) - bessel(1, x) / x) * dx
        return (bessel(n - 1, x) - n * bessel(n, x) / x) * dx
    raise TermError("no derivative for %s" % k)


def _dpoly(p, v):
    r = ZERO
    byg = {}
    for m, c in p.items():
        for g, e in _unpack(m):
            byg.setdefault(g.id, {})[m - g.one] = c * e
    for gid, q in byg.items():
        dg = _dgen(GENS[gid], v)
        if dg.n:
            r = r + _mk(Fraction(1), _preduce(q), {}) * dg
    return r


_DT = {}


def diffg(t, v):
    if not t.n:
        return ZERO
    k = (t.key(), v.id)
    r = _DT.get(k)
    if r is not None:
        return r
    den = T(Fraction(1), {0: 1}, t.d)
    r = _dpoly(t.n, v)
    r = T(r.c * t.c, r.n, r.d) if r.n else r
    r = r * den if t.d else r
    if t.d:
        for i, e in t.d:
            f = _FACTS[i]
            df = _dpoly(f.p, v)
            if df.n:
                r = r - t * df * T.const(e) / _mk(Fraction(1), f.p, {})
    _DT[k] = r
    return r


def diff(t, v):
    g = is_gen(as_t(v))
    if g is None:
        raise TermError("derivative with respect to a non-generator %r" % (v,))
    return diffg(as_t(t), g)


def subs(t, mapping):
    """mapping: list/dict of generator-term -> term (simultaneous)"""
    if isinstance(mapping, dict):
        items = list(mapping.items())
    else:
        items = list(mapping)
    mp = {}
    for k, v in items:
        g = is_gen(as_t(k))
        if g is None:
            raise TermError("substitution of a non-generator %r" % (k,))
        mp[g.id] = as_t(v)
    cache = {}
    return _subs(as_t(t), mp, cache)


def _subs(t, mp, cache):
    k = t.key()
    r = cache.get(k)
    if r is not None:
        return r
    gs = gens_of(t)
    new = {}
    changed = False
    for g in gs:
        x = _subs_gen(g, mp, cache)
        new[g.id] = x
        if is_gen(x) is not g:
            changed = True
    if not changed:
        r = t
    else:
        r = _subs_poly(t.n, new) * T.const(t.c)
        for i, e in t.d:
            f = _subs_poly(_FACTS[i].p, new)
            fi = inv(f)
            for _ in range(e):
                r = r * fi
    cache[k] = r
    return r


def _subs_poly(p, new):
    # group unchanged monomial parts for efficiency
    r = ZERO
    ch = [GENS[i] for i, x in new.items() if is_gen(x) is not GENS[i]]
    mask = 0
    for g in ch:
        mask |= SMASK << g.shift
    groups = {}
    for m, c in p.items():
        a = m & mask
        groups.setdefault(a, {})[m & ~mask] = c
    pw = {}
    for a, q in groups.items():
        x = _mk(Fraction(1), q, {})
        for g, e in _unpack(a):
            kk = (g.id, e)
            y = pw.get(kk)
            if y is None:
                y = power(new[g.id], T.const(e))
                pw[kk] = y
            x = x * y
        r = r + x
    return r


def _subs_gen(g, mp, cache):
    if g.id in mp:
        return mp[g.id]
    if g.kind == "sym":
        return gen_term(g)
    k = ("g", g.id)
    r = cache.get(k)
    if r is not None:
        return r
    args = gen_args(g)
    nargs = tuple(_subs(a, mp, cache) if isinstance(a, T) else a for a in args)
    if all((not isinstance(a, T)) or a.key() == b.key() for a, b in zip(args, nargs)):
        r = gen_term(g)
    else:
        r = rebuild(g, nargs)
    cache[k] = r
    return r


def rebuild(g, a):
    k = g.kind
    if k == "fn":
        return func(g.data[0], a)
    if k == "fnd":
        return _fnderiv(g.data[0], tuple(a), g.data[2])
    if k == "sin":
        return sin(a[0])
    if k == "cos":
        return cos(a[0])
    if k == "exp":
        return exp(a[0])
    if k == "log":
        return log(a[0])
    if k == "root":
        return root(a[0], g.data[1]) if g.data[0] is not None else gen_term(g)
    if k == "pow":
        return power(a[0], a[1])
    if k == "abs":
        return absval(a[0])
    if k == "atan2":
        return atan2(*a)
    if k == "acos":
        return acos(*a)
    if k == "asin":
        return asin(*a)
    if k == "atan":
        return atan(*a)
    if k == "bessel":
        return bessel(*a)
    raise TermError("rebuild %s" % k)


# ------------------------------------------------------------------ printing

def _showpoly(p, limit=12):
    out = []
    for i, m in enumerate(sorted(p, reverse=True)):
        if i >= limit:
            out.append("... (%d terms)" % len(p))
            break
        c = p[m]
        fs = ["%s" % g.name if e == 1 else "%s^%d" % (g.name, e) for g, e in _unpack(m)]
        if not fs:
            out.append(str(c))
        elif c == 1:
            out.append("*".join(fs))
        elif c == -1:
            out.append("-" + "*".join(fs))
        else:
            out.append("%d*" % c + "*".join(fs))
    return " + ".join(out).replace("+ -", "- ")


def show(t, limit=12):
    if not t.n:
        return "0"
    n = _showpoly(t.n, limit)
    if len(t.n) > 1 and (t.d or t.c != 1):
        n = "(%s)" % n
    if t.c != 1:
        n = "%s*%s" % (t.c, n) if n != "1" else str(t.c)
    if t.d:
        ds = []
        for i, e in t.d:
            s = _showpoly(_FACTS[i].p, limit)
            if len(_FACTS[i].p) > 1:
                s = "(%s)" % s
            ds.append(s if e == 1 else "%s^%d" % (s, e))
        n += " / (" + "*".join(ds) + ")"
    return n


def short(t):
    if not isinstance(t, T):
        return str(t)
    s = show(t, 4)
    return s if len(s) < 80 else s[:77] + "..."
