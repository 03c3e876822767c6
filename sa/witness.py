"""Disequality certificates for the term domain.

The canonical form in terms.py is complete for rational functions over
independent generators but not for every identity between nested radicals,
inverse trigonometric functions and the like.  Before the checker reports that
two *terms* differ it therefore asks for a separating point: an assignment of
the free symbols (consistent with the path predicates under which the terms are
compared) at which the two terms take different values.  If no separating point
exists among the samples, the obligation is recorded as discharged by identity
testing instead of by normal form.  Only terms are evaluated here, never code.
"""
import hashlib
import random
import mpmath
from mpmath import mp, mpf, mpc
from . import terms as tm
from .values import Ite

mp.dps = 40


class Bad(Exception):
    pass


class Nan(Bad):
    """the value of the term is not a number"""


def _h(name, args):
    s = name + "|" + "|".join(mpmath.nstr(a, 12) for a in args)
    d = hashlib.sha256(s.encode()).digest()
    return mpf(int.from_bytes(d[:8], "big")) / 2 ** 64 * 2 + mpf("0.35")


class Env:
    def __init__(self, syms, real=True, mixed=False):
        self.syms = syms          # gen id -> mpf
        self.cache = {}
        self.real = real
        self.mixed = mixed        # uninterpreted functions take negative values too

    def gen(self, g):
        r = self.cache.get(g.id)
        if r is None:
            r = self._gen(g)
            self.cache[g.id] = r
        return r

    def chk(self, x):
        if self.real and isinstance(x, mpc):
            if abs(x.imag) < mpf(10) ** -30 * (1 + abs(x.real)):
                return x.real
            raise Bad()
        return x

    def _gen(self, g):
        k = g.kind
        if k == "sym":
            if g.name == "pi":
                return mp.pi
            if g.name == "E":
                return mp.e
            if g.name == "nan":
                raise Nan()
            return self.syms[g.id]
        if k == "root" and g.data[0] is None:
            if self.real:
                raise Bad()
            return mpc(0, 1)
        if k in ("fn", "fnd"):
            nm, args, idx = g.data
            av = [self.term(a) if isinstance(a, tm.T) else mpf(_hstr(a)) for a in args]
            if k == "fn" and nm == "floor":
                return mp.floor(av[0])
            if k == "fn" and nm == "ceil":
                return mp.ceil(av[0])
            if k == "fn" and nm == "rint":
                return mp.nint(av[0])
            if k == "fn" and nm == "trunc":
                return mpf(int(av[0]))
            if k == "fn" and nm == "mod":
                return av[0] - av[1] * mp.floor(av[0] / av[1])
            v = _h("%s%r" % (nm, idx), av)
            if k == "fn":
                return -v if self.mixed and not g.positive and _h("sign" + nm, av) < mpf("1.05") else v
            return v if g.positive else v - mpf("1.3")
        a = [self.term(x) if isinstance(x, tm.T) else x for x in g.data]
        if k == "sin":
            return mp.sin(a[0])
        if k == "cos":
            return mp.cos(a[0])
        if k == "exp":
            if abs(a[0]) > 2000:
                raise Bad()
            return mp.exp(a[0])
        if k == "log":
            if a[0] == 0:
                raise Bad()
            return self.chk(mp.log(a[0]))
        if k == "root":
            if a[0] == 0:
                return mpf(0)
            return self.chk(mp.root(a[0], g.q)) if a[0] > 0 or not self.real else self.bad()
        if k == "pow":
            if a[0] == 0:
                raise Bad()
            if abs(a[1]) > 2000:
                raise Bad()
            return self.chk(mp.power(a[0], a[1]))
        if k == "abs":
            return abs(a[0])
        if k == "atan2":
            return mp.atan2(a[0], a[1])
        if k == "acos":
            return self.chk(mp.acos(a[0]))
        if k == "asin":
            return self.chk(mp.asin(a[0]))
        if k == "atan":
            return mp.atan(a[0])
        if k == "bessel":
            return self.chk(mp.besselj(a[0], a[1]))
        raise Bad()

    def bad(self):
        raise Bad()

    def poly(self, p):
        s = mpf(0)
        mag = mpf(0)
        for m, c in p.items():
            v = mpf(c)
            for g, e in tm._unpack(m):
                v = v * self.gen(g) ** e
            s += v
            mag += abs(v)
        return s, mag

    def term2(self, t):
        """(value, magnitude of the largest cancellation)"""
        if not t.n:
            return mpf(0), mpf(0)
        s, mag = self.poly(t.n)
        f = mpf(t.c.numerator) / t.c.denominator
        for i, e in t.d:
            d, dm = self.poly(tm._FACTS[i].p)
            if abs(d) <= dm * mpf(10) ** -25:
                raise Bad()
            f = f / d ** e
        return s * f, abs(mag * f)

    def term(self, t):
        return self.term2(t)[0]


def _hstr(x):
    return int.from_bytes(hashlib.sha256(repr(x).encode()).digest()[:4], "big")


def syms_of(ts):
    acc = {}
    for t in ts:
        tm.deep_gens(t, acc)
    return {i: g for i, g in acc.items() if g.kind == "sym"}


def _fact_terms(facts):
    from .values import ATOMS
    out = []
    for i, v in facts.items():
        a = ATOMS[i]
        if a.kind in ("eqz", "gtz"):
            out.append((a, v))
    return out


def guard_terms(b, acc=None, seen=None):
    if acc is None:
        acc, seen = [], set()
    if isinstance(b, Ite) and id(b) not in seen:
        seen.add(id(b))
        if b.a.kind in ("eqz", "gtz"):
            acc.append(b.a.data)
        guard_terms(b.t, acc, seen)
        guard_terms(b.f, acc, seen)
    return acc


def _truth(env, b, facts):
    """three-valued evaluation of a gated boolean at a point (None = unknown)"""
    if not isinstance(b, Ite):
        return b if isinstance(b, bool) else None
    if b.a.id in facts and b.a.kind not in ("eqz", "gtz"):
        return _truth(env, b.t if facts[b.a.id] else b.f, facts)
    if b.a.kind == "gtz":
        return _truth(env, b.t if env.term(b.a.data) > 0 else b.f, facts)
    if b.a.kind == "eqz":
        v, m = env.term2(b.a.data)
        return _truth(env, b.t if abs(v) <= m * mpf(10) ** -25 else b.f, facts)
    x, y = _truth(env, b.t, facts), _truth(env, b.f, facts)
    return x if x == y else None


_SPECIAL = ["1", "2", "0.5", "3", "1.25", "0.75"]


STAT = {"tried": 0, "evaluated": 0}


def sample_points(ts, facts, guard=True, n=6, tries=4000, ranges=None, seed=7, relax=False):
    """yield environments satisfying the facts and the guard"""
    rng = random.Random(seed)
    ft = _fact_terms(facts)
    gt = guard_terms(guard)
    syms = syms_of(list(ts) + [a.data for a, _ in ft] + gt)
    sy = [g for g in syms.values() if g.name not in ("pi", "E", "nan")]
    pos = []
    for key in tm.POSITIVE_POLYS:
        t = tm.T(tm.Fraction(1), dict(key), ())
        if all(i in syms for i in syms_of([t])):
            pos.append(t)
    got = 0
    STAT["evaluated"] = STAT["tried"] = 0
    cx = any(tm._gen_cx(g) for t in list(ts) + [a.data for a, _ in ft] + gt for g in tm.deep_gens(t).values())
    real = not cx
    if _trig_contradiction(ft):
        return
    if any(a.kind == "eqz" and v for a, v in ft):
        tries = min(tries, 600)
    for k in range(tries):
        if k == tries * 3 // 4 and got == 0:
            real = False
        vals = {}
        mode = k % 4
        for g in sy:
            if ranges and g.name in ranges:
                lo, hi = ranges[g.name]
                v = mpf(lo) + (mpf(hi) - lo) * mpf(rng.random())
            elif mode == 3:
                v = mpf(10) ** mpf(rng.uniform(-3, 5))
            elif mode == 2:
                v = mpf(10) ** mpf(rng.uniform(-1, 2))
            else:
                v = mpf(rng.uniform(0.05, 3))
            if not g.positive and rng.random() < 0.4 and not (ranges and g.name in ranges):
                v = -v
            vals[g.id] = v
        env = Env(vals, real, k % 8 >= 4)
        STAT["tried"] += 1
        try:
            for t in ts:
                env.term(t)
            for a, v in ft:
                if isinstance(env.term(a.data), mpc):
                    raise Bad()
            STAT["evaluated"] += 1
        except (Bad, ZeroDivisionError, OverflowError, ValueError, TypeError):
            pass
        try:
            ok = True
            # repair failing predicates that are affine in one symbol
            for rep in range(4):
                ok = True
                for a, v in ft:
                    x, m = env.term2(a.data)
                    if isinstance(x, mpc):
                        raise Bad()
                    if a.kind == "gtz":
                        good = (x > m * mpf(10) ** -25) == v
                    else:
                        good = (abs(x) <= m * mpf(10) ** -25) == v
                    if not good:
                        ok = False
                        if not _repair(env, a, v, sy, rng, k % 5 == 4):
                            raise Bad()
                        env = Env(env.syms, real, env.mixed)
                        break
                if ok:
                    break
            if not ok:
                continue
            for t in pos:
                if not env.term(t) > 0:
                    raise Bad()
            if guard is not True and _truth(env, guard, facts) is False:
                continue
        except (Bad, ZeroDivisionError, OverflowError, ValueError, TypeError):
            continue
        got += 1
        yield env
        if got >= n:
            return


def _trig_contradiction(ft):
    """sin(u) = 0 and cos(u) = 0 cannot both hold"""
    z = {}
    for a, v in ft:
        if a.kind == "eqz" and v:
            for g in tm.gens_of(a.data):
                if g.kind in ("sin", "cos") and tm.equal(a.data, tm.gen_term(g)):
                    z.setdefault(repr(g.key).replace("sin", "").replace("cos", ""), set()).add(g.kind)
    return any(len(s) > 1 for s in z.values())


def _repair(env, a, v, sy, rng, edge=False):
    t = a.data
    mine = [g for g in sy if g.id in syms_of([t])]
    rng.shuffle(mine)
    for g in mine:
        d = tm.diffg(t, g)
        if g.id in syms_of([d]):
            # not affine: random restarts / bracketing
            if a.kind == "gtz":
                for _ in range(6):
                    old = env.syms[g.id]
                    env.syms[g.id] = old * mpf(10) ** mpf(rng.uniform(-3, 3)) * (1 if g.positive or rng.random() < .6 else -1)
                    e2 = Env(env.syms, env.real, env.mixed)
                    try:
                        if (e2.term(t) > 0) == v:
                            return True
                    except Bad:
                        pass
                    env.syms[g.id] = old
            elif v:
                # Newton on the single symbol
                x = env.syms[g.id]
                try:
                    for _ in range(60):
                        e2 = Env({**env.syms, g.id: x}, env.real, env.mixed)
                        fx, m = e2.term2(t)
                        if abs(fx) <= m * mpf(10) ** -32:
                            break
                        x = x - fx / e2.term(d)
                    if isinstance(x, mpf) and not (g.positive and x <= 0):
                        env.syms[g.id] = x
                        return True
                except (Bad, ZeroDivisionError):
                    pass
            continue
        try:
            slope = env.term(d)
            cur = env.term(t)
        except Bad:
            continue
        if slope == 0:
            continue
        root = env.syms[g.id] - cur / slope
        if a.kind == "eqz":
            x = root if v else root + 1
        else:
            step = mpf(rng.uniform(0.01, 2)) * (abs(root) if root else 1)
            x = root if edge and not v else root + (step if (slope > 0) == v else -step)
        if g.positive and x <= 0:
            if a.kind == "gtz" and root > 0:
                x = root * mpf(rng.uniform(0.05, 0.95))
            else:
                continue
        env.syms[g.id] = x
        return True
    return False


def separate(a, b, facts, guard=True, ranges=None, modulo=None):
    """('diff', point description) | ('same', points) | ('unreachable', 0): no point satisfies the conditions |
    ('blind', evaluated): the terms and conditions could hardly be evaluated anywhere"""
    n = 0
    if _trig_contradiction(_fact_terms(facts)):
        return "contradiction", 0
    for env in sample_points([a, b], facts, guard, ranges=ranges):
        v = []
        for q in (a, b):
            try:
                v.append(env.term2(q))
            except Nan:
                v.append("nan")
            except (Bad, ZeroDivisionError, OverflowError):
                v.append(None)
        if None in v:
            continue
        n += 1
        if "nan" in v:
            if v[0] != v[1]:
                return "diff", "not a number on one side"
            continue
        (x, mx), (y, my) = v
        d = abs(x - y)
        if modulo is not None:
            q = (x - y) / modulo
            d = abs(q - mp.nint(q))
        if d > (mx + my) * mpf(10) ** -18 and d > max(abs(x), abs(y)) * mpf(10) ** -16:
            names = {tm.GENS[i].name: mpmath.nstr(v, 6) for i, v in env.syms.items()}
            return "diff", "at %s: %s versus %s" % (
                ", ".join("%s=%s" % kv for kv in sorted(names.items())), mpmath.nstr(x, 10), mpmath.nstr(y, 10))
    if n:
        return "same", n
    return ("unreachable", 0) if STAT["evaluated"] >= min(50, STAT["tried"] / 10) else ("blind", STAT["evaluated"])


def reachable(facts, guard=True, ranges=None):
    for env in sample_points([], facts, guard, n=1, ranges=ranges):
        return env
    return None
