"""Obligation bookkeeping: a check states obligations (abstract value produced by the
analysed code versus the value its specification prescribes), the harness decides them in
the term domain, prints the verdict and writes the evidence file."""
import ast
import hashlib
import json
import os
import sys
import time
import traceback

from . import terms as tm
from .terms import T
from .values import (AnalysisError, SplitNeeded, Ite, Ref, QuantV, Unit, Opaque, ExcV, ExtV, ClassV, FuncV, Inst, Seq,
                     Dct, Arr, UNDEF, restrict, implied, b_and, b_or, b_not, ite, same, atom, leaves, ModuleV, WrapV,
                     BoundV, Method, PyFn)
from . import witness
from .interp import Interp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")
SRC = os.path.join(REPO, "src")
MAX_LEAVES = 400
EQUAL_LIMIT = 60   # seconds spent on one comparison


class Undecided(Exception):
    pass


class Impossible(Exception):
    """the case a group is being run for contradicts a precondition"""


class Obj:
    """deep-converted instance"""
    __slots__ = ("cls", "d")

    def __init__(self, cls, d):
        self.cls = cls
        self.d = d

    def __repr__(self):
        return "<%s instance>" % getattr(self.cls, "name", self.cls)


class Outcome:
    def __init__(self, I, value, raises, st, locs):
        self.I = I
        self.value = value
        self.raises = raises      # [(state, ExcV)]
        self.st = st              # state on normal completion (None: never completes)
        self.locs = locs
        self.pre_facts, self.pre_guard = {}, True
        self.trace = st.trace if st is not None else ()

    @property
    def facts(self):
        return self.st.facts if self.st is not None else {}

    @property
    def guard(self):
        return self.st.guard if self.st is not None else False

    def raise_cond(self, *names):
        """gated condition under which one of the named exceptions (default: any) leaves the call"""
        b = False
        for s, e in self.raises:
            if not names or any(_exc_is(self.I, e, n) for n in names):
                b = b_or(b, s.guard)
        return b


def _exc_is(I, e, n):
    if e.name() == n:
        return True
    c = e.cls
    if isinstance(c, ClassV):
        return any(getattr(m, "name", None) == n or (isinstance(m, ExtV) and m.path.split(".")[-1] == n) for m in c.mro)
    if isinstance(c, ExtV):
        try:
            return I.models.ext_subclass(c, ExtV("builtins." + n))
        except Exception:
            return False
    return False


def plain(I, v, locs=None, path=(), deep=False):
    if isinstance(v, Ite):
        return ite(Ite(v.a, True, False), plain(I, v.t, locs, path, deep), plain(I, v.f, locs, path, deep))
    if isinstance(v, tuple):
        return tuple(plain(I, x, locs, path + (i,), deep) for i, x in enumerate(v))
    if isinstance(v, Ref):
        c = I.content(v)
        if isinstance(c, Arr):
            a = I.arr(v)
            if locs is not None:
                for k in range(len(a.el)):
                    l = I.write_loc.get((v.id, k)) or I.write_loc.get((v.id, None)) or I.alloc_loc.get(v.id)
                    if l:
                        locs[path + _unflat(a.shape, k)] = l

            def rec(off, shape):
                if not shape:
                    return plain(I, a.el[off], None, (), deep)
                n = 1
                for s in shape[1:]:
                    n *= s
                return tuple(rec(off + i * n, shape[1:]) for i in range(shape[0]))
            return rec(0, a.shape)
        if isinstance(c, Seq):
            return tuple(plain(I, x, locs, path + (i,), deep) for i, x in enumerate(c.items))
        if isinstance(c, Dct) and deep:
            return Obj("dict", {k: plain(I, x, None, (), deep) for k, x in c.d.items()})
        if isinstance(c, Inst) and deep:
            return Obj(c.cls, {k: plain(I, x, None, (), deep) for k, x in c.d.items()})
        return v
    if isinstance(v, (bool, int)) or v is None or isinstance(v, str):
        return v
    return v


def zipped(v):
    """a choice between tuples of one length as a tuple of choices"""
    if isinstance(v, Ite):
        t, f = zipped(v.t), zipped(v.f)
        if isinstance(t, tuple) and isinstance(f, tuple) and len(t) == len(f):
            return tuple(zipped(ite(Ite(v.a, True, False), x, y)) for x, y in zip(t, f))
    elif isinstance(v, tuple):
        return tuple(zipped(x) for x in v)
    return v


def _unflat(shape, k):
    out = []
    for s in reversed(shape):
        out.append(k % s)
        k //= s
    return tuple(reversed(out))


def numeric(v):
    return isinstance(v, (T, int, float)) and not isinstance(v, bool) or isinstance(v, tm.Fraction)


class Run:
    def __init__(self, pid, tier="quick", seed=1):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.obl = []              # (name, status, detail, where)
        self.viol = []
        self.undec = []
        self.known_hit = {}
        self.interps = []
        self.rules = []
        self.nf = 0
        self.idt = 0
        self.unreach = 0
        self.nosample = 0
        self.stream = None     # pipe to the supervising process (check.py)
        self.skipped = 0       # groups left out once violations have been found
        self.assumed = []      # cases being told apart by guard()
        self.struct = 0
        self.sites = 0
        self.only = None
        self.known = load_known(pid)
        self.notes = []
        self.group = ""
        self.where = None
        self.ranges = None

    # ---------------------------------------------------------- plumbing
    @property
    def thorough(self):
        return self.tier == "thorough"

    def interp(self, structural_eq=False, missing=()):
        I = Interp(SRC, structural_eq=structural_eq)
        I.missing = tuple(missing)
        self.interps.append(I)
        base = os.path.join(SRC, "einsteinpy")
        for d, ds, fs in sorted(os.walk(base)):
            ds[:] = sorted(x for x in ds if not x.startswith("__") and x not in ("tests",))
            for f in sorted(fs):
                if f.endswith(".py"):
                    rel = os.path.relpath(os.path.join(d, f), SRC)[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[:-9]
                    I.load(rel)
        I.seal()
        return I

    def rule(self, text):
        self.rules.append(text)

    def loc_of(self, I, dotted):
        """file:line of a program entity"""
        try:
            v = I.global_(dotted)
        except AnalysisError:
            return dotted
        while isinstance(v, WrapV):
            v = v.func
        if isinstance(v, BoundV):
            v = v.func
        if isinstance(v, FuncV):
            return "%s:%d (%s)" % (os.path.relpath(v.mod.path, REPO), v.node.lineno, v.qual)
        if isinstance(v, ClassV) and v.node is not None:
            return "%s:%d (%s)" % (os.path.relpath(v.mod.path, REPO), v.node.lineno, v.qual)
        if isinstance(v, ModuleV):
            return "%s:1 (%s)" % (os.path.relpath(v.path, REPO), v.name)
        return dotted

    def ok(self, name, how="structural"):
        if how == "nf":
            self.nf += 1
        elif how == "idt":
            self.idt += 1
        elif how == "unreach":
            self.unreach += 1
        elif how == "nosample":
            self.nosample += 1
        else:
            self.struct += 1
        self.obl.append((self._n(name), "discharged", how))

    def _n(self, name):
        return (self.group + " " + name) if self.group else name

    def fail(self, name, detail, where=None, known=None):
        name = self._n(name)
        if known and known in self.known:
            self.known_hit.setdefault(known, []).append(name)
            self.obl.append((name, "known-finding", known))
            return
        self.viol.append((name, detail, where or self.where or "?"))
        self.obl.append((name, "violated", detail))
        if self.stream is not None:
            os.write(self.stream, ("%s\0%s\0%s\n" % (name, detail, where or self.where or "?")).replace("\n", " ").encode("utf8", "replace")[:3500] + b"\n")

    def undecided(self, name, why):
        name = self._n(name)
        self.undec.append((name, why))
        self.obl.append((name, "undecided", why))

    def guard(self, name, fn, depth=0):
        """run a group of obligations; an analysis error makes the group undecided.  Where the check itself needs a
        plain value and the code gives a conditional one, the group is run once per case."""
        saved = self.group, self.where
        if len(self.viol) >= 40 or self.viol and time.time() - self.t0 > 120:
            self.skipped += 1          # the verdict is known
            return
        snap = self._snap() if depth < 6 else None
        try:
            fn()
            return
        except (SplitNeeded, tm.TermError, AttributeError) as e:
            a = e.atom if isinstance(e, SplitNeeded) else getattr(getattr(e, "value" if isinstance(e, tm.TermError) else "obj", None), "a", None)
            if a is None or snap is None or any(a.id == x.id for x, _ in self.assumed):
                if isinstance(e, SplitNeeded):
                    self.undecided(name, "value depends on undecided predicate %s" % e.atom.desc)
                else:
                    tb = traceback.format_exc().strip().splitlines()
                    self.undecided(name, "%s: %s [%s]" % (type(e).__name__, e, " / ".join(x.strip() for x in tb[-6:-1])))
                return
        except Impossible:
            if not depth:
                raise
            return "impossible"
        except AnalysisError as e:
            self.undecided(name, "AnalysisError: %s" % e)
            return
        except Undecided as e:
            self.undecided(name, str(e))
            return
        except RecursionError:
            self.undecided(name, "recursion limit")
            return
        except Exception as e:     # an engine gap must not hide other obligations
            tb = traceback.format_exc().strip().splitlines()
            self.undecided(name, "engine: %s: %s [%s]" % (type(e).__name__, e, " / ".join(x.strip() for x in tb[-6:-1])))
            return
        finally:
            self.group, self.where = saved
        self._restore(snap)
        r = []
        for val in (True, False):
            self.assumed.append((a, val))
            try:
                self.group, self.where = saved
                r.append(self.guard(name, fn, depth + 1))
            finally:
                self.assumed.pop()
        if all(r):
            if depth:
                return "impossible"
            self.undecided(name, "no consistent case for %s" % a.desc)

    COUNTS = ("nf", "idt", "unreach", "nosample", "struct")

    def _snap(self):
        return [len(x) for x in (self.obl, self.viol, self.undec)], [getattr(self, c) for c in self.COUNTS]

    def _restore(self, snap):
        for x, n in zip((self.obl, self.viol, self.undec), snap[0]):
            del x[n:]
        for c, v in zip(self.COUNTS, snap[1]):
            setattr(self, c, v)

    def ev(self, I, fn, pre=(), deep=False):
        """abstractly evaluate fn() under assumptions pre; leaves the interpreter state untouched"""
        base = I.st
        I.st = base.copy()
        locs = {}
        try:
            for p in pre:
                if not I.assume(I.st, p):
                    raise AnalysisError("contradictory precondition")
            for a, val in self.assumed:
                if not I.assume_atom(I.st, a, val):
                    raise Impossible()
            pf, pg = dict(I.st.facts), I.st.guard

            def g():
                locs.clear()
                return plain(I, fn(), locs, (), deep)
            v, raises = I.run(g)
            o = Outcome(I, zipped(v), raises, I.st, dict(locs))
            o.pre_facts, o.pre_guard = pf, pg
            return o
        finally:
            I.st = base

    # ---------------------------------------------------------- deciding
    def equal(self, name, got, want, facts=None, guard=True, where=None, known=None, alt=None, locs=None, path=(),
              modulo=None):
        """got == want under facts; `alt` is the value a listed known finding prescribes"""
        facts = facts or {}
        n = [0]
        bad = []
        und = []
        how = set()
        end = time.time() + (8 if self.viol else EQUAL_LIMIT)

        def rec(g, w, al, facts, guard):
            if n[0] > MAX_LEAVES:
                raise Undecided("too many alternatives")
            if time.time() > end:
                raise Undecided("too many alternatives for %d s" % EQUAL_LIMIT)
            g = restrict(g, facts)
            w = restrict(w, facts)
            tops = [x.a for x in (g, w) if isinstance(x, Ite)]
            if tops:
                if g is w or same(g, w):
                    how.add("nf")
                    return
                a = min(tops, key=lambda q: q.id)
                for val in (True, False):
                    f = dict(facts)
                    f[a.id] = val
                    for k, x in implied(a, val).items():
                        if k in f and f[k] != x:
                            break
                        f[k] = x
                    else:
                        gd = restrict(guard, f)
                        if gd is False:
                            continue
                        rec(g, w, al, f, gd)
                return
            n[0] += 1
            r = self._leaf(g, w, facts, guard, modulo)
            if r[0] == "ok":
                how.add(r[1])
            elif r[0] == "bad":
                if al is not None:
                    aw = restrict(al, facts)
                    r2 = self._leaf(g, aw, facts, guard, modulo) if not isinstance(aw, Ite) else ("bad",)
                    if r2[0] == "ok":
                        bad.append(("known", None, facts))
                        return
                bad.append(("bad", r[1], facts))
            else:
                und.append(r[1])
        if alt is None and modulo is None and _conditions(got, want) > 4:
            d = self._probe(got, want, facts, guard)
            if d:
                bad.append(("bad", d, facts))
        try:
            if not bad:
                rec(got, want, alt, facts, guard)
        except Undecided as e:
            und.append(str(e))
        real = [b for b in bad if b[0] == "bad"]
        if real:
            _, d, f = real[0]
            cond = fdesc(f)
            self.fail(name, "%s%s" % (d, (" [when %s]" % cond) if cond else ""),
                      where or (locs or {}).get(path) or self.where, None)
        elif bad:
            self.fail(name, "as recorded", where, known)
        elif und:
            self.undecided(name, und[0])
        else:
            self.ok(name, next((k for k in ("nosample", "idt", "nf", "unreach") if k in how), "structural"))

    def _probe(self, got, want, facts, guard):
        """many-way conditional terms: evaluate both at a few points first, following the conditions that hold there"""
        ts = [x for v in (got, want) for x in _terms(v, [], set())]

        def at(env, v, path):
            while isinstance(v, Ite):
                k = v.a.id
                if k in facts:
                    t = facts[k]
                elif v.a.kind == "gtz":
                    t = env.term(v.a.data) > 0
                elif v.a.kind == "eqz":
                    x, m = env.term2(v.a.data)
                    t = abs(x) <= m * witness.mpf(10) ** -25
                else:
                    return None
                path[k] = t
                v = v.t if t else v.f
            return tm.as_t(v) if numeric(v) else None
        k = 0
        for env in witness.sample_points(ts, facts, guard, n=12, tries=200, ranges=self.ranges):
            path = dict(facts)
            try:
                g, w = at(env, got, path), at(env, want, path)
                if g is None or w is None or witness._truth(env, guard, facts) is not True:
                    continue
                x, mx = env.term2(g)
                y, my = env.term2(w)
            except (witness.Bad, ZeroDivisionError, OverflowError, ValueError, TypeError):
                continue
            k += 1
            d = abs(x - y)
            if d > (mx + my) * witness.mpf(10) ** -18 and d > max(abs(x), abs(y)) * witness.mpf(10) ** -16:
                return "got %s, expected %s (%s versus %s at one point) [when %s]" % (
                    tm.short(g), tm.short(w), witness.mpmath.nstr(x, 10), witness.mpmath.nstr(y, 10), fdesc(path))
        return None

    def _leaf(self, g, w, facts, guard, modulo=None):
        if isinstance(w, tuple) or isinstance(g, tuple):
            if isinstance(g, tuple) and isinstance(w, tuple) and len(g) == len(w):
                worst = ("ok", "structural")
                for i, (x, y) in enumerate(zip(g, w)):
                    r = self._sub(x, y, facts, guard, modulo)
                    if r[0] == "bad":
                        return ("bad", "[%d] %s" % (i, r[1]))
                    if r[0] == "und":
                        worst = r
                    elif worst[0] == "ok" and r[1] != "structural":
                        worst = r
                return worst
            if _opaque(g):
                return ("und", "opaque value %r" % (g,))
            return ("bad", "shape or type differs: got %s, expected %s" % (sdesc(g), sdesc(w))) if self._feasible(facts, guard) else ("ok", "unreach")
        if isinstance(w, QuantV) and isinstance(g, QuantV):
            if not g.unit.dims == w.unit.dims:
                return ("bad", "unit differs: got %r expected %r" % (g.unit, w.unit))
            r = self._sub(g.value, tm.as_t(w.value) * w.unit.scale / g.unit.scale if numeric(w.value) else w.value, facts, guard, modulo)
            return r
        if isinstance(w, Unit) and isinstance(g, Unit):
            if g.dims != w.dims:
                return ("bad", "unit differs: %r versus %r" % (g, w))
            return self._sub(g.scale, w.scale, facts, guard)
        if numeric(w) and numeric(g):
            a, b = tm.as_t(g), tm.as_t(w)
            if tm.equal(a, b):
                return ("ok", "nf")
            a2, b2 = subst_facts((a, b), facts)
            if a2 is None:
                return ("ok", "unreach")
            if tm.equal(a2, b2):
                return ("ok", "nf")
            s, d = witness.separate(a2, b2, facts, guard, self.ranges, modulo)
            if s == "same":
                return ("ok", "idt")
            if s == "contradiction":
                return ("ok", "unreach")
            if s == "blind":
                return ("und", "%s / %s can hardly be evaluated under the conditions" % (tm.short(a), tm.short(b)))
            if s == "unreachable":
                return ("ok", "nosample") if facts or guard is not True else ("und", "no sample point for %s / %s" % (tm.short(a), tm.short(b)))
            return ("bad", "got %s, expected %s (%s)" % (tm.short(a2), tm.short(b2), d))
        if _opaque(g) and not (isinstance(w, Opaque)):
            return ("und", "opaque value %r" % (g,))
        if same(g, w):
            return ("ok", "structural")
        if isinstance(g, Ref) and isinstance(w, Ref):
            return ("bad", "different object") if g != w else ("ok", "structural")
        if isinstance(g, (Ref, Inst)) and numeric(w) and False:
            return ("und", "object")
        if not self._feasible(facts, guard):
            return ("ok", "unreach")
        return ("bad", "got %s, expected %s" % (sdesc(g), sdesc(w)))

    def _sub(self, g, w, facts, guard, modulo=None):
        g = restrict(g, facts)
        w = restrict(w, facts)
        tops = [x.a for x in (g, w) if isinstance(x, Ite)]
        if not tops:
            return self._leaf(g, w, facts, guard, modulo)
        if same(g, w):
            return ("ok", "nf")
        a = min(tops, key=lambda q: q.id)
        res = ("ok", "structural")
        for val in (True, False):
            f = dict(facts)
            f[a.id] = val
            bad = False
            for k, x in implied(a, val).items():
                if k in f and f[k] != x:
                    bad = True
                f[k] = x
            if bad or restrict(guard, f) is False:
                continue
            r = self._sub(g, w, f, restrict(guard, f), modulo)
            if r[0] == "bad":
                c = fdesc(f)
                return ("bad", r[1] if " [when " in r[1] else r[1] + (" [when %s]" % c if c else ""))
            if r[0] == "und":
                res = r
            elif res[0] == "ok" and r[1] != "structural":
                res = r
        return res

    def _feasible(self, facts, guard):
        ts = witness._fact_terms(facts)
        if not ts and not witness.guard_terms(guard):
            return True
        a2 = subst_facts((tm.ONE,), facts)
        if a2[0] is None:
            return False
        return witness.reachable(facts, guard, self.ranges) is not None

    def same_all(self, name, got, want, out=None, where=None, known=None, alt=None, modulo=None, facts=None, guard=None,
                 at=()):
        """element-wise equal() over nested tuples"""
        facts = facts if facts is not None else (out.facts if out else {})
        guard = guard if guard is not None else (out.guard if out else True)
        locs = out.locs if out else {}

        def rec(g, w, al, path):
            if isinstance(w, tuple) and isinstance(g, tuple) and len(g) == len(w):
                for i in range(len(w)):
                    rec(g[i], w[i], al[i] if isinstance(al, tuple) else None, path + (i,))
                return
            nm = name + ("[%s]" % ",".join(map(str, path)) if path else "")
            k = known(path) if callable(known) else known
            l = locs.get(at + path)
            w0 = where or self.where
            self.equal(nm, g, w, facts, guard, "%s; value written at src/%s" % (w0, l) if l and w0 else (l or w0), k, al, locs, path,
                       modulo)
        rec(got, want, alt, ())

    def no_raise(self, name, out, where=None, allow=()):
        """the call never raises (under the preconditions) except the allowed exception classes"""
        for s, e in out.raises:
            if any(_exc_is(out.I, e, a) for a in allow):
                continue
            f = s.facts
            if subst_facts((tm.ONE,), f)[0] is None or not self._feasible(f, s.guard):
                continue
            if _opaque_guard(s.guard, f):
                self.undecided(name + " raises", "%s under unresolved predicate %s" % (exdesc(e), _opaque_guard(s.guard, f)))
                continue
            self.fail(name + " raises", "raises %s when %s" % (exdesc(e), fdesc(f) or "always"), where)
            return False
        if out.st is None and not out.raises:
            self.undecided(name, "does not complete")
            return False
        self.ok(name + " completes")
        return True

    def raises_iff(self, name, out, cond, exc=(), where=None):
        """the call raises (one of exc) exactly when cond holds"""
        for s, e in out.raises:
            if exc and not any(_exc_is(out.I, e, x) for x in exc):
                if self._feasible(s.facts, s.guard):
                    self.fail(name + " exception class", "raises %s when %s" % (exdesc(e), fdesc(s.facts) or "always"), where)
                    return
        got = out.raise_cond()
        self.equal(name + " raises iff", got, cond, out.pre_facts, out.pre_guard, where=where)

    def require(self, name, cond, detail="", where=None, known=None):
        if cond:
            self.ok(name)
        else:
            self.fail(name, detail or "condition does not hold", where, known)

    # ---------------------------------------------------------- verdict
    def finish(self, min_obl):
        an = {}
        files = set()
        stm = joins = 0
        for I in self.interps:
            for q, k in I.analysed.items():
                an[q] = an.get(q, 0) + k
            stm += I.stmts
            joins += I.joins
            for m in I.modules.values():
                files.add(os.path.relpath(m.path, REPO))
        total = len(self.obl)
        done = sum(1 for o in self.obl if o[1] == "discharged")
        if total < min_obl and not self.viol:
            self.undec.append(("coverage", "only %d obligations generated, at least %d expected (anchor vanished?)" % (total, min_obl)))
        evdir = os.path.join(VERIF, "evidence")
        os.makedirs(evdir, exist_ok=True)
        vp = os.path.join(evdir, "%s.violations.txt" % self.pid)
        samples = [list(o[:1]) + [str(o[1]), str(o[2])[:300]] for o in self.obl[:3]]
        step = max(1, total // 8)
        samples += [[o[0], o[1], str(o[2])[:300]] for o in self.obl[3::step]][:8]
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "other",
            "wall_s": round(time.time() - self.t0, 3),
            "coverage": {
                "explanation": "Static abstract interpretation of the current source under %s: every obligation compares the "
                               "canonical term the analysed code computes (for symbolic inputs, all paths joined) with the term the "
                               "specification prescribes, or decides a structural rule over the resolved program." % os.path.join(REPO, "src"),
                "obligations": total,
                "discharged": done,
                "discharged_by_normal_form": self.nf,
                "discharged_by_identity_testing_of_terms": self.idt,
                "discharged_structurally": self.struct,
                "discharged_unreachable": self.unreach,
                "discharged_with_a_case_no_sampled_point_reaches": self.nosample,
                "violated": len(self.viol),
                "undecided": len(self.undec),
                "known_findings": {k: v[:10] for k, v in self.known_hit.items()},
                "modules_parsed": len(files),
                "functions_analysed": len(an),
                "function_contexts": sum(an.values()),
                "statements_interpreted": stm,
                "state_joins": joins,
                "functions": sorted(an)[:400],
                "rule": " | ".join(self.rules),
                "samples": samples,
                "checker_cmd": "python3-vt /verif/check.py %s --tier %s" % (self.pid, self.tier),
                "trusted_base": ["sa/terms.py", "sa/interp.py", "sa/models.py", "sa/models_lib.py", "sa/witness.py",
                                 "CPython ast module", "the specification terms in checks/"],
            },
        }
        if self.notes:
            ev["coverage"]["notes"] = self.notes
        if self.undec:
            ev["coverage"]["undecided_list"] = [list(u) for u in self.undec[:50]]
        with open(os.path.join(evdir, "%s.json" % self.pid), "w") as fh:
            json.dump(ev, fh, indent=1)
        for k in sorted(self.known_hit):
            print("KNOWN-FINDING: property=%s %s %s" % (self.pid, k, self.known[k]))
        if self.viol:
            with open(vp, "w") as fh:
                for n, d, w in self.viol:
                    fh.write("property %s\nobligation: %s\nat: %s\nfinding: %s\nrule: %s\n\n" % (self.pid, n, w, d, " | ".join(self.rules)))
            print("VIOLATION property=%s replay=%s" % (self.pid, vp))
            for n, d, w in self.viol[:6]:
                print("  %s\n    at %s\n    %s" % (n, w, d))
            if len(self.viol) > 6:
                print("  ... %d more in %s" % (len(self.viol) - 6, vp))
            return 1
        if os.path.exists(vp):
            os.remove(vp)
        if self.undec:
            print("UNDECIDED property=%s: %d obligations could not be decided" % (self.pid, len(self.undec)))
            for n, w in self.undec[:12]:
                print("  %s: %s" % (n, w))
            return 2
        print("OK property=%s: %d obligations discharged (%d normal form, %d identity testing, %d structural, %d unreachable, %d with an unsampled case), "
              "%d functions in %d contexts, %.1fs" % (self.pid, done, self.nf, self.idt, self.struct, self.unreach, self.nosample, len(an),
                                                      sum(an.values()), time.time() - self.t0))
        return 0


def _conditions(*vs):
    ids, seen = set(), set()
    st = list(vs)
    while st:
        x = st.pop()
        if isinstance(x, Ite) and id(x) not in seen:
            seen.add(id(x))
            ids.add(x.a.id)
            st += [x.t, x.f]
    return len(ids)


def _terms(v, acc, seen):
    if isinstance(v, Ite):
        if id(v) not in seen:
            seen.add(id(v))
            if v.a.kind in ("eqz", "gtz"):
                acc.append(v.a.data)
            _terms(v.t, acc, seen)
            _terms(v.f, acc, seen)
    elif numeric(v):
        acc.append(tm.as_t(v))
    return acc


def _opaque(v):
    return isinstance(v, Opaque) or v is UNDEF


def _opaque_guard(b, facts):
    b = restrict(b, facts)
    seen = set()
    st = [b]
    while st:
        x = st.pop()
        if isinstance(x, Ite) and id(x) not in seen:
            seen.add(id(x))
            if x.a.kind in ("opaque", "truth", "isinst") and _callres(x.a):
                return x.a.desc
            st += [x.t, x.f]
    for i in facts:
        from .values import ATOMS
        a = ATOMS[i]
        if a.kind in ("opaque", "truth", "isinst") and _callres(a):
            return a.desc
    return None


def _callres(a):
    return "callres" in repr(a.key)


def fdesc(f):
    from .values import ATOMS
    out = []
    for i, v in f.items():
        a = ATOMS[i]
        out.append(a.desc if v else "not(%s)" % a.desc)
    s = " and ".join(out[:6])
    return s if len(s) < 400 else s[:400] + "..."


def sdesc(v):
    if isinstance(v, T):
        return tm.short(v)
    if isinstance(v, tuple):
        return "%d-tuple" % len(v)
    if v is None:
        return "None"
    return repr(v)[:120]


def exdesc(e):
    a = [x if isinstance(x, str) else sdesc(x) for x in e.args[:1]]
    return "%s(%s)" % (e.name(), ", ".join(str(x)[:80] for x in a))


def subst_facts(ts, facts):
    """use equality facts that are affine in a symbol as substitutions; None if contradictory"""
    from .values import ATOMS
    ts = list(ts)
    eqs = [ATOMS[i].data for i, v in facts.items() if v and ATOMS[i].kind == "eqz"]
    others = [(ATOMS[i], v) for i, v in facts.items() if ATOMS[i].kind in ("eqz", "gtz")]
    subs = []
    for k in range(len(eqs)):
        e = eqs[k]
        for s in subs:
            e = tm.subs(e, s)
        if e.is_zero():
            continue
        c = e.as_const()
        if c is not None:
            return [None] * len(ts)
        best = None
        for g in sorted(witness.syms_of([e]).values(), key=lambda q: (q.positive, q.id)):
            if g.name in ("pi", "E"):
                continue
            if g not in tm.gens_of(e):
                continue
            d = tm.diffg(e, g)
            if g.id in witness.syms_of([d]):
                continue
            best = (g, d)
            break
        if best is None:
            continue
        g, d = best
        val = tm.gen_term(g) - e / d
        if g.positive and tm.positive(-val):
            return [None] * len(ts)
        m = {tm.gen_term(g): val}
        try:
            ts = [tm.subs(t, m) for t in ts]
        except (ZeroDivisionError, tm.TermError):
            continue
        subs.append(m)
    for a, v in others:
        x = a.data
        try:
            for s in subs:
                x = tm.subs(x, s)
        except (ZeroDivisionError, tm.TermError):
            continue
        c = x.as_const()
        if c is not None:
            val = (c == 0) if a.kind == "eqz" else (c > 0)
            if val != v:
                return [None] * len(ts)
        elif a.kind == "gtz":
            if tm.positive(x) and not v or tm.positive(-x) and v:
                return [None] * len(ts)
    return ts


def load_known(pid):
    out = {}
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            # finding: property=C05 id=... <text>
            if line.startswith("finding:"):
                w = line.split()
                d = dict(x.split("=", 1) for x in w[1:3])
                if d.get("property") == pid:
                    out[d["id"]] = " ".join(w[3:])
    return out
