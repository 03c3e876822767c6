"""C24: raising and lowering indices."""
import itertools
from .symcommon import *

MIN_OBLIGATIONS = 300
RANK = {"GenericVector": 1, "RicciTensor": 2, "EinsteinTensor": 2, "SchoutenTensor": 2, "StressEnergyMomentumTensor": 2, "ChristoffelSymbols": 3,
        "RiemannCurvatureTensor": 4, "WeylTensor": 4}
DEFAULT = {"GenericVector": "u", "RicciTensor": "ul", "EinsteinTensor": "ul", "SchoutenTensor": "ul", "StressEnergyMomentumTensor": "ul",
           "ChristoffelSymbols": "lll", "RiemannCurvatureTensor": "llll", "WeylTensor": "llll"}


def opaque(rank, n, name="T", idx=()):
    if rank == 0:
        return S(name + "".join(map(str, idx)))
    return tuple(opaque(rank - 1, n, name, idx + (i,)) for i in range(n))


def at(v, idx):
    for i in idx:
        v = v[i]
    return v


def build(rank, n, f, idx=()):
    if rank == 0:
        return f(idx)
    return tuple(build(rank - 1, n, f, idx + (i,)) for i in range(n))


def contract_at(v, rank, n, k, m):
    """new[.., i, ..] = m[i][j] old[.., j, ..] at slot k"""
    return build(rank, n, lambda ix: tm.tsum(m[ix[k]][j] * at(v, ix[:k] + (j,) + ix[k + 1:]) for j in range(n) if not m[ix[k]][j].is_zero()))


def moved(v, rank, n, old, new, g, gi):
    for k in range(rank):
        if old[k] != new[k]:
            v = contract_at(v, rank, n, k, gi if new[k] == "u" else g)
    return v


def configs(rank):
    return ["".join(c) for c in itertools.product("ul", repeat=rank)]


def run(R):
    R.rule("change_config(new) contracts every slot that changes with g_ij (to l) or g^ij (to u) and leaves the others, for every pair of configurations, "
           "with the metric given as argument, or else the parent metric, in either index position; malformed configurations raise ValueError, "
           "a missing metric raises; the metric itself is inverted; converting back restores the tensor")
    I = sym_interp(R)
    g2 = sym_metric(2, None, lambda i, j: S("g%d%d" % (i, j)))
    gi2 = inverse(g2)
    x2 = (S("x"), S("y"))
    g4 = tuple(tuple(S("g%d%d" % (min(i, j), max(i, j))) if i == j or {i, j} == {0, 3} else ZERO for j in range(4)) for i in range(4))
    gi4 = inverse(g4)
    for cls, rk in RANK.items():
        R.where = R.loc_of(I, SY + cls + ".change_config")

        def conv(cls=cls, rk=rk):
            for old in configs(rk):
                R.group = "%s from %s" % (cls, old)
                T = opaque(rk, 2)
                news = configs(rk) if rk < 4 or R.thorough or old in ("ulll", "llll") else [c for c in configs(rk) if sum(a != b for a, b in zip(c, old)) in (1, 4)]
                for new in news:
                    out = R.ev(I, lambda: comp(I, meth(I, tens(I, cls, x2, T, config=old, parent_metric=metric(I, x2, g2)), "change_config", new)))
                    if R.no_raise("to " + new, out):
                        R.same_all("to " + new, out.value, moved(T, rk, 2, old, new, g2, gi2), out)
        R.guard(cls, conv)

        def metrics(cls=cls, rk=rk):
            R.group = cls + " metric"
            T = opaque(rk, 2)
            old = "".join("ul"[k % 2] for k in range(rk))
            new = DEFAULT[cls]
            if old == new:
                old = "l" + old[1:] if old[0] == "u" else "u" + old[1:]
            other = diag_metric(S("h0"), S("h1"))
            want = moved(T, rk, 2, old, new, g2, gi2)
            T4 = lambda: tens(I, cls, x2, T, config=old)
            TP = lambda m: tens(I, cls, x2, T, config=old, parent_metric=m)
            for lbl, f in (("parent, default configuration", lambda: meth(I, TP(metric(I, x2, g2)), "change_config")),
                           ("argument", lambda: meth(I, T4(), "change_config", new, metric(I, x2, g2))),
                           ("keyword", lambda: meth(I, T4(), "change_config", newconfig=new, metric=metric(I, x2, g2))),
                           ("argument overrides parent", lambda: meth(I, TP(metric(I, x2, other)), "change_config", new, metric(I, x2, g2))),
                           ("contravariant parent", lambda: meth(I, TP(metric(I, x2, gi2, "uu")), "change_config", new)),
                           ("contravariant argument", lambda: meth(I, T4(), "change_config", new, metric(I, x2, gi2, "uu")))):
                out = R.ev(I, lambda: comp(I, f()))
                if R.no_raise(lbl, out):
                    R.same_all(lbl, out.value, want, out)
            # source is unchanged, way back restores
            def back():
                o = TP(metric(I, x2, g2))
                n = meth(I, o, "change_config", new)
                b = meth(I, n, "change_config", old)
                return comp(I, o), get(I, o, "config"), comp(I, b), get(I, b, "config")
            out = R.ev(I, back)
            if R.no_raise("round trip", out):
                R.same_all("source unchanged", out.value[0], T, out, at=(0,))
                R.equal("source configuration", out.value[1], old, out.facts, out.guard)
                R.same_all("round trip", out.value[2], T, out, at=(2,))
                R.equal("round trip configuration", out.value[3], old, out.facts, out.guard)
            must_raise(R, I, "no metric", lambda: meth(I, T4(), "change_config", new), ("Exception",), where=R.where)
            for bad in ("u" * (rk + 1), "u" * (rk - 1), "x" * rk, "U" * rk, "u" * (rk - 1) + " "):
                must_raise(R, I, "configuration %r" % bad, lambda: meth(I, TP(metric(I, x2, g2)), "change_config", bad), ("ValueError",), where=R.where)
        R.guard(cls, metrics)

        def four(cls=cls, rk=rk):
            R.group = cls + " 4D"
            T = opaque(rk, 4)
            pairs = {1: [("u", "l"), ("l", "u")], 2: [("ll", "uu"), ("ul", "lu"), ("uu", "ll"), ("lu", "uu")], 3: [("ull", "lul"), ("lll", "uuu")],
                     4: [("ulll", "llll"), ("llll", "ulul")]}[rk]
            for old, new in pairs:
                out = R.ev(I, lambda: comp(I, meth(I, tens(I, cls, X4, T, config=old, parent_metric=metric(I, X4, g4)), "change_config", new)))
                if R.no_raise("%s to %s" % (old, new), out):
                    R.same_all("%s to %s" % (old, new), out.value, moved(T, rk, 4, old, new, g4, gi4), out)
        R.guard(cls, four)

        def special(cls=cls, rk=rk):
            R.group = cls + " special values"
            c = lambda *r: tuple(tuple(tm.as_t(v) for v in x) for x in r)
            num = build(rk, 2, lambda ix: tm.as_t(sum((k + 2) * i for k, i in enumerate(ix)) + 3))
            sparse = build(rk, 2, lambda ix: S("T") if not any(ix) else ZERO)
            news = configs(rk) if rk < 4 else ("uuuu", "llll", "lulu", "ulll", "luuu")
            for gl, g in (("Minkowski", c((-1, 0), (0, 1))), ("null coordinates", c((0, -1), (-1, 0))), ("constant", c((2, 1), (1, 3))), ("symbolic", g2)):
                gi = inverse(g)
                for tl, T in (("numbers", num), ("sparse", sparse)):
                    for old in ("u" * rk, "l" * rk, ("ul" * rk)[:rk]):
                        for new in news:
                            lbl = "%s in %s metric, %s to %s" % (tl, gl, old, new)
                            out = R.ev(I, lambda: comp(I, meth(I, tens(I, cls, x2, T, config=old, parent_metric=metric(I, x2, g)), "change_config", new)))
                            if R.no_raise(lbl, out):
                                R.same_all(lbl, out.value, moved(T, rk, 2, old, new, g, gi), out)
        R.guard(cls, special)

    def met():
        R.where = R.loc_of(I, SY + "MetricTensor.change_config")
        for lbl, x, g in [("2D", x2, g2), ("3D", X4[:3], sym_metric(3, None, lambda i, j: S("g%d%d" % (i, j)))), ("4D block", X4, g4),
                          ("4D dense", X4, sym_metric(4, None, lambda i, j: S("g%d%d" % (i, j))))]:
            gi = inverse(g)
            R.group = "MetricTensor " + lbl
            for cfg in ("ll", "uu"):
                lo, up = (g, gi) if cfg == "ll" else (gi, g)
                for how, f, want in (("default", lambda m: meth(I, m, "change_config"), up), ("uu", lambda m: meth(I, m, "change_config", "uu"), up),
                                     ("ll", lambda m: meth(I, m, "change_config", "ll"), lo), ("inv", lambda m: meth(I, m, "inv"), gi),
                                     ("lower_config", lambda m: meth(I, m, "lower_config"), lo),
                                     ("inv twice", lambda m: meth(I, meth(I, m, "inv"), "inv"), g),
                                     ("lower_config of inv", lambda m: meth(I, meth(I, m, "inv"), "lower_config"), lo),
                                     ("inv of change_config", lambda m: meth(I, meth(I, m, "change_config", "uu"), "inv"), lo),
                                     ("inv cached", lambda m: (meth(I, m, "inv"), meth(I, m, "inv"))[1], gi)):
                    out = R.ev(I, lambda: comp(I, f(metric(I, x, g, cfg))))
                    if R.no_raise("%s %s" % (cfg, how), out):
                        R.same_all("%s %s" % (cfg, how), out.value, want, out)
                for bad in ("ul", "lu", "u", "lll", "", "UU"):
                    must_raise(R, I, "%s configuration %r" % (cfg, bad), lambda: meth(I, metric(I, x, g, cfg), "change_config", bad), ("ValueError",), where=R.where)
    R.guard("metric", met)
