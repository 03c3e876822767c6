"""C27: Lorentz transformation of tensors."""
from .symcommon import *
from .c24 import RANK, opaque, at, build, configs, contract_at

MIN_OBLIGATIONS = 200


def transpose(m):
    return tuple(zip(*m))


def run(R):
    R.rule("lorentz_transform(L): every upper index contracts with L, every lower index with the transposed inverse of L, other slots untouched, for every class and configuration; "
           "scalars formed from an upper and a lower index are invariant; the identity and L followed by its inverse leave the tensor alone")
    I = sym_interp(R)
    L2 = opaque(2, 2, "L")
    i2 = inverse(L2)
    ga, be = S("ga"), S("be")
    bo = ((ga, -ga * be, ZERO, ZERO), (-ga * be, ga, ZERO, ZERO), (ZERO, ZERO, ONE, ZERO), (ZERO, ZERO, ZERO, ONE))
    al = S("al")
    bz = ((ONE, ZERO, ZERO, ZERO), (ZERO, tm.cos(al), ZERO, -tm.sin(al)), (ZERO, ZERO, ONE, ZERO), (ZERO, tm.sin(al), ZERO, tm.cos(al)))
    L4 = matmul(bo, bz)
    i4 = inverse(L4)
    cls_all = list(RANK.items()) + [("BaseRelativityTensor", 1), ("BaseRelativityTensor", 2), ("BaseRelativityTensor", 3), ("BaseRelativityTensor", 4), ("BaseRelativityTensor", 5), ("MetricTensor", 2)]

    def spec(T, rk, n, cfg, L, Li):
        for k in range(rk):
            T = contract_at(T, rk, n, k, L if cfg[k] == "u" else transpose(Li))
        return T
    for cls, rk in cls_all:
        R.where = R.loc_of(I, SY + cls + ".lorentz_transform")

        def gen(cls=cls, rk=rk):
            R.group = "%s rank %d" % (cls, rk)
            T = opaque(rk, 2)
            if cls == "MetricTensor":
                T = sym_metric(2, None, lambda i, j: S("g%d%d" % (i, j)))
            cs = ("ll", "uu") if cls == "MetricTensor" else configs(rk)
            if rk == 4 and cls != "BaseRelativityTensor" and not R.thorough:
                cs = ("ulll", "llll", "ulul", "uuuu")
            if rk == 5:
                cs = configs(5) if R.thorough else ("uuuuu", "lllll", "uluul", "llulu")
            for cfg in cs:
                def f():
                    o = tens(I, cls, (S("x"), S("y")), T, config=cfg)
                    return comp(I, meth(I, o, "lorentz_transform", nested(I, L2))), comp(I, o)
                out = R.ev(I, f)
                if R.no_raise(cfg, out):
                    R.same_all(cfg, out.value[0], spec(T, rk, 2, cfg, L2, i2), out, at=(0,))
                    R.same_all(cfg + " source unchanged", out.value[1], T, out, at=(1,))
        R.guard(cls, gen)

        def four(cls=cls, rk=rk):
            if rk > 2:
                return
            R.group = "%s rank %d 4D" % (cls, rk)
            T = opaque(rk, 4)
            if cls == "MetricTensor":
                T = sym_metric(4, None, lambda i, j: S("g%d%d" % (i, j)))
            for lbl, L, Li in (("boost and rotation", L4, i4), ("identity", eye(4), eye(4))):
                for cfg in (("ll", "uu") if cls == "MetricTensor" else configs(rk)):
                    out = R.ev(I, lambda: comp(I, meth(I, tens(I, cls, X4, T, config=cfg), "lorentz_transform", nested(I, L))))
                    if R.no_raise("%s %s" % (lbl, cfg), out):
                        R.same_all("%s %s" % (lbl, cfg), out.value, spec(T, rk, 4, cfg, L, Li), out)
        R.guard(cls, four)

    def inv():
        R.group = "invariance"
        V, W = opaque(1, 2, "V"), opaque(1, 2, "W")

        def f():
            lt = lambda v, c: comp(I, meth(I, tens(I, "GenericVector", (S("x"), S("y")), v, config=c), "lorentz_transform", nested(I, L2)))
            return lt(V, "u"), lt(W, "l")
        out = R.ev(I, f)
        if R.no_raise("transform", out):
            a, b = out.value
            R.equal("V^i W_i", tm.tsum(a[i] * b[i] for i in range(2)), tm.tsum(V[i] * W[i] for i in range(2)), out.facts, out.guard)
        # the Minkowski metric under a boost
        eta = diag_metric(-ONE, ONE, ONE, ONE)
        for cfg in ("ll", "uu"):
            out = R.ev(I, lambda: comp(I, meth(I, metric(I, X4, eta, cfg), "lorentz_transform", nested(I, bo))))
            if R.no_raise("eta", out):
                m = {ga: ONE / tm.sqrt(ONE - S("be") * S("be"))}
                R.same_all("eta " + cfg, tuple(tuple(tm.subs(e, m) for e in r) for r in out.value), eta, out)
    R.guard("inv", inv)

    # the matrix in every form it may be given in, and matrices with special structure
    def forms():
        R.group = "forms of the matrix"
        rk, T = 2, opaque(2, 2)
        ext = I.models.ext
        wrap = {"tuple": lambda L: L, "sympy Matrix": lambda L: I.call(ext("sympy.Matrix"), [nested(I, L)], {}), "sympy Array": lambda L: I.call(ext("sympy.Array"), [nested(I, L)], {}),
                "numpy array": lambda L: I.call(ext("numpy.array"), [nested(I, L)], {})}
        for k, wf in wrap.items():
            for cfg in configs(2):
                out = R.ev(I, lambda: comp(I, meth(I, tens(I, "BaseRelativityTensor", (S("x"), S("y")), T, config=cfg), "lorentz_transform", wf(L2))))
                if R.no_raise("%s %s" % (k, cfg), out):
                    R.same_all("%s %s" % (k, cfg), out.value, spec(T, rk, 2, cfg, L2, i2), out)
        R.group = "special matrices"
        c = lambda *r: tuple(tuple(tm.as_t(v) for v in x) for x in r)
        for k, L in (("shear of determinant 1", c((1, 2), (0, 1))), ("symmetric boost of determinant 1", c((tm.Fraction(5, 4), tm.Fraction(3, 4)), (tm.Fraction(3, 4), tm.Fraction(5, 4)))),
                     ("reflection", c((-1, 0), (0, 1))), ("quarter turn", c((0, 1), (-1, 0))), ("diagonal", c((2, 0), (0, 3))), ("determinant -1", c((1, 1), (2, 1)))):
            for cfg in configs(2):
                for nm, X in (("", T), (" of numbers", c((1, 2), (3, 5)))):
                    out = R.ev(I, lambda: comp(I, meth(I, tens(I, "BaseRelativityTensor", (S("x"), S("y")), X, config=cfg), "lorentz_transform", nested(I, L))))
                    if R.no_raise("%s %s%s" % (k, cfg, nm), out):
                        R.same_all("%s %s%s" % (k, cfg, nm), out.value, spec(X, rk, 2, cfg, L, inverse(L)), out)
    R.where = R.loc_of(I, SY + "BaseRelativityTensor.lorentz_transform")
    R.guard("forms", forms)
