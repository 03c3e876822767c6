"""C26: tensor products and contractions."""
import itertools
from .symcommon import *
from .c24 import opaque, at, build, configs

MIN_OBLIGATIONS = 200


def run(R):
    R.rule("tensor_product(A, B)[i..., j...] = A[i...] B[j...] with configuration A.config + B.config; with (i, j) given, one upper and one lower index are summed and "
           "both are removed, equal positions raise ValueError; coordinates and parent metric come from A, variables and functions from both")
    I = sym_interp(R)
    F = SY + "tensor.tensor_product"
    R.where = R.loc_of(I, F)
    x = (S("x"), S("y"))
    n = 2

    def B(T, cfg, **kw):
        return tens(I, "BaseRelativityTensor", x, T, config=cfg, **kw)
    for ra in (1, 2, 3, 4):
        for rb in (1, 2, 3, 4):
            if ra + rb > (6 if R.thorough else 5):
                continue
            A_, B_ = opaque(ra, n, "A"), opaque(rb, n, "B")

            def plain_(ra=ra, rb=rb, A_=A_, B_=B_):
                R.group = "ranks %d,%d" % (ra, rb)
                cs = [(a, b) for a in configs(ra) for b in configs(rb)]
                for ca, cb in cs:
                    def f():
                        m = metric(I, x, diag_metric(S("g0"), S("g1")))
                        r = I.call(I.global_(F), [B(A_, ca, parent_metric=m), B(B_, cb)], {})
                        return comp(I, r), get(I, r, "config"), get(I, r, "order"), I.truth(I.compare("is", get(I, r, "parent_metric"), m)), tuple(I.iterate(get(I, r, "syms")))
                    out = R.ev(I, f)
                    if R.no_raise("%s %s" % (ca, cb), out):
                        w = build(ra + rb, n, lambda ix: at(A_, ix[:ra]) * at(B_, ix[ra:]))
                        R.equal("%s %s components" % (ca, cb), out.value[0], w, out.facts, out.guard)
                        R.equal("%s %s labels" % (ca, cb), out.value[1:], (ca + cb, ra + rb, True, x), out.facts, out.guard)
            R.guard("product", plain_)

            def contr(ra=ra, rb=rb, A_=A_, B_=B_):
                R.group = "ranks %d,%d contracted" % (ra, rb)
                for i in range(ra):
                    for j in range(rb):
                        for ca in configs(ra):
                            for cb in configs(rb):
                                lbl = "%s %s at (%d,%d)" % (ca, cb, i, j)
                                for kw in (False, True):
                                    if kw and (ca != configs(ra)[0] or R.tier == "quick" and ra + rb > 3):
                                        continue
                                    mk = lambda: I.call(I.global_(F), [B(A_, ca), B(B_, cb)] + ([] if kw else [i, j]), dict(i=i, j=j) if kw else {})
                                    if ca[i] == cb[j]:
                                        must_raise(R, I, lbl, lambda: comp(I, mk()), ("ValueError",), where=R.where)
                                        continue
                                    if ra == 1 and rb == 1:
                                        out = R.ev(I, lambda: get(I, mk(), "arr"))
                                        if R.no_raise(lbl, out):
                                            v = out.value
                                            while isinstance(v, tuple):
                                                v = v[0] if v else v
                                            R.equal(lbl + " components", v, tm.tsum(A_[k] * B_[k] for k in range(n)), out.facts, out.guard)
                                        continue
                                    out = R.ev(I, lambda: (lambda r: (comp(I, r), get(I, r, "config"), get(I, r, "order")))(mk()))
                                    if R.no_raise(lbl, out):
                                        w = build(ra + rb - 2, n, lambda ix: tm.tsum(at(A_, ix[:i] + (k,) + ix[i:ra - 1]) *
                                                                                     at(B_, ix[ra - 1:ra - 1 + j] + (k,) + ix[ra - 1 + j:]) for k in range(n)))
                                        R.equal(lbl + " components", out.value[0], w, out.facts, out.guard)
                                        R.equal(lbl + " labels", out.value[1:], (ca[:i] + ca[i + 1:] + cb[:j] + cb[j + 1:], ra + rb - 2), out.facts, out.guard)
            R.guard("contraction", contr)

    def parents():
        R.group = "parent metric"
        for lbl, pa, pb in (("A only", 1, 0), ("B only", 0, 1), ("both", 1, 2), ("neither", 0, 0)):
            for ij in ((), (1, 0), (0, 1)):
                def f(pa=pa, pb=pb, ij=ij):
                    ms = [None, metric(I, x, diag_metric(S("g0"), S("g1"))), metric(I, x, diag_metric(S("h0"), S("h1")))]
                    r = I.call(I.global_(F), [B(opaque(2, n, "A"), "ul", parent_metric=ms[pa]), B(opaque(2, n, "B"), "ul", parent_metric=ms[pb])] + list(ij), {})
                    return I.truth(I.compare("is", get(I, r, "parent_metric"), ms[pa]))
                out = R.ev(I, f)
                if R.no_raise("%s %s" % (lbl, ij), out):
                    R.equal("%s %s is A's" % (lbl, ij), out.value, True, out.facts, out.guard)
    R.guard("parents", parents)

    def free():
        R.group = "variables and functions"
        a, b, c = S("a"), S("b"), S("c")
        va = (a * x[0], fn("f", x[0]))
        vb = (b * a, fn("h", x[1]) * c)
        for ij in ((), (0, 0)):
            def f():
                r = I.call(I.global_(F), [B(va, "u"), B(vb, "l")] + list(ij), {})
                return tuple(I.iterate(get(I, r, "variables"))), tuple(I.iterate(get(I, r, "functions")))
            out = R.ev(I, f)
            if R.no_raise("contracted" if ij else "product", out):
                vs, fs = out.value
                names = [repr(v) for v in vs]
                R.require("variables" + str(ij), sorted(names) == ["a", "b", "c"], "variables %s, expected a, b, c each once" % names)
                fn_ = sorted(set(repr(v).split("(")[0] for v in fs))
                R.require("functions" + str(ij), {"f", "h"} <= set(fn_) and len(set(map(repr, fs))) == len(fs), "functions %s" % (fs,))
    R.guard("free", free)
