"""C46: transformation matrices and array helpers keep every entry."""
from .symcommon import *
from .c24 import build, opaque
from sa import models
from sa.models_lib import isinst

MIN_OBLIGATIONS = 40
H = "einsteinpy.symbolic.helpers."


def comp(I, o):
    return meth(I, o, "tolist")


def run(R):
    R.rule("TransformationMatrix holds the given entries, shape (2 axes, else ValueError), coordinates and rules; from_new2old[i, j] = 1/(d old_j/d new_i); inv()[i, j] = 1/T[i, j], computed once; "
           "from_old2new is not implemented; simplify_sympy_array and sympy_to_np_array keep shape and the value of every entry")
    I = sym_interp(R)
    TM = I.global_(H + "TransformationMatrix")
    R.where = R.loc_of(I, H + "TransformationMatrix.__new__")
    shape = lambda o: tuple(I.iterate(get(I, o, "shape")))
    P = (S("p"), S("q"), S("w"), S("z"))
    O = (S("x"), S("y"), S("u"), S("v"))

    def both(T):
        return tuple(tuple(tm.as_t(v) for v in row) for row in T)

    for n, m in ((2, 2), (3, 3), (4, 4), (2, 3), (3, 2), (1, 2)):
        T = build(2, 4, lambda ix: fn("T%d%d" % ix, *P[:2]))
        T = tuple(tuple(r[:m]) for r in T[:n])

        def hold(n=n, m=m, T=T):
            R.group = "%dx%d" % (n, m)
            o2n, n2o = nested(I, O[:m]), nested(I, P[:n])
            for lbl, kw in (("plain", {}), ("rules", dict(old2new=o2n, new2old=n2o)), ("one rule", dict(new2old=n2o))):
                def f():
                    a, b = nested(I, O[:m]), nested(I, P[:n])
                    r = I.call(TM, [nested(I, T), a, b], dict(kw))
                    return (comp(I, r), shape(r), get(I, r, "old_coords") is a or I.truth(I.compare("is", get(I, r, "old_coords"), a)), I.truth(I.compare("is", get(I, r, "new_coords"), b)),
                            I.truth(I.compare("is", get(I, r, "old2new"), kw.get("old2new"))), I.truth(I.compare("is", get(I, r, "new2old"), kw.get("new2old"))))
                out = R.ev(I, f)
                if R.no_raise(lbl, out):
                    R.same_all(lbl + ": entries", out.value[0], both(T), out)
                    R.require(lbl + ": shape", out.value[1] == (n, m), "shape %r" % (out.value[1],))
                    for q, v in zip(("old_coords", "new_coords", "old2new", "new2old"), out.value[2:]):
                        R.equal(lbl + ": " + q, v, True, out.facts, out.guard)
            out = R.ev(I, lambda: (lambda r: (comp(I, r), shape(r)))(I.call(TM, [nested(I, [v for row in T for v in row]), nested(I, O[:m]), nested(I, P[:n]), (n, m)], {})))
            if R.no_raise("flat with a shape", out):
                R.same_all("flat with a shape", out.value[0], both(T), out)

            def inverse():
                r = I.call(TM, [nested(I, T), nested(I, O[:m]), nested(I, P[:n])], {})
                a = meth(I, r, "inv")
                b = meth(I, r, "inv")
                return comp(I, a), shape(a), I.truth(I.compare("is", a, b)), comp(I, r)
            out = R.ev(I, inverse)
            R.where = R.loc_of(I, H + "TransformationMatrix.inv")
            if R.no_raise("inv", out):
                R.same_all("inv", out.value[0], tuple(tuple(ONE / v for v in row) for row in T), out)
                R.require("inv: shape", out.value[1] == (n, m), "shape %r" % (out.value[1],))
                R.equal("inv: computed once", out.value[2], True, out.facts, out.guard)
                R.same_all("inv: source unchanged", out.value[3], both(T), out)

            def two():
                r = I.call(TM, [nested(I, T), nested(I, O[:m]), nested(I, P[:n])], {})
                s = I.call(TM, [nested(I, tuple(tuple(v + ONE for v in row) for row in T)), nested(I, O[:m]), nested(I, P[:n])], {})
                meth(I, r, "inv")
                return comp(I, meth(I, s, "inv"))
            out = R.ev(I, two)
            if R.no_raise("inv of a second matrix", out):
                R.same_all("inv of a second matrix", out.value, tuple(tuple(ONE / (v + ONE) for v in row) for row in T), out)
            R.where = R.loc_of(I, H + "TransformationMatrix.__new__")
        R.guard("hold", hold)

    def ranks():
        R.group = "rank"
        for lbl, T in (("vector", (S("a"), S("b"))), ("rank 3", opaque(3, 2, "T")), ("rank 4", opaque(4, 2, "T"))):
            must_raise(R, I, lbl, lambda: comp(I, I.call(TM, [nested(I, T), nested(I, O[:2]), nested(I, P[:2])], {})), ("ValueError",), where=R.where)
        must_raise(R, I, "from_old2new", lambda: I.call(I.getattr_(TM, "from_old2new"), [nested(I, O[:2]), nested(I, P[:2]), nested(I, (S("a"), S("b")))], {}), ("NotImplementedError",))
        must_raise(R, I, "from_old2new, both rules", lambda: I.call(I.getattr_(TM, "from_old2new"), [nested(I, O[:2]), nested(I, P[:2])], dict(old2new=nested(I, (S("a"), S("b"))), new2old=None)), ("NotImplementedError",))
    R.guard("ranks", ranks)

    def derive():
        R.where = R.loc_of(I, H + "TransformationMatrix.from_new2old")
        p, q, w = P[:3]
        sn, cs = tm.sin, tm.cos
        for lbl, new, rule in (("polar", P[:2], (p * cs(q), p * sn(q))), ("general 2D", P[:2], (fn("x", p, q), fn("y", p, q))), ("spherical", P[:3], (p * sn(q) * cs(w), p * sn(q) * sn(w), fn("z", p, q, w))),
                               ("general 3D", P[:3], tuple(fn(c, p, q, w) for c in "xyu")), ("general 4D", P, tuple(fn(c, *P) for c in "xyuv"))):
            R.group = "from_new2old " + lbl
            n = len(new)
            rl = nested(I, rule)

            def f():
                a, b = nested(I, O[:n]), nested(I, new)
                r = I.call(I.getattr_(TM, "from_new2old"), [a, b, rl], {})
                return (comp(I, r), shape(r), I.truth(I.compare("is", get(I, r, "old_coords"), a)), I.truth(I.compare("is", get(I, r, "new_coords"), b)),
                        I.truth(I.compare("is", get(I, r, "new2old"), rl)), I.truth(I.compare("is", get(I, r, "old2new"), None)), comp(I, meth(I, r, "inv")), isinst(I, r, TM))
            out = R.ev(I, f)
            if R.no_raise("call", out):
                J = tuple(tuple(tm.diff(tm.as_t(rule[j]), new[i]) for j in range(n)) for i in range(n))
                R.same_all("entries", out.value[0], tuple(tuple(ONE / v for v in row) for row in J), out)
                R.require("shape", out.value[1] == (n, n), "shape %r" % (out.value[1],))
                for nm, v in zip(("old_coords", "new_coords", "new2old", "no old2new"), out.value[2:6]):
                    R.equal(nm, v, True, out.facts, out.guard)
                R.same_all("inv", out.value[6], J, out)
                R.equal("class", out.value[7], True, out.facts, out.guard)
    R.guard("derive", derive)

    def helpers():
        R.where = R.loc_of(I, H + "simplify_sympy_array")
        SA, NP = I.global_(H + "simplify_sympy_array"), I.global_(H + "sympy_to_np_array")
        arr_ = lambda T: I.call(ExtV("sympy.ImmutableDenseNDimArray"), [nested(I, T)], {})
        def box(sh, idx=()):
            return tuple(box(sh[1:], idx + (i,)) for i in range(sh[0])) if sh else S("T" + "".join(map(str, idx)))
        for sh in ((1,), (2,), (4,), (2, 2), (3, 3), (2, 3), (3, 1), (4, 2), (2, 2, 2), (2, 3, 4), (3, 1, 2), (2, 2, 2, 2), (1, 2, 3, 2)):
            T = box(sh)
            R.group = "shape %s" % (sh,)
            for nm, g in (("simplify_sympy_array", SA), ("sympy_to_np_array", NP)):
                out = R.ev(I, lambda: (lambda a: (lambda r: (comp(I, r), shape(r), comp(I, a)))(I.call(g, [a], {})))(arr_(T)))
                if R.no_raise(nm, out):
                    R.same_all(nm + " entries", out.value[0], T, out)
                    R.require(nm + " shape", out.value[1] == sh, "shape %r" % (out.value[1],))
                    R.same_all(nm + " leaves its argument", out.value[2], T, out)
        R.group = "scalar"
        e = fn("f", *P[:2]) * P[0] + P[1]
        out = R.ev(I, lambda: I.call(SA, [e], {}))
        if R.no_raise("expression", out):
            R.same_all("expression", out.value, e, out)
        # an array without axes stays one (sympy cannot turn it into a list)
        out = R.ev(I, lambda: (lambda r: (shape(r), tuple(I.iterate(r))))(I.call(SA, [I.call(ExtV("sympy.ImmutableDenseNDimArray"), [e], {})], {})))
        if R.no_raise("array of rank 0", out):
            R.same_all("array of rank 0", out.value, ((), (e,)), out)
    R.guard("helpers", helpers)

