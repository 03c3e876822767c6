"""C30: every predefined metric is reachable by search and from the package, and public names resolve."""
import ast
import os
from .symcommon import *
from sa.values import FuncV, ClassV, ModuleV, WrapV, Seq
from sa.harness import SRC

MIN_OBLIGATIONS = 150
PK = SY + "predefined"


def strs(I, v):
    return tuple(x if isinstance(x, str) else repr(x) for x in I.iterate(v))


def attr(I, mod, name):
    """what `from mod import name` binds: the attribute of the module, else the submodule"""
    m = I.modules.get(mod)
    if m is not None:
        d = I.content(m.frame).d
        if name in d:
            return d[name]
    return I.global_(mod + "." + name)


def run(R):
    R.rule("find(s) lists exactly the predefined metrics whose name contains s, ignoring case; every function of the predefined package that returns a metric is found and is the one exported "
           "by einsteinpy.symbolic; every name in an __all__ list or imported by a package resolves to the object of the module that defines it")
    I = sym_interp(R)
    mod = I.global_(PK)
    # the metrics, from the source: module-level functions of the predefined package whose call yields a MetricTensor
    funcs = {}
    for nm, m in sorted(I.modules.items()):
        if not nm.startswith(PK + "."):
            continue
        with open(m.path) as fh:
            tree = ast.parse(fh.read())
        for node in tree.body:
            names = []
            if isinstance(node, ast.FunctionDef):
                names = [node.name]
            elif isinstance(node, ast.Assign):
                names = [t.id for t in node.targets if isinstance(t, ast.Name)]
            for f in names:
                if f.startswith("_"):
                    continue
                v = I.global_(nm + "." + f)
                if not isinstance(v, FuncV):
                    continue
                a = v.node.args
                if len(a.args) - len(a.defaults) > 0:
                    continue
                out = R.ev(I, lambda: outcls(I, I.call(v, [], {})))
                if out.value == "MetricTensor":
                    funcs[f] = v
    R.group = "predefined"
    R.where = R.loc_of(I, PK)
    R.require("metrics found in the source", len(funcs) >= 15, "only %d predefined metrics recognised: %s" % (len(funcs), sorted(funcs)))
    for f, v in funcs.items():
        def exp(f=f, v=v):
            for pk in (PK, "einsteinpy.symbolic"):
                R.where = R.loc_of(I, pk)
                try:
                    got = I.global_(pk + "." + f)
                except AnalysisError:
                    R.fail("%s exported by %s" % (f, pk), "%s.%s does not exist" % (pk, f), R.loc_of(I, v.mod.name + "." + f))
                    continue
                R.require("%s exported by %s" % (f, pk), got is v or (isinstance(got, FuncV) and got.node is v.node), "%s.%s is %r" % (pk, f, got))
        R.guard(f, exp)

    def search():
        R.group = "find"
        R.where = R.loc_of(I, PK + ".find")
        fd = I.global_(SY + "find")
        subs = {"", "zz", "q1"}
        for f in funcs:
            subs |= {f, f.lower(), f.upper(), f[:3], f[-4:], f[1:5].upper(), f[2:6]}
        subs |= {"sitter", "DE", "newman", "Mink", "o", "E"}
        # the string is matched as it is: no trimming, no patterns, no splitting
        subs |= {" ", " Kerr", "Kerr ", "\tDe", "Kerr\n", ".", "^De", "r$", "Kerr|Godel", "K.rr", "*", "De*", "?", "[D]e", "(", "\\", "Kerr,Godel", "Anti De", "-", "_", "__", "1"}
        for s in sorted(subs):
            out = R.ev(I, lambda: strs(I, I.call(fd, [s], {})))
            if not R.no_raise(repr(s), out):
                continue
            want = sorted(f for f in funcs if s.lower() in f.lower())
            got = sorted(out.value)
            R.require(repr(s), got == want, "returns %s, expected %s" % (got, want))
    R.guard("find", search)

    # ---- public names
    for nm, m in sorted(I.modules.items()):
        def alls(nm=nm, m=m):
            R.group = nm
            R.where = os.path.relpath(m.path, os.path.dirname(SRC)) + ":1"
            with open(m.path) as fh:
                tree = ast.parse(fh.read())
            listed = set()
            for node in tree.body:
                if isinstance(node, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "__all__" for t in node.targets):
                    try:
                        listed = set(ast.literal_eval(node.value))
                    except ValueError:
                        R.notes.append("%s.__all__ is not a literal" % nm)
            for k in sorted(listed):
                try:
                    I.global_(nm + "." + k)
                    R.ok("__all__ %s" % k)
                except AnalysisError:
                    R.fail("__all__ %s" % k, "%s lists %r in __all__ but does not define it" % (nm, k))
            if not m.path.endswith("__init__.py"):
                return
            for node in tree.body:
                if not isinstance(node, ast.ImportFrom) or node.level == 0 and not (node.module or "").startswith("einsteinpy"):
                    continue
                base = nm.split(".")[:len(nm.split(".")) - (node.level - 1)] if node.level else []
                src = ".".join(base + ([node.module] if node.module else []))
                for al in node.names:
                    if al.name == "*":
                        continue
                    try:
                        a = attr(I, src, al.name)
                        b = attr(I, nm, al.asname or al.name)
                    except AnalysisError as e:
                        R.fail("import %s" % al.name, "%s imports %s from %s: %s" % (nm, al.name, src, e))
                        continue
                    same_ = a is b or (isinstance(a, (FuncV, ClassV)) and isinstance(b, type(a)) and a.node is b.node) or isinstance(a, ModuleV) or \
                        (isinstance(b, (FuncV, ClassV)) and getattr(a, "node", None) is b.node) or a == b
                    R.require("import %s" % al.name, bool(same_), "%s.%s is not the object defined in %s" % (nm, al.asname or al.name, src))
        R.guard(nm, alls)
