"""benign.py [NAME...] : self-assessment only. Applies behaviour-preserving rewrites to a scratch copy of the whole package, confirms with the repository's
tests that nothing changed, and runs every check on the result: each has to stay quiet."""
import ast
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "src/einsteinpy"
NUMERIC = ("metric/", "geodesic/utils", "coordinates/conversion", "coordinates/utils", "integrators/", "rays/", "hypersurface/", "utils/scalar")


def isdoc(s):
    return isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, str)


class T(ast.NodeTransformer):
    def __init__(self, f):
        self.f = f
        self.n = 0
        self.fresh = 0

    def new(self, p="_t"):
        self.fresh += 1
        return "%s%d" % (p, self.fresh)

    def run(self, tree):
        return self.visit(tree)


def funcs(tree):
    return [n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)]


def jitted(n):
    return any("jit" in ast.unparse(d) for d in n.decorator_list)


class Rename(T):
    """local variables renamed"""
    def run(self, tree):
        for fn in funcs(tree):
            inner = [m for m in ast.walk(fn) if isinstance(m, (ast.FunctionDef, ast.Lambda)) and m is not fn]
            params = {a.arg for m in inner + [fn] for a in m.args.args + m.args.kwonlyargs + [x for x in (m.args.vararg, m.args.kwarg) if x]}
            glob = {g for m in ast.walk(fn) if isinstance(m, (ast.Global, ast.Nonlocal)) for g in m.names}
            store = {m.id for m in ast.walk(fn) if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store)} - params - glob
            names = {m.name for m in inner if isinstance(m, ast.FunctionDef)}
            imp = {(a.asname or a.name).split(".")[0] for m in ast.walk(fn) if isinstance(m, (ast.Import, ast.ImportFrom)) for a in m.names}
            store -= names | imp
            deco = {id(y) for x in fn.decorator_list for y in ast.walk(x)}
            for m in ast.walk(fn):
                if id(m) not in deco and isinstance(m, ast.Name) and m.id in store and not m.id.endswith("_rn"):
                    m.id += "_rn"
                    self.n += 1
        return tree


class Temps(T):
    """returned values and operands go through temporaries"""
    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, ast.Name):
            return n
        t = self.new()
        self.n += 1
        return [ast.Assign([ast.Name(t, ast.Store())], n.value), ast.Return(ast.Name(t, ast.Load()))]

    def visit_Assign(self, n):
        if isinstance(n.value, ast.BinOp):
            a, b = self.new(), self.new()
            self.n += 1
            return [ast.Assign([ast.Name(a, ast.Store())], n.value.left), ast.Assign([ast.Name(b, ast.Store())], n.value.right),
                    ast.Assign(n.targets, ast.BinOp(ast.Name(a, ast.Load()), n.value.op, ast.Name(b, ast.Load())))]
        return n

    def visit_Lambda(self, n):
        return n

    def visit_ClassDef(self, n):
        n.body = [self.visit(s) if isinstance(s, (ast.FunctionDef, ast.ClassDef)) else s for s in n.body]
        return n

    def visit_Module(self, n):
        n.body = [self.visit(s) if isinstance(s, (ast.FunctionDef, ast.ClassDef)) else s for s in n.body]
        return n


class Noop(T):
    """statements that do nothing"""
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        i = 1 if n.body and isdoc(n.body[0]) else 0
        n.body[i:i] = [ast.Pass(), ast.Assign([ast.Name("_unused", ast.Store())], ast.Constant(0))]
        self.n += 1
        return n


class Commute(T):
    """a + b -> b + a, a * b -> b * a in numeric modules"""
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if self.f.startswith(NUMERIC) and isinstance(n.op, (ast.Add, ast.Mult)) and not any(isinstance(m, (ast.List, ast.JoinedStr, ast.Tuple)) or isinstance(m, ast.Call) and getattr(m.func, "id", "") == "list" or isinstance(m, ast.Constant) and isinstance(m.value, str) for m in ast.walk(n)):
            n.left, n.right = n.right, n.left
            self.n += 1
        return n


class Invert(T):
    """if c: A else: B -> if not c: B else: A"""
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body
            self.n += 1
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        self.n += 1
        return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)


class While(T):
    """for loops as while loops over an index"""
    def visit_FunctionDef(self, n):
        if jitted(n):
            return n
        self.generic_visit(n)
        return n

    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse:
            return n
        it, ix = self.new("_it"), self.new("_ix")
        self.n += 1
        L, S = ast.Load(), ast.Store()
        body = [ast.Assign([n.target], ast.Subscript(ast.Name(it, L), ast.Name(ix, L), L)), ast.AugAssign(ast.Name(ix, S), ast.Add(), ast.Constant(1))] + n.body
        return [ast.Assign([ast.Name(it, S)], ast.Call(ast.Name("list", L), [n.iter], [])), ast.Assign([ast.Name(ix, S)], ast.Constant(0)),
                ast.While(ast.Compare(ast.Name(ix, L), [ast.Lt()], [ast.Call(ast.Name("len", L), [ast.Name(it, L)], [])]), body, [])]


class Maps(T):
    """list comprehensions as list(map(lambda ...))"""
    def visit_ListComp(self, n):
        self.generic_visit(n)
        if len(n.generators) == 1 and not n.generators[0].ifs and isinstance(n.generators[0].target, ast.Name):
            self.n += 1
            lam = ast.Lambda(ast.arguments([], [ast.arg(n.generators[0].target.id)], None, [], [], None, []), n.elt)
            return ast.Call(ast.Name("list", ast.Load()), [ast.Call(ast.Name("map", ast.Load()), [lam, n.generators[0].iter], [])], [])
        return n


class Loops(T):
    """x = [e for ...] as a loop with append"""
    def visit_Assign(self, n):
        if isinstance(n.value, ast.ListComp) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            t = self.new("_acc")
            inner = [ast.Expr(ast.Call(ast.Attribute(ast.Name(t, ast.Load()), "append", ast.Load()), [n.value.elt], []))]
            for g in reversed(n.value.generators):
                for c in reversed(g.ifs):
                    inner = [ast.If(c, inner, [])]
                inner = [ast.For(g.target, g.iter, inner, [])]
            self.n += 1
            return [ast.Assign([ast.Name(t, ast.Store())], ast.List([], ast.Load()))] + inner + [ast.Assign(n.targets, ast.Name(t, ast.Load()))]
        return n


class Extract(T):
    """bodies moved into private helpers"""
    def visit_ClassDef(self, n):
        out = []
        for s in n.body:
            if isinstance(s, ast.FunctionDef) and not s.decorator_list and not (s.name.startswith("__") and s.name in ("__new__", "__init_subclass__")) and len(s.body) > 1 and s.args.args \
                    and not any(isinstance(m, (ast.Yield, ast.YieldFrom)) for m in ast.walk(s)):
                out += self.split(s, lambda nm: ast.Attribute(ast.Name(s.args.args[0].arg, ast.Load()), nm, ast.Load()), 1, n.name.lower())
            else:
                out.append(s)
        n.body = out
        return n

    def visit_Module(self, n):
        out = []
        for s in n.body:
            if isinstance(s, ast.ClassDef):
                out.append(self.visit(s))
            elif isinstance(s, ast.FunctionDef) and not s.decorator_list and len(s.body) > 1:
                out += self.split(s, lambda nm: ast.Name(nm, ast.Load()), 0)
            else:
                out.append(s)
        n.body = out
        return n

    def split(self, s, ref, skip, pre="do"):
        nm = "_%s_%s" % (pre, s.name.strip("_"))
        self.n += 1
        a = s.args
        doc = s.body[:1] if isdoc(s.body[0]) else []
        L = ast.Load()
        call = ast.Call(ref(nm), [ast.Name(x.arg, L) for x in a.args[skip:]] + ([ast.Starred(ast.Name(a.vararg.arg, L), L)] if a.vararg else []),
                        [ast.keyword(x.arg, ast.Name(x.arg, L)) for x in a.kwonlyargs] + ([ast.keyword(None, ast.Name(a.kwarg.arg, L))] if a.kwarg else []))
        b = ast.arguments(a.posonlyargs, a.args, a.vararg, a.kwonlyargs, [None] * len(a.kwonlyargs), a.kwarg, [])
        helper = ast.FunctionDef(nm, b, s.body[len(doc):], [], None)
        helper.type_params = []
        s.body = doc + [ast.Return(call)]
        return [helper, s]


class Square(T):
    """x ** 2 -> x * x, a - b -> a + (-b) in numeric modules"""
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if not self.f.startswith(NUMERIC):
            return n
        if isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2 and isinstance(n.left, (ast.Name, ast.Attribute, ast.Call)):
            self.n += 1
            return ast.BinOp(n.left, ast.Mult(), n.left)
        if isinstance(n.op, ast.Sub):
            self.n += 1
            return ast.BinOp(n.left, ast.Add(), ast.UnaryOp(ast.USub(), n.right))
        return n


class FromNumpy(T):
    """np.f -> from numpy import f"""
    def run(self, tree):
        used = set()

        class R(ast.NodeTransformer):
            def visit_Attribute(s, m):
                s.generic_visit(m)
                if isinstance(m.value, ast.Name) and m.value.id == "np" and m.attr not in ("emath", "linalg", "ndarray"):
                    used.add(m.attr)
                    self.n += 1
                    return ast.copy_location(ast.Name("_np_" + m.attr, m.ctx), m)
                return m
        if not any(isinstance(s, ast.Import) and any(a.name == "numpy" and a.asname == "np" for a in s.names) for s in tree.body):
            return tree
        tree = R().visit(tree)
        i = max([k for k, s in enumerate(tree.body) if isinstance(s, (ast.Import, ast.ImportFrom))], default=-1) + 1
        if used:
            tree.body.insert(i, ast.ImportFrom("numpy", [ast.alias(u, "_np_" + u) for u in sorted(used)], 0))
        return tree


class Ternary(T):
    """if c: return a ; return b -> return a if c else b"""
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        if len(n.body) >= 2 and isinstance(n.body[-1], ast.Return) and isinstance(n.body[-2], ast.If) and not n.body[-2].orelse and len(n.body[-2].body) == 1 \
                and isinstance(n.body[-2].body[0], ast.Return) and n.body[-1].value and n.body[-2].body[0].value and not jitted(n):
            i = n.body[-2]
            n.body[-2:] = [ast.Return(ast.IfExp(i.test, i.body[0].value, n.body[-1].value))]
            self.n += 1
        return n


class Deaug(T):
    """x += y -> x = x + y"""
    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name):
            self.n += 1
            return ast.Assign([n.target], ast.BinOp(ast.Name(n.target.id, ast.Load()), n.op, n.value))
        return n


class Format(T):
    """f-strings as str.format"""
    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        s, a = "", []
        for v in n.values:
            if isinstance(v, ast.Constant):
                s += v.value.replace("{", "{{").replace("}", "}}")
            else:
                if v.format_spec is not None or v.conversion != -1:
                    return n
                s += "{}"
                a.append(v.value)
        self.n += 1
        return ast.Call(ast.Attribute(ast.Constant(s), "format", ast.Load()), a, [])


class Reorder(T):
    """methods in reverse order"""
    def visit_ClassDef(self, n):
        ms = [s for s in n.body if isinstance(s, ast.FunctionDef)]
        if len(ms) > 1 and all(not any("setter" in ast.unparse(d) for d in m.decorator_list) for m in ms) \
                and not any(isinstance(s, ast.Assign) and isinstance(s.value, ast.Name) for s in n.body):
            it = iter(reversed(ms))
            n.body = [next(it) if isinstance(s, ast.FunctionDef) else s for s in n.body]
            self.n += 1
        return n


class Keywords(T):
    """guard clauses: if c: (raise|return) ... followed by rest -> if/else"""
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        if jitted(n):
            return n
        for i, s in enumerate(n.body[:-1]):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Raise, ast.Return)):
                s.orelse = n.body[i + 1:]
                del n.body[i + 1:]
                self.n += 1
                break
        return n


class Unpack(T):
    """a, b = x, y -> through a tuple; self.x = v -> via a local"""
    def visit_Assign(self, n):
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Tuple) and not any(isinstance(e, ast.Starred) for e in n.targets[0].elts):
            t = self.new("_tup")
            self.n += 1
            L = ast.Load()
            return [ast.Assign([ast.Name(t, ast.Store())], ast.Call(ast.Name("tuple", L), [n.value], []))] + \
                   [ast.Assign([e], ast.Subscript(ast.Name(t, L), ast.Constant(i), L)) for i, e in enumerate(n.targets[0].elts)]
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute):
            t = self.new("_val")
            self.n += 1
            return [ast.Assign([ast.Name(t, ast.Store())], n.value), ast.Assign(n.targets, ast.Name(t, ast.Load()))]
        return n

    def visit_FunctionDef(self, n):
        if jitted(n):
            return n
        self.generic_visit(n)
        return n

    visit_Module = Temps.visit_Module
    visit_ClassDef = Temps.visit_ClassDef


ALL = [Rename, Temps, Noop, Commute, Invert, While, Maps, Loops, Extract, Square, FromNumpy, Ternary, Deaug, Format, Reorder, Keywords, Unpack]


def apply(cls, wd):
    n = 0
    for root, _, fs in os.walk(os.path.join(wd, SRC)):
        for x in fs:
            if not x.endswith(".py"):
                continue
            p = os.path.join(root, x)
            t = cls(os.path.relpath(p, os.path.join(wd, SRC)))
            tree = t.run(ast.parse(open(p).read()))
            ast.fix_missing_locations(tree)
            if t.n:
                n += t.n
                open(p, "w").write(ast.unparse(tree) + "\n")
    return n


def main():
    have = sorted(x[:-3].upper() for x in os.listdir(os.path.join(V, "checks")) if x[0] == "c" and x[1:3].isdigit())
    names = [a for a in sys.argv[1:] if a[:1].isupper() and not a[1:].isdigit()]
    only = [a for a in sys.argv[1:] if a[1:].isdigit() and a[0] == "C"]
    jobs = int(next((a[2:] for a in sys.argv[1:] if a.startswith("-j")), 7))
    for cls in ALL:
        if names and cls.__name__ not in names:
            continue
        wd = "/tmp/benign_%s_%d" % (cls.__name__, os.getpid())
        shutil.rmtree(wd, ignore_errors=True)
        shutil.copytree("/repo", wd + "/repo", symlinks=True)
        for x in ("sa", "checks"):
            shutil.copytree(os.path.join(V, x), wd + "/verif/" + x)
        for x in ("check.py", "KNOWN_FINDINGS.txt"):
            shutil.copy(os.path.join(V, x), wd + "/verif/" + x)
        os.makedirs(wd + "/verif/evidence")
        n = apply(cls, wd + "/repo")
        env = dict(os.environ, PYTHONPATH=wd + "/repo/src", MPLBACKEND="Agg", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
        r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "6", "--timeout=300"], cwd=wd + "/repo", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        tl = r.stdout.strip().splitlines()
        print("== %s: %s; %d places; tests %s" % (cls.__name__, cls.__doc__, n, tl[-1] if tl else r.returncode), flush=True)
        if r.returncode:
            print("\n".join(l[:200] for l in tl if l.startswith(("FAILED", "ERROR", "E  ")))[:1500])

            shutil.rmtree(wd)
            continue

        def one(c):
            try:
                p = subprocess.run(["python3-vt", wd + "/verif/check.py", c], cwd=wd + "/verif", env=dict(os.environ, SA_REPO=wd + "/repo"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
                return c, p.returncode, p.stdout
            except subprocess.TimeoutExpired:
                return c, "timeout", ""
        with cf.ThreadPoolExecutor(jobs) as ex:
            for c, rc, o in ex.map(one, only or have):
                if rc != 0:
                    print("   %s rc=%s %s" % (c, rc, "\n        ".join(l[:330] for l in o.strip().splitlines()[:4])), flush=True)
        shutil.rmtree(wd)


if __name__ == "__main__":
    main()
