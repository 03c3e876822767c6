"""Abstract interpreter over the Python syntax tree.

Flow-sensitive, context-sensitive value-flow analysis: every statement transforms an
abstract state (heap of frames and objects, path facts, effect trace); branches are
analysed once each and *joined* (values become gated on the branch predicate); constant
trip-count loops are unrolled.  Values are exact terms (sa.terms), so the result of a
function is a gated value graph of its inputs.  No code of the repository is executed.
"""
import ast
import builtins as _bi
import os
from fractions import Fraction

from . import terms as tm
from .terms import T, as_t
from .values import *


def as_split(e, st):
    """an operation met a conditional value where it needs a plain one: take the two cases apart"""
    if isinstance(e, SplitNeeded):
        return e
    if isinstance(e.value, Ite) and e.value.a.id not in st.facts:
        return SplitNeeded(e.value.a)
    raise e


class Dead(Exception):
    """current abstract state is unreachable (all paths left abruptly)"""


class State:
    __slots__ = ("base", "heap", "facts", "guard", "trace")

    def __init__(self, base, heap, facts, guard, trace):
        self.base = base
        self.heap = heap
        self.facts = facts
        self.guard = guard
        self.trace = trace

    def copy(self):
        return State(self.base, dict(self.heap), self.facts, self.guard, self.trace)

    def get(self, i):
        r = self.heap.get(i)
        if r is None:
            r = self.base.get(i)
        return r


class Ctx:
    __slots__ = ("abrupt", "frame", "mod", "func", "cls", "slf", "globals", "nonlocals", "yields", "captured", "isclass")

    def __init__(self, frame, mod, func=None, cls=None, slf=None):
        self.abrupt = []
        self.frame = frame
        self.mod = mod
        self.func = func
        self.cls = cls
        self.slf = slf
        self.globals = set()
        self.nonlocals = set()
        self.yields = None
        self.captured = False
        self.isclass = False


class Event:
    __slots__ = ("name", "args", "kwargs", "facts", "loc")

    def __init__(self, name, args, kwargs, facts, loc):
        self.name = name
        self.args = args
        self.kwargs = kwargs
        self.facts = facts
        self.loc = loc

    def __repr__(self):
        return "<event %s %r %r @%s>" % (self.name, self.args, self.kwargs, self.loc)


_OPN = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Pow: "**", ast.FloorDiv: "//",
        ast.Mod: "%", ast.MatMult: "@", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^",
        ast.LShift: "<<", ast.RShift: ">>"}
DUNDER = {"+": "add", "-": "sub", "*": "mul", "/": "truediv", "**": "pow", "//": "floordiv", "%": "mod",
          "@": "matmul", "&": "and", "|": "or", "^": "xor", "<<": "lshift", ">>": "rshift"}
_CMPN = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=",
         ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
CDUNDER = {"==": "__eq__", "!=": "__ne__", "<": "__lt__", "<=": "__le__", ">": "__gt__", ">=": "__ge__"}
SWAP = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}

NAN = tm.sym("nan")


class Interp:
    def __init__(self, root, package="einsteinpy", structural_eq=False):
        self.root = root
        self.package = package
        self.modules = {}
        self.sources = {}
        self.structural_eq = structural_eq   # sympy-style ==
        self.st = State({}, {}, {}, True, ())
        self.ctx = None
        self.nid = 0
        self.depth = 0
        self.line = 0
        self.analysed = {}       # function qualname -> number of contexts analysed
        self.stmts = 0
        self.joins = 0
        self.overrides = {}
        self.div_log = None
        self.write_loc = {}
        self.ret_loc = {}
        self.alloc_loc = {}
        self.record_calls = None
        self.opq = 0
        self.missing = ()        # libraries assumed not to be installed
        self.extra_builtins = {}
        self.hooks = {}          # library entry points a check models itself
        from . import models
        self.models = models
        self._mods_done = False

    # ------------------------------------------------------------ heap
    def alloc(self, content):
        self.nid += 1
        self.st.heap[self.nid] = content
        return Ref(self.nid)

    def content(self, ref):
        c = self.st.get(ref.id)
        while isinstance(c, CondContent):
            b = restrict(c.B, self.st.facts)
            if b is True:
                c = c.t
            elif b is False:
                c = c.f
            else:
                raise SplitNeeded(b.a)
        if c is None:
            raise AnalysisError("dangling reference %d" % ref.id)
        return c

    def put(self, ref, content):
        self.st.heap[ref.id] = content

    def new_list(self, items):
        return self.alloc(Seq("list", tuple(items)))

    def new_iter(self, items):
        """a one-shot iterator: iterating it uses it up"""
        return self.alloc(Seq("iter", tuple(items)))

    def new_dict(self, d):
        return self.alloc(Dct(dict(d)))

    def new_arr(self, shape, el, lib="np", dtype=None):
        r = self.alloc(Arr(shape, tuple(el), lib, dtype))
        self.alloc_loc[r.id] = self.loc()
        return r

    def arr(self, ref):
        """(shape, elements) of an array reference"""
        c = self.content(ref)
        if c.view is not None:
            base = self.arr(Ref(c.view[0]))
            return Arr(c.shape, tuple(base.el[i] for i in c.view[1]), c.lib, c.dtype)
        return c

    def set_el(self, ref, flat, val):
        c = self.content(ref)
        if c.view is not None:
            self.set_el(Ref(c.view[0]), c.view[1][flat], val)
            return
        el = list(c.el)
        el[flat] = val
        self.put(ref, Arr(c.shape, tuple(el), c.lib, c.dtype))
        self.write_loc[(ref.id, flat)] = self.loc()

    def set_els(self, ref, pairs):
        c = self.content(ref)
        if c.view is not None:
            self.set_els(Ref(c.view[0]), [(c.view[1][f], v) for f, v in pairs])
            return
        el = list(c.el)
        for f, v in pairs:
            el[f] = v
            self.write_loc[(ref.id, f)] = self.loc()
        self.put(ref, Arr(c.shape, tuple(el), c.lib, c.dtype))

    def loc(self):
        m = self.ctx.mod if self.ctx else None
        f = self.ctx.func if self.ctx else None
        return "%s:%s%s" % (os.path.relpath(m.path, self.root) if m else "?", self.line,
                            " (%s)" % f.qual if f else "")

    # ------------------------------------------------------------ states
    def assume_atom(self, st, a, val):
        f = dict(st.facts)
        if a.id in f:
            return f[a.id] == val
        f[a.id] = val
        for k, x in implied(a, val).items():
            if f.setdefault(k, x) != x:
                return False
        st.facts = f
        lit = Ite(a, True, False) if val else Ite(a, False, True)
        st.guard = b_and(st.guard, lit)
        return True

    def assume(self, st, b):
        """assume gated boolean b in state st; False if contradictory"""
        b = restrict(b, st.facts)
        if b is True:
            return True
        if b is False:
            return False
        st.guard = b_and(st.guard, b)
        f = dict(st.facts)
        while isinstance(b, Ite):
            if b.f is False:
                if f.setdefault(b.a.id, True) is not True or any(f.setdefault(k, x) != x for k, x in implied(b.a, True).items()):
                    return False
                b = b.t
            elif b.t is False:
                if f.setdefault(b.a.id, False) is not False or any(f.setdefault(k, x) != x for k, x in implied(b.a, False).items()):
                    return False
                b = b.f
            else:
                break
        st.facts = f
        return True

    def merge(self, items):
        """items: list of (state, value); returns (state, value)"""
        items = [(s, v) for s, v in items if s is not None]
        if not items:
            return None, None
        st, val = items[-1]
        for s, v in reversed(items[:-1]):
            self.joins += 1
            common = {k: x for k, x in s.facts.items() if st.facts.get(k) is x}
            B = restrict(s.guard, common)
            if B is True:
                # guards overlap only if analysis facts are lost; keep deterministic choice
                B2 = restrict(st.guard, common)
                B = b_not(B2) if B2 is not True else True
            heap = dict(st.heap)
            for i, c1 in s.heap.items():
                c2 = st.heap.get(i)
                if c2 is None:
                    c2 = st.base.get(i)
                if c2 is None:
                    heap[i] = c1
                elif c1 is not c2:
                    heap[i] = self.merge_content(B, c1, c2)
            for i, c2 in st.heap.items():
                if i not in s.heap:
                    c1 = s.base.get(i)
                    if c1 is not None and c1 is not c2:
                        heap[i] = self.merge_content(B, c1, c2)
            val = ite(B, v, val)
            tr = self.merge_trace(s.trace, st.trace)
            st = State(st.base, heap, common, b_or(s.guard, st.guard), tr)
        return st, val

    def merge_trace(self, a, b):
        if a is b:
            return a
        n = 0
        m = min(len(a), len(b))
        while n < m and a[n] is b[n]:
            n += 1
        return a + b[n:]

    def merge_content(self, B, a, b):
        if type(a) is type(b):
            if isinstance(a, (Inst, Frame)):
                if isinstance(a, Inst) and a.cls is not b.cls:
                    return CondContent(B, a, b)
                d = {}
                for k in list(a.d) + [k for k in b.d if k not in a.d]:
                    x, y = a.d.get(k, UNDEF), b.d.get(k, UNDEF)
                    d[k] = x if x is y else ite(B, x, y)
                return Inst(a.cls, d) if isinstance(a, Inst) else Frame(d, a.parent)
            if isinstance(a, Seq) and len(a.items) == len(b.items):
                return Seq(a.kind, tuple(x if x is y else ite(B, x, y) for x, y in zip(a.items, b.items)))
            if isinstance(a, Dct) and list(a.d) == list(b.d):
                return Dct({k: (a.d[k] if a.d[k] is b.d[k] else ite(B, a.d[k], b.d[k])) for k in a.d}, a.default)
            if isinstance(a, Arr) and a.shape == b.shape and a.view is None and b.view is None:
                return Arr(a.shape, tuple(x if x is y else ite(B, x, y) for x, y in zip(a.el, b.el)), a.lib, a.dtype)
            if isinstance(a, Arr) and a.view is not None and a.view == b.view and a.shape == b.shape:
                return a
        return CondContent(B, a, b)

    def event(self, name, args=(), kwargs=None):
        self.st.trace = self.st.trace + (Event(name, args, kwargs or {}, self.st.facts, self.loc()),)

    def force(self, v):
        if isinstance(v, Ite):
            v = restrict(v, self.st.facts)
            if isinstance(v, Ite):
                raise SplitNeeded(v.a)
        if v is UNDEF:
            self.raise_builtin("UnboundLocalError", "variable may be undefined")
        return v

    # ------------------------------------------------------------ raising
    def raise_exc(self, exc):
        self.ctx.abrupt.append(("raise", self.st, exc))
        self.st = None
        raise Dead()

    def raise_builtin(self, name, *args):
        self.raise_exc(ExcV(ExtV("builtins." + name), tuple(args)))

    # ------------------------------------------------------------ modules
    def module_path(self, name):
        p = os.path.join(self.root, *name.split("."))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        if os.path.exists(p + ".py"):
            return p + ".py", False
        return None, False

    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        path, ispkg = self.module_path(name)
        if path is None:
            return None
        if "." in name:
            parent = self.load(name.rsplit(".", 1)[0])
            m = self.modules.get(name)
            if m is not None:
                return m
        with open(path) as fh:
            src = fh.read()
        self.sources[name] = src
        tree = ast.parse(src, path)
        fr = self.alloc(Frame({"__name__": name, "__doc__": None, "__file__": path}, None))
        m = ModuleV(name, fr, path)
        self.modules[name] = m
        saved = self.ctx, self.line
        facts, guard = self.st.facts, self.st.guard
        self.ctx = Ctx(fr, m)
        self.ctx.captured = True
        try:
            self.exec_block(tree.body)
            if self.st is None or self.ctx.abrupt:
                exc = self.ctx.abrupt[0][2] if self.ctx.abrupt else None
                raise AnalysisError("import of %s does not complete normally: %r" % (name, exc))
        finally:
            self.ctx, self.line = saved
        if "." in name:
            pn, short = name.rsplit(".", 1)
            pm = self.modules.get(pn)
            if pm is not None:
                c = self.content(pm.frame)
                if short not in c.d:
                    d = dict(c.d)
                    d[short] = m
                    self.put(pm.frame, Frame(d, None))
        return m

    def seal(self):
        """make the current heap the immutable base"""
        b = dict(self.st.base)
        b.update(self.st.heap)
        self.load_trace = self.st.trace
        self.st = State(b, {}, {}, True, ())

    def global_(self, dotted):
        """resolve 'einsteinpy.metric.kerr.Kerr.method'"""
        parts = dotted.split(".")
        m = None
        i = len(parts)
        while i > 0:
            n = ".".join(parts[:i])
            if self.module_path(n)[0]:
                m = self.load(n)
                break
            i -= 1
        if m is None:
            raise AnalysisError("anchor vanished: %s" % dotted)
        v = m
        for p in parts[i:]:
            if isinstance(v, ModuleV):
                c = self.content(v.frame)
                if p not in c.d:
                    raise AnalysisError("anchor vanished: %s" % dotted)
                v = c.d[p]
            elif isinstance(v, ClassV):
                x = self.class_lookup(v, p)
                if x is None:
                    raise AnalysisError("anchor vanished: %s" % dotted)
                v = x[0]
            else:
                raise AnalysisError("anchor vanished: %s" % dotted)
        return v

    # ------------------------------------------------------------ top level use by checks
    def run(self, fn):
        """run python callable fn() in a fresh pseudo frame; returns dict with outcome lists"""
        fr = self.alloc(Frame({}, None))
        saved = self.ctx
        c = Ctx(fr, ModuleV("<check>", fr, os.path.join(self.root, "<check>")))
        c.captured = True
        self.ctx = c
        base = self.st.copy()
        try:
            val = self._run_split(fn)
        finally:
            self.ctx = saved
        raises = [(s, e) for k, s, e in c.abrupt if k == "raise"]
        return val, raises

    def _run_split(self, fn):
        snap = self.st.copy()
        n = len(self.ctx.abrupt)
        try:
            v = fn()
            return v
        except Dead:
            self.st = None
            return None
        except (SplitNeeded, tm.TermError) as s:
            s = as_split(s, snap)
            del self.ctx.abrupt[n:]
            res = []
            for val in (True, False):
                st = snap.copy()
                if not self.assume_atom(st, s.atom, val):
                    continue
                self.st = st
                v = self._run_split(fn)
                if self.st is not None:
                    res.append((self.st, v))
            self.st, v = self.merge(res)
            return v

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts):
        for s in stmts:
            if self.st is None:
                return
            self.exec_stmt(s)

    def exec_stmt(self, node):
        self.stmts += 1
        snap = self.st.copy()
        ctx = self.ctx
        n = len(ctx.abrupt)
        ny = None
        self.line = getattr(node, "lineno", self.line)
        try:
            getattr(self, "x_" + type(node).__name__, self.x_unsupported)(node)
        except Dead:
            self.st = None
        except (SplitNeeded, tm.TermError) as s:
            s = as_split(s, snap)
            self.ctx = ctx
            del ctx.abrupt[n:]
            res = []
            if s.atom.id in snap.facts:
                raise AnalysisError("split on a decided predicate %r at %s" % (s.atom, self.loc()))
            for val in (True, False):
                st = snap.copy()
                if not self.assume_atom(st, s.atom, val):
                    continue
                self.st = st
                self.exec_stmt(node)
                if self.st is not None:
                    res.append((self.st, None))
            self.st, _ = self.merge(res)

    def x_unsupported(self, node):
        raise AnalysisError("unsupported statement %s at %s" % (type(node).__name__, self.loc()))

    def x_Pass(self, node):
        pass

    def x_Expr(self, node):
        if isinstance(node.value, ast.Constant):
            return
        self.ev(node.value)

    def x_Global(self, node):
        self.ctx.globals.update(node.names)

    def x_Nonlocal(self, node):
        self.ctx.nonlocals.update(node.names)

    def x_Import(self, node):
        for a in node.names:
            if a.name.split(".")[0] in self.missing:
                self.raise_builtin("ImportError", "No module named %r" % a.name)
            if a.name.split(".")[0] == self.package:
                m = self.load(a.name)
                if m is None:
                    self.raise_builtin("ImportError", a.name)
                if a.asname:
                    self.store_name(a.asname, m)
                else:
                    self.store_name(a.name.split(".")[0], self.load(a.name.split(".")[0]))
            else:
                if a.asname:
                    self.store_name(a.asname, self.models.ext(a.name))
                else:
                    self.store_name(a.name.split(".")[0], self.models.ext(a.name.split(".")[0]))

    def x_ImportFrom(self, node):
        mod = node.module or ""
        if node.level:
            cur = self.ctx.mod
            pk = cur.name if cur.path.endswith("__init__.py") else cur.name.rsplit(".", 1)[0]
            for _ in range(node.level - 1):
                pk = pk.rsplit(".", 1)[0]
            mod = pk + ("." + mod if mod else "")
        if mod.split(".")[0] in self.missing:
            self.raise_builtin("ImportError", "No module named %r" % mod)
        if mod.split(".")[0] == self.package:
            m = self.load(mod)
            if m is None:
                self.raise_builtin("ImportError", mod)
            for a in node.names:
                if a.name == "*":
                    c = self.content(m.frame)
                    names = None
                    if "__all__" in c.d:
                        names = [x for x in self.iterate(c.d["__all__"])]
                    else:
                        names = [x for x in c.d if not x.startswith("_")]
                    for x in names:
                        self.store_name(x, self.getattr_(m, x))
                    continue
                c = self.content(m.frame)
                if a.name in c.d:
                    v = c.d[a.name]
                else:
                    v = self.load(mod + "." + a.name)
                    if v is None:
                        self.raise_builtin("ImportError", "cannot import name %s from %s" % (a.name, mod))
                self.store_name(a.asname or a.name, v)
        else:
            for a in node.names:
                if a.name == "*":
                    raise AnalysisError("star import of external module %s" % mod)
                self.store_name(a.asname or a.name, self.models.ext_attr(ExtV(mod), a.name))

    def x_FunctionDef(self, node):
        f = self.make_func(node, node.name)
        v = f
        for d in reversed(node.decorator_list):
            dv = self.force(self.ev(d))
            v = self.apply_decorator(dv, v, node)
        self.store_name(node.name, v)

    x_AsyncFunctionDef = None

    def apply_decorator(self, dv, v, node):
        if isinstance(dv, ExtV):
            p = dv.path
            if p in ("builtins.staticmethod", "builtins.classmethod", "builtins.property",
                     "functools.cached_property"):
                if "cached" in p:
                    return WrapV("property", v, {"cached": node.name})
                return WrapV(p.split(".")[-1], v)
            if p in ("functools.lru_cache", "functools.cache"):
                return self.models.memoized(self, v)
            if p in self.models.IDENTITY_DECORATORS:
                return v
        if isinstance(dv, Method) and isinstance(dv.obj, WrapV) and dv.name in ("setter", "getter", "deleter"):
            w = WrapV("property", dv.obj.func, dict(dv.obj.extra or {}))
            if dv.name == "setter":
                w.extra["setter"] = v
            elif dv.name == "getter":
                w.func = v
            return w
        if isinstance(dv, Opaque) and dv.name in self.models.IDENTITY_DECORATORS:
            return v
        return self.call(dv, [v], {})

    def make_func(self, node, name):
        a = node.args
        defaults = [self.ev(d) for d in a.defaults]
        kwd = {}
        for k, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                kwd[k.arg] = self.ev(d)
        self.ctx.captured = True
        q = name
        if self.ctx.func is not None:
            q = self.ctx.func.qual + ".<locals>." + name
        elif self.ctx.cls is not None and self.ctx.isclass:
            q = self.ctx.cls.qual + "." + name
        elif self.ctx.mod is not None:
            q = self.ctx.mod.name + "." + name
        f = FuncV(node, self.ctx.frame if not self.ctx.isclass else self.ctx.slf, self.ctx.mod, q, defaults, kwd,
                  self.ctx.cls)
        return f

    def x_ClassDef(self, node):
        bases = [self.force(self.ev(b)) for b in node.bases]
        q = (self.ctx.cls.qual if self.ctx.isclass else self.ctx.mod.name) + "." + node.name
        ref = self.alloc(Frame({"__name__": node.name, "__doc__": None}, None))
        cls = ClassV(node.name, bases, ref, self.ctx.mod, q, node)
        cls.mro = self.linearize(cls)
        saved = self.ctx
        self.ctx.captured = True
        c = Ctx(ref, saved.mod, None, cls, saved.frame)
        c.isclass = True
        c.captured = True
        # class body frame: lookups fall back to enclosing frame
        self.put(ref, Frame(self.content(ref).d, saved.frame))
        self.ctx = c
        try:
            self.exec_block(node.body)
        finally:
            self.ctx = saved
        saved.abrupt.extend(x for x in c.abrupt if x[0] == "raise")
        if self.st is None:
            raise Dead()
        v = cls
        for d in reversed(node.decorator_list):
            dn = d.func if isinstance(d, ast.Call) else d
            dv = self.force(self.ev(dn))
            if isinstance(dv, ExtV) and dv.path.endswith("dataclass"):
                fields = []
                fr = self.content(ref)
                for s in node.body:
                    if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                        fields.append(s.target.id)
                d2 = dict(fr.d)
                opts = {k.arg: self.ev(k.value) for k in d.keywords} if isinstance(d, ast.Call) else {}
                inh = self.class_lookup(cls, "__dataclass_eq__")
                d2["__dataclass_fields__"] = tuple(fields)
                if opts.get("eq", True) is not False:
                    d2["__dataclass_eq__"] = tuple(inh[0] if inh else ()) + tuple(n for n in fields if not inh or n not in inh[0])
                if opts.get("frozen") is True:
                    d2["__frozen__"] = True
                self.put(ref, Frame(d2, fr.parent))
            elif isinstance(dv, ExtV):
                pass
            else:
                v = self.call(self.ev(d), [v], {})
        for b in bases:
            if isinstance(b, ExtV) and b.path in ("enum.Enum", "enum.IntEnum", "enum.StrEnum", "enum.Flag", "enum.IntFlag"):
                if b.path != "enum.Enum":
                    raise AnalysisError("%s at %s" % (b.path, self.loc()))
                fr = self.content(ref)
                d2, mem = dict(fr.d), []
                for st in node.body:
                    if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                        n = st.targets[0].id
                        m = self.alloc(Inst(cls, {"name": n, "value": d2[n], "_name_": n, "_value_": d2[n]}))
                        d2[n] = m
                        mem.append(m)
                d2["__enum_members__"] = tuple(mem)
                self.put(ref, Frame(d2, fr.parent))
            elif isinstance(b, ExtV) and b.path == "typing.NamedTuple":
                fields = [(st.target.id, st.value) for st in node.body if isinstance(st, ast.AnnAssign)]
                self.models.named_tuple(self, node.name, [n for n, _ in fields], ref)
        self.store_name(node.name, v)

    def linearize(self, cls):
        seqs = []
        for b in cls.bases:
            if isinstance(b, ClassV):
                seqs.append(list(b.mro))
            else:
                seqs.append([b])
        seqs.append(list(cls.bases))
        out = [cls]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in x[1:] for x in seqs):
                    break
            else:
                raise AnalysisError("cannot linearize %s" % cls.qual)
            out.append(h)
            seqs = [[x for x in s if x is not h and x != h] for s in seqs]
            seqs = [s for s in seqs if s]
        return out

    def x_Return(self, node):
        v = self.ev(node.value) if node.value is not None else None
        if self.ctx.func is not None:
            self.ret_loc.setdefault(self.ctx.func.qual, []).append(node.lineno)
        self.ctx.abrupt.append(("return", self.st, v))
        self.st = None

    def x_Break(self, node):
        self.ctx.abrupt.append(("break", self.st, None))
        self.st = None

    def x_Continue(self, node):
        self.ctx.abrupt.append(("continue", self.st, None))
        self.st = None

    def x_Raise(self, node):
        if node.exc is None:
            e = getattr(self, "_handling", None)
            self.raise_exc(e if e is not None else ExcV(ExtV("builtins.RuntimeError"), ()))
        v = self.force(self.ev(node.exc))
        self.line = node.lineno
        self.raise_exc(self.to_exc(v))

    def to_exc(self, v):
        if isinstance(v, ExcV):
            return v
        if isinstance(v, ExtV):
            return ExcV(v, ())
        if isinstance(v, ClassV):
            r = self.force(self.call(v, [], {}))
            return self.to_exc(r)
        if isinstance(v, Ref):
            c = self.content(v)
            if isinstance(c, Inst):
                return ExcV(c.cls, (), v)
        if isinstance(v, Opaque):
            return ExcV(ExtV("builtins.Exception"), (v,))
        raise AnalysisError("cannot raise %r at %s" % (v, self.loc()))

    def x_Assert(self, node):
        t = restrict(self.truth(self.ev(node.test)), self.st.facts)
        if t is True:
            return
        bad = self.st.copy()
        if self.assume(bad, b_not(t)):
            self.ctx.abrupt.append(("raise", bad, ExcV(ExtV("builtins.AssertionError"), ())))
        if not self.assume(self.st, t):
            self.st = None

    def x_Delete(self, node):
        for t in node.targets:
            if isinstance(t, ast.Name):
                c = self.content(self.ctx.frame)
                d = dict(c.d)
                d.pop(t.id, None)
                self.put(self.ctx.frame, Frame(d, c.parent))
            elif isinstance(t, ast.Subscript):
                o = self.force(self.ev(t.value))
                k = self.ev_index(t.slice)
                c = self.content(o)
                if isinstance(c, Dct):
                    d = dict(c.d)
                    d.pop(self.hkey(k), None)
                    self.put(o, Dct(d, c.default))
                elif isinstance(c, Seq):
                    it = list(c.items)
                    del it[k]
                    self.put(o, Seq(c.kind, tuple(it)))
                else:
                    raise AnalysisError("del at %s" % self.loc())
            elif isinstance(t, ast.Attribute):
                o = self.force(self.ev(t.value))
                c = self.content(o)
                d = dict(c.d)
                d.pop(t.attr, None)
                self.put(o, Inst(c.cls, d))

    def x_Assign(self, node):
        v = self.ev(node.value)
        for t in node.targets:
            self.assign(t, v)

    def x_AnnAssign(self, node):
        if node.value is not None:
            self.assign(node.target, self.ev(node.value))

    def x_AugAssign(self, node):
        op = _OPN[type(node.op)]
        t = node.target
        if isinstance(t, ast.Name):
            cur = self.ev_Name(ast.Name(t.id, ast.Load(), lineno=node.lineno, col_offset=0))
            v = self.ev(node.value)
            r = self.inplace(op, cur, v)
            self.assign(t, r)
        elif isinstance(t, ast.Attribute):
            o = self.force(self.ev(t.value))
            cur = self.getattr_(o, t.attr)
            v = self.ev(node.value)
            self.setattr_(o, t.attr, self.inplace(op, cur, v))
        elif isinstance(t, ast.Subscript):
            o = self.force(self.ev(t.value))
            k = self.ev_index(t.slice)
            cur = self.getitem(o, k)
            v = self.ev(node.value)
            r = self.inplace(op, cur, v)
            self.setitem(o, k, r)
        else:
            raise AnalysisError("augassign at %s" % self.loc())

    def inplace(self, op, cur, v):
        if isinstance(cur, Ite) and any(isinstance(x, Ref) for _, x in leaves(cur)):
            cur = self.force(cur)
        if isinstance(cur, Ref):
            c = self.content(cur)
            if isinstance(c, Seq) and c.kind == "list" and op == "+":
                self.put(cur, Seq("list", c.items + tuple(self.iterate(v))))
                return cur
            if isinstance(c, Arr) and c.lib == "np":
                r = self.binop(op, cur, v)
                rc = self.arr(r) if isinstance(r, Ref) else None
                if rc is not None and rc.shape == c.shape:
                    self.set_els(cur, list(enumerate(rc.el)))
                    return cur
                return r
            if isinstance(c, Inst):
                m = self.find_method(cur, "__i%s__" % DUNDER[op])
                if m is not None:
                    return self.call(m, [v], {})
        return self.binop(op, cur, v)

    def x_If(self, node):
        t = restrict(self.truth(self.ev(node.test)), self.st.facts)
        if t is True:
            self.exec_block(node.body)
            return
        if t is False:
            self.exec_block(node.orelse)
            return
        st0 = self.st
        s1 = st0.copy()
        s2 = st0.copy()
        ok1 = self.assume(s1, t)
        ok2 = self.assume(s2, b_not(t))
        res = []
        if ok1:
            self.st = s1
            self.exec_block(node.body)
            if self.st is not None:
                res.append((self.st, None))
        if ok2:
            self.st = s2
            self.exec_block(node.orelse)
            if self.st is not None:
                res.append((self.st, None))
        self.st, _ = self.merge(res)

    def _take(self, base, kind):
        out = []
        keep = []
        ab = self.ctx.abrupt
        for x in ab[base:]:
            (out if x[0] == kind else keep).append(x)
        ab[base:] = keep
        return [x[1] for x in out]

    def x_For(self, node):
        it = self.force(self.ev(node.iter))
        base = len(self.ctx.abrupt)
        breaks = []
        one_shot = isinstance(it, Ref) and isinstance(self.content(it), Seq) and self.content(it).kind == "iter"
        seq = self.content(it).items if one_shot else self.iterate(it)
        k = 0
        while True:
            if self.st is None:
                break
            if one_shot:
                cur = self.content(it)
                if not isinstance(cur, Seq):
                    raise AnalysisError("iterator advanced on some paths only at %s" % self.loc())
                if not cur.items:
                    break
                v = cur.items[0]
                self.put(it, Seq("iter", cur.items[1:]))
            else:
                if k >= len(seq):
                    break
                v = seq[k]
                k += 1
            self.line = node.lineno
            try:
                self.assign(node.target, v)
            except Dead:
                self.st = None
                break
            self.exec_block(node.body)
            conts = self._take(base, "continue")
            breaks += self._take(base, "break")
            if conts:
                self.st, _ = self.merge([(self.st, None)] + [(s, None) for s in conts])
        if self.st is not None and node.orelse:
            self.exec_block(node.orelse)
        self.st, _ = self.merge([(self.st, None)] + [(s, None) for s in breaks])

    def x_While(self, node):
        base = len(self.ctx.abrupt)
        breaks = []
        exits = []
        n = 0
        while self.st is not None:
            self.line = node.lineno
            t = restrict(self.truth(self.ev(node.test)), self.st.facts)
            if t is False:
                break
            if t is not True:
                n += 1000
                ex = self.st.copy()
                if self.assume(ex, b_not(t)):
                    exits.append(ex)
                if not self.assume(self.st, t):
                    self.st = None
                    break
            n += 1
            if n > 20000:
                raise AnalysisError("while loop without a static bound at %s" % self.loc())
            self.exec_block(node.body)
            conts = self._take(base, "continue")
            breaks += self._take(base, "break")
            if conts:
                self.st, _ = self.merge([(self.st, None)] + [(s, None) for s in conts])
        self.st, _ = self.merge([(self.st, None)] + [(s, None) for s in exits])
        if self.st is not None and node.orelse:
            self.exec_block(node.orelse)
        self.st, _ = self.merge([(self.st, None)] + [(s, None) for s in breaks])

    def x_With(self, node):
        exits = []
        sup = []
        base = len(self.ctx.abrupt)
        for it in node.items:
            v = self.force(self.ev(it.context_expr))
            r = v
            if isinstance(v, Opaque) and "contextmanager" in v.name:
                raise AnalysisError("generator context manager at %s" % self.loc())
            if isinstance(v, Opaque) and isinstance(v.key, tuple) and v.key[:1] == ("suppress",):
                sup += v.key[1]
            if isinstance(v, Ref) and isinstance(self.content(v), Inst):
                m = self.find_method(v, "__enter__")
                if m is not None:
                    r = self.call(m, [], {})
                x = self.find_method(v, "__exit__")
                if x is not None:
                    exits.append(x)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, r)
        self.exec_block(node.body)
        if sup:
            ab = self.ctx.abrupt
            res = [(self.st, None)] if self.st is not None else []
            keep = []
            for x in ab[base:]:
                m = self.exc_matches(x[2], tuple(sup)) if x[0] == "raise" else False
                if m is None:
                    raise AnalysisError("cannot decide suppressed exception at %s" % self.loc())
                if m:
                    res.append((x[1], None))
                else:
                    keep.append(x)
            ab[base:] = keep
            self.st, _ = self.merge(res)
        if exits and len(self.ctx.abrupt) > base:
            raise AnalysisError("context manager left by an exception or return at %s" % self.loc())
        if self.st is not None:
            for x in reversed(exits):
                self.call(x, [None, None, None], {})

    def exc_matches(self, exc, h):
        """True/False/None(unknown)"""
        h = self.force(h)
        if isinstance(h, tuple):
            rs = [self.exc_matches(exc, x) for x in h]
            if any(r is True for r in rs):
                return True
            if any(r is None for r in rs):
                return None
            return False
        return self.subclass(exc.cls, h)

    def subclass(self, c, h):
        if c is h or c == h:
            return True
        if isinstance(c, ClassV):
            for b in c.mro[1:]:
                if b is h or b == h:
                    return True
                if isinstance(b, ExtV) and isinstance(h, ExtV) and self.subclass(b, h):
                    return True
            return False
        if isinstance(c, ExtV) and isinstance(h, ExtV):
            return self.models.ext_subclass(c.path, h.path)
        return False

    def x_Try(self, node):
        base = len(self.ctx.abrupt)
        snap = self.st.copy()
        self.exec_block(node.body)
        ab = self.ctx.abrupt
        raised = [x for x in ab[base:] if x[0] == "raise"]
        ab[base:] = [x for x in ab[base:] if x[0] != "raise"]
        if self.st is not None and node.orelse:
            self.exec_block(node.orelse)
        res = [(self.st, None)] if self.st is not None else []
        for k, st, exc in raised:
            handled = False
            self.st = st
            for h in node.handlers:
                if h.type is None:
                    m = True
                else:
                    m = self.exc_matches(exc, self.ev(h.type))
                if m is None:
                    raise AnalysisError("cannot decide exception match at %s" % self.loc())
                if m:
                    handled = True
                    if h.name:
                        self.store_name(h.name, exc if exc.inst is None else exc.inst)
                    sv = getattr(self, "_handling", None)
                    self._handling = exc
                    self.exec_block(h.body)
                    self._handling = sv
                    if self.st is not None:
                        res.append((self.st, None))
                    break
            if not handled:
                ab.append((k, st, exc))
        self.st, _ = self.merge(res)
        if node.finalbody:
            pend = ab[base:]
            del ab[base:]
            if self.st is not None:
                self.exec_block(node.finalbody)
            norm = self.st
            for k, st, v in pend:
                self.st = st
                self.exec_block(node.finalbody)
                if self.st is not None:
                    ab.append((k, self.st, v))
            self.st = norm

    x_TryStar = x_Try

    def x_Match(self, node):
        subject = self.ev(node.subject)
        # translate to an if chain on supported patterns
        def cond(p, subj):
            if isinstance(p, ast.MatchValue):
                return self.compare("==", subj, self.ev(p.value))
            if isinstance(p, ast.MatchSingleton):
                return self.compare("is", subj, p.value)
            if isinstance(p, ast.MatchOr):
                r = False
                for q in p.patterns:
                    r = b_or(r, cond(q, subj))
                return r
            if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_attrs:
                return self.truth(self.models.call_ext(self, "builtins.isinstance", [subj, self.ev(p.cls)], {}))
            if isinstance(p, ast.MatchSequence) and isinstance(subj, tuple) and \
                    not any(isinstance(q, ast.MatchStar) for q in p.patterns):
                if len(subj) != len(p.patterns):
                    return False
                r = True
                for q, x in zip(p.patterns, subj):
                    r = b_and(r, cond(q, x))
                return r
            if isinstance(p, ast.MatchAs):
                r = True if p.pattern is None else cond(p.pattern, subj)
                if p.name:
                    self.store_name(p.name, subj)
                return r
            raise AnalysisError("unsupported match pattern at %s" % self.loc())
        res = []
        for c in node.cases:
            t = cond(c.pattern, subject)
            if c.guard is not None:
                t = b_and(t, self.truth(self.ev(c.guard)))
            t = restrict(t, self.st.facts)
            if t is False:
                continue
            s1 = self.st.copy()
            s2 = self.st.copy()
            ok2 = self.assume(s2, b_not(t))
            if self.assume(s1, t):
                self.st = s1
                self.exec_block(c.body)
                if self.st is not None:
                    res.append((self.st, None))
            if not ok2:
                self.st = None
                break
            self.st = s2
        if self.st is not None:
            res.append((self.st, None))
        self.st, _ = self.merge(res)

    # ------------------------------------------------------------ assignment
    def store_name(self, name, v):
        ctx = self.ctx
        if name in ctx.globals:
            fr = ctx.mod.frame
        elif name in ctx.nonlocals:
            fr = self.content(ctx.frame).parent
            while fr is not None:
                c = self.content(fr)
                if name in c.d:
                    break
                fr = c.parent
            if fr is None:
                raise AnalysisError("nonlocal %s" % name)
        else:
            fr = ctx.frame
        c = self.content(fr)
        d = dict(c.d)
        d[name] = v
        self.put(fr, Frame(d, c.parent))

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.force(v)
            items = list(self.iterate(v))
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                n = len(t.elts) - i - 1
                if len(items) < len(t.elts) - 1:
                    self.raise_builtin("ValueError", "not enough values to unpack")
                parts = items[:i] + [self.new_list(items[i:len(items) - n])] + items[len(items) - n:]
                for e, x in zip(t.elts, parts):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x)
            else:
                if len(items) != len(t.elts):
                    self.raise_builtin("ValueError", "unpack arity %d != %d" % (len(items), len(t.elts)))
                for e, x in zip(t.elts, items):
                    self.assign(e, x)
        elif isinstance(t, ast.Attribute):
            o = self.force(self.ev(t.value))
            self.setattr_(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.force(self.ev(t.value))
            k = self.ev_index(t.slice)
            self.line = t.lineno
            self.setitem(o, k, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            raise AnalysisError("assignment target %s" % type(t).__name__)

    # ------------------------------------------------------------ expressions
    def ev(self, node):
        m = getattr(self, "ev_" + type(node).__name__, None)
        if m is None:
            raise AnalysisError("unsupported expression %s at %s" % (type(node).__name__, self.loc()))
        return m(node)

    def ev_Constant(self, node):
        v = node.value
        if isinstance(v, float):
            return T.const(Fraction(repr(v)))
        if isinstance(v, complex):
            return tm.IMAG * T.const(Fraction(repr(v.imag))) + T.const(Fraction(repr(v.real)))
        return v

    def ev_Name(self, node):
        name = node.id
        fr = self.ctx.frame if name not in self.ctx.globals else self.ctx.mod.frame
        first = True
        while fr is not None:
            c = self.st.get(fr.id)
            if name in c.d:
                v = c.d[name]
                if isinstance(v, Ite):
                    v = restrict(v, self.st.facts)
                    if any(x is UNDEF for _, x in leaves(v)):
                        v = self.force(v)
                elif v is UNDEF:
                    self.raise_builtin("UnboundLocalError", name)
                return v
            fr = c.parent
        c = self.st.get(self.ctx.mod.frame.id)
        if name in c.d:
            return c.d[name]
        if name in self.extra_builtins:
            return self.extra_builtins[name]
        if hasattr(_bi, name):
            return self.models.ext("builtins." + name)
        self.raise_builtin("NameError", name)

    def ev_NamedExpr(self, node):
        v = self.ev(node.value)
        self.assign(node.target, v)
        return v

    def ev_Tuple(self, node):
        return tuple(self.ev_list(node.elts))

    def ev_list(self, elts):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.iterate(self.force(self.ev(e.value))))
            else:
                out.append(self.ev(e))
        return out

    def ev_List(self, node):
        return self.new_list(self.ev_list(node.elts))

    def ev_Set(self, node):
        return self.alloc(Seq("set", tuple(self.dedup(self.ev_list(node.elts)))))

    def dedup(self, items):
        out = []
        for x in items:
            if not any(same(x, y) for y in out):
                out.append(x)
        return out

    def ev_Dict(self, node):
        d = {}
        for k, v in zip(node.keys, node.values):
            if k is None:
                c = self.content(self.force(self.ev(v)))
                d.update(c.d)
            else:
                d[self.hkey(self.ev(k))] = self.ev(v)
        return self.alloc(Dct(d))

    def hkey(self, k):
        k = self.force(k)
        if isinstance(k, tuple):
            return tuple(self.hkey(x) for x in k)
        if isinstance(k, T):
            c = k.as_const()
            if c is not None and c.denominator == 1:
                return int(c)
            return k
        if isinstance(k, (QuantV,)):
            raise AnalysisError("unhashable key")
        return k

    def ev_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                spec = self.ev(v.format_spec) if v.format_spec is not None else None
                parts.append(self.models.fmt_one(self, self.ev(v.value), chr(v.conversion) if v.conversion > 0 else None, spec))
        return self.models.fstring(parts)

    def ev_Lambda(self, node):
        return self.make_func(node, "<lambda>")

    def ev_IfExp(self, node):
        t = restrict(self.truth(self.ev(node.test)), self.st.facts)
        if t is True:
            return self.ev(node.body)
        if t is False:
            return self.ev(node.orelse)
        s0 = self.st
        res = []
        for b, e in ((t, node.body), (b_not(t), node.orelse)):
            s = s0.copy()
            if not self.assume(s, b):
                continue
            self.st = s
            try:
                v = self.ev(e)
                res.append((self.st, v))
            except Dead:
                pass
        if not res:
            self.st = None
            raise Dead()
        self.st, v = self.merge(res)
        return v

    def ev_BoolOp(self, node):
        isand = isinstance(node.op, ast.And)
        return self._boolop(isand, node.values)

    def _boolop(self, isand, vals):
        v = self.ev(vals[0])
        if len(vals) == 1:
            return v
        t = restrict(self.truth(v), self.st.facts)
        go = t if isand else b_not(t)     # condition to evaluate the rest
        if go is True:
            return self._boolop(isand, vals[1:])
        if go is False:
            return v
        s1 = self.st.copy()
        s2 = self.st.copy()
        res = []
        if self.assume(s1, go):
            self.st = s1
            try:
                r = self._boolop(isand, vals[1:])
                res.append((self.st, r))
            except Dead:
                pass
        if self.assume(s2, b_not(go)):
            vv = v
            if isinstance(v, Ite):
                vv = restrict(v, s2.facts)
            res.append((s2, vv))
        self.st, r = self.merge(res)
        if self.st is None:
            raise Dead()
        return r

    def ev_UnaryOp(self, node):
        v = self.ev(node.operand)
        if isinstance(node.op, ast.Not):
            return b_not(self.truth(v))
        op = {ast.USub: "-", ast.UAdd: "+", ast.Invert: "~"}[type(node.op)]
        return self.unop(op, v)

    def unop(self, op, v):
        if isinstance(v, Ite):
            return self.lift1(lambda x: self.unop(op, x), v)
        if isinstance(v, bool):
            v = int(v) if op != "~" else v
        if isinstance(v, int):
            return -v if op == "-" else (v if op == "+" else ~v)
        if isinstance(v, T):
            return -v if op == "-" else v
        if isinstance(v, QuantV):
            return QuantV(self.unop(op, v.value), v.unit)
        if isinstance(v, Ref):
            c = self.content(v)
            if isinstance(c, Arr):
                a = self.arr(v)
                if op == "~":
                    return self.new_arr(a.shape, [b_not(self.truth(x)) for x in a.el], a.lib)
                return self.new_arr(a.shape, [self.unop(op, x) for x in a.el], a.lib)
            if isinstance(c, Inst):
                t = c.d.get("__term__")
                if t is not None:
                    return self.unop(op, t)
                m = self.find_method(v, {"-": "__neg__", "+": "__pos__", "~": "__invert__"}[op])
                if m is not None:
                    return self.call(m, [], {})
        if isinstance(v, Opaque):
            return Opaque("%s%s" % (op, v.name), ("unop", op, v.key))
        raise AnalysisError("unary %s on %r at %s" % (op, v, self.loc()))

    def lift1(self, f, v):
        if isinstance(v, Ite):
            fv = self.st.facts.get(v.a.id)
            if fv is True:
                return self.lift1(f, v.t)
            if fv is False:
                return self.lift1(f, v.f)
            if any(not isinstance(x, (T, int, bool)) for _, x in leaves(v)):
                raise SplitNeeded(v.a)
            return mk_(v.a, self.lift1(f, v.t), self.lift1(f, v.f))
        return f(v)

    def ev_BinOp(self, node):
        a = self.ev(node.left)
        b = self.ev(node.right)
        self.line = node.lineno
        return self.binop(_OPN[type(node.op)], a, b)

    def binop(self, op, a, b):
        ta, tb = type(a), type(b)
        if ta is T and tb is T:
            return self.num(op, a, b)
        if ta is Ite or tb is Ite:
            return self.lift2(op, a, b)
        return self.models.binop(self, op, a, b)

    def lift2(self, op, a, b):
        facts = self.st.facts
        a = restrict(a, facts)
        b = restrict(b, facts)
        if not isinstance(a, Ite) and not isinstance(b, Ite):
            return self.binop(op, a, b)
        for x in (a, b):
            if isinstance(x, Ite) and any(not isinstance(y, (T, int, bool)) for _, y in leaves(x)):
                raise SplitNeeded(x.a)
        # scalar op with array / instance: gate elementwise where possible
        for x, y in ((a, b), (b, a)):
            if not isinstance(x, Ite) and not isinstance(x, (T, int, bool)):
                if isinstance(x, Ref) and isinstance(self.content(x), Arr):
                    return self.models.binop(self, op, a, b)
                if isinstance(x, QuantV):
                    return self.models.binop(self, op, a, b)
                raise SplitNeeded(y.a)
        return self._lift2(op, a, b)

    def _lift2(self, op, a, b):
        if isinstance(a, Ite) or isinstance(b, Ite):
            tops = [x.a for x in (a, b) if isinstance(x, Ite)]
            q = min(tops, key=lambda z: z.id)
            return mk_(q, self._lift2(op, cof(a, q, True), cof(b, q, True)),
                       self._lift2(op, cof(a, q, False), cof(b, q, False)))
        return self.binop(op, a, b)

    def num(self, op, a, b):
        """arithmetic on terms"""
        try:
            if op == "+":
                return tm.add(a, b)
            if op == "-":
                return tm.add(a, -b)
            if op == "*":
                return tm.mul(a, b)
            if op == "/":
                if self.div_log is not None and b.as_const() is None:
                    self.div_log.append((b, self.loc(), self.st.facts))
                if b.is_zero():
                    return NAN
                return tm.mul(a, tm.inv(b))
            if op == "**":
                if self.div_log is not None and a.as_const() is None and (b.as_const() or 0) < 0:
                    self.div_log.append((a, self.loc(), self.st.facts))
                if a.is_zero():
                    c = b.as_const()
                    if c is not None:
                        return tm.ONE if c == 0 else (tm.ZERO if c > 0 else NAN)
                return tm.power(a, b)
        except ZeroDivisionError:
            return NAN
        ca, cb = a.as_const(), b.as_const()
        if op == "//":
            if ca is not None and cb:
                return T.const(ca // cb)
            return tm.func("floor", (a / b,))
        if op == "%":
            if ca is not None and cb:
                return T.const(ca % cb)
            return tm.func("mod", (a, b))
        raise AnalysisError("operator %s on numbers at %s" % (op, self.loc()))

    def ev_Compare(self, node):
        left = self.ev(node.left)
        res = None
        for op, rn in zip(node.ops, node.comparators):
            right = self.ev(rn)
            self.line = node.lineno
            r = self.compare(_CMPN[type(op)], left, right)
            if res is None:
                res = r
            else:
                res = b_and(self.truth(res), self.truth(r))
            left = right
        return res

    def compare(self, op, a, b):
        return self.models.compare(self, op, a, b)

    def truth(self, v):
        return self.models.truth(self, v)

    def ev_Attribute(self, node):
        v = self.ev(node.value)
        return self.getattr_(v, node.attr)

    def ev_Subscript(self, node):
        o = self.force(self.ev(node.value))
        k = self.ev_index(node.slice)
        return self.getitem(o, k)

    def ev_index(self, node):
        if isinstance(node, ast.Slice):
            return self.ev_Slice(node)
        if isinstance(node, ast.Tuple):
            out = []
            for e in node.elts:
                if isinstance(e, ast.Starred):
                    out.extend(self.iterate(self.force(self.ev(e.value))))
                else:
                    out.append(self.ev_index(e))
            return tuple(out)
        v = self.force(self.ev(node))
        return self.models.as_index(self, v)

    def ev_Slice(self, node):
        def g(x):
            if x is None:
                return None
            return self.models.as_index(self, self.force(self.ev(x)))
        return slice(g(node.lower), g(node.upper), g(node.step))

    def ev_Starred(self, node):
        raise AnalysisError("starred at %s" % self.loc())

    def ev_Yield(self, node):
        v = self.ev(node.value) if node.value is not None else None
        c = self.content(self.ctx.yields)
        self.put(self.ctx.yields, Seq("list", c.items + (v,)))
        return None

    def ev_YieldFrom(self, node):
        v = list(self.iterate(self.force(self.ev(node.value))))
        c = self.content(self.ctx.yields)
        self.put(self.ctx.yields, Seq("list", c.items + tuple(v)))
        return None

    def comp(self, gens, f):
        """comprehension; f() called in innermost scope"""
        saved = self.ctx.frame
        fr = self.alloc(Frame({}, saved))
        out = []
        c0 = self.ctx
        isclass = c0.isclass
        c0.frame = fr
        try:
            self._comp(gens, 0, f)
        finally:
            c0.frame = saved

    def _comp(self, gens, i, f):
        if i == len(gens):
            f()
            return
        g = gens[i]
        it = self.force(self.ev(g.iter))
        for v in self.iterate(it):
            self.assign(g.target, v)
            ok = True
            for c in g.ifs:
                t = restrict(self.truth(self.ev(c)), self.st.facts)
                if isinstance(t, Ite):
                    raise SplitNeeded(t.a)
                if not t:
                    ok = False
                    break
            if ok:
                self._comp(gens, i + 1, f)

    def ev_ListComp(self, node):
        out = []
        self.comp(node.generators, lambda: out.append(self.ev(node.elt)))
        return self.new_list(out)

    def ev_GeneratorExp(self, node):
        return self.new_iter(self.content(self.ev_ListComp(node)).items)

    def ev_SetComp(self, node):
        out = []
        self.comp(node.generators, lambda: out.append(self.ev(node.elt)))
        return self.alloc(Seq("set", tuple(self.dedup(out))))

    def ev_DictComp(self, node):
        out = {}

        def f():
            out[self.hkey(self.ev(node.key))] = self.ev(node.value)
        self.comp(node.generators, f)
        return self.alloc(Dct(out))

    def ev_Call(self, node):
        # super()
        if isinstance(node.func, ast.Name) and node.func.id == "super":
            if not node.args:
                return SuperV(self.ctx.cls if self.ctx.func is None else self.func_cls(), self.ctx.slf)
            c = self.force(self.ev(node.args[0]))
            s = self.force(self.ev(node.args[1]))
            k = self.content(s).cls if isinstance(s, Ref) and isinstance(self.content(s), Inst) else s
            if not (isinstance(k, ClassV) and c in k.mro):
                self.raise_builtin("TypeError", "super(type, obj): obj must be an instance or subtype of type")
            return SuperV(c, s)
        f = self.force(self.ev(node.func))
        args = []
        for a in node.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.force(self.ev(a.value))))
            else:
                args.append(self.ev(a))
        kw = {}
        for k in node.keywords:
            if k.arg is None:
                d = self.force(self.ev(k.value))
                c = self.content(d)
                if not isinstance(c, Dct):
                    raise AnalysisError("** of non-dict at %s" % self.loc())
                kw.update(c.d)
            else:
                kw[k.arg] = self.ev(k.value)
        self.line = node.lineno
        return self.call(f, args, kw)

    def func_cls(self):
        return self.ctx.cls

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw):
        if isinstance(f, Ite):
            f = self.force(f)
        if isinstance(f, FuncV):
            return self.call_func(f, args, kw)
        if isinstance(f, BoundV):
            return self.call(f.func, [f.self] + list(args), kw) if not isinstance(f.func, FuncV) else \
                self.call_func(f.func, [f.self] + list(args), kw, slf=f.self)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kw)
        if isinstance(f, WrapV):
            if f.kind == "quantity_input":
                return self.models.call_quantity_input(self, f, args, kw)
            if f.kind == "memo":
                return self.models.call_memo(self, f, args, kw)
            if f.kind in ("staticmethod",):
                return self.call(f.func, args, kw)
            raise AnalysisError("call of %r" % f)
        if isinstance(f, PyFn):
            return f.fn(self, args, kw)
        if isinstance(f, Method):
            return self.models.call_method(self, f.obj, f.name, args, kw)
        if isinstance(f, ExtV):
            return self.models.call_ext(self, f.path, args, kw)
        if isinstance(f, Opaque):
            return self.models.call_opaque(self, f, args, kw)
        if isinstance(f, Ref):
            c = self.content(f)
            if isinstance(c, Inst):
                m = self.find_method(f, "__call__")
                if m is not None:
                    return self.call(m, args, kw)
        if isinstance(f, SuperV):
            raise AnalysisError("call of super object")
        self.raise_builtin("TypeError", "object is not callable: %r" % (f,))

    def bind(self, f, args, kw):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        kw = dict(kw)
        n = len(pos)
        for name, v in zip(pos, args):
            env[name] = v
        extra = args[n:]
        if a.vararg:
            env[a.vararg.arg] = tuple(extra)
        elif extra:
            self.raise_builtin("TypeError", "%s takes %d positional arguments but %d were given" % (f.qual, n, len(args)))
        ponly = {x.arg for x in a.posonlyargs}
        for name in pos + [x.arg for x in a.kwonlyargs]:
            if name in kw and name not in ponly:
                if name in env:
                    self.raise_builtin("TypeError", "%s got multiple values for %s" % (f.qual, name))
                env[name] = kw.pop(name)
        if a.kwarg:
            env[a.kwarg.arg] = self.alloc(Dct(kw))
        elif kw:
            self.raise_builtin("TypeError", "%s got an unexpected keyword %s" % (f.qual, sorted(kw)))
        nd = len(f.defaults)
        for name, d in zip(pos[n - nd:], f.defaults):
            if name not in env:
                env[name] = d
        for name, d in f.kwdefaults.items():
            if name not in env:
                env[name] = d
        for name in pos + [x.arg for x in a.kwonlyargs]:
            if name not in env:
                self.raise_builtin("TypeError", "%s missing argument %s" % (f.qual, name))
        return env

    def call_func(self, f, args, kw, slf=None):
        ov = self.overrides.get(f.qual)
        if ov is not None:
            r = ov(self, args, kw)
            if r is not NotImplemented:
                return r
        if self.depth > 80:
            raise AnalysisError("call depth exceeded at %s" % f.qual)
        env = self.bind(f, args, kw)
        if self.record_calls is not None:
            self.record_calls.append((f.qual, dict(env), self.loc(), self.st.facts))
        self.analysed[f.qual] = self.analysed.get(f.qual, 0) + 1
        saved_line = self.line
        saved = self.ctx
        fr = self.alloc(Frame(env, f.closure))
        if slf is None and args:
            slf = args[0]
        c = Ctx(fr, f.mod, f, f.cls, slf)
        self.ctx = c
        self.depth += 1
        isgen = getattr(f.node, "_isgen", None)
        if isgen is None:
            isgen = False
            if not isinstance(f.node, ast.Lambda):
                stack = list(f.node.body)
                while stack:
                    x = stack.pop()
                    if isinstance(x, (ast.Yield, ast.YieldFrom)):
                        isgen = True
                        break
                    if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                        continue
                    stack.extend(ast.iter_child_nodes(x))
            f.node._isgen = isgen
        if isgen:
            c.yields = self.new_list([])
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.ev(f.node.body)
                if not c.captured:
                    self.st.heap.pop(fr.id, None)
                if c.abrupt:
                    saved.abrupt.extend(c.abrupt)
                return v
            self.exec_block(f.node.body)
        except Dead:
            saved.abrupt.extend(x for x in c.abrupt if x[0] == "raise")
            self.st = None
            raise
        finally:
            self.ctx = saved
            self.depth -= 1
            self.line = saved_line
        rets = [(s, v) for k, s, v in c.abrupt if k == "return"]
        if self.st is not None:
            rets.append((self.st, None))
        for x in c.abrupt:
            if x[0] == "raise":
                saved.abrupt.append(x)
        if not rets:
            self.st = None
            raise Dead()
        if isgen:
            self.st, _ = self.merge(rets)
            v = c.yields
            ys = self.content(v)
            if isinstance(ys, Seq):
                self.put(v, Seq("iter", ys.items))
        else:
            self.st, v = self.merge(rets)
        if not c.captured:
            self.st.heap.pop(fr.id, None)
        return v

    # ------------------------------------------------------------ objects
    def class_lookup(self, cls, name):
        """(value, defining class) or None"""
        for c in cls.mro:
            if isinstance(c, ClassV):
                fr = self.st.get(c.ref.id)
                if name in fr.d:
                    return fr.d[name], c
        return None

    def find_method(self, ref, name):
        c = self.content(ref)
        if not isinstance(c, Inst) or not isinstance(c.cls, ClassV):
            return None
        x = self.class_lookup(c.cls, name)
        if x is None:
            return None
        return self.bind_attr(x[0], ref, c.cls)

    def bind_attr(self, v, obj, cls):
        if isinstance(v, Ite):
            v = self.force(v)
        if isinstance(v, FuncV):
            return BoundV(v, obj)
        if isinstance(v, WrapV):
            if v.kind == "staticmethod":
                return v.func
            if v.kind == "classmethod":
                return BoundV(v.func, cls)
            if v.kind == "property":
                nm = (v.extra or {}).get("cached")
                if nm is not None and isinstance(obj, Ref):
                    k = "__cached__" + nm
                    d = self.content(obj)
                    if isinstance(d, Inst) and nm in d.d:
                        return d.d[nm]
                    if isinstance(d, Inst) and k in d.d and not isinstance(d.d[k], Ite):
                        return d.d[k]
                    r = self.call(v.func, [obj], {})
                    d = self.content(obj)
                    if isinstance(d, Inst):
                        self.put(obj, d.with_(k, r))
                    return r
                return self.call(v.func, [obj], {})
            if v.kind in ("quantity_input", "memo"):
                return BoundV(v, obj)
            if v.kind == "stub":      # a method replaced by a check
                return BoundV(v.func, obj)
        return v

    def instantiate(self, cls, args, kw):
        mem = self.class_lookup(cls, "__enum_members__")
        if mem is not None:
            for m in mem[0]:
                t = self.force(self.truth(self.compare("==", self.content(m).d["value"], args[0])))
                if t or isinstance(args[0], Ref) and args[0].id == m.id:
                    return m
            self.raise_builtin("ValueError", "not a valid %s" % cls.name)
        fields = self.class_lookup(cls, "__dataclass_fields__")
        new = self.class_lookup(cls, "__new__")
        if new is not None:
            nf = new[0]
            if isinstance(nf, WrapV):
                nf = nf.func
            obj = self.call(nf, [cls] + list(args), kw)
            obj = self.force(obj)
        else:
            obj = self.models.alloc_instance(self, cls, args, kw)
        init = self.class_lookup(cls, "__init__")
        if isinstance(obj, Ref) and isinstance(self.content(obj), Inst):
            if init is not None:
                f = self.bind_attr(init[0], obj, cls)
                self.call(f, args, kw)
            elif fields is not None:
                self.dataclass_init(cls, obj, args, kw)
        if any(isinstance(b, ExtV) and self.models.is_exception_path(b.path) for b in cls.mro):
            return ExcV(cls, tuple(args), obj)
        return obj

    def dataclass_init(self, cls, obj, args, kw):
        names = []
        defaults = {}
        for c in reversed(cls.mro):
            if isinstance(c, ClassV):
                fr = self.st.get(c.ref.id)
                for n in fr.d.get("__dataclass_fields__", ()):
                    if n not in names:
                        names.append(n)
                    if n in fr.d:
                        defaults[n] = fr.d[n]
                        w = fr.d[n]
                        if isinstance(w, WrapV) and w.kind == "field":
                            if w.extra.get("init") is False:
                                raise AnalysisError("dataclass field outside __init__: %s" % n)
                            if "default" in w.extra:
                                defaults[n] = w.extra["default"]
                            elif w.func is None:
                                del defaults[n]
        env = dict(zip(names, args))
        for k, v in kw.items():
            if k not in names or k in env:
                self.raise_builtin("TypeError", "unexpected argument %s" % k)
            env[k] = v
        for n in names:
            if n not in env:
                if n not in defaults:
                    self.raise_builtin("TypeError", "missing argument %s" % n)
                w = defaults[n]
                env[n] = self.call(w.func, [], {}) if isinstance(w, WrapV) and w.kind == "field" else w
        c = self.content(obj)
        d = dict(c.d)
        for n in names:
            d[n] = env[n]
        self.put(obj, Inst(c.cls, d))
        pi = self.class_lookup(cls, "__post_init__")
        if pi is not None:
            self.call(self.bind_attr(pi[0], obj, cls), [], {})

    def getattr_(self, v, name, default=NotImplemented):
        v = self.force(v)
        if isinstance(v, ModuleV):
            c = self.content(v.frame)
            if name in c.d:
                return c.d[name]
            if name == "__dict__":
                return self.alloc(Dct(dict(c.d)))
            m = self.load(v.name + "." + name) if self.module_path(v.name + "." + name)[0] else None
            if m is not None:
                return m
            if default is not NotImplemented:
                return default
            self.raise_builtin("AttributeError", "module %s has no attribute %s" % (v.name, name))
        if isinstance(v, Ref):
            c = self.content(v)
            if isinstance(c, Inst):
                if isinstance(c.cls, ClassV):
                    x = self.class_lookup(c.cls, name)
                    if x is not None and isinstance(x[0], WrapV) and x[0].kind == "property":
                        return self.bind_attr(x[0], v, c.cls)
                    if name in c.d:
                        r = c.d[name]
                        if isinstance(r, Ite):
                            r = restrict(r, self.st.facts)
                            if any(y is UNDEF for _, y in leaves(r)):
                                r = self.force(r)
                        if r is not UNDEF:
                            return r
                    if name == "__class__":
                        return c.cls
                    if name == "__dict__":
                        return self.alloc(Dct({k: x for k, x in c.d.items() if not k.startswith("__")}))
                    if x is not None:
                        return self.bind_attr(x[0], v, c.cls)
                elif name in c.d:
                    return c.d[name]
                r = self.models.inst_attr(self, v, c, name)
                if r is not NotImplemented:
                    return r
                if isinstance(c.cls, ClassV):
                    ga = self.class_lookup(c.cls, "__getattr__")
                    if ga is not None:
                        return self.call(self.bind_attr(ga[0], v, c.cls), [name], {})
                if default is not NotImplemented:
                    return default
                self.raise_builtin("AttributeError", "%r object has no attribute %s" % (
                    getattr(c.cls, "name", c.cls), name))
        if isinstance(v, ClassV):
            x = self.class_lookup(v, name)
            if x is not None:
                a = x[0]
                if isinstance(a, WrapV):
                    if a.kind == "staticmethod":
                        return a.func
                    if a.kind == "classmethod":
                        return BoundV(a.func, v)
                return a
            if name == "__name__":
                return v.name
            if name == "__qualname__":
                return v.name
            if name == "__mro__":
                return tuple(v.mro)
            if name == "__bases__":
                return tuple(v.bases)
            if name == "__module__":
                return v.mod.name
            for b in v.mro:
                if isinstance(b, ExtV):
                    return self.models.ext_attr(b, name)
            if default is not NotImplemented:
                return default
            self.raise_builtin("AttributeError", "class %s has no attribute %s" % (v.name, name))
        if isinstance(v, SuperV):
            obj = v.self
            if isinstance(obj, Ref):
                cls = self.content(obj).cls
            elif isinstance(obj, ClassV):
                cls = obj
            else:
                raise AnalysisError("super() on %r" % (obj,))
            mro = cls.mro
            i = mro.index(v.cls)
            for c in mro[i + 1:]:
                if isinstance(c, ClassV):
                    fr = self.st.get(c.ref.id)
                    if name in fr.d:
                        a = fr.d[name]
                        if isinstance(a, WrapV) and a.kind == "staticmethod" or name == "__new__":
                            return a.func if isinstance(a, WrapV) else a
                        if isinstance(obj, ClassV):
                            if isinstance(a, WrapV) and a.kind == "classmethod":
                                return BoundV(a.func, obj)
                            return a
                        return self.bind_attr(a, obj, cls)
                else:
                    return self.models.super_ext(self, c, name, obj, cls)
            if name == "__init__":
                return PyFn(lambda I, a, k: None, "object.__init__")
            if name == "__new__":
                return PyFn(lambda I, a, k: I.models.alloc_instance(I, a[0], a[1:], k), "object.__new__")
            if name == "__setattr__":
                return PyFn(lambda I, a, k: I._raw_setattr(obj, a[0], a[1]), "object.__setattr__")
            if default is not NotImplemented:
                return default
            self.raise_builtin("AttributeError", "super has no attribute %s" % name)
        return self.models.value_attr(self, v, name, default)

    def _raw_setattr(self, o, name, v):
        c = self.content(o)
        self.put(o, c.with_(name, v))

    def setattr_(self, o, name, v):
        o = self.force(o)
        if isinstance(o, Ref):
            c = self.content(o)
            if isinstance(c, Inst):
                if isinstance(c.cls, ClassV):
                    if self.class_lookup(c.cls, "__frozen__") is not None:
                        self.raise_builtin("AttributeError", "cannot assign to field %s" % name)
                    x = self.class_lookup(c.cls, name)
                    if x is not None and isinstance(x[0], WrapV) and x[0].kind == "property":
                        st = (x[0].extra or {}).get("setter")
                        if st is None:
                            self.raise_builtin("AttributeError", "can't set attribute %s" % name)
                        self.call(st, [o, v], {})
                        return
                    sa = self.class_lookup(c.cls, "__setattr__")
                    if sa is not None:
                        self.call(self.bind_attr(sa[0], o, c.cls), [name, v], {})
                        return
                c = self.content(o)
                self.put(o, c.with_(name, v))
                self.write_loc[(o.id, name)] = self.loc()
                return
        if isinstance(o, ClassV):
            c = self.content(o.ref)
            d = dict(c.d)
            d[name] = v
            self.put(o.ref, Frame(d, c.parent))
            self.event("class-attribute-write", (o.qual, name))
            return
        if isinstance(o, ModuleV):
            c = self.content(o.frame)
            d = dict(c.d)
            d[name] = v
            self.put(o.frame, Frame(d, c.parent))
            return
        if isinstance(o, Opaque):
            self.event("opaque-setattr", (o, name, v))
            return
        if isinstance(o, FuncV):
            return
        if o is None or isinstance(o, (bool, int, float, str, tuple, T)):
            self.raise_builtin("AttributeError", "no attribute %s can be set on %r" % (name, o))
        raise AnalysisError("setattr %s on %r at %s" % (name, o, self.loc()))

    def getitem(self, o, k):
        return self.models.getitem(self, self.force(o), k)

    def setitem(self, o, k, v):
        return self.models.setitem(self, self.force(o), k, v)

    def iterate(self, v):
        return self.models.iterate(self, v)


def mk_(a, t, f):
    if same(t, f):
        return t
    return Ite(a, t, f)
