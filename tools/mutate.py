"""mutate.py OUT [-n PER_FILE] [-j WORKERS] [-s SEED] [FILE...] : self-assessment only (no check uses it).
Makes random syntactic mutants of the source in scratch copies, runs the checks on each (cheapest first), and the repository's tests on
those no check reports; what passes both is written to OUT for review (equivalent mutants, or gaps)."""
import argparse
import ast
import json
import multiprocessing as mp
import os
import random
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "src/einsteinpy"
BIN = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Pow: "**", ast.FloorDiv: "//", ast.Mod: "%", ast.MatMult: "@"}
SWAP = {"+": ["-"], "-": ["+"], "*": ["/", "+"], "/": ["*"], "**": ["*"], "//": ["/"], "%": ["*"], "@": ["*"]}
CMP = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
CSWAP = {"<": [">"], "<=": [">"], ">": ["<"], ">=": ["<"], "==": ["!="], "!=": ["=="], "is": ["is not"], "is not": ["is"], "in": ["not in"], "not in": ["in"]}
NAMES = {"sin": "cos", "cos": "sin", "sqrt": "abs", "tensorcontraction": "tensorproduct", "zeros": "ones", "arccos": "arcsin", "diff": "integrate", "append": "extend"}


def mutants(path):
    data = open(path, "rb").read()
    tree = ast.parse(data)
    starts = [0]
    for l in data.splitlines(True):
        starts.append(starts[-1] + len(l))
    pos = lambda n: (starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset)
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(id(n.body[0].value))
            doc.add(id(n.body[0]))
    out = []

    def add(n, text, what):
        a, b = pos(n)
        out.append((n.lineno, what, a, b, text))
    src = lambda n: data[slice(*pos(n))].decode()

    def walk(n, fn):
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            fn = sorted({a.arg for a in n.args.args + n.args.kwonlyargs} | {t.id for m in ast.walk(n) if isinstance(m, ast.Assign) for t in m.targets if isinstance(t, ast.Name)})
        if isinstance(n, ast.Raise) or id(n) in doc:
            if isinstance(n, ast.Raise):
                add(n, "pass", "drop raise")
            return
        if isinstance(n, ast.BinOp):
            o = BIN.get(type(n.op))
            for r in SWAP.get(o, []):
                add(n, "(%s) %s (%s)" % (src(n.left), r, src(n.right)), "%s -> %s" % (o, r))
            if o and o in "+-*/":
                add(n, src(n.left), "drop right operand")
                add(n, src(n.right), "drop left operand")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            add(n, "(%s)" % src(n.operand), "drop unary")
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            o = CMP[type(n.ops[0])]
            for r in CSWAP[o]:
                add(n, "%s %s %s" % (src(n.left), r, src(n.comparators[0])), "%s -> %s" % (o, r))
        elif isinstance(n, ast.BoolOp):
            a, b = (" and ", " or ") if isinstance(n.op, ast.And) else (" or ", " and ")
            add(n, b.join("(%s)" % src(v) for v in n.values), a + "->" + b)
            for v in n.values:
                add(n, src(v), "only one operand")
        elif isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                add(n, str(not v), "flip")
            elif isinstance(v, int):
                add(n, str(v + 1), "%d + 1" % v)
                if v > 0:
                    add(n, str(v - 1), "%d - 1" % v)
            elif isinstance(v, float):
                add(n, repr(v * 1.01), "%r * 1.01" % v)
            elif isinstance(v, str) and v in ("l", "u", "ll", "uu", "lu", "ul", "ulll", "llll"):
                add(n, repr(v.translate({108: "u", 117: "l"})), "flip index positions")
            elif v is None:
                add(n, "0", "None -> 0")
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and fn and n.id in fn:
            oth = [f for f in fn if f != n.id and f != "self"]
            if oth:
                add(n, random.choice(oth), "other name for " + n.id)
        elif isinstance(n, ast.Attribute) and n.attr in NAMES:
            add(n, src(n.value) + "." + NAMES[n.attr], "%s -> %s" % (n.attr, NAMES[n.attr]))
        elif isinstance(n, ast.Call):
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                i = random.randrange(len(n.args) - 1)
                a = [src(x) for x in n.args]
                a[i], a[i + 1] = a[i + 1], a[i]
                add(n, "%s(%s)" % (src(n.func), ", ".join(a + [src(k) if False else ("**" + src(k.value) if k.arg is None else k.arg + "=" + src(k.value)) for k in n.keywords])), "swap arguments")
            if n.keywords:
                i = random.randrange(len(n.keywords))
                ks = ["**" + src(k.value) if k.arg is None else k.arg + "=" + src(k.value) for j, k in enumerate(n.keywords) if j != i]
                add(n, "%s(%s)" % (src(n.func), ", ".join([src(x) for x in n.args] + ks)), "drop keyword " + str(n.keywords[i].arg))
        elif isinstance(n, ast.If):
            add(n.test, "True", "if True")
            add(n.test, "False", "if False")
        elif isinstance(n, ast.Return) and n.value is not None and isinstance(n.value, ast.Tuple) and len(n.value.elts) > 1:
            e = [src(x) for x in n.value.elts]
            i = random.randrange(len(e) - 1)
            e[i], e[i + 1] = e[i + 1], e[i]
            add(n.value, ", ".join(e), "swap results")
        elif isinstance(n, ast.AugAssign):
            add(n, "%s = %s" % (src(n.target), src(n.value)), "augmented -> plain")
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            add(n, "pass", "drop call")
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            add(n, "pass", "drop assignment")
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Tuple) and len(n.slice.elts) == 2:
            e = [src(x) for x in n.slice.elts]
            if e[0] != e[1]:
                add(n, "%s[%s, %s]" % (src(n.value), e[1], e[0]), "swap indices")
        for c in ast.iter_child_nodes(n):
            walk(c, fn)
    walk(tree, [])
    res = []
    for l, w, a, b, t in out:
        new = data[:a] + t.encode() + data[b:]
        if new == data:
            continue
        try:
            ast.parse(new)
        except SyntaxError:
            continue
        res.append((l, w, data[a:b].decode(), t, new))
    return res


def props_of():
    m = {}
    for l in open(os.path.join(V, "properties.jsonl")):
        p = json.loads(l)
        for f in p["anchors"]["files"]:
            m.setdefault(f[len(SRC) + 1:], []).append(p["id"])
    return m


def work(job):
    late, f, mut, order = job
    l, w, old, t, new = mut
    me = mp.current_process()._identity[0]
    d = "/tmp/mw/%d" % me
    if not os.path.isdir(d + "/repo"):
        os.makedirs(d, exist_ok=True)
        shutil.copytree("/repo", d + "/repo", symlinks=True)
        for x in ("sa", "checks"):
            shutil.copytree(os.path.join(V, x), d + "/verif/" + x)
        for x in ("check.py", "KNOWN_FINDINGS.txt"):
            shutil.copy(os.path.join(V, x), d + "/verif/" + x)
        os.makedirs(d + "/verif/evidence", exist_ok=True)
    p = os.path.join(d, "repo", SRC, f)
    orig = open(p, "rb").read()
    open(p, "wb").write(new)
    und = []
    env = dict(os.environ, SA_REPO=d + "/repo", PYTHONDONTWRITEBYTECODE="1")

    def checks(cs):
        for c in cs:
            try:
                r = subprocess.run(["python3-vt", d + "/verif/check.py", c], cwd=d + "/verif", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
                if r.returncode == 1:
                    return c
                if r.returncode != 0:
                    und.append(c)
            except subprocess.TimeoutExpired:
                und.append(c + "-timeout")
    try:
        c = checks(order)
        if c:
            return (f, l, w, old, t, "caught", c, und)
        tenv = dict(os.environ, PYTHONPATH=d + "/repo/src", MPLBACKEND="Agg", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
        try:
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-n", "2", "--timeout=300"], cwd=d + "/repo", env=tenv,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
            tests = r.returncode
        except subprocess.TimeoutExpired:
            tests = 1
        c = checks(late) if tests == 0 else None
        if c:
            return (f, l, w, old, t, "caught", c, und)
        return (f, l, w, old, t, "SURVIVED" if tests == 0 else "tests", None, und)
    finally:
        open(p, "wb").write(orig)


if __name__ == "__main__":
    a = argparse.ArgumentParser()
    a.add_argument("out")
    a.add_argument("-n", type=int, default=40)
    a.add_argument("-j", type=int, default=7)
    a.add_argument("-s", type=int, default=1)
    a.add_argument("-x", default="C17,C18,C19,C21", help="checks used only for files they are anchored in")
    a.add_argument("--skip", help="output of an earlier run: leave these mutants out")
    a.add_argument("files", nargs="*")
    o = a.parse_args()
    random.seed(o.s)
    po = props_of()
    cost = {}
    for p in sum(po.values(), []):
        try:
            cost[p] = json.load(open(os.path.join(V, "evidence", p + ".json")))["wall_s"]
        except Exception:
            cost[p] = 999
    have = {x[:-3].upper() for x in os.listdir(os.path.join(V, "checks")) if x[0] == "c" and x[1:3].isdigit()}
    jobs = []
    for root, _, fs in os.walk("/repo/" + SRC):
        for x in fs:
            f = os.path.relpath(os.path.join(root, x), "/repo/" + SRC)
            if not x.endswith(".py") or (o.files and f not in o.files):
                continue
            ms = mutants(os.path.join(root, x))
            random.shuffle(ms)
            mine = sorted((c for c in set(po.get(f, [])) & have), key=lambda c: cost[c])
            rest = sorted((c for c in have - set(mine) - set(o.x.split(",")) if cost.get(c, 99) < 4), key=lambda c: cost[c])
            late = sorted(have - set(mine) - set(rest), key=lambda c: cost.get(c, 99))
            jobs += [(late, f, m, mine + rest) for m in ms[:o.n]]
    if o.skip:
        old = {tuple(r[:5]) for r in map(json.loads, open(o.skip)) if r[5] != "SURVIVED"}
        jobs = [j for j in jobs if (j[1], j[2][0], j[2][1], j[2][2], j[2][3]) not in old]
    random.shuffle(jobs)
    print(len(jobs), "mutants", flush=True)
    shutil.rmtree("/tmp/mw", ignore_errors=True)
    n = dict(caught=0, tests=0, SURVIVED=0)
    with mp.Pool(o.j) as pool, open(o.out, "w") as fh:
        for r in pool.imap_unordered(work, jobs):
            n[r[5]] += 1
            fh.write(json.dumps(r) + "\n")
            fh.flush()
            if r[5] == "SURVIVED":
                print("%s:%d %s: %r -> %r  und=%s" % (r[0], r[1], r[2], r[3][:100], r[4][:100], r[7]), flush=True)
    print(n)
    shutil.rmtree("/tmp/mw", ignore_errors=True)
