"""Development aid (not a check): runs small programs through the engine and
through Python and compares.  python3-vt tools/conform_lang.py FILE (programs separated by ---)"""
import os, sys, tempfile, shutil
progs = open(sys.argv[1]).read().split("\n---\n")
tmp = tempfile.mkdtemp()
os.makedirs(tmp + "/src/einsteinpy")
open(tmp + "/src/einsteinpy/__init__.py", "w").close()
for k, p in enumerate(progs):
    open(tmp + "/src/einsteinpy/p%d.py" % k, "w").write(p)
os.environ["SA_REPO"] = tmp
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import models, models_lib, terms as tm
from sa.interp import Interp, AnalysisError
from sa.values import *


def conv(I, v):
    v = I.force(v)
    if isinstance(v, Ref):
        c = I.content(v)
        if isinstance(c, Seq):
            return [conv(I, x) for x in c.items]
        if isinstance(c, Arr):
            return [conv(I, x) for x in c.el]
        return repr(c)
    if isinstance(v, (tuple, range)):
        return [conv(I, x) for x in v]
    if isinstance(v, (bool, str)) or v is None:
        return v
    try:
        c = tm.as_t(v).as_const()
        return float(c) if c is not None else repr(v)
    except Exception:
        return repr(v)


def rc(v):
    if isinstance(v, (list, tuple, range)):
        return [rc(x) for x in v]
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return v
    try:
        return float(v)
    except Exception:
        return repr(v)


bad = 0
for k, p in enumerate(progs):
    ns = {"__name__": "p"}
    exec(p, ns)
    real = rc(ns["f"]())
    try:
        I = Interp(tmp + "/src"); I.missing = ()
        I.load("einsteinpy.p%d" % k); I.seal()
        v, raises = I.run(lambda: conv(I, I.call(I.global_("einsteinpy.p%d.f" % k), [], {})))
        if raises:
            print(k, "RAISES", raises); bad += 1; continue
        got = v
    except AnalysisError as e:
        print(k, "UNDECIDED", str(e)[:140]); continue
    except Exception as e:
        import traceback; print(k, "CRASH", "".join(traceback.format_exc().splitlines(True)[-9:])); bad += 1; continue
    if got != real:
        bad += 1
        if isinstance(got, list) and isinstance(real, list) and len(got) == len(real):
            print(k, "DIFF", [(i, a, b) for i, (a, b) in enumerate(zip(got, real)) if a != b])
        else:
            print(k, "DIFF", got, "| real", real)
print(len(progs), "programs", bad, "bad")
shutil.rmtree(tmp)
