#!/usr/bin/env python3
"""python3-vt check.py <property id> [--tier quick|thorough]"""
import argparse
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True


LIMIT = 780         # seconds; a run that gets this far reports what it has found
AFTER_FIND = 180    # seconds a run goes on after its first violation


def main(box, stream):
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    from sa.harness import Run
    mod = importlib.import_module("checks." + a.pid.lower())
    R = Run(a.pid, a.tier, int(os.environ.get("VERIF_SEED", "1")))
    R.stream = stream
    box.append((R, mod))
    R.guard("analysis", lambda: mod.run(R))
    return R.finish(mod.MIN_OBLIGATIONS)


def worker(stream, limit):
    """the analysis itself, in a thread with a deep stack"""
    import threading
    threading.stack_size(512 * 1024 * 1024)
    res, box = [], []
    t = threading.Thread(target=lambda: res.append(main(box, stream)), daemon=True)
    t.start()
    t.join(limit)
    if t.is_alive() and box:
        R, mod = box[0]
        R.undecided("analysis", "not finished after %d s" % limit)
        res.append(R.finish(mod.MIN_OBLIGATIONS))
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(res[0] if res else 3)


def supervise(limit):
    """run the analysis in a child; where it gets stuck or dies, report the violations it had already found"""
    import json
    import select
    import signal
    import time
    rd, wr = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if not pid:
        os.close(rd)
        worker(wr, limit)
    os.close(wr)
    buf, t0, first, how = b"", time.time(), None, None
    while True:
        end = t0 + limit + 40 if limit else None
        if first is not None:
            end = min(end or first + 4 * AFTER_FIND, first + (AFTER_FIND if limit else 4 * AFTER_FIND))
        r, _, _ = select.select([rd], [], [], None if end is None else max(0, end - time.time()))
        if not r:
            how = "stopped after %d s" % (time.time() - t0)
            os.kill(pid, signal.SIGKILL)
            break
        b = os.read(rd, 65536)
        if not b:
            break
        buf += b
        first = first or time.time()
    st = os.waitpid(pid, 0)[1]
    if how is None and os.WIFEXITED(st) and os.WEXITSTATUS(st) in (0, 1, 2):
        return os.WEXITSTATUS(st)
    how = how or "ended with status %d" % st
    prop = [x for x in sys.argv[1:] if not x.startswith("-")][0]
    found = [x.split("\0") for x in buf.decode("utf8", "replace").split("\n") if x.count("\0") == 2]
    here = os.path.dirname(os.path.abspath(__file__))
    os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
    with open(os.path.join(here, "evidence", prop + ".json"), "w") as fh:
        json.dump({"property": prop, "tier": "thorough" if not limit else "quick", "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
                   "wall_s": round(time.time() - t0, 3), "coverage": {"explanation": "analysis %s; only the violations found until then are reported" % how,
                                                                      "violated": len(found)}}, fh, indent=1)
    if not found:
        print("UNDECIDED property=%s: analysis %s" % (prop, how))
        return 2
    vp = os.path.join(here, "evidence", prop + ".violations.txt")
    with open(vp, "w") as fh:
        for n, d, w in found:
            fh.write("property %s\nobligation: %s\nat: %s\nfinding: %s\n\n" % (prop, n, w, d))
    print("VIOLATION property=%s replay=%s" % (prop, vp))
    for n, d, w in found[:6]:
        print("  %s\n    at %s\n    %s" % (n, w, d))
    print("  (analysis %s)" % how)
    return 1


if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") != "0":      # same order of sets, hence same run, every time
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable] + sys.argv)
    deep = "thorough" in sys.argv or "--tier=thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" and "quick" not in sys.argv
    sys.exit(supervise(None if deep else LIMIT))
