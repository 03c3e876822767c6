"""seed.py SPECFILE [ID...] : plant, confirm and record seeded changes.
SPECFILE defines SEEDS = [dict(id, prop, file, edits=[(old, new)...], demo, needs, breaks)] (file relative to src/einsteinpy;
edits may be (file, old, new)). A seed is kept when the patch builds, baseline tests pass, demo passes before and fails after."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
BASE = json.load(open("/opt/vp/BASELINE.json"))


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ)
    e.update(MPLBACKEND="Agg", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def baseline_ids():
    b = BASE
    if isinstance(b, dict):
        for k in ("passed", "stable", "tests", "pass"):
            if k in b:
                b = b[k]
                break
    return set(b)


def plant(s):
    d = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    wt = os.path.join(d, "repo")
    try:
        shutil.copytree("/repo", wt, symlinks=True)
        for e in s["edits"]:
            f, old, new = e if len(e) == 3 else (s["file"],) + tuple(e)
            p = os.path.join(wt, "src/einsteinpy", f)
            t = open(p, newline="").read()
            crlf = "\r\n" in t
            if crlf:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if t.count(old) != 1:
                return "edit matches %d times: %r" % (t.count(old), old[:60])
            open(p, "w", newline="").write(t.replace(old, new))
        p = subprocess.run(["git", "diff"], cwd=wt, stdout=subprocess.PIPE)
        diff = p.stdout
        # only original lines may be changed
        base = subprocess.run(["git", "diff", "-U0", "4c9d02e", "HEAD"], cwd="/repo", stdout=subprocess.PIPE, text=True).stdout
        added = {l[1:].strip() for l in base.splitlines() if l.startswith("+") and not l.startswith("+++")}
        rem = [l[1:].strip() for l in diff.decode().splitlines() if l.startswith("-") and not l.startswith("---")]
        if any(r in added and r for r in rem):
            return "touches a line of a fix commit"
        out = os.path.join(V, "seeded", s["id"])
        tmp = os.path.join(d, "seed")
        os.makedirs(tmp)
        open(os.path.join(tmp, "patch.diff"), "wb").write(diff)
        open(os.path.join(tmp, "demo.py"), "w").write(s["demo"].lstrip())
        open(os.path.join(tmp, "demo.sh"), "w").write(
            '#!/bin/bash\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(tmp, "meta.json"), "w"), indent=1)
        rc, o = sh(["git", "apply", "--check", os.path.join(tmp, "patch.diff")], "/repo")
        if rc:
            return "patch does not apply: " + o
        rc, o = sh(["bash", os.path.join(tmp, "demo.sh")], "/repo")
        if rc:
            return "demo fails on the unchanged tree:\n" + o[-1500:]
        env = {"PYTHONPATH": os.path.join(wt, "src")}
        rc, o = sh(["bash", os.path.join(tmp, "demo.sh")], wt, env)
        if rc == 0:
            return "demo passes with the change"
        if "ImportError" in o or "SyntaxError" in o:
            return "demo fails for the wrong reason " + o[-600:]
        msg = o.strip().splitlines()[-1] if o.strip() else ""
        env2 = dict(env, OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
        x = os.path.join(d, "j.xml")
        rc, o = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "8", "--timeout=300", "--continue-on-collection-errors",
                    "-o", "junit_family=xunit2", "--junitxml=" + x], wt, env2)
        subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", os.path.join(d, "r.json"), "junit:" + x], check=True, stdout=subprocess.DEVNULL)
        r = json.load(open(os.path.join(d, "r.json")))
        passed = set(r.get("passed") or r.get("pass") or [])
        missing = baseline_ids() - passed
        if missing:
            return "tests fail: " + ", ".join(sorted(map(str, missing))[:4])
        rc, o = sh(["python3-vt", os.path.join(V, "check.py"), s["prop"]], V, {"SA_REPO": wt}) if not s.get("nocheck") else (0, "")
        if os.path.exists(out):
            shutil.rmtree(out)
        shutil.copytree(tmp, out)
        return "KEPT; demo: %s\n    check %s rc=%d %s" % (msg[:110], s["prop"], rc, " / ".join(o.strip().splitlines()[:4])[:420])
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    g = {}
    exec(open(sys.argv[1]).read(), g)
    for s in g["SEEDS"]:
        if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]:
            continue
        print(s["id"], "->", plant(s), flush=True)
