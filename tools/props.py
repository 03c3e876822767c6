"""Single source of properties.jsonl and MANIFEST.json (python3 tools/props.py rewrites both)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
TECH = "static abstract interpretation of the source into canonical algebraic terms (value-flow/value-numbering), compared with specification terms"
NOTE = ("Decided from the parsed source on every run; no einsteinpy code is executed. All control-flow paths of the analysed calls are joined into gated "
        "terms over symbolic inputs, so the verdict covers every input in the stated preconditions in exact real arithmetic (rounding is not modelled). "
        "Terms that do not share a normal form are separated by multi-precision identity testing of the two terms. Trusted: the engine in sa/ (Python "
        "semantics, numpy/astropy/sympy models), the specification in checks/.")


def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=["src/einsteinpy/" + f for f in files],
                               mechanism=[dict(name=n, where="src/einsteinpy/" + w) for n, w in mech]),
                  _t=technique or TECH, _n=note or NOTE))


def na(id, title, statement, over, qtext, why, files, mech, reason):
    prop(id, title, statement, over, qtext, why, files, mech)
    P[-1]["_na"] = reason


sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from proplist import declare  # noqa: E402

declare(prop, na)
if __name__ == "__main__":
    checks, napp = [], []
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in P:
            q = {k: v for k, v in p.items() if not k.startswith("_")}
            assert len(q["title"]) <= 80, q["title"]
            for f in q["anchors"]["files"]:
                assert os.path.exists("/repo/" + f), f
            fh.write(json.dumps(q) + "\n")
            if p.get("_na"):
                napp.append(dict(property=p["id"], reason=p["_na"]))
            else:
                cmd = "python3-vt /verif/check.py %s --tier " % p["id"]
                checks.append(dict(property=p["id"], quick_cmd=cmd + "quick", thorough_cmd=cmd + "thorough", technique=p["_t"], level="other",
                                   level_note=p["_n"]))
    m = dict(version=1, setup_cmd="python3-vt -m compileall -q /verif/sa /verif/checks >/dev/null 2>&1 || true", checks=checks, not_applicable=napp,
             notes="Static analysis only. Exit 0 held, 1 violation, 2 undecided (engine could not decide an obligation).")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")
    print(len(checks), "checks,", len(napp), "not applicable")
