#!/opt/venv/bin/python
"""Write properties.jsonl and MANIFEST.json from table.py and the check modules."""
import json
import pathlib
import sys

ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT / "tools"))
from table import NA, P  # noqa: E402

TECH = "symbolic execution of the real Python source (numba kernels as plain Python) + SMT (z3, nonlinear reals), counterexamples replayed"
NOTE = ("Bounded symbolic check: every path of the real source within the sizes named in evidence, all values over the reals; "
        "trusts z3, the numpy stand-in of symx and the trusted base in DESIGN.md; floating-point rounding is outside.")
props, checks, na = [], [], []
for row in P + [r[:8] for r in NA]:
    pid, title, st, over, text, why, files, mech = row
    assert len(title) <= 80, (pid, len(title))
    props.append(dict(id=pid, title=title, statement=st, quantifier=dict(over=over, text=text), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])))
for row in P:
    pid = row[0]
    if (ROOT / "symx" / "props" / f"{pid.lower()}.py").exists():
        cmd = f"/opt/venv/bin/python check.py {pid} --tier "
        checks.append(dict(property=pid, quick_cmd=cmd + "quick", thorough_cmd=cmd + "thorough", technique=TECH,
                           level="model_checking", level_note=NOTE))
    else:
        na.append(dict(property=pid, reason="not built yet"))
na += [dict(property=r[0], reason=r[8]) for r in NA]
(ROOT / "properties.jsonl").write_text("".join(json.dumps(p) + "\n" for p in props))
man = dict(version=1, setup_cmd="/opt/venv/bin/python tools/selftest.py", checks=checks, not_applicable=na)
(ROOT / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
print(len(checks), "claimed", len(na), "not")
