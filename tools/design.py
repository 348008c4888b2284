#!/opt/venv/bin/python
"""Write DESIGN.md from the text below, table.py and the obligations in symx/props.

tools/gen.py goes first. Costs come from tools/costs.json (seconds of the quick
check, 8 cores), which tools/cost.sh rewrites."""
import importlib
import json
import pathlib
import re
import sys

ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))
sys.path.insert(0, str(ROOT / "tools"))
sys.dont_write_bytecode = True
from notes import BUGS, FOOT, HEAD, NOTES  # noqa: E402
from symx import target  # noqa: E402
from table import NA, P  # noqa: E402

target.load()
from symx import harness  # noqa: E402

costs = json.loads((ROOT / "tools" / "costs.json").read_text())
out = [HEAD.strip(), "", "## Properties, one by one", ""]
for row in P:
    pid, title, statement = row[:3]
    out += [f"### {pid} {title}", "", statement, ""]
    if pid in NOTES:
        out += [NOTES[pid].strip(), ""]
    importlib.import_module(f"symx.props.{pid.lower()}")
    groups = {}
    for o in harness.REGISTRY[pid]:
        groups.setdefault(o.name.split("[")[0], []).append(o)
    for name, obs in groups.items():
        doc = " ".join((obs[0].fn.__doc__ or "").split())
        thorough = sum(o.tier != "quick" for o in obs)
        size = f"{len(obs)} obligation" + ("s" if len(obs) > 1 else "") + (f", {thorough} of them thorough only" if thorough else "")
        out.append(f"- `{name}` ({size}). {doc + ' ' if doc else ''}*Bounds:* {obs[0].bounds}.")
    out += ["", f"*Cost:* about {costs.get(pid, '?')} s (quick)." if pid in costs else "", ""]
out += ["## Not applicable", ""]
for row in NA:
    out += [f"- **{row[0]} {row[1]}.** {row[8]}"]
fixed = "\n".join("- " + x.split(" ", 1)[1].strip() for x in open(ROOT / "KNOWN_FINDINGS") if x.startswith("fixed:"))
out += ["", FOOT.strip().replace("FINDINGS_LIST", fixed), "", "## Planted bugs", "", "Each was made from the text of the property and the code, passes the test suite of the repository, and has a demonstration "
        "that fails with it. `caught by` names the checks (and obligations) that reported it.", "", "| bug | property | what it breaks | what it needs | caught by |", "|---|---|---|---|---|"]
for d in sorted((ROOT / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    out.append(f"| {d.name} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {BUGS.get(d.name, 'its own check')} |")
text = "\n".join(out) + "\n"
text = re.sub(r"\n{3,}", "\n\n", text)
(ROOT / "DESIGN.md").write_text(text)
print(len(text.splitlines()), "lines")
