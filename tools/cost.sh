#!/bin/sh
# Seconds of every quick check, into tools/costs.json
cd "$(dirname "$0")/.." || exit 1
for p in $(ls symx/props | sed -n 's/^p\([0-9]*\)\.py$/P\1/p'); do
  s=$(date +%s); /opt/venv/bin/python check.py $p > /tmp/cost_$p.log 2>&1; echo "$p $? $(( $(date +%s) - s ))"; tail -1 /tmp/cost_$p.log
done | tee /tmp/costs.log
python3 - <<'P'
import json
d = {l.split()[0]: int(l.split()[2]) for l in open("/tmp/costs.log") if l[0] == "P" and len(l.split()) == 3}
json.dump(d, open("tools/costs.json", "w"), indent=0)
P
