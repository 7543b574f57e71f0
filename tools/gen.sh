#!/bin/sh
# Rewrites properties.jsonl, MANIFEST.json and DESIGN.md
cd "$(dirname "$0")/.." || exit 1
python3 tools/manifest.py && python3 tools/table.py > build/table.md &&
python3 - <<'P'
s = open("tools/DESIGN.in").read()
import glob, json, os
by = {}
for f in sorted(glob.glob("seeded/*/meta.json")):
    by.setdefault(json.load(open(f))["property"], []).append(os.path.basename(os.path.dirname(f)))
s = s.replace("@COUNT@", str(sum(map(len, by.values()))))
s = s.replace("@PLANTS@", "| Check | catches |\n|---|---|\n" + "\n".join("| %s | %s |" % (k, ", ".join(by[k])) for k in sorted(by)))
open("DESIGN.md", "w").write(s.replace("@TABLE@", open("build/table.md").read().rstrip()))
P
