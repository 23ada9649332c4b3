#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed checks."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "R": "TLA+ specification of the recoloring client (Recolor.tla, exact integer geometry); TLC-generated call histories and inputs replayed on the library, recorded behaviors validated by TLC",
 "P": "TLA+ specification of the palette simplification chain (Palette.tla); recorded palettes validated by TLC",
 "H": "TLA+ specification of convex hulls in exact integer geometry (Hull.tla); recorded hulls validated by TLC",
 "D": "TLA+ specification of Delaunay triangulation and point location (Tri.tla); recorded triangulations and query histories validated by TLC",
 "E": "TLA+ specification of refusals (Memo.tla); TLC-generated fault sequences replayed, recorded behaviors validated by TLC",
 "T": "TLA+ memo specification of results (Memo.tla); TLC-generated schedules replayed on threads, recorded behaviors validated by TLC",
 "C": "TLA+ specification of the C handles and heap (CAbi.tla); TLC-generated call histories replayed by a C driver, recorded behaviors validated by TLC",
 "L": "TLA+ specification of the command line (Cli.tla); TLC-generated arguments replayed on the binary, recorded runs validated by TLC",
 "W": "TLA+ specification of the web page and its worker (Web.tla); TLC-generated event interleavings replayed into the real JavaScript, recorded behaviors validated by TLC",
}
NOTE = {}
exec(open(os.path.join(ROOT, "tools", "claims.py")).read())
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []; na = []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        checks.append({"property": i, "quick_cmd": f"python3 tools/check.py {i} --tier quick",
                       "thorough_cmd": f"python3 tools/check.py {i} --tier thorough",
                       "technique": TECH[i[0]], "level": "model_checking", "level_note": CLAIMED[i]})
    else:
        na.append({"property": i, "reason": NOT_CLAIMED.get(i, "its check is still being built")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "none", "enable": "no hooks are needed: everything is observed through public interfaces", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "All checks: python3 tools/check.py <property> --tier quick|thorough. Repairs of genuine defects are listed in known-findings.txt."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
import subprocess
