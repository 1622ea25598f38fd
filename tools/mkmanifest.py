#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property registered in pbt/props, the others not applicable (with a reason)."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
    "C01": "operation histories against a reference edge dict; three views (listing, time index, adjacency) and membership compared",
    "C02": "operation histories against a reference edge dict; time index, adjacency and membership compared",
    "C03": "window queries against a scan of the reference model",
    "C04": "window queries with all inclusive flags against a scan of the reference model",
    "C05": "node/edge histories against a reference node dict",
    "C06": "generated selections against a scan of the reference model",
    "C07": "degree, in/out-degree, means and delta against counts and an event replay over the reference model",
    "C08": "histories against min/max/sorted sets over the reference model",
    "C09": "static subgraphs against the decorated edges of the reference model",
    "C10": "equal-length snapshots against an exact rational partition of the extent",
    "C11": "snapshot graphs against the elementary segments of the reference history",
    "C12": "snapshot selections by identity against a list of intervals",
    "C13": "snapshot update histories against a splitting model",
    "C14": "per-snapshot methods differentially against NetworkX",
    "C15": "save/load round trip against the reference model",
    "C16": "files rendered from generated records against those records (and a reference merge)",
    "C17": "save/load round trip of snapshot graphs with noise lines",
    "C18": "conversions against reference conversions and round trips",
    "C19": "differential: the same queries with and without (forced and really trained) models",
    "C20": "motif counts against brute-force enumeration",
    "C21": "invalid requests inside histories: full observable state before = after",
    "C22": "metamorphic: permutations, bulk vs single, temporary edges",
    "C23": "query sequences and mutation of results: full observable state before = after",
    "C24": "metamorphic: time shift and node renaming",
    "C25": "metamorphic: order-preserving translation of all times to 16 kinds of orderable values",
    "C26": "histories before and after copying, original and copy each against its own reference model",
    "C27": "interleaved histories of several graphs, each against its own reference model",
}
src = ""
for f in sorted(os.listdir(os.path.join(HERE, "pbt/props"))):
    if f.endswith(".py"):
        src += open(os.path.join(HERE, "pbt/props", f)).read()
have = set(re.findall(r'register\("(C\d\d)"', src))
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in have:
        checks.append({"property": p, "quick_cmd": "python3 run.py %s --tier quick" % p,
                       "thorough_cmd": "python3 run.py %s --tier thorough" % p,
                       "technique": "property-based testing (Hypothesis): " + NOTES[p],
                       "level": "exploration",
                       "level_note": "generated cases with shrinking and replay files; bounds on sizes and values are in DESIGN.md"})
    else:
        na.append({"property": p, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 run.py --self-test", "checks": checks, "not_applicable": na}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks;", len(na), "not applicable")
