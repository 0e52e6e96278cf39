#!/usr/bin/env python3
import json, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
import checks
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
M = dict(version=1, setup_cmd="./setup.sh", hooks=dict(guard="TAGPARSER_VERIF", enable="not used: the harness needs no hooks in /repo, it interposes libc's file operations", source_commits=[]), checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if checks.USES.get(i):
        M["checks"].append(dict(property=i, quick_cmd="./check %s quick" % i, thorough_cmd="./check %s thorough" % i, technique=checks.TECH.get(i, checks.TECH[""]), level="model_checking", level_note=checks.NOTE.get(i, checks.NOTE[""]), evidence_file="evidence/%s.json" % i))
    else: M["not_applicable"].append(dict(property=i, reason="check still being built"))
json.dump(M, open(V + "/MANIFEST.json", "w"), indent=1)
