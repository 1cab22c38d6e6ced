#!/usr/bin/env python3
"""merge.py FIRST SECOND: adds the evidence of the first part of a check to that of its second part."""
import json, sys

a, b = (json.load(open(p)) for p in sys.argv[1:3])
ca, cb = a["coverage"], b["coverage"]
for k in ("states", "transitions", "traces_validated_against_impl", "distinct_outcomes"):
    cb[k] += ca[k]
cb["exhaustive"] = ca["exhaustive"] and cb["exhaustive"]
for k in ("suites", "samples"):
    cb[k] = ca[k] + cb[k]
b["assumptions"] = ["sequential suites: " + x for x in a["assumptions"]] + ["threads: " + x for x in b["assumptions"]]
b["wall_s"] = round(a["wall_s"] + b["wall_s"], 2)
b["violations"] += a["violations"]
json.dump(b, open(sys.argv[2], "w"), ensure_ascii=False)
open(sys.argv[2], "a").write("\n")
