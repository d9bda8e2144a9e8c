#!/usr/bin/env python3
"""Adds an entry to known_findings.json: known.py PROP ID WHAT (development helper, not used by any check)."""
import json, sys
p = "/verif/known_findings.json"
d = json.load(open(p))
prop, i, what = sys.argv[1:4]
d["known"] = [e for e in d["known"] if (e["property"], e["id"]) != (prop, i)] + [{"property": prop, "id": i, "what": what}]
d["known"].sort(key=lambda e: (e["property"], e["id"]))
json.dump(d, open(p, "w"), indent=1)
open(p, "a").write("\n")
