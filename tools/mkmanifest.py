#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties and the checks that exist."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
RT = ("TLA+ specification of the generated service (spec/FedRT.tla, FedScript.tla); behaviours scheduled from the specification are driven into the generated "
      "Go code and every recorded trace is checked by TLC to be a behaviour of the specification (FedTrace.tla)")
RTN = ("Generated programs of the property's profile are compiled by the real generator from /repo's tree and run; the verdict is TLC's: each trace (calls sent, requests, "
       "answers, times, final response or status) must be a behaviour of the specification. Assumes the test driver's backends; covers the abstract syntax of vh/ast.go, not every CEL expression.")
checks = {}
for i in "R01 R02 R03 R04 R05 R06 R07 R08 R09 R10 R11 R12 R13 R14 R16 R17 R19 R20".split():
    checks[i] = (RT, "model_checking", RTN)
extra = os.path.join(here, "tools", "checks.json")
if os.path.exists(extra):
    for k, v in json.load(open(extra)).items():
        checks[k] = tuple(v)
NA = {}
m = {"version": 1, "setup_cmd": "true",
     "hooks": {"guard": "verif", "enable": "no hooks are needed: the harness uses the public packages of /repo and its generated code", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    if p in checks:
        t, l, n = checks[p]
        m["checks"].append({"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough", "technique": t, "level": l, "level_note": n})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "check not built yet")})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
