#!/usr/bin/env python3
"""single source of /verif/properties.jsonl and /verif/MANIFEST.json

    python3 tools/props.py        (rewrites both; claims a property iff checks/cNN.py exists)
"""
import json, os, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, tech, note, observe=(), state=()):
    P.append(dict(p=dict(id=id, title=title, statement=statement,
                         quantifier=dict(over=over, text=text), why_tests_cant=why,
                         anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                                      mechanism=[dict(name=n, where=w) for n, w in mech],
                                      observe_at=list(observe), hook_needed=None)),
                  tech=tech, note=note))


ENGINE = (" Executes the gateware the repository's own Python builds (Migen fragment compiled to C, itself differentially "
          "tested against migen.sim by setup); trusts Migen's elaboration. Sampled executions, not a proof.")

exec(open(os.path.join(HERE, "tools", "props_list.py")).read())

ids = [x["p"]["id"] for x in P]
assert len(set(ids)) == len(ids)
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["p"]["title"]) <= 80, x["p"]["title"]
        f.write(json.dumps(x["p"]) + "\n")
checks, na = [], list(NA)
for x in P:
    i = x["p"]["id"]
    if os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd="./check {} quick".format(i), thorough_cmd="./check {} thorough".format(i),
                           evidence_file="evidence/{}.json".format(i), technique="runtime monitoring: " + x["tech"],
                           level="exploration", level_note=x["note"] + ENGINE))
    elif i not in [n["property"] for n in na]:
        na.append(dict(property=i, reason="no check built yet"))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="No hooks in /repo: monitors attach to the signals of the elaborated design. ./check <id> --replay FILE re-runs one job.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(P), "properties,", len(checks), "checks")
