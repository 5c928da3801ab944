#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below and props.py (what has a check)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from props import PROPS
L = []
def P(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None, note=""):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=qtext), why_tests_cant=why,
             anchors=dict(files=files.split(), mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    L.append((d, note))
exec(open(os.path.join(HERE, "tools", "properties_src.py")).read())
ids = [d["id"] for d, _ in L]
assert len(set(ids)) == len(ids)
open(os.path.join(HERE, "properties.jsonl"), "w").write("".join(json.dumps(d) + "\n" for d, _ in L))
checks, na = [], []
for d, note in L:
    i = d["id"]
    if i in PROPS:
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} quick", thorough_cmd=f"python3 check.py {i} thorough",
            technique=PROPS[i].get("technique", "runtime monitoring: randomised and hostile workloads on the ASan+UBSan build, online oracle checks"),
            level="exploration", level_note=note or "Held on the executions generated; trusts the reference computations in harness/ and the compiler sanitizers."))
    else:
        na.append(dict(property=i, reason=NA.get(i, "the check for this property is not built yet")))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, hooks=HOOKS, not_applicable=na)
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", len(na), "not claimed")
missing = [i for i in PROPS if i not in ids]
assert not missing, missing
