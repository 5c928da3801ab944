#!/usr/bin/env python3
"""Regenerates known_findings.json: the known (unrepaired) findings and, from /repo's 'fix:' commits, the repaired ones."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIX = [  # (start of the commit subject after 'fix: ', property, what failed)
 ("a zero-length time step", "C04", "timeStep_CC(0) turned the ageing states of a cell with stress-driven ageing into nan (0/0) and counted as a step"),
 ("copy assignment of a Deep_ptr", "U03", "Deep_ptr copy assignment did not compile when instantiated"),
 ("comparing nullptr with a Deep_ptr", "U03", "nullptr == Deep_ptr recursed until the stack overflowed"),
 ("highest cell voltage of a series module", "M01", "getVhigh of a series module returned its summed lower voltage limit"),
 ("series module did not restore the current of its first", "C08", "after a refused current the first member of a series module kept the new current"),
 ("module restored every refused state", "C08", "after refused states a module wrote all saved states into the member that refused"),
 ("contact resistance heat of a parallel", "T01", "the contact-resistance heat of a parallel module was counted again for every member"),
 ("parallel module failed although", "M02", "timeStep_CC of a parallel module threw although its second redistribution succeeded"),
 ("blocking ageing and temperature", "P03", "setBlockDegAndTherm through a StorageUnit pointer did not reach the cells of modules and batteries"),
 ("members of a copied module", "M04", "members of a copied module or battery still had the original as their parent"),
 ("battery must consume exactly", "C07", "Battery::setStates consumed the wrong part of the states and kept a refused one"),
 ("highest and lowest cell voltage of a battery", "B02", "getVhigh/getVlow of a battery were scaled as if they were the pack voltage"),
 ("module must refuse empty", "M06", "setSUs with null, owned or too many members accessed invalid memory or was accepted"),
 ("series module reported a stale voltage", "C05", "a series module reported the voltage it had before a member was changed directly"),
 ("parallel module must keep the total current", "M02", "with unequal capacities the total current of a parallel module drifted at every redistribution; refused currents were not undone (C08)"),
 ("a refused voltage must leave", "C08", "setVoltage that did not converge left an arbitrary current"),
 ("voltage of an SPM cell was stale", "C05", "V() of an SPM cell returned the value from before setT or the ageing update"),
 ("illegal states", "C08", "setStates accepted nan and non-positive amounts of active material or diffusion constants, and threw on negative LLI"),
 ("the ageing variation", "C10", "the SEI/LAM variation factors given to the SPM constructor were ignored"),
 ("tangential stress", "C10", "getDaiStress used the concentration of the mirrored node for the tangential stress"),
]
import importlib.util
extra = os.path.join(HERE, "tools", "findings_extra.py")
KNOWN = []
if os.path.exists(extra):
    ns = {}; exec(open(extra).read(), ns); FIX += ns.get("FIX", []); KNOWN = ns.get("KNOWN", [])
log = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines()
fixes = [l.split(" fix: ", 1) for l in log if " fix: " in l]
out, used = [], set()
for k in KNOWN: out.append({"status": "known", **k})
for pre, prop, what in FIX:
    m = [c for c, s in fixes if s.startswith(pre)]
    assert len(m) == 1, (pre, m)
    used.add(m[0])
    out.append({"id": "fix-" + m[0], "status": "fixed", "property": prop, "commit": m[0], "what": what, "record": f"fixed: property={prop} {m[0]} {what}"})
left = [f for f in fixes if f[0] not in used]
assert not left, left
json.dump({"findings": out}, open(os.path.join(HERE, "known_findings.json"), "w"), indent=1)
print(len(out), "findings")
