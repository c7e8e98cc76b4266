"""writes properties.jsonl and MANIFEST.json (python3 tools/mkmeta.py)"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": quant}, "why_tests_cant": why,
        "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                    "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None},
    })


SP, SY, PSY = "agnpy/spectra/spectra.py", "agnpy/synchrotron/synchrotron.py", "agnpy/synchrotron/proton_synchrotron.py"
SSC, EC, KER = "agnpy/compton/synchrotron_self_compton.py", "agnpy/compton/external_compton.py", "agnpy/compton/kernels.py"
BL, TG, AB, EBL = "agnpy/emission_regions/blob.py", "agnpy/targets/targets.py", "agnpy/absorption/targets_absorption.py", "agnpy/absorption/ebl_absorption.py"
MA, GE, CO, CV = "agnpy/utils/math.py", "agnpy/utils/geometry.py", "agnpy/constraints/spectral_constraints.py", "agnpy/utils/conversion.py"
TE, TU = "agnpy/time_evolution/time_evolution.py", "agnpy/time_evolution/_time_evolution_utils.py"
FC, FS, FG, FD = "agnpy/fit/core.py", "agnpy/fit/sherpa_wrapper.py", "agnpy/fit/gammapy_wrapper.py", "agnpy/fit/data.py"
RP = "agnpy/radiative_process/core.py"

exec(open(os.path.join(HERE, "tools", "props.py")).read())

have = [p for p in P if os.path.exists(os.path.join(HERE, "checks", p["id"].lower() + ".py"))]
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in have:
        f.write(json.dumps(p) + "\n")
checks = []
for p in have:
    t, note = TECH.get(p["id"], ("runtime monitoring against a reference model", None))
    checks.append({
        "property": p["id"], "quick_cmd": f"bash run.sh {p['id']}", "thorough_cmd": f"bash run.sh {p['id']} --tier thorough",
        "evidence_file": f"evidence/{p['id']}.json", "technique": t, "level": "exploration",
        "level_note": (note or "") + (" " if note else "") + "Seeded exploration: holds on the executions observed; trusts numpy, scipy, astropy and the reference model in lib/ref.py.",
    })
man = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": [],
       "notes": "No hooks in /repo: every monitor observes public behaviour (return values, callbacks, exceptions, caller-owned arrays). See DESIGN.md."}
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(have), "properties;", [p["id"] for p in P if p not in have], "without a check")
