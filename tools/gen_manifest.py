"""writes MANIFEST.json from sa/props.py, sa/extra.py and the reasons below"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from sa import props, registry as extra

NA = {
    "C31": "the round trip composes formatting templates, normalisation and parsing over all digit strings a region's patterns accept; it quantifies over run-time digit values through regular-expression replacement, which no static argument in reach bounds (the two halves are decided separately by C06 to C11 and C26 to C28)",
    "C32": "there is no C++ or Java source of the reference implementation in the sandbox to compare with; the guarantees it would carry are stated and decided one by one in the other properties",
    "C33": "a running-time bound depends on the regex engine's and the allocator's run-time cost; only loop structure is visible statically, and that is decided by C02",
}
props_ = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props_:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif i in extra.CLAIMED or i in props.OBLIGATIONS:
        tech, note = extra.TECH.get(i, extra.TECH["equiv"])
        checks.append({"property": i, "quick_cmd": "python3 -m sa.check " + i, "thorough_cmd": "python3 -m sa.check " + i + " thorough",
                       "technique": tech, "level": extra.LEVEL.get(i, ("translation_validation",))[0], "level_note": note})
    else:
        na.append({"property": i, "reason": "no check yet"})
m = {"version": 1, "setup_cmd": "python3 -m sa.build", "checks": checks, "not_applicable": na}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks", [x["property"] for x in na])
