#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json.  Run after editing."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
P = "src/korin/core/public/"
PROPS = []


def prop(id, title, statement, over, text, why, files, mech, check=None, technique=None, note=None, na=None, state=(), observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, check=check,
                      technique=technique, note=note, na=na, state=state, observe=observe))


exec(open(os.path.join(HERE, "tools/props_data.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": [x if x.startswith("src") else P + x for x in p["files"]],
                        "state": [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                        "mechanism": [dict(name=a, where=b) for a, b in p["mech"]],
                        "observe_at": list(p["observe"]), "hook_needed": None}}) + "\n")
COMMON = ("Static analysis of LLVM IR that clang compiles from /repo's current sources at every run; no project code is executed and no solver is "
          "called. Assumes integer counters do not wrap, allocation succeeds unless the property says otherwise, and that clang's IR (before "
          "optimisation) means what the C++ means. Obligations the analysis cannot decide are listed in the evidence and never reported as violations. ")
FLOW = ("Static analysis by the compiler front end of /repo's current sources at every run: every use is type-checked and the control flow of every function is looked at; no project code is executed and no solver "
        "is called. Nothing is left undecided: a use that does not compile is reported. ")
HIST = (" In addition, short histories over containers of few elements with unknown values are interpreted exactly and compared with a mathematical model (quick: up to 3 elements and two steps, for trees up to 8 nodes; "
        "thorough: more elements and steps); they add endless loops and combinations of operations, and hold within those sizes.")
TEXTS = " In addition, texts of up to 4 unknown characters (thorough: 5) are followed exactly through every operation and compared with its definition; that part holds within those sizes."
EXTRA = {**{k: HIST for k in ("L01", "A01", "T01", "T02", "T03", "S01", "S02", "M01")}, "R01": TEXTS, "R02": TEXTS}
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": [],
     "notes": "One check script per property under checks/; the analysis engine is in ka/; witness/ only names the API to instantiate; see DESIGN.md."}
for p in PROPS:
    if p["check"]:
        m["checks"].append({"property": p["id"], "quick_cmd": "python3 checks/%s %s" % (p["check"], p["id"]),
                            "thorough_cmd": "VERIF_TIER=thorough python3 checks/%s %s" % (p["check"], p["id"]),
                            "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "other",
                            "level_note": (FLOW if p["id"] in ("X01", "X02") else COMMON) + (p["note"] or "") + EXTRA.get(p["id"], "")})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "properties,", len(m["checks"]), "checks")
