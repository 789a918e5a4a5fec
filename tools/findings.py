#!/usr/bin/env python3
"""Rewrites the `fixed:` lines of known_findings.txt from /repo's fix: commits; JSON lines (open findings) are kept."""
import os, re, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RULES = [("Name::Concat|assert.h|ASSERT|StaticArray|falls off|returns nothing", "X02"), ("Vec3<float32> constants", "X02"), ("List", "L01"), ("BinaryNode|BinaryTree", "T02"), ("Set::any|Set::get", "S02"), ("Set strict|subtracting a Set", "S01"),
         ("ThreeWayCompare", "S01"), ("Pair comparison", "M01"), ("Memory::memcmp|String", "R01"), ("Memory::", "A02"), ("Array", "A01"), ("Optional", "V01"),
         ("Function|function.h", "V02"), ("Atomic|atomic", "C01"), ("IsPointer|RemoveAllPointers|DecayType", "X01")]
SPECIAL = {"fix: String::findIndex": "R02", "fix: String::replaceAll": "R02", "fix: Memory::memcmp": "R02", "fix: BinaryTree::end": "T03", "fix: let BinaryNode::getNumNodes": "T03", "fix: DecayType of an array": "X01"}
exec(open(os.path.join(HERE, "tools/findings_rules.py")).read()) if os.path.exists(os.path.join(HERE, "tools/findings_rules.py")) else None
out = []
for l in subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix:"):
        continue
    p = next((v for k, v in SPECIAL.items() if s.startswith(k)), None) or next((v for k, v in RULES if re.search(k, s)), None)
    assert p, s
    out.append("fixed: property=%s %s before it this did not hold: %s" % (p, h, s[5:]))
f = os.path.join(HERE, "known_findings.txt")
keep = [l for l in open(f).read().splitlines() if l.startswith("{")] if os.path.exists(f) else []
open(f, "w").write("\n".join(keep + out) + "\n")
print(len(keep), "open,", len(out), "fixed")
