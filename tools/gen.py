#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and proofs/registry.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, "tools")]
sys.dont_write_bytecode = True
import props
from proofs import registry

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for x in props.P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
m = {
    "version": 1,
    "setup_cmd": "python3 run.py setup",
    "hooks": registry.HOOKS,
    "checks": [],
    "not_applicable": [],
    "notes": "Every check extracts or includes the functions under contract from /repo's current tree on each run. See DESIGN.md.",
}
for x in props.P:
    i = x["id"]
    if i in registry.PROPS:
        c = registry.PROPS[i]
        e = {
            "property": i,
            "quick_cmd": f"python3 run.py check {i} --tier quick",
            "thorough_cmd": f"python3 run.py check {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": c["technique"],
            "level": c["level"],
            "level_note": c["note"],
        }
        if c.get("theorems"):
            e["theorems"] = c["theorems"]
        m["checks"].append(e)
    else:
        m["not_applicable"].append({"property": i, "reason": registry.NA.get(i, "no contract built yet")})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")

# DESIGN.md
import re
def units(c):
    out = []
    for u in c.get("verus", []):
        by = {}
        for f in u.fns:
            by.setdefault(f.path, []).append((f.impl.split(" ~")[0] + "::" if f.impl else "") + f.name + (" (part)" if f.block else ""))
        out.append(f"  * `{u.name}`: " + "; ".join(f"{p}: " + ", ".join(f"`{n}`" for n in dict.fromkeys(ns)) for p, ns in by.items()))
    for crate, hs in c.get("kani", []):
        out.append(f"  * Kani `{crate}`: " + ", ".join(f"`{h}`" for h in hs))
    return out
COST = dict(P01=34, P02=34, P03=25, P04=29, P05=45, P06=52, P07=35, P08=30, P09=21, P10=90, P11=78, P12=94, P13=70, P14=49, P15=28, P16=20, P17=20, P18=27, P19=84, P20=30, P21=77, P22=60)
sec = []
for x in props.P:
    c = registry.PROPS[x["id"]]
    b = c.get("budget", {})
    sec += ["", f"### {x['id']} {x['title']}", "", c["note"], "", "* Functions under contract, by unit:", *units(c)]
    if c.get("assumptions"):
        a = [t for t in c["assumptions"] if t not in registry.COMMON]
        sec.append("* Assumed: the common assumptions" + ("; " + "; ".join(a) if a else "") + ".")
    if c.get("trusted"):
        sec.append("* Trusted contracts: " + "; ".join(c["trusted"]) + ".")
    sec.append("* Bounded (monitored, not proved): " + ("; ".join(c["bounded"]) if c.get("bounded") else "nothing") + ".")
    sec.append(f"* Cost: about {COST[x['id']]} s for the quick check on 8 cores" + (f", {b.get('quick', 12)} s of it (at the same time) on generated histories; thorough: {b.get('thorough', 180)} s of those." if c.get("harness") else "."))
def table(path, default=""):
    p = os.path.join(HERE, "tools", path)
    return open(p).read().strip() if os.path.exists(p) else default
find = []
for line in open(os.path.join(HERE, "known-findings.txt")):
    m = re.match(r"(known|fixed): property=(\S+) (\S+) (.*)", line.strip())
    if m:
        find.append(f"* {m[2]}: {m[4]}" + (f" (known finding `{m[3][4:]}`)" if m[1] == "known" else f" (repaired: `{m[3]}`)"))
t = open(os.path.join(HERE, "tools", "design_in.md")).read()
t = t.replace("{{PROPERTIES}}", "\n".join(sec)).replace("{{SEEDED}}", table("seeded.md")).replace("{{FINDINGS}}", "\n".join(find))
with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
    f.write(t)
