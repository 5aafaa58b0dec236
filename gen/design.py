"""Writes DESIGN.md: python3 gen/design.py"""
import json, os, re, textwrap
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORACLE = {
    "A01": "the completion flag that the initialization function returns", "A02": "the sibling accessors of the same level", "A03": "the result of the getcpu call and the published table size",
    "A04": "the empty set of effects", "A05": "the name of the accessor and the field of the detected feature",
    "C01": "spec/x86_descriptors.py (Intel SDM table 3-12, Application Note 485)", "C02": "the field layout of CPUID leaf 4 and 0x8000001D in the manuals",
    "C03": "geometry laws and spec/arm_caches.py (Technical Reference Manuals)", "C04": "the definition in the statement",
    "D01": "spec tables of identification strings", "D02": "spec tables of vendor, family, model", "D03": "spec tables of implementer, part, variant",
    "S01": "vf/x86.py (Intel SDM, AMD APM)", "S02": "the rules of the manuals on when a leaf exists", "S03": "vf/armisa.py (Linux uapi/asm/hwcap.h)", "S04": "vf/armisa.py (Linux uapi/asm/hwcap.h, Arm ARM)", "S05": "the letters of the RISC-V hwcap bits",
    "P01": "spec/cpulist.py: the numbers and ranges that the text denotes", "P02": "the decimal number that the text denotes", "P03": "spec/arm_proc.py (kernel sources of /proc/cpuinfo)", "P04": "the decimal numbers that the text denotes",
}
def oracle(i):
    return ORACLE.get(i) or {"I": "the protocol stated in the property", "T": "the invariants of the data model in the public header", "L": "prefix, text and line end, character by character"}.get(i[0], "the statement")
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
out = open(V + "/gen/design.txt").read().rstrip() + "\n\n"
w = lambda s: textwrap.fill(s, 140, initial_indent="", subsequent_indent="  ", break_long_words=False, break_on_hyphens=False) + "\n"
L = {}
exec(compile(open(V + "/gen/list.py").read(), "list", "exec"), {"P": lambda *a: L.setdefault(a[0], a)})
man = {c["property"]: c for c in json.load(open(V + "/MANIFEST.json"))["checks"]}
cost = json.load(open(V + "/gen/cost.json")) if os.path.exists(V + "/gen/cost.json") else {}
for p in props:
    i = p["id"]
    a = L[i]
    s = open(V + f"/checks/{i}.py").read()
    rule = re.search(r'rule=((?:f?"(?:[^"\\]|\\.)*"\s*)+)', s)
    rule = "".join(re.findall(r'"((?:[^"\\]|\\.)*)"', rule.group(1))) if rule else ""
    out += f"### {i}: {a[1]}\n\n"
    out += w("* Decided by: " + a[8] + ".")
    out += w("* Rule: " + rule + ".")
    out += w("* Oracle: " + oracle(i) + ".")
    out += w("* Analysed: " + a[4])
    out += w("* Bounds: " + a[9])
    out += w("* Beyond the tests: " + a[5])
    if i in cost:
        out += w(f"* Cost: {cost[i][0]} obligations, about {cost[i][1]:.0f} s.")
    out += "\n"
out += open(V + "/gen/design2.txt").read().rstrip() + "\n\n"
out += "## 6. Planted bugs\n\nEvery change compiles, passes the tests and has a demonstration in `seeded/<id>/`; the check named catches it.\n\n"
out += "| bug | property | needs | breaks | caught by |\n|---|---|---|---|---|\n"
caught = json.load(open(V + "/gen/caught.json"))
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    out += f"| {d} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {caught.get(d, '')} |\n"
out += "\n## 7. Genuine defects found and repaired\n\nEach was shown against the real code and repaired by a `fix:` commit; the list is kept in `known_findings.json`.\n\n"
for f in json.load(open(V + "/known_findings.json"))["fixed"]:
    m = re.match(r"fixed: property=(\w+) (\w+) (.*)", f)
    out += f"* {m.group(1)}, `{m.group(2)}`: {m.group(3)}.\n"
kf = json.load(open(V + "/known_findings.json"))["findings"]
out += f"\nKnown findings that are not repaired: {len(kf) or 'none'}.\n"
open(V + "/DESIGN.md", "w").write(out)
