"""Single source of properties.jsonl and MANIFEST.json (python3 gen/props.py rewrites both)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []


def P(id, title, statement, over, qtext, why, files, mech, technique, note, state=(), observe="public API of the library",
      thorough=False):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                      technique=technique, note=note, state=state, observe=observe, thorough=thorough))


def N(id, title, statement, over, qtext, why, files, mech, reason):
    P(id, title, statement, over, qtext, why, files, mech, None, None)
    NA.append(dict(property=id, reason=reason))


TRUST = "Trusts the clang 18 front end, LLVM's inliner/SROA and the analysis engine in vf/."

exec(open(os.path.join(V, "gen", "list.py")).read())


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in sorted(PROPS, key=lambda p: p["id"]):
            assert len(p["title"]) <= 80, p["id"]
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                             "observe_at": p["observe"], "hook_needed": False}}
            if p["state"]:
                d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
            f.write(json.dumps(d) + "\n")
    checks = []
    for p in sorted(PROPS, key=lambda p: p["id"]):
        if p["technique"] is None:
            continue
        assert os.path.exists(os.path.join(V, "checks", p["id"] + ".py")), p["id"]
        checks.append({"property": p["id"], "quick_cmd": f"python3 checks/{p['id']}.py",
                       "thorough_cmd": f"python3 checks/{p['id']}.py --thorough",
                       "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"], "level": "other",
                       "level_note": p["note"] + " " + TRUST})
    man = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": NA,
           "notes": "Every check compiles /repo's current sources to LLVM IR (never runs them) and decides its property by "
                    "static analysis of that IR or of clang's syntax tree. No hooks in /repo."}
    json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(PROPS), "properties,", len(checks), "checks,", len(NA), "not applicable")


main()
