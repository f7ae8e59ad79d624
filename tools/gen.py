"""Writes properties.jsonl and MANIFEST.json from the tables below (run: python3 tools/gen.py)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def P(id, title, statement, over, text, why, files, mech, state=(), observe=(), na=None, note="", tech=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state, observe=observe, na=na, note=note, tech=tech))


exec(open(os.path.join(ROOT, "tools", "properties.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                                anchors=dict(files=p["files"], state=[dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                                             mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=list(p["observe"]), hook_needed=None))) + "\n")
        assert len(p["title"]) <= 80, p["title"]
        assert p["statement"].count(". ") <= 2, p["id"]
checks, na = [], []
TECH = "contract-based deductive verification of the compiled source (clang AST -> symbolic execution against function contracts, loop invariants; SMT), replay on the real code"
for p in PROPS:
    if p["na"]:
        na.append(dict(property=p["id"], reason=p["na"]))
    else:
        checks.append(dict(property=p["id"], quick_cmd="python3-vt check.py %s --tier quick" % p["id"], thorough_cmd="python3-vt check.py %s --tier thorough" % p["id"],
                           evidence_file="evidence/%s.json" % p["id"], technique=p["tech"] or TECH, level="proof", level_note=p["note"]))
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="python3-vt -m dv.setup", hooks=dict(guard="none", enable="no hooks: the checks read and build /repo's sources as they are", source_commits=[]),
                   checks=checks, not_applicable=na, notes="See DESIGN.md."), f, indent=1)
