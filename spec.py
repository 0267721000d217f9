"""Writes properties.jsonl and MANIFEST.json from one table.  Run: python3 spec.py"""
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, technique=technique, note=note, observe=observe))


EX = "The 14 repository tests run fixed data files and look only at the exit status"
exec(open("spec_props.py").read())

with open("properties.jsonl", "w") as f:
    for p in P:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
             "anchors": {"files": ["src/" + x if "/" not in x else x for x in p["files"]], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}
        if p["observe"]: d["anchors"]["observe_at"] = p["observe"]
        f.write(json.dumps(d) + "\n")
m = {"version": 1, "setup_cmd": "python3-vt -B -c 'from vf import core; core.build()'",
     "checks": [{"property": p["id"], "quick_cmd": "./check %s quick" % p["id"], "thorough_cmd": "./check %s thorough" % p["id"],
                 "technique": p["technique"], "level": "exploration", "level_note": p["note"], "evidence_file": "evidence/%s.json" % p["id"]} for p in P],
     "not_applicable": NA, "notes": NOTES}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
print(len(P), "properties")
