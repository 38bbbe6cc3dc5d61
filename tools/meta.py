#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json:  python3 tools/meta.py  rewrites both."""
import json, os, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, note, technique=None, observe=(), claimed=True):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  note=note, technique=technique or "property-based testing (generated cases, shrinking, forked workers)",
                  observe=observe, claimed=claimed))


def na(id, title, statement, over, text, why, files, mech, reason):
    prop(id, title, statement, over, text, why, files, mech, "", claimed=False)
    NA.append(dict(property=id, reason=reason))


exec(open(os.path.join(ROOT, "tools", "properties_src.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                         observe_at=list(p["observe"]) or ["public API results"], hook_needed=None))) + "\n")

for p in P:
    for fn in p["files"]:
        if not os.path.exists(os.path.join("/repo", fn)):
            print("missing anchor", p["id"], fn)

man = dict(
    version=1,
    setup_cmd="python3 --version && g++ --version && ninja --version",
    checks=[dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']} --tier quick",
                 thorough_cmd=f"python3 check.py {p['id']} --tier thorough",
                 evidence_file=f"evidence/{p['id']}.json", technique=p["technique"], level="exploration",
                 level_note=p["note"]) for p in P if p["claimed"]],
    not_applicable=NA,
    notes="No hooks in /repo: the harnesses compile /repo's sources against stand-ins for pika, Umpire and MPI kept in "
          "/verif/sim. Known findings and fixed defects: known_findings.txt.",
)
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(man["checks"]), "claimed")
