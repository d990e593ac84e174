"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand)."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
P = []


def prop(id, title, statement, over, text, why, files, mechanism, level, technique, note, observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over, text=" ".join(text.split()),
                  why=" ".join(why.split()), files=files, mechanism=mechanism, level=level, technique=technique,
                  note=" ".join(note.split()), observe=list(observe)))


exec(open(os.path.join(VERIF, "tools", "props.py")).read())
P.sort(key=lambda p: p["id"])

with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump({
        "version": 1,
        "setup_cmd": "%s -c 'import six, requests'" % PY,
        "checks": [{"property": p["id"],
                    "quick_cmd": "%s checks/%s.py quick" % (PY, p["id"].lower()),
                    "thorough_cmd": "%s checks/%s.py thorough" % (PY, p["id"].lower()),
                    "technique": p["technique"], "level": p["level"], "level_note": p["note"]} for p in P],
        "not_applicable": [],
        "notes": "No hooks in /repo: every check drives the public API, the documented extension points "
                 "(section and command classes) or the command line tools of the working tree."}, f, indent=1)
    f.write("\n")
print(len(P), "properties")
