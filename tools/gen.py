#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run after editing it)."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, state=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                      files=files, mechanism=mechanism, technique=technique, note=note, state=state or []))


exec(open(os.path.join(HERE, "tools", "properties.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        anchors = {"files": p["files"], "mechanism": [{"name": p["mechanism"], "where": ", ".join(p["files"])}] if isinstance(p["mechanism"], str) else p["mechanism"]}
        if p["state"]:
            anchors["state"] = [{"name": n, "meaning": m} for n, m in p["state"]]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"], "anchors": anchors,
        }) + "\n")

manifest = {
    "version": 1,
    "setup_cmd": "bash check.sh build",
    "hooks": {"guard": "none", "enable": "no hooks: the checks use the public API only", "source_commits": []},
    "checks": [{
        "property": p["id"],
        "quick_cmd": "bash check.sh " + p["id"],
        "thorough_cmd": "bash check.sh " + p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p["technique"],
        "level": "exploration",
        "level_note": p["note"],
    } for p in PROPS],
    "not_applicable": NOT_APPLICABLE,
    "notes": "Every check: cargo build of /verif/harness against /repo, then a fixed number of generated cases, a pure function of VERIF_SEED and the code. See DESIGN.md.",
}
json.dump(manifest, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "properties")
