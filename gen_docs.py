#!/opt/venv/bin/python
"""Writes properties.jsonl and MANIFEST.json from vf/props.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from vf import props  # noqa: E402

PYX = "/opt/venv/bin/python"


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in props.all_props() + props.not_applicable():
            a = {"files": p["files"], "mechanism": p["mech"], "observe_at": p.get("observe") or []}
            if p.get("state"):
                a["state"] = p["state"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"], "anchors": a},
                               ensure_ascii=False) + "\n")
    m = {"version": 1, "setup_cmd": PYX + " selfcheck.py",
         "hooks": {"guard": "none", "enable": "no hooks in /repo: the simulator's seams are installed from /verif (vf/seams.py, vf/net.py) "
                   "around the public module-level names of the standard library and grpc", "source_commits": []},
         "checks": [], "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in props.not_applicable()],
         "notes": "check.py decides one property; replay.py FILE repeats a reported violation; KNOWN_FINDINGS.txt lists recorded and repaired "
                  "defects; DESIGN.md explains the simulator, the reference models and what they miss."}
    for p in props.all_props():
        c = PYX + " check.py --property " + p["id"] + " --tier "
        m["checks"].append({"property": p["id"], "quick_cmd": c + "quick", "thorough_cmd": c + "thorough",
                            "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "exploration",
                            "level_note": p["note"]})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")


if __name__ == "__main__":
    main()
