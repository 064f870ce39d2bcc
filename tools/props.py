#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json.  python3 tools/props.py rewrites both.
A property is claimed when vf/props/<id>.py exists."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, qtext, why, files, mechanism, technique, note, level="exploration", observe=(), state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mechanism=[dict(name=n, where=w) for n, w in mechanism], technique=technique, note=note, level=level,
                  observe=list(observe), state=[dict(name=a, meaning=b, where=c) for a, b, c in state]))


exec(open(os.path.join(V, "tools", "proplist.py")).read())


def main():
    ids = [x["id"] for x in P]
    assert len(set(ids)) == len(ids)
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for x in P:
            a = dict(files=x["files"], mechanism=x["mechanism"], observe_at=x["observe"], hook_needed=None)
            if x["state"]:
                a["state"] = x["state"]
            f.write(json.dumps(dict(id=x["id"], title=x["title"], statement=x["statement"],
                                    quantifier=dict(over=x["over"], text=x["qtext"]),
                                    why_tests_cant=x["why"], anchors=a)) + "\n")
    checks, na = [], []
    for x in P:
        if os.path.exists(os.path.join(V, "vf/props", x["id"].lower() + ".py")):
            checks.append(dict(property=x["id"], quick_cmd="python3 run.py %s quick" % x["id"],
                               thorough_cmd="python3 run.py %s thorough" % x["id"],
                               evidence_file="evidence/%s.json" % x["id"], technique=x["technique"],
                               level=x["level"], level_note=x["note"]))
        else:
            na.append(dict(property=x["id"], reason=x.get("na") or "no check built (yet)"))
    m = dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=na,
             notes="Every check compiles /repo's working tree itself (clang, ASan+UBSan or TSan) into /verif/build. No hooks in /repo: "
                   "observation uses public/internal API seams (listen point callbacks), sanitizer allocation hooks and linker wrapping.")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
