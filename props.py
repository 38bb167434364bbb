#!/usr/bin/env python3
"""Single source of the property list: regenerates properties.jsonl and MANIFEST.json.  python3 props.py"""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, state=state, technique=technique, note=note, na=na))
SE = "symbolic execution of the real code's LLVM IR (own executor symx), obligations and branch feasibility decided by Z3 (QF_BV); counterexamples replayed natively under ASan"
exec(open(V + "/props_data.py").read())
if __name__ == "__main__":
    with open(V + "/properties.jsonl", "w") as f:
        for p in P:
            d = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                     anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))
            if p["observe"]: d["anchors"]["observe_at"] = p["observe"]
            if p["state"]: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]]
            f.write(json.dumps(d) + "\n")
    m = dict(version=1, setup_cmd="python3 check.py --setup", checks=[], not_applicable=[])
    for p in P:
        if p["na"]: m["not_applicable"].append(dict(property=p["id"], reason=p["na"])); continue
        m["checks"].append(dict(property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"], thorough_cmd="python3 check.py %s thorough" % p["id"],
                                evidence_file="evidence/%s.json" % p["id"], technique=p["technique"] or SE, level="model_checking", level_note=p["note"]))
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
    print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not applicable")
