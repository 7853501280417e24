#!/usr/bin/env python3
"""
Statements of the properties; `meta.py` writes properties.jsonl and MANIFEST.json
"""
import json, os
import jobs

V = os.path.dirname(os.path.abspath(__file__))
META, NA = [], []


def P(id, title, statement, over, quant, why, files, mech, note, na=None):
    META.append(dict(
        d=dict(id=id, title=title, statement=statement,
               quantifier=dict(over=over, text=quant), why_tests_cant=why,
               anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])),
        note=note, na=na))


exec(open(os.path.join(V, "meta_props.py")).read())


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as fp:
        for m in META:
            fp.write(json.dumps(m["d"]) + "\n")
    checks, na = [], []
    for m in META:
        i = m["d"]["id"]
        if m["na"] or i not in jobs.PROPS:
            na.append(dict(property=i, reason=m["na"] or "no check yet"))
            continue
        p = jobs.PROPS[i]
        c = dict(property=i, quick_cmd="./check.py %s --tier quick" % i,
                 thorough_cmd="./check.py %s --tier thorough" % i,
                 evidence_file="evidence/%s.json" % i, level=p.level,
                 technique="contract-based deductive verification of the C source (CBMC contracts)",
                 level_note=m["note"])
        checks.append(c)
    man = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
               notes="No hook in /repo: the harnesses take the sources of /repo as they are. See DESIGN.md.")
    with open(os.path.join(V, "MANIFEST.json"), "w") as fp:
        json.dump(man, fp, indent=1)
        fp.write("\n")


if __name__ == "__main__":
    main()
