"""Source of properties.jsonl and MANIFEST.json: run `python3 props.py` after editing."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
TECH = ("static analysis: abstract interpretation of the source into a polynomial value graph (symbolic loop summaries, no execution), "
        "compared with a specification by normal form and, where that is undecided, by random interpretation of the graph")
P = []


def prop(id, title, statement, over, text, why, files, mech, note, technique=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note,
                  technique=technique, na=na))


exec(open(os.path.join(HERE, "props_data.py")).read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
    checks, na = [], []
    for p in P:
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
            continue
        checks.append({"property": p["id"], "quick_cmd": "python3 /verif/check.py %s quick" % p["id"],
                       "thorough_cmd": "python3 /verif/check.py %s thorough" % p["id"],
                       "technique": p["technique"] or TECH, "level": "other", "level_note": p["note"]})
    m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
