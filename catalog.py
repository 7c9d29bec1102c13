"""The property catalogue; `python3 catalog.py` rewrites properties.jsonl and MANIFEST.json from it."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, note=""):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why,
                  files=files.split(), mech=[dict(name=m.split(" @ ")[0], where=m.split(" @ ")[1]) for m in mech], note=note))


def na(id, title, statement, over, text, why, files, mech, reason):
    prop(id, title, statement, over, text, why, files, mech)
    P[-1]["na"] = reason


exec(open(os.path.join(HERE, "catalog_props.py")).read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                    quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                                    anchors=dict(files=p["files"], mechanism=p["mech"]))) + "\n")
    checks, nas = [], []
    for p in P:
        if "na" in p:
            nas.append(dict(property=p["id"], reason=p["na"]))
        elif os.path.exists(os.path.join(HERE, "checks", p["id"] + ".py")):
            checks.append(dict(
                property=p["id"], quick_cmd=f"./check.sh {p['id']} quick", thorough_cmd=f"./check.sh {p['id']} thorough",
                technique="symbolic execution of the real Python/torch code, verification conditions decided by z3",
                level="model_checking",
                level_note="Within the stated sizes the solver covers every input value of every explored path; floats are read as "
                           "exact reals, transcendental functions are uninterpreted with axioms, networks and random draws are "
                           "arbitrary. Counterexamples are replayed on the real code before they are reported. " + p["note"]))
        else:
            nas.append(dict(property=p["id"], reason="no check yet"))
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=nas,
                       notes="One symbolic executor (symex/) decides every property; see DESIGN.md."), f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
