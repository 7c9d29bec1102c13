"""Rewrites the per-property part of DESIGN.md (between the markers) from the catalogue, the suites and the last evidence files."""
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))
exec(open(os.path.join(HERE, "design_notes.py")).read())  # ORACLE: id -> how it is decided


def main():
    out = []
    for line in open(os.path.join(HERE, "properties.jsonl")):
        p = json.loads(line)
        i = p["id"]
        out.append(f"### {i} {p['title']}\n\n{p['statement']}\n")
        src = open(os.path.join(HERE, "checks", i + ".py")).read()
        doc = re.match(r'"""(.*?)"""', src, re.S)
        out.append(f"*Decided by* `checks/{i}.py`. {ORACLE.get(i, '')}\n")
        out.append(f"*Over* {p['quantifier']['text']}. *Beyond the tests:* {p['why_tests_cant']}\n")
        ev = os.path.join(HERE, "evidence", i + ".json")
        if os.path.exists(ev):
            e = json.load(open(ev))
            c = e["coverage"]
            out.append(f"*Bounds of the cases ({e['tier']} run):* {'; '.join(c['bounds'])}. *Assumed:* {'; '.join(e['assumptions'][4:]) or 'nothing further'}. "
                       f"*Cost:* {len(c['cases'])} cases, {c['states']} paths, {c['obligations']} obligations, {c['queries']} queries, {e['wall_s']:.0f} s.\n")
    path = os.path.join(HERE, "DESIGN.md")
    s = open(path).read()
    a, b = "<!-- properties -->\n", "<!-- end of properties -->"
    i, j = s.index(a) + len(a), s.index(b)
    s = s[:i] + "\n" + "\n".join(out) + "\n" + s[j:]
    rows = ["| planted bug | property | needs | breaks |", "|---|---|---|---|"]
    for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
        m = json.load(open(f))
        rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} (caught by it) | {m['needs']} | {m['what_it_breaks']} |")
    a, b = "<!-- seeded -->\n", "<!-- end of seeded -->"
    i, j = s.index(a) + len(a), s.index(b)
    open(path, "w").write(s[:i] + "\n" + "\n".join(rows) + "\n\n" + s[j:])


main()
