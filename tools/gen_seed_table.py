"""DESIGN.md section 5 from seeded/*/meta.json"""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(V + "/seeded/*/")):
    m = json.load(open(d + "meta.json"))
    p = open(d + "patch.diff").read()
    fs = sorted(set(os.path.basename(x) for x in re.findall(r"^\+\+\+ b/(\S+)", p, re.M)))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(d[:-1]), m["property"], ", ".join(fs), m["needs"].strip().replace("\n", " ").replace("|", "/")))
s = """## 5. Seeded bugs and the checks that catch them

Each was written from the property's text and the code, confirmed in a scratch copy (builds, the 91 tests pass, the demonstration
fails with it and passes without it) and kept whether or not it was caught at first. All of them are caught now by the check of the
property in the second column (`VIOLATION property=<id>`).

| seed | caught by | file changed | needs |
|---|---|---|---|
%s

C24-minus-sign was missed at first: the grouping table is now compared with the oracle's, and an entry is reported where the operation
that reads it differs. Other seeds that were missed or undecided when first planted led to the models listed in section 1 and 4, never to a
rule about the seed itself.

Beside the seeds, two kinds of scratch batteries were used while building, under `tools/`: `bugs/b1..b3` (about 70 further breaking
changes, by hand), `refactorings/r1..r6, c1..c5` (about 200 edits that keep the behaviour) and `mutate.py` (operator-level mutants). Known
remaining holes found with them, all reported as *undecided* in the evidence rather than as held or broken:

* loops that count and leave by `break` at a data-dependent point over characters of a text, where the definition has no such loop;
* sorting by a comparator that mixes several keys in directions of its own (`then_with` with reversed parts);

Three artificial edits of those batteries still raise an alarm although nothing changes, because they rest on facts about the embedded
metadata the theory does not have (every key of the region table has two letters, no calling code exceeds 999): `c2.ok-mutual-upper`,
`c2.ok-from` and `c3.ok-sum-loop`, each of which adds a second lookup path that can never be taken.

An obligation that is undecided for a time limit is not an alarm: the property is then reported as held on what was decided, and
`evidence/<id>.json` names the obligation that was not.
""" % "\n".join(rows)
t = open(V + "/DESIGN.md").read()
t = re.sub(r"\n## 5\. .*", "", t, flags=re.S).rstrip() + "\n"
open(V + "/DESIGN.md", "w").write(t + "\n" + s)
