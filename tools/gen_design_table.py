"""Fills the table of planted bugs in DESIGN.md (between the two markers)"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {
 "c01-params-order": "missed at first: equal values given in another order or under other names (swapped siblings added)",
 "c04-flex-flag": "missed at first: faults concentrated on one operation added (focus mode)",
 "c05-listing-shared": "missed at first: callers edit the listings they got",
 "c06-inplace-log": "missed at first: complex and integer error arrays added",
 "c06-sdc-weights": "missed at first: weights given as arrays of other types",
 "c12-flush-weights": "missed at first: weights are compared one by one, exactly",
 "c01-empty-interval": "planted while fixing f29ef72: tiny and far intervals added",
 "c16-node-memo": "gave an error of the check at first: a deadlock while an object is built is now a violation",
}
rows = ["| planted bug | caught by | what it breaks | remark |", "|---|---|---|---|"]
for b in sorted(os.listdir(os.path.join(H, "seeded"))):
    m = json.load(open(os.path.join(H, "seeded", b, "meta.json")))
    rows.append(f"| {b} | {m['property']} | {m['what_it_breaks']} | {MISSED.get(b, '')} |")
A, B = "<!-- planted -->\n", "<!-- end planted -->\n"
p = os.path.join(H, "DESIGN.md")
s = open(p).read()
i, j = s.index(A) + len(A), s.index(B)
open(p, "w").write(s[:i] + "\n".join(rows) + "\n" + s[j:])
