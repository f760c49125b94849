"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = root + "/DESIGN.md"
head = open(p).read().split("## Planted bugs")[0].replace("SEEDTABLE\n", "").rstrip() + "\n\n"
rows = []
for m in sorted(glob.glob(root + "/seeded/*/meta.json")):
    d = json.load(open(m))
    rows.append(f"| {os.path.basename(os.path.dirname(m))} | {d['property']} | {d['what_it_breaks']} | {d['needs']} |")
open(p, "w").write(head + """## Planted bugs

Each is caught by the quick check of its own property (VERIF_SEED=1); all pass the repository's stable tests.
Bugs tried and dropped because the tests notice them are not listed.

| bug | caught by | what it breaks | needs |
|---|---|---|---|
""" + "\n".join(rows) + "\n")
