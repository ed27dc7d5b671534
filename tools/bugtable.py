"""Rewrites the planted-bug table at the end of DESIGN.md.

Results come from tools/bug_results.txt: one line "<bug id> <check> caught|missed"
per run of a property's quick check against a planted bug."""
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for line in open(f"{ROOT}/tools/bug_results.txt"):
  b, c, r = line.split()
  res[b] = f"{c} {r}"
rows = []
for m in sorted(glob.glob(f"{ROOT}/seeded/*/meta.json")):
  b = os.path.basename(os.path.dirname(m))
  d = json.load(open(m))
  rows.append(f"| {b} | {d['what_it_breaks']} | {d['needs']} | "
              f"{res.get(b, 'not run')} |")
s = open(f"{ROOT}/DESIGN.md").read()
s = s[:s.index("## Planted bugs")]
s += ("## Planted bugs\n\nEach lies in `seeded/<id>` and was confirmed in a "
      "scratch copy: the demonstration fails with\nit and passes without, the "
      "stable tests pass. The last column is the quick check of its\nproperty "
      "run against it. First found missing and then caught after "
      "strengthening:\nA09-clt-train-size (odd batches added), "
      "B07-common-start (arms ahead of one another added),\n"
      "N11-stale-intercept (the scikit-learn model now keeps fitted attributes "
      "that were not\noverwritten), T02-support-from-table (support asked for "
      "after unseen queries),\nA07-kept-pulls (updates that fail before the reset "
      "added), D03-from-the-end (indices counted from the end "
      "added), the four N12 bugs (no property spoke of\nfitting again; N12 "
      "was added).\n\n| id | what it breaks | needs | quick check "
      "|\n|---|---|---|---|\n" + "\n".join(rows) + "\n")
open(f"{ROOT}/DESIGN.md", "w").write(s)
