"""Fold the output of plant.py (given as files) into caught.json."""
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
path = HERE + "/caught.json"
d = json.load(open(path)) if os.path.exists(path) else {}
for f in sys.argv[1:]:
    for line in open(f):
        m = re.match(r"(\S+) (P\d\d) demo 0/1 .*check (\d) (CAUGHT|MISSED) "
                     r"?([\w]*)(?:#\d+)? ?([\w:.-]*)", line)
        if m:
            i, pid, _, how, fam, kind = m.groups()
            d[i] = (f"{pid} `{fam}` ({kind.rstrip(':')})"
                    if how == "CAUGHT" and fam else "")
d = {k: v for k, v in sorted(d.items())
     if os.path.isdir(f"{HERE}/../seeded/{k}")}
json.dump(d, open(path, "w"), indent=1)
print(len(d), "outcomes;", [k for k, v in d.items() if not v], "missed")
