"""Regenerate known_findings.json: open findings here; fixed ones are the
repository's fix: commits with their property (append by hand)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPEN = [
 {"property": "P02", "kind": "last-window-never-drawn", "status": "open",
  "what": "sample_kernels without a centre offset never draws the last window: the start index T - kernel_size is excluded from torch.randint; the repository's own tests assert that exclusive bound, so it cannot be repaired without editing them"},
]
FIXED = [l.rstrip("\n").split(" ", 2) for l in open(f"{HERE}/tools/fixed.txt") if l.strip()]
fixed = [{"property": p, "kind": "-", "status": "fixed", "commit": c, "what": w,
          "line": f"fixed: property={p} {c} {w}"} for p, c, w in FIXED]
json.dump({"findings": OPEN + fixed}, open(f"{HERE}/known_findings.json", "w"), indent=1)
print(len(OPEN), "open", len(fixed), "fixed")
