"""Assemble DESIGN.md."""
import ast
import json
import os
import runpy
import textwrap

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = HERE + "/tools/design/"
notes = runpy.run_path(D + "notes.py")["N"]
props = [json.loads(x) for x in open(f"{HERE}/properties.jsonl")]
findings = json.load(open(f"{HERE}/known_findings.json"))["findings"]
caught = {}
if os.path.exists(HERE + "/tools/caught.json"):
    caught = json.load(open(HERE + "/tools/caught.json"))
out = [open(D + "intro.md").read()]


def wrap(s, indent=""):
    return textwrap.fill(" ".join(s.split()), 79, initial_indent="",
                         subsequent_indent=indent,
                         break_on_hyphens=False, break_long_words=False)


for p in props:
    path = f"{HERE}/checks/{p['id'].lower()}.py"
    tree = ast.parse(open(path).read())
    v, fams = {}, []
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                v[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                if getattr(getattr(d, "func", None), "id", "") == "family":
                    kw = {k.arg: k.value.value for k in d.keywords}
                    fams.append(f"{n.name} {kw['quick']}/{kw['thorough']}")
    out.append(f"### {p['id']} {p['title']}\n")
    out.append(wrap(notes[p["id"]]) + "\n")
    for head, text in (
        ("Monitor", v["TECHNIQUE"]), ("Verdict", v["NOTE"]),
        ("Workload", v["RULE"] + ". Families (cases quick/thorough): "
         + ", ".join(fams)),
        ("Bounds and trust", "; ".join(v["ASSUMPTIONS"])),
        ("Why beyond the tests", p["why_tests_cant"]),
    ):
        out.append(wrap(f"* *{head}:* {text}", "  "))
    out.append("")
out.append("## 4. Defects found\n")
out.append("Repaired, one `fix:` commit each (the check reports the violation "
           "again on the\noriginal code; " f"{sum(f['status'] == 'fixed' for f in findings)} in all):\n")
for f in findings:
    if f["status"] == "fixed":
        out.append(wrap(f"* {f['property']} {f['commit']} {f['what']}", "  "))
out.append("\nRecorded and not repaired (`known_findings.json`):\n")
for f in findings:
    if f["status"] != "fixed":
        out.append(wrap(f"* {f['property']} `{f['kind']}`: {f['what']}", "  "))
out.append("\n## 5. Planted bugs and the checks that catch them\n")
out.append(wrap("""Each was written from a property's text and the code, confirmed
in a scratch copy by tools/plant.py (demonstration passes before and fails after;
the repository's tests still pass) and then run against its property's quick check.
The monitor named fired first.""") + "\n")
for i in sorted(os.listdir(HERE + "/seeded")):
    m = json.load(open(f"{HERE}/seeded/{i}/meta.json"))
    c = caught.get(i)
    out.append(wrap(f"* `{i}` ({m['property']}; needs {m['needs']}): "
                    + (f"caught by {c}" if c else
                       "MISSED" if c == "" else "not run yet"), "  "))
out.append("")
out.append(open(D + "outro.md").read())
text = "\n".join(x.rstrip() if i else x for i, x in enumerate(out))
open(HERE + "/DESIGN.md", "w").write(text)
