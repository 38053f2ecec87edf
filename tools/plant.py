"""Turn the definitions in bugs/*.py into /verif/seeded/<id>, and confirm each
in a scratch copy: demo passes before and fails after, tests still pass; then
see whether the property's check catches it.

usage: plant.py [--tests] [--check] ID... | all
"""
import argparse
import glob
import json
import os
import re
import runpy
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
BASE = "959468f"
ap = argparse.ArgumentParser()
ap.add_argument("--tests", action="store_true")
ap.add_argument("--check", action="store_true")
ap.add_argument("--seeds", default="1")
ap.add_argument("ids", nargs="+")
a = ap.parse_args()
BUGS = {}
for p in sorted(glob.glob(HERE + "/bugs/*.py")):
    for b in runpy.run_path(p)["BUGS"]:
        assert b["id"] not in BUGS, b["id"]
        BUGS[b["id"]] = b
ids = list(BUGS) if a.ids == ["all"] else a.ids
if ids == ["new"]:
    ids = [i for i in BUGS if not os.path.exists(f"{ROOT}/seeded/{i}")]
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
           MKL_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0")
DEMO = """#!/bin/bash
# run with cwd at the repository
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 CUDA_VISIBLE_DEVICES=
PYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$here/demo.py"
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), text=True,
                          capture_output=True, **kw)


def tests(f):
    f = f.removeprefix("ml4gw/")
    for start, names in (
        ("dataloading/", "dataloading"), ("nn/", "nn"),
        ("waveforms/", "waveforms transforms/test_waveforms.py "
                       "transforms/test_heterodyne.py test_gw.py"),
        ("gw.py", "test_gw.py transforms utils"),
        ("distributions", "test_distributions.py transforms waveforms"),
        ("augmentations", "test_augmentations.py"),
        ("transforms/pearson", "transforms/test_pearson.py"),
        ("transforms/decimator", "transforms/test_decimator.py"),
        ("transforms/heterodyne", "transforms/test_heterodyne.py"),
        ("transforms/iirfilter", "transforms/test_iirfilter.py"),
        ("transforms/scaler", "transforms/test_scaler.py"),
        ("transforms/waveforms", "transforms/test_waveforms.py"),
        ("transforms/spectrogram", "transforms/test_spectrogram.py"),
    ):
        if f.startswith(start):
            return ["tests/" + n for n in names.split()]
    if f.startswith("transforms/"):
        return ["tests/transforms"]
    return ["tests"]


for i in ids:
    b = BUGS[i]
    tmp = f"/tmp/plant/{i}"
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs("/tmp/plant", exist_ok=True)
    sh(["cp", "-a", "/repo", tmp])
    ok, base = True, set()
    for f, old, new in b["edits"]:
        path = f"{tmp}/{f}"
        s = open(path).read()
        if s.count(old) != 1:
            print(i, "TEXT", f, s.count(old))
            ok = False
            break
        open(path, "w").write(s.replace(old, new))
        base |= set(sh(["git", "-C", "/repo", "show",
                        f"{BASE}:{f}"]).stdout.splitlines())
    if not ok:
        continue
    diff = sh(["git", "-C", tmp, "diff"]).stdout
    removed = [x[1:] for x in diff.splitlines()
               if x.startswith("-") and not x.startswith("---")]
    orig = [x for x in removed if x in base and x.strip()]
    if not orig:
        print(i, "NOT-ORIGINAL", removed)
        continue
    out = f"{ROOT}/seeded/{i}"
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    open(out + "/patch.diff", "w").write(diff)
    open(out + "/demo.sh", "w").write(DEMO)
    os.chmod(out + "/demo.sh", 0o755)
    open(out + "/demo.py", "w").write(b["demo"].lstrip("\n"))
    json.dump({"property": b["property"], "needs": b["needs"],
               "what_it_breaks": b["breaks"]},
              open(out + "/meta.json", "w"), indent=1)
    clean = sh([out + "/demo.sh"], cwd="/repo", env=ENV)
    bad = sh([out + "/demo.sh"], cwd=tmp, env=ENV)
    res = [f"demo {clean.returncode}/{bad.returncode}"]
    if clean.returncode != 0:
        res.append("CLEAN-FAILS " + clean.stderr[-300:])
    if bad.returncode == 0:
        res.append("NOT-SHOWN")
    elif "AssertionError" not in bad.stderr:
        res.append("?? " + bad.stderr[-200:])
    if a.tests:
        t = ["/opt/venv/bin/python", "-m", "pytest", "-q", "-p",
             "no:cacheprovider", "-n", os.environ.get("N", "8"), "-x",
             "tests"]
        t = t[:-1] + sorted({x for f, *_ in b["edits"] for x in tests(f)})
        r = sh(t, cwd=tmp, env=dict(ENV, PYTHONPATH=tmp,
                                    CUDA_VISIBLE_DEVICES=""))
        m = r.stdout.strip().splitlines()[-1] if r.stdout.strip() else "?"
        fails = re.findall(r"^FAILED (\S+)", r.stdout, re.M)
        res.append("tests " + ("pass" if r.returncode == 0 else
                               "FAIL " + " ".join(fails[:3]) + " " + m))
    if a.check:
        for s in a.seeds.split(","):
            r = sh([f"{ROOT}/check", b["property"], "--seed", s,
                    "--no-evidence"], env=dict(ENV, VERIF_REPO=tmp),
                   cwd=ROOT)
            kinds = re.findall(r"^  \[(\S+)\] (.{0,90})", r.stdout, re.M)
            first = next(iter(kinds), ("", ""))
            res.append(f"check {r.returncode} "
                       + ("CAUGHT" if r.returncode == 1 else "MISSED")
                       + f" {first[0]} {first[1]}")
    line = " ".join([i, b["property"], " | ".join(res)])
    print(line, flush=True)
    with open("/tmp/plant.log", "a") as log:
        log.write(line + "\n")
    shutil.rmtree(tmp, ignore_errors=True)
