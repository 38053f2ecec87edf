"""Lines of ml4gw that no check's workload executes.

usage: lines.py [scale [PID...]]
Runs every check's quick cases (scaled down) with a line monitor on ml4gw's
files; worker processes of a check (P04, P33) are not followed.
"""
import dis
import glob
import os
import subprocess
import sys
import types

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path[:0] = [HERE, REPO]


def lines_of(path):
    out = set()
    todo = [compile(open(path).read(), path, "exec")]
    while todo:
        co = todo.pop()
        if co.co_name[0] != "<" or co.co_name == "<module>":
            if co.co_name != "<module>":
                out |= {ln for _, ln in dis.findlinestarts(co)
                        if ln and ln != co.co_firstlineno}
        todo += [c for c in co.co_consts if isinstance(c, types.CodeType)]
    return out


def one(pid, scale):
    seen = set()
    m = sys.monitoring
    m.use_tool_id(3, "lines")

    def line(code, n):
        if code.co_filename.startswith(REPO + "/ml4gw"):
            seen.add((code.co_filename, n))
        return m.DISABLE

    m.register_callback(3, m.events.LINE, line)
    m.set_events(3, m.events.LINE)
    from vlib import driver
    from vlib.core import run_case
    mod, fams = driver.load(pid)
    for f in fams:
        for i in range(max(8, int(f.quick * scale))):
            run_case(pid, f, i, 1, "quick")
    for f, n in sorted(seen):
        print("LINE", f, n)


def main():
    scale = float((sys.argv + ["0.1"])[1])
    pids = sys.argv[2:] or [f"P{i:02d}" for i in range(1, 34)]
    if os.environ.get("ONE"):
        return one(pids[0], scale)
    from concurrent.futures import ThreadPoolExecutor

    def run(p):
        r = subprocess.run([sys.executable, "-W", "ignore", __file__,
                            str(scale), p], capture_output=True, text=True,
                           env=dict(os.environ, ONE="1",
                                    OMP_NUM_THREADS="1"))
        if r.returncode:
            print(p, "failed", r.stderr[-300:])
        return {(x.split()[1], int(x.split()[2]))
                for x in r.stdout.splitlines() if x.startswith("LINE")}

    with ThreadPoolExecutor(int(os.environ.get("J", 3))) as ex:
        seen = set().union(*ex.map(run, pids))
    for f in sorted(glob.glob(REPO + "/ml4gw/**/*.py", recursive=True)):
        want = lines_of(f)
        miss = sorted(n for n in want if (f, n) not in seen)
        if miss:
            src = open(f).read().splitlines()
            print(f"{f[len(REPO) + 1:]}: {len(want) - len(miss)} of "
                  f"{len(want)} lines")
            for n in miss:
                print(f"   {n:4d} {src[n - 1].strip()[:90]}")


main()
