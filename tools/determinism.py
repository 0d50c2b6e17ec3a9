#!/usr/bin/env python3
"""Shows that a seed is one exactly repeatable execution.

For every property: the event-log hash, number of choices and verdict of runs 0..N are computed (1) in
one process, (2) in another process at the same time as 7 others, and (3) for some of them, in a fresh
process each. All must agree.  usage: tools/determinism.py [N [FRESH]]   (after ./check.sh build)"""
import subprocess, sys, os, concurrent.futures as cf
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sim = os.path.join(here, "sim/target/debug/sim")
n = sys.argv[1] if len(sys.argv) > 1 else "2000"
fresh = int(sys.argv[2]) if len(sys.argv) > 2 else 50
seed = os.environ.get("VERIF_SEED", "1")
props = [f"C{i:02}" for i in (*range(1, 17), 20, 21)]
def hashes(p, n):
    return subprocess.run([sim, "hashes", p, seed, str(n)], capture_output=True, text=True).stdout.splitlines()
def one(p, k):
    out = subprocess.run([sim, "one", p, seed, str(k)], capture_output=True, text=True).stdout
    return out.rsplit("log ", 1)[1].split()[0]
with cf.ThreadPoolExecutor(8) as ex:
    first = dict(zip(props, [hashes(p, n) for p in props]))
    again = dict(zip(props, ex.map(lambda p: hashes(p, n), props)))
    bad = 0
    for p in props:
        a, b = first[p], again[p]
        diff = [x for x, y in zip(a, b) if x != y]
        f = list(ex.map(lambda k: one(p, k), range(fresh)))
        fd = [k for k in range(fresh) if f[k] != a[k].split()[2]]
        bad += bool(diff or fd or len(a) != int(n) or len(b) != int(n))
        print(f"{p}: {len(a)} runs, {len(diff)} differ between processes, {len(fd)} of {fresh} differ in a fresh process", diff[:2], fd[:5])
sys.exit(bad != 0)
