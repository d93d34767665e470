"""Determinism self-test: the same seeds must give the same event traces in this process
(repeatedly) and in a fresh interpreter."""

import glob
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

from . import driver, env
from .runner import Ctx


def digests(pids, n):
    env.bootstrap()
    d = tempfile.mkdtemp(prefix="simcalk.")
    out = {}
    try:
        ctx = Ctx(d)
        for pid in pids:
            mod = driver.load(pid)
            for i in range(n):
                plan = mod.gen(random.Random(driver.seed_for(1, pid, i)), "quick", i)
                r = driver.run_plan(mod, ctx, plan)
                out[f"{pid}:{i}"] = (r["digest"], sorted(v["kind"] for v in r["viol"]), bool(r.get("error")))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out


def main(quick=False, emit=False):
    here = os.path.dirname(os.path.abspath(__file__))
    pids = [os.path.basename(f)[:-3].upper() for f in sorted(glob.glob(os.path.join(here, "props", "c*.py")))]
    n = 1 if quick else 4
    if quick:
        pids = pids[:1]
    a = digests(pids, n)
    if emit:
        print("DIGESTS " + json.dumps(a))
        return 0
    b = digests(pids, n)
    cmd = [sys.executable, "-m", "simcalk", "selftest", "--emit"] + (["--quick"] if quick else [])
    r = subprocess.run(cmd, capture_output=True, text=True, cwd=env.VERIF)
    c = json.loads([x for x in r.stdout.splitlines() if x.startswith("DIGESTS ")][0][8:])
    bad = [k for k in a if list(a[k]) != list(b[k]) or list(a[k]) != list(c[k])]
    for k in a:
        if a[k][2]:
            print("harness error in", k)
    print(f"selftest: {len(a)} runs, {len(bad)} not reproduced {bad}")
    return 1 if bad else 0
