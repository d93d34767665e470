#!/usr/bin/env python3
"""Build and verify planted bugs from tools/plants/specs*.py.

usage: plant.py [--nocheck] [--all] ID...   (-j N parallel)
Each spec: dict(id, property, needs, breaks, edits=[(file, old, new)], demo=python source)
"""
import argparse, glob, importlib.util, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
DEMO_SH = '''#!/bin/bash
# run with cwd = the repository: exit 0 if the property holds here, nonzero if it is broken
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONPATH="$PWD"
exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''

def load():
    specs = {}
    for f in sorted(glob.glob(os.path.join(HERE, "plants", "specs*.py"))):
        sp = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f)
        m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
        for s in m.SPECS:
            assert s["id"] not in specs, s["id"]
            specs[s["id"]] = s
    return specs

def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0")
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 99, "timeout"

def one(s, check=True, props=None):
    out = {"id": s["id"]}
    d = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", d + "/r"], check=True)
        r = d + "/r"
        seed = os.path.join(VERIF, "seeded", s["id"])
        shutil.rmtree(seed, ignore_errors=True); os.makedirs(seed)
        open(seed + "/demo.sh", "w").write(DEMO_SH); os.chmod(seed + "/demo.sh", 0o755)
        open(seed + "/demo.py", "w").write("import sys\n\nfrom toy import *\n\n" + s["demo"].strip() + "\n")
        shutil.copy(os.path.join(HERE, "plants", "toy.py"), seed + "/toy.py")
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(seed + "/meta.json", "w"), indent=1)
        rc, o = sh(["bash", seed + "/demo.sh"], r)
        out["demo_clean"] = rc
        if rc: out["log"] = o[-1500:]; return out
        for f, old, new in s["edits"]:
            t = open(f"{r}/{f}").read()
            if t.count(old) != 1:
                out["log"] = f"edit does not match once ({t.count(old)}): {f}: {old!r}"; return out
            open(f"{r}/{f}", "w").write(t.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=r, capture_output=True, text=True).stdout
        open(seed + "/patch.diff", "w").write(diff)
        rc, o = sh(["bash", seed + "/demo.sh"], r)
        out["demo_bug"] = rc; out["demo_out"] = o.strip().splitlines()[-1:] 
        if rc == 0: out["log"] = o[-1500:]; return out
        rc, o = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300"], r, {"PYTHONPATH": r})
        out["tests"] = o.strip().splitlines()[-1]
        if rc: out["log"] = "\n".join(l for l in o.splitlines() if l.startswith(("FAILED", "ERROR", "E ")))[-1500:]
        if check:
            for p in (props or [s["property"]]):
                t = time.time()
                subprocess.run(["git", "checkout", "-q", "--", "tests"], cwd=r)
                rc, o = sh([VERIF + "/run.sh", p], VERIF, {"SIMCALK_REPO": r, "VERIF_SEED": "1", "VERIF_TIER": "quick", "SIMCALK_OUT": d + "/out"}, 1500)
                v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
                out["check " + p] = ("CAUGHT" if rc == 1 and v else f"rc={rc} MISSED") + f" {time.time()-t:.0f}s"
                if v: out["viol"] = [l for l in o.splitlines() if "violat" in l.lower()][:3]
                elif rc: out["log"] = o[-1500:]
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)

if __name__ == "__main__":
    ap = argparse.ArgumentParser(); ap.add_argument("ids", nargs="*"); ap.add_argument("--nocheck", action="store_true"); ap.add_argument("--all", action="store_true")
    ap.add_argument("-j", type=int, default=1); ap.add_argument("--props"); a = ap.parse_args()
    specs = load()
    ids = [i for i in specs if not a.ids or i not in a.ids] if a.all else [i for x in a.ids for i in specs if i == x or i.startswith(x + "-")]
    with ThreadPoolExecutor(a.j) as ex:
        for o in ex.map(lambda i: one(specs[i], not a.nocheck, a.props.split(",") if a.props else None), ids):
            log = o.pop("log", None)
            res = {k[6:]: v.split()[0] for k, v in o.items() if k.startswith("check ")}
            if res and not o.get("demo_clean") and o.get("demo_bug"):
                f = os.path.join(HERE, "plants", "results.json")
                old = json.load(open(f)) if os.path.exists(f) else {}
                old.setdefault(o["id"], {}).update({k: "caught" if v == "CAUGHT" else "missed" for k, v in res.items()})
                json.dump(dict(sorted(old.items())), open(f, "w"), indent=0)
            print(json.dumps(o), flush=True)
            if log: print("   LOG:", log.replace("\n", "\n        "), flush=True)
