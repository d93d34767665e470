"""Search driver: seeds -> runs in parallel workers -> minimise -> replay -> evidence."""

import collections
import copy
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import shutil
import signal
import tempfile
import time
import traceback

from . import env
from .runner import ChildTimeout, Ctx

OUT = os.environ.get("SIMCALK_OUT", env.VERIF)  # elsewhere when trying a check on a scratch copy
REPLAYS = os.path.join(OUT, "replays")
EVIDENCE = os.path.join(OUT, "evidence")
KNOWN = os.path.join(env.VERIF, "known_findings.txt")


def load(pid):
    return importlib.import_module(f"simcalk.props.{pid.lower()}")


def seed_for(base, pid, i):
    return int.from_bytes(hashlib.sha256(f"{base}:{pid}:{i}".encode()).digest()[:8], "big")


def norm_out(out):
    """run() results -> dict with viol, stats, digest, nontrivial."""
    out.setdefault("viol", [])
    out.setdefault("stats", {})
    out.setdefault("digest", "")
    out.setdefault("nontrivial", True)
    return out


_ctx = None
_mod = None
_scratch = None
_sent = set()


def _worker_init(pid, scratch):
    global _ctx, _mod
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    env.bootstrap()
    d = os.path.join(scratch, f"w{os.getpid()}")
    os.makedirs(d, exist_ok=True)
    _ctx = Ctx(d)
    _mod = load(pid)


def run_plan(mod, ctx, plan):
    try:
        return norm_out(mod.run(ctx, copy.deepcopy(plan)))
    except ChildTimeout:
        return norm_out({"timeout": True, "nontrivial": False})
    except Exception as e:  # harness trouble: inconclusive, never a pass
        if os.environ.get("SIMCALK_DEBUG"):
            traceback.print_exc()
        return norm_out({"error": f"{type(e).__name__}: {e}\n{traceback.format_exc()}"[-3000:], "nontrivial": False})


def _work(args):
    base, pid, tier, i, deadline = args
    if time.time() > deadline:
        return i, None, None
    seed = seed_for(base, pid, i)
    rng = random.Random(seed)
    try:
        plan = _mod.gen(rng, tier, i)
    except Exception:
        return i, None, norm_out({"error": traceback.format_exc()[-3000:]})
    plan["seed"] = seed
    t0 = time.time()
    f0 = _ctx.forks
    out = run_plan(_mod, _ctx, plan)
    out["wall"] = time.time() - t0
    out["forks"] = _ctx.forks - f0
    out["cov"] = _ctx.cov - _sent
    _sent.update(out["cov"])
    keep = bool(out["viol"]) or i < 3 or out.get("error")
    return i, (plan if keep else None), out


def viol_key(v):
    return v["kind"]


def minimise(mod, ctx, plan, key, budget_s):
    """Greedy shrink: keep any simpler plan that still shows the same kind of violation."""
    end = time.time() + budget_s
    best = plan
    tried = 0

    def still(p):
        nonlocal tried
        tried += 1
        out = run_plan(mod, ctx, p)
        hits = [v for v in out["viol"] if viol_key(v) == key]
        return out if hits else None

    shr = getattr(mod, "shrink", None)
    if shr is None:
        return best, tried
    progress = True
    while progress and time.time() < end:
        progress = False
        for cand in shr(copy.deepcopy(best)):
            if time.time() > end:
                break
            if still(cand) is not None:
                best = cand
                progress = True
                break
    return best, tried


def known_findings(pid):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known:") and f"property={pid} " in line + " ":
                out.append(line[len("known:"):].strip())
    return out


def is_known(pid, v):
    for k in known_findings(pid):
        m = [t for t in k.split() if t.startswith("match=")]
        if m and m[0][6:] in f"{v['kind']}|{v['detail']}".replace(" ", "_"):
            return k
    return None


def write_replay(pid, plan, v, extra):
    os.makedirs(REPLAYS, exist_ok=True)
    body = {"property": pid, "plan": plan, "violation": v, **extra}
    text = json.dumps(body, indent=1, sort_keys=True, default=str)
    name = f"{pid}-{hashlib.sha256(text.encode()).hexdigest()[:10]}.json"
    path = os.path.join(REPLAYS, name)
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)
    return path


def replay(path, quiet=False):
    body = json.load(open(path, encoding="utf-8"))
    pid = body["property"]
    env.bootstrap()
    scratch = tempfile.mkdtemp(prefix="simcalk.")
    try:
        ctx = Ctx(scratch)
        out = run_plan(load(pid), ctx, body["plan"])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    hits = [v for v in out["viol"] if viol_key(v) == viol_key(body["violation"])]
    if not quiet:
        for v in out["viol"]:
            print(f"  {v['kind']}: {v['detail']}")
        if out.get("error"):
            print(out["error"])
        print(f"digest {out['digest']} (recorded {body.get('digest')})")
    if hits:
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    print("replay: no violation")
    return 0


def check(pid, tier=None, base=None, runs=None, budget=None):
    t0 = time.time()
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    base = int(os.environ.get("VERIF_SEED", "1")) if base is None else base
    env.bootstrap()
    mod = load(pid)
    nruns, secs = mod.BUDGET[tier]
    nruns = runs or nruns
    secs = budget or secs
    cores = int(os.environ.get("SIMCALK_JOBS", "0")) or min(8, os.cpu_count() or 1)
    scratch = tempfile.mkdtemp(prefix="simcalk.")
    code = 2
    try:
        code = _check(pid, mod, tier, base, nruns, secs, cores, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return code


def _check(pid, mod, tier, base, nruns, secs, cores, scratch, t0):
    deadline = time.time() + secs
    stats = collections.Counter()
    digests = set()
    plans_seen = set()
    samples = []
    errors = []
    timeouts = 0
    done = 0
    nontrivial = 0
    viol = None
    unrepro = collections.defaultdict(list)
    known_hit = collections.Counter()
    covered = set()
    wall_runs = 0.0
    forks = 0
    ctxm = mp.get_context("fork")
    pool = ctxm.Pool(cores, initializer=_worker_init, initargs=(pid, scratch))
    mctx = Ctx(os.path.join(scratch, "main"))
    os.makedirs(mctx.scratch)
    rerun_ok = rerun_bad = 0
    try:
        it = pool.imap_unordered(
            _work, ((base, pid, tier, i, deadline) for i in range(nruns)), chunksize=1
        )
        for i, plan, out in it:
            if out is None:
                continue
            done += 1
            covered |= out.get("cov", set())
            if out.get("error"):
                errors.append((i, out["error"]))
                continue
            if out.get("timeout"):
                timeouts += 1
                continue
            for k, v in out["stats"].items():
                stats[k] += v
            wall_runs += out.get("wall", 0)
            forks += out.get("forks", 0)
            if out["nontrivial"] and out["digest"] not in digests:
                nontrivial += 1
            digests.add(out["digest"])
            if plan is not None and len(samples) < 3 and not out["viol"]:
                samples.append({"seed_index": i, "plan": trim(plan), "digest": out["digest"]})
            vs = []
            for v in out["viol"]:
                k = is_known(pid, v)
                if k:
                    known_hit[k] += 1
                else:
                    vs.append(v)
            if vs:
                v = vs[0]
                # exact reproduction in this process first
                again = run_plan(mod, mctx, plan)
                hits = [x for x in again["viol"] if viol_key(x) == viol_key(v)]
                if hits:
                    viol = (i, plan, hits[0], again["digest"] == out["digest"])
                    break
                unrepro[viol_key(v)].append((i, plan, v))
                if len(unrepro[viol_key(v)]) >= 4:
                    viol = (i, plan, v, False)
                    break
    finally:
        pool.terminate()
        pool.join()
    # determinism self-check on a few seeds
    if viol is None:
        for i in range(min(2, nruns)):
            if time.time() > deadline + 20:
                break
            rng = random.Random(seed_for(base, pid, i))
            plan = mod.gen(rng, tier, i)
            a = run_plan(mod, mctx, plan)
            b = run_plan(mod, mctx, plan)
            if a["digest"] == b["digest"]:
                rerun_ok += 1
            else:
                rerun_bad += 1
    code = 0
    rpath = None
    if viol is not None:
        i, plan, v, same = viol
        key = viol_key(v)
        mbudget = 60 if tier == "quick" else 180
        if hasattr(mod, "concretise"):
            plan = mod.concretise(run_plan(mod, mctx, plan), plan)
        best, tried = minimise(mod, mctx, plan, key, mbudget)
        final = run_plan(mod, mctx, best)
        hits = [x for x in final["viol"] if viol_key(x) == key]
        if hits:
            v = hits[0]
        rpath = write_replay(pid, best, v, {
            "seed": base, "index": i, "digest": final["digest"], "exactly_reproduced": bool(hits),
            "minimisation_attempts": tried,
        })
        print(f"{pid}: {v['kind']}: {v['detail']}")
        print(f"seed={base} run={i} minimised with {tried} attempts")
        print(f"VIOLATION property={pid} replay={rpath}", flush=True)
        code = 1
    for k in known_findings(pid):
        print(f"KNOWN-FINDING: {k}")
    wall = time.time() - t0
    faults = {k[6:]: v for k, v in stats.items() if k.startswith("fault:")}
    other = {k: v for k, v in stats.items() if not k.startswith("fault:")}
    cov = {
        "evaluations": done,
        "distinct_nontrivial": nontrivial,
        "rule": mod.RULE,
        "samples": samples,
        "base_seed": base,
        "runs_planned": nruns,
        "runs_per_hour": round(done / max(wall, 1e-9) * 3600),
        "forked_processes": forks,
        "faults_fired": faults,
        "distinct_event_traces": len(digests),
        "calkulate_source_lines_reached": {
            f: f"{sum(1 for x in covered if x[0] == f and x[1] in ls)} of {len(ls)}" for f, ls in env.function_lines().items()},
        "counters": other,
        "simulated_time": "no clock in the system under test; simulated progress is counted in "
                          "events: source lines and I/O events (see counters)",
        "determinism_reruns_identical": rerun_ok,
        "determinism_reruns_different": rerun_bad,
        "inconclusive_runs": {"harness_errors": len(errors), "timeouts": timeouts},
        "components_real": mod.REAL,
        "components_stubbed": mod.STUB,
    }
    if errors:
        cov["first_error"] = errors[0][1][-1500:]
    if unrepro:
        cov["unreproduced"] = {k: [x[0] for x in v] for k, v in unrepro.items()}
    if rpath:
        cov["replay"] = rpath
    ev = {
        "property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": base,
        "level": mod.LEVEL, "coverage": cov, "assumptions": mod.ASSUME, "wall_s": round(wall, 2),
        "violations": 1 if code == 1 else 0,
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, f"{pid}.json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, default=str)
    if os.environ.get("SIMCALK_COV"):
        with open(os.path.join(os.environ["SIMCALK_COV"], pid + ".cov"), "w") as f:
            json.dump(sorted(covered), f)
    if code == 0:
        concl = done - len(errors) - timeouts
        if concl < max(1, min(10, nruns // 4)):
            print(f"{pid}: too few conclusive runs ({concl} of {done})")
            if errors:
                print(errors[0][1])
            return 2
        print(f"{pid}: held on {concl} runs ({nontrivial} distinct non-trivial), "
              f"{len(errors)} errors, {timeouts} timeouts, faults {dict(faults)}, {wall:.1f} s")
        if errors:
            print("first error:", errors[0][0], errors[0][1][-1500:])
    return code


def trim(plan):
    """A plan short enough to write out as a sample."""
    def cut(x, depth=0):
        if isinstance(x, str) and len(x) > 120:
            return x[:100] + f"...({len(x)} chars)"
        if isinstance(x, dict):
            return {k: cut(v, depth + 1) for k, v in list(x.items())[:40]}
        if isinstance(x, list):
            return [cut(v, depth + 1) for v in x[:30]]
        return x
    return cut(plan)
