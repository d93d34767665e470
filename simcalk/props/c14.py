"""C14: results do not depend on the process, its history or its environment."""

import copy
import json
import os
import pickle
import shutil
import subprocess
import sys
import warnings

from .. import dsops, env as envmod, envchild, gen as gmod, steps, tables, world as wm
from . import c07

LEVEL = "exploration"
BUDGET = {"quick": (360, 105), "thorough": (8000, 1500)}
REAL = ["calkulate (all of it, from /repo), freshly started processes", "pandas, NumPy, SciPy, PyCO2SYS, matplotlib, openpyxl",
        "file system"]
STUB = ["wall clock (preloaded library)", "directory listing order", "hash seed, locale, time zone, random state, environment "
        "variables and working directory set by the simulator"]
ASSUME = ["file names are representable in the locale's encoding; titration files decode in it",
          "comparisons use a relative tolerance of 1e-9 (1e-6 after saving and reloading)"]
RULE = (
    "a run = six to ten jobs (dataset calls, titrations, file and metadata imports of every format, exports, plots, core, "
    "simulation and DIC-loss calls) executed in three freshly started processes with different seeded environments: hash seed, "
    "clock (start, rate, backwards steps, jumps), time zone, locale, random state, listing order, working directory, environment "
    "variables, memory layout, job order, failed and repeated earlier work, or calibrate and solve in different processes with the "
    "table saved in between; or one long-lived process doing several jobs at the same paths after completed, failed and interrupted "
    "work, each compared with the same job in a pristine process; or 12 to 30 single calls in a seeded order, interrupted at seeded "
    "lines, compared with the reverse order; all results must agree; non-trivial always; distinct by event trace and environments"
)

TZS = ["UTC", "Asia/Kathmandu", "America/St_Johns", "Pacific/Apia", "XXX+11:30", "Europe/Berlin"]
KINDS = ["read", "fsolve", "fcal", "ds", "ds", "ds", "ds", "tt", "tt_plot", "ds_plot", "core_solve", "core_cal", "gran", "totals",
         "convert", "comps", "loss", "write", "call", "call", "call"]


def gen_env(rng, n, iso, base=False):
    e = {"hash": 0, "tz": "UTC", "lc": "C.UTF-8", "rng": 1, "order": list(range(n)), "clock": [1.7e9, 1e-3, 0, 0]}
    if base:
        return e
    e["hash"] = rng.randrange(1, 1 << 32)
    e["tz"] = rng.choice(TZS)
    e["lc"] = rng.choice(["C", "C.UTF-8", "POSIX"] + (["de_DE.ISO-8859-1"] * 3 if iso else ["de_DE.UTF-8"]))
    e["setlocale"] = e["lc"].startswith("de") and rng.random() < 0.6
    e["rng"] = rng.randrange(1 << 30)
    e["clock"] = [rng.choice([1.0e9, 1.2e9, 1.6e9, 1.9e9, 2.5e9]) + rng.randrange(86400 * 365), rng.choice([1e-3, 3600.0, -1.0, 0.0, 86399.0]),
                  rng.choice([0, 0, -3.0e8, 4.0e8]), rng.choice([100, 1000, 5000])]
    if rng.random() < 0.7:
        rng.shuffle(e["order"])
    if rng.random() < 0.5:
        e["listing"] = rng.randrange(1, 1000)
    if rng.random() < 0.5:
        e["cwd"] = "elsewhere"
    if rng.random() < 0.3:
        e["gc"] = rng.choice([[50, 5, 5], [0, 10, 10]])
    if rng.random() < 0.5:
        e["ballast"] = rng.randrange(100, 20000)
    if rng.random() < 0.35:
        e["prelude"] = rng.sample(range(n), min(n, 2))
    if rng.random() < 0.35:
        e["noise"] = [rng.randrange(n)]
    if rng.random() < 0.3:
        e["split"] = rng.choice(["csv", "pickle", "parquet"])
    e["umask"] = rng.choice([0o22, 0o77, 0])
    e["vars"] = rng.choice([{}, {"HOME": "/nonexistent"}, {"USER": "nobody", "LOGNAME": "nobody"}, {"COLUMNS": "20"},
                            {"PYTHONMALLOC": "malloc"}])
    e["root"] = rng.choice(["r", "a folder with spaces", "deep/er/and/deeper", "x.y,z"])
    return e


def gen_hist(rng):
    """One long-lived process: earlier work (done, failed or interrupted, at the same paths) before each job."""
    jobs = []
    kinds = rng.sample(KINDS, 3) * 2 + KINDS
    for _ in range(rng.randint(3, 5)):
        if rng.random() < 0.2:
            jobs.append({"kind": "table", "spec": tables.spec(rng, rng.choice(tables.DAT + tables.META + ["dbs"]), big=30)})
            continue
        ws = steps.workspace(rng, n=2)
        if jobs and jobs[-1]["kind"] == "steps" and rng.random() < 0.4:  # the same paths, other contents
            old = jobs[-1]["ws"]
            ws = rehome(ws, old)
        jobs.append({"kind": "steps", "ws": ws, "steps": [steps.gen_step(rng, 2, kind=rng.choice(kinds), tag=str(q))
                                                          for q in range(rng.choice([1, 1, 2, 3]))]})
    n = len(jobs)
    seq = [[rng.randrange(n), rng.choice(["ok", "ok", "ok", "nofiles"])] for _ in range(rng.randint(1, 3))]
    order = list(range(n))
    rng.shuffle(order)
    for k in order:
        seq.insert(rng.randint(0, len(seq)), [k, "ok"])
    plan = {"mode": "hist", "jobs": jobs, "seq": seq, "inject": [], "faults": [], "mtime": rng.choice([None, None, 1.7e9]),
            "cwd": rng.random() < 0.5}
    nop = sum(len(jobs[k].get("steps", [0])) for k, _ in seq)
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        plan["inject"].append({"kind": "site", "u": rng.random(), "v": rng.random(), "op": rng.randrange(nop),
                               "exc": rng.choice(["KI", "MemoryError"])})
    if rng.random() < 0.4:
        ps = [p for j in jobs if j["kind"] == "steps" for p in j["ws"]["files"]]
        if ps:
            plan["faults"].append(gmod.read_fault(rng, "job/" + rng.choice(ps), rng.randrange(nop), 800))
    return plan


CALLS = ["call"] * 8 + ["convert", "convert", "gran", "totals", "comps", "core_solve", "read", "loss"]


def gen_calls(rng):
    """Many small calls in one process, in two different orders."""
    ws = steps.workspace(rng, n=2)
    twins(rng, ws)
    st = [steps.gen_step(rng, 2, kind=rng.choice(CALLS), tag=str(q)) for q in range(rng.randint(10, 24))]
    for s in rng.sample(st, len(st) // 2):  # the same with almost the same numbers
        st.append(shift(copy.deepcopy(s), 2))
    order = list(range(len(st)))
    rng.shuffle(order)
    plan = {"mode": "calls", "ws": ws, "steps": st, "order": order, "inject": [], "faults": []}
    for _ in range(rng.choice([0, 1, 2, 3])):
        plan["inject"].append({"kind": "site", "u": rng.random(), "v": rng.random(), "op": rng.randrange(len(st)),
                               "exc": rng.choice(["KI", "MemoryError"])})
    return plan


def twins(rng, ws):
    """Two more rows that are almost the same as the first two."""
    for k in range(2):
        r = copy.deepcopy(ws["rows"][k])
        b = gmod.unb64(ws["files"][dsops.row_path(r)])
        how = rng.choice(["temperature", "temperature", "salinity", "mass", "measurement", "totals"])
        if how == "salinity":
            r["salinity"] += 2e-4
        elif how == "mass":
            for c in ("analyte_mass", "analyte_volume"):
                if c in r:
                    r[c] *= 1 + 2e-6
        elif how == "totals":
            r["total_silicate"] = r.get("total_silicate", 0) + 0.003
        elif r.get("file_type") not in ("pclims", "tiamo_de"):
            c = 2 if how == "temperature" else 1
            lines = b.decode().split("\n")
            for q, x in enumerate(lines[2:], 2):
                v = x.split("\t")
                if len(v) == 3:
                    v[c] = "%.5f" % (float(v[c]) + 0.0013)
                    lines[q] = "\t".join(v)
            b = "\n".join(lines).encode()
        r["file_name"] = "twin%d-%s" % (k, r["file_name"])
        ws["rows"].append(r)
        ws["index"].append(2 + k)
        ws["mols"].append(ws["mols"][k])
        ws["files"][dsops.row_path(r)] = gmod.b64(b)


def shift(x, by):
    """The step for another row."""
    if isinstance(x, dict):
        return {k: v + by if k == "i" else shift(v, by) for k, v in x.items()}
    if isinstance(x, list):
        if x and x[0] in ("arr", "dict", "cv", "dd", "py", "val"):
            return [x[0], x[1] + by] + x[2:]
        return [shift(v, by) for v in x]
    return x


def rehome(ws, old):
    """The workspace with its files at the other workspace's paths, where the formats agree."""
    ws = copy.deepcopy(ws)
    for r, q in zip(ws["rows"], old["rows"]):
        a, b = dsops.row_path(r), dsops.row_path(q)
        if a.rsplit(".", 1)[-1] != b.rsplit(".", 1)[-1] or b in ws["files"]:
            continue
        ws["files"][b] = ws["files"].pop(a)
        r["file_name"] = q["file_name"]
        r.pop("file_path", None)
        if "file_path" in q:
            r["file_path"] = q["file_path"]
    return ws


def gen(rng, tier, i):
    if i % 8:
        return gen_calls(rng) if i % 8 < 4 else gen_hist(rng)
    iso = rng.random() < 0.4
    jobs = []
    for k in range(rng.randint(6, 10)):
        if rng.random() < 0.3:
            fmt = rng.choice(tables.DAT + tables.META + ["dbs", "dbs"])
            sp = tables.spec(rng, fmt, big=60)
            jobs.append({"kind": "table", "spec": sp})
            continue
        while True:
            ws = steps.workspace(rng, n=rng.choice([2, 3]))
            if not iso or all(p.isascii() for p in ws["files"]):
                break
        m = len(ws["rows"])
        st = [steps.gen_step(rng, m, kind=rng.choice(KINDS), tag=f"{q}") for q in range(rng.choice([1, 2, 2, 3]))]
        st += [steps.gen_step(rng, m, kind="call", tag="c") for _ in range(rng.choice([0, 1, 2]))]
        if rng.random() < 0.03:
            st.append(steps.gen_step(rng, m, kind="sim", tag="s"))
        jobs.append({"kind": "steps", "ws": ws, "steps": st})
    envs = [gen_env(rng, len(jobs), iso, base=True)] + [gen_env(rng, len(jobs), iso) for _ in range(2)]
    return {"jobs": jobs, "envs": envs}


# ------------------------------------------------------------------ one process, a history

def execute(d, plan):
    """The jobs of plan["seq"] one after the other in this process, in the same directory."""
    import calkulate as calk

    home = os.path.join(d, "job")
    w = wm.World(d, {"faults": copy.deepcopy(plan.get("faults", [])), "inject": copy.deepcopy(plan.get("inject", [])),
                     "record_sites": plan.get("record_sites")})
    wm.install(w)
    lines, out = {}, []
    count = [0]

    def hook(f):
        k = count[0]
        count[0] += 1
        w.begin_op(k)
        try:
            return f()
        except BaseException as e:  # noqa: BLE001
            if isinstance(e, (KeyboardInterrupt, MemoryError)):
                return {"__inj__": 1}
            raise
        finally:
            lines[k] = w.op_lines.get(0, 0)
            w.end_op()
            if any(x["op"] == k and x["fired"] for x in w.faults + w.inject):
                spoilt.add(k)

    spoilt = set()
    with warnings.catch_warnings(), dsops.quiet():
        warnings.simplefilter("ignore")
        for k, how in plan["seq"]:
            os.chdir(d)
            shutil.rmtree(home, ignore_errors=True)
            job = plan["jobs"][k]
            n0 = count[0]
            try:
                r = envchild.run_job(calk, {"mtime": plan.get("mtime"), "cwd": plan.get("cwd")}, d, "job", job, files=how == "ok", hook=hook)
            except Exception as x:  # noqa: BLE001
                r = [{"__exc__": type(x).__name__}]
            r = r if isinstance(r, list) else [r]
            out.append((k, how, [None if n0 + q in spoilt else v for q, v in enumerate(r)]))
    wm.uninstall()
    return {"out": out, "op_lines": lines, "marks": {k[1]: v for k, v in w.marks.items() if k[0] == 0}, "sites": w.sites,
            "faults": w.faults, "inject": w.inject, "lines": w.lines, "ios": w.nio, "digest": w.digest()}


def execute_calls(d, plan, order=None):
    import calkulate as calk
    from matplotlib import pyplot as plt

    w = wm.World(d, {"inject": copy.deepcopy(plan.get("inject", [])), "record_sites": plan.get("record_sites")})
    steps.write_ws(plan["ws"], d)
    O = steps.Objects(calk, plan["ws"], d)
    wm.install(w)
    lines, out = {}, {}
    with warnings.catch_warnings(), dsops.quiet():
        warnings.simplefilter("ignore")
        for k in plan["order"] if order is None else order:
            st = plan["steps"][k]
            steps.prebuild(O, [st])
            w.begin_op(k)
            try:
                r = steps.norm(steps.call(calk, O, st))
            except BaseException as e:  # noqa: BLE001
                r = {"__exc__": type(e).__name__}
            finally:
                lines[k] = w.op_lines.get(0, 0)
                w.end_op()
            out[k] = None if any(f["op"] == k and f["fired"] for f in w.inject) else r
            plt.close("all")
    wm.uninstall()
    return {"out": out, "op_lines": lines, "marks": {k[1]: v for k, v in w.marks.items() if k[0] == 0}, "sites": w.sites,
            "inject": w.inject, "lines": w.lines, "ios": w.nio, "digest": w.digest()}


def run_calls(ctx, plan):
    plan = dsops.resolve(ctx, plan, execute_calls)
    obs = ctx.fork(execute_calls, plan)
    # the same calls backwards, without interruptions (where the forward run was not interrupted)
    ref = ctx.fork(execute_calls, dict(plan, inject=[]), list(reversed(plan["order"])))
    viol, stats = [], {"histories": 1, "calls": len(plan["order"]), "sim_lines": obs["lines"], "sim_io_events": obs["ios"]}
    for k in plan["order"]:
        x, y = ref["out"][k], obs["out"][k]
        if y is None:
            continue
        stats["compared"] = stats.get("compared", 0) + 1
        df = steps.differ(x, y, "result", 1e-9)
        if df:
            st = plan["steps"][k]
            name = st["call"]["fn"] if st["do"] == "call" else st["do"]
            viol.append({"kind": "differs:" + name, "detail": f"call {k} ({name}) differs with the order of the calls: {df}"})
    for f in obs["inject"]:
        if f["fired"]:
            stats[f"fault:{f['exc']}@line"] = stats.get(f"fault:{f['exc']}@line", 0) + 1
    return {"viol": viol, "stats": stats, "nontrivial": len(plan["order"]) > 1, "digest": c07.sig((obs["digest"], json.dumps(plan["order"])))}


def shrink_calls(plan):
    o = plan["order"]
    n = len(o) // 2
    while n:
        for q in range(0, len(o), n):
            if n < len(o):
                yield dict(plan, order=o[:q] + o[q + n:])
        n //= 2
    for k in range(len(plan["inject"])):
        yield dict(plan, inject=plan["inject"][:k] + plan["inject"][k + 1:])


def run_hist(ctx, plan):
    plan = dsops.resolve(ctx, plan, execute)
    obs = ctx.fork(execute, plan)
    base = {}
    for k in sorted({k for k, how in plan["seq"] if how == "ok"}):
        base[k] = ctx.fork(execute, dict(plan, seq=[[k, "ok"]], inject=[], faults=[], cwd=False))["out"][0][2]
    viol, stats = [], {"histories": 1, "jobs": len(plan["seq"]), "sim_lines": obs["lines"], "sim_io_events": obs["ios"]}
    for pos, (k, how, r) in enumerate(obs["out"]):
        if how != "ok":
            stats["fault:failed-history"] = stats.get("fault:failed-history", 0) + 1
            continue
        job = plan["jobs"][k]
        for s, (x, y) in enumerate(zip(base[k], r)):
            if y is None:
                break  # interrupted here: what follows in this job may build on it
            name = job["spec"]["fmt"] + " import" if job["kind"] == "table" else job["steps"][s]["do"]
            x, y = strip(x), strip(y)
            df = steps.differ(x, y, name, 1e-9)
            stats["compared"] = stats.get("compared", 0) + 1
            if df:
                viol.append({"kind": "differs:" + name.replace(" ", "_"),
                             "detail": f"job {k} step {s} differs after earlier work in the same process: {df} (position {pos})"})
                break
    for f in obs["faults"]:
        if f["fired"]:
            stats[f"fault:{f['kind']}:{f['err']}"] = stats.get(f"fault:{f['kind']}:{f['err']}", 0) + f["fired"]
    for f in obs["inject"]:
        if f["fired"]:
            stats[f"fault:{f['exc']}@line"] = stats.get(f"fault:{f['exc']}@line", 0) + 1
    return {"viol": viol, "stats": stats, "nontrivial": len(plan["seq"]) > 1, "digest": c07.sig((obs["digest"], json.dumps(plan["seq"])))}


def strip(v):
    return {k: x for k, x in v.items() if k != "__msg__"} if isinstance(v, dict) and "__exc__" in v else v


def shrink_hist(plan):
    for k in range(len(plan["seq"])):
        if len(plan["seq"]) > 1 and not plan["inject"] and not plan["faults"]:
            yield dict(plan, seq=plan["seq"][:k] + plan["seq"][k + 1:])
    for key in ("inject", "faults"):
        for k in range(len(plan[key])):
            yield dict(plan, **{key: plan[key][:k] + plan[key][k + 1:]})
    if len(plan["seq"]) > 1 and (plan["inject"] or plan["faults"]):
        yield dict(plan, seq=plan["seq"][:-1])
    for k, job in enumerate(plan["jobs"]):
        if job["kind"] == "steps" and len(job["steps"]) > 1 and not plan["inject"] and not plan["faults"]:
            for s in range(len(job["steps"])):
                p = copy.deepcopy(plan)
                del p["jobs"][k]["steps"][s]
                yield p


# ------------------------------------------------------------------ processes

def tools(ctx):
    """Directory with the clock library and the compiled locales (built once per worker)."""
    d = os.path.join(ctx.scratch, "c14tools")
    if not os.path.isdir(d):
        os.makedirs(d)
        src = os.path.join(envmod.VERIF, "simcalk", "native", "simclock.c")
        subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", os.path.join(d, "simclock.so"), src, "-ldl"], check=False,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        for loc, cm in (("de_DE.UTF-8", "UTF-8"), ("de_DE.ISO-8859-1", "ISO-8859-1")):
            try:
                subprocess.run(["localedef", "-i", "de_DE", "-f", cm, os.path.join(d, loc)], check=False,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            except OSError:
                pass
    return d


def start(ctx, plan, e, d, tag, stage=None):
    t = tools(ctx)
    root = os.path.join(d, e.get("root", "base"), tag if stage is None else tag.split("-")[0])
    os.makedirs(root, exist_ok=True)
    pj, po = os.path.join(d, tag + ".json"), os.path.join(d, tag + ".out")
    with open(pj, "w", encoding="utf-8") as f:
        json.dump({"jobs": plan["jobs"], "env": e, "root": root, "stage": stage}, f)
    v = {k: os.environ[k] for k in ("PATH", "OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "SIMCALK_REPO",
                                    "SIMCALK_DEBUG") if k in os.environ}
    v.update(PYTHONHASHSEED=str(e["hash"] if stage != 2 else (e["hash"] * 7 + 1) % (1 << 32)), TZ=e["tz"], LC_ALL=e["lc"], LANG=e["lc"],
             PYTHONPATH=envmod.VERIF, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", LOCPATH=t, MPLCONFIGDIR=os.path.join(ctx.scratch, "mpl"))
    if e["lc"] in ("C", "POSIX", "C.UTF-8"):
        v.pop("LOCPATH")
    v.update(e.get("vars", {}))
    so = os.path.join(t, "simclock.so")
    if os.path.exists(so):
        c = e["clock"]
        v.update(LD_PRELOAD=so, SIMCLOCK_START=str(c[0]), SIMCLOCK_STEP=str(c[1]), SIMCLOCK_JUMP=str(c[2]), SIMCLOCK_AT=str(c[3]))
    err = None if os.environ.get("SIMCALK_DEBUG") else subprocess.DEVNULL
    p = subprocess.Popen([sys.executable, "-m", "simcalk.envchild", pj, po], env=v, cwd=d, stdin=subprocess.DEVNULL,
                         stdout=subprocess.DEVNULL, stderr=err, umask=e.get("umask", 0o22), start_new_session=True)
    return p, po


def collect(p, po):
    try:
        p.wait(timeout=140)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        raise RuntimeError("environment process timed out")
    if not os.path.exists(po):
        raise RuntimeError(f"environment process died with {p.returncode}")
    with open(po, "rb") as f:
        return pickle.load(f)


RES = dsops.RESULTS + ["titrant_molinity"]


def results_only(v):
    """The result columns of a dataset view."""
    if isinstance(v, dict) and "__df__" in v:
        return {c: x for c, x in v["__df__"].items() if c in RES}
    return v


def run(ctx, plan):
    if plan.get("mode") == "hist":
        return run_hist(ctx, plan)
    if plan.get("mode") == "calls":
        return run_calls(ctx, plan)
    d = ctx.newdir()
    try:
        procs = []
        for q, e in enumerate(plan["envs"]):
            procs.append((e, start(ctx, plan, e, d, f"e{q}", 1 if e.get("split") else None)))
        outs = []
        for q, (e, pr) in enumerate(procs):
            o = collect(*pr)
            if e.get("split"):
                e2 = dict(e, prelude=[], noise=[])
                o = collect(*start(ctx, plan, e2, d, f"e{q}-2", 2))
            outs.append(o)
            ctx.forks += 1
    finally:
        shutil.rmtree(d, ignore_errors=True)
    viol = []
    base = outs[0]["jobs"]
    for o in outs:
        for r in o["jobs"].values():
            for v in r:
                if isinstance(v, dict) and "__msg__" in v:
                    m = v.pop("__msg__")
                    if os.environ.get("SIMCALK_DEBUG"):
                        print(v, m, file=sys.stderr)
    stats = {"processes": len(outs) + sum("split" in e for e in plan["envs"]), "jobs": len(plan["jobs"])}
    for k, job in enumerate(plan["jobs"]):
        for q in range(1, len(outs)):
            e = plan["envs"][q]
            a, b = base.get(k), outs[q]["jobs"].get(k)
            n = max(len(a), len(b))
            for s in range(n):
                x, y = (a[s] if s < len(a) else None), (b[s] if s < len(b) else None)
                name = job["spec"]["fmt"] + " import" if job["kind"] == "table" else job["steps"][s]["do"]
                rtol = 1e-9
                if e.get("split") and name == "calkulate":
                    x, y, rtol = results_only(x), results_only(y), 1e-6
                df = steps.differ(x, y, name, rtol)
                if df:
                    viol.append({"kind": "differs:" + name.replace(" ", "_"),
                                 "detail": f"job {k} step {s} differs between processes: {df} (environment {brief(e)})"})
                    break
            stats["compared"] = stats.get("compared", 0) + n
    for e in plan["envs"][1:]:
        for key, lab in (("listing", "listing-order"), ("cwd", "working-directory"), ("prelude", "repeated-history"), ("noise", "failed-history"),
                         ("split", "save-reload-new-process"), ("gc", "gc-pressure"), ("ballast", "memory-layout")):
            if e.get(key):
                stats["fault:" + lab] = stats.get("fault:" + lab, 0) + 1
        stats["fault:hash-seed"] = stats.get("fault:hash-seed", 0) + 1
        stats["fault:locale:" + e["lc"]] = stats.get("fault:locale:" + e["lc"], 0) + 1
        if e["clock"][1] < 0 or e["clock"][2]:
            stats["fault:clock-jump"] = stats.get("fault:clock-jump", 0) + 1
    for k, r in base.items():
        for v in r:
            if isinstance(v, dict) and "__exc__" in v:
                stats["outcome:" + v["__exc__"]] = stats.get("outcome:" + v["__exc__"], 0) + 1
    return {"viol": viol, "stats": stats, "nontrivial": True,
            "digest": c07.sig((json.dumps(plan["envs"]), repr([(k, type(v).__name__, str(v)[:2000]) for k, v in sorted(base.items())])))}


def brief(e):
    return {k: v for k, v in e.items() if k not in ("order",) and v not in (None, {}, [])}


def drop_job(plan, k):
    p = copy.deepcopy(plan)
    del p["jobs"][k]
    for e in p["envs"]:
        for key in ("order", "prelude", "noise"):
            if key in e:
                e[key] = [x - (x > k) for x in e[key] if x != k]
    return p


def shrink(plan):
    if plan.get("mode"):
        yield from (shrink_hist if plan["mode"] == "hist" else shrink_calls)(plan)
        return
    n = len(plan["jobs"])
    for k in range(n):  # one job only
        if n > 1:
            p = plan
            for q in reversed(range(n)):
                if q != k:
                    p = drop_job(p, q)
            yield p
    for q in range(1, len(plan["envs"])):
        if len(plan["envs"]) > 2:
            p = copy.deepcopy(plan)
            del p["envs"][q]
            yield p
    base = plan["envs"][0]
    for q in range(1, len(plan["envs"])):
        for key in list(plan["envs"][q]):
            v = plan["envs"][q][key]
            if key in base and v != base[key] and key != "order":
                p = copy.deepcopy(plan)
                p["envs"][q][key] = base[key]
                yield p
            elif key not in base and v:
                p = copy.deepcopy(plan)
                del p["envs"][q][key]
                yield p
    for k in range(n):
        if n > 1:
            yield drop_job(plan, k)
        job = plan["jobs"][k]
        if job["kind"] == "steps" and len(job["steps"]) > 1:
            for s in range(len(job["steps"])):
                p = copy.deepcopy(plan)
                del p["jobs"][k]["steps"][s]
                yield p
