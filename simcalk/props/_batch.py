"""Shared plan generator, runner and shrinker for the dataset properties."""

import copy

from .. import dsops, gen, judge

REAL = ["calkulate (all of it, from /repo)", "pandas", "NumPy", "SciPy", "PyCO2SYS", "real files in a scratch directory"]
STUB = ["raw file layer (open/read/write/close events under the scratch root)",
        "Ctrl-C and allocation failures (raised at simulator-chosen source lines / I/O events)"]
ASSUME = [
    "source lines of calkulate and raw I/O calls are the points at which faults occur",
    "a row processed alone in a pristine process defines the expected result (differential oracle)",
]

BAD_SETTINGS = [
    ("solve_mode", "xyz"), ("titrant_amount_unit", "litres"), ("file_name", None), ("file_type", "pclims"),
    ("file_type", "tiamo_de"), ("file_type", "orgalk_excel"), ("pH_min", 6.0), ("analyte_mass", 0.0),
    ("titrant", "HNO3"), ("opt_k_carbonic", 99), ("salinity", None), ("file_name", "no-such-file.dat"),
    ("salinity", -4.0), ("titrant_density", -1.0), ("file_path", "no/such/dir"), ("total_sulfate", -5e5),
    ("gran_logic", "bogus"), ("col_measurement", 9.0), ("titrant_normality", 0.0),
    ("pH_max", 3.0002), ("pH_max", 2.95), ("read_dat_method", "pclims"),
    ("solve_mode", "mode 7"), ("solve_mode", ""), ("solve_mode", 3.0), ("solve_mode", "pH gran"), ("titrant_amount_unit", ""),
    ("titrant_amount_unit", 5.0), ("file_type", 1.0), ("file_type", ""), ("file_name", 12.0), ("file_name", ""), ("pH_min", "low"),
    ("temperature_override", "cold"), ("opt_k_bisulfate", 7), ("opt_pH_scale", 9), ("gran_logic", 1.0), ("emf0_init", "x"),
    ("titrant_density", 0.0), ("analyte_volume", -5.0), ("double", "maybe"), ("delimiter", ""), ("skip_header", 400.0),
]


def op_kwargs(rng, p=0.5):
    kw = {}
    if rng.random() < p:
        kw["pH_min"] = round(rng.uniform(2.9, 3.2), 2)
    if rng.random() < p:
        kw["pH_max"] = round(rng.uniform(3.7, 4.1), 2)
    if rng.random() < p / 3:
        kw["temperature_override"] = round(rng.uniform(20, 26), 1)
    if rng.random() < p / 3:
        kw["double"] = rng.choice([True, False])
    if rng.random() < p / 4:
        kw.pop("pH_min", None), kw.pop("pH_max", None)
        kw["pH_range"] = [3.05, 3.9]
    if rng.random() < p / 3:
        kw["read_dat_kwargs"] = rng.choice([{"skip_header": 2}, {}, {"col_measurement": 1},
                                            {"method": "genfromtxt", "skip_header": 2}, {"method": "genfromtxt", "delimiter": "\t"}])
    if rng.random() < p / 4:
        kw["total_phosphate"] = 1.5
    if rng.random() < p / 6:  # options that Calkulate does not know: ignored with a warning
        kw[rng.choice(["ph_min", "colour", "analyte", "total_phosphat"])] = rng.choice([3.3, "red", 0])
    return kw


def has_cert(d):
    return any("alkalinity_certified" in r for r in d["rows"])


def ds_op(rng, d, kwargs=None):
    if has_cert(d) and not any("titrant_molinity" in r for r in d["rows"]):
        do = rng.choice(["calibrate", "calkulate", "calkulate"])
    elif has_cert(d):
        do = rng.choice(["solve", "solve", "calkulate"])
    else:
        do = "solve"
    op = {"do": do, "via": rng.choice(["method", "function"]), "kwargs": op_kwargs(rng) if kwargs is None else kwargs}
    if rng.random() < 0.3:
        op["verbose"] = True
    return op


def paths_of(d):
    out = []
    for r in d["rows"]:
        p = dsops.row_path(r)
        if p is not None and p not in out:
            out.append(p)
    return out


def add_faults(rng, plan, opi, intensity=1.0, persistent=None):
    """Storage and content faults for op `opi` (content faults become a preceding op)."""
    d = plan["ds"]
    paths = [p for p in paths_of(d) if p in d["files"]]
    k = rng.choice([0, 1, 1, 1, 2, 3])
    for p in rng.sample(paths, min(k, len(paths))):
        plan["faults"].append(gen.read_fault(rng, p, opi, len(gen.unb64(d["files"][p])), persistent))
        if rng.random() < 0.15:
            plan["faults"].append({"kind": "read", "file": p, "op": opi, "open": "all", "at": rng.choice([0, 1]),
                                   "err": "EINTR"})
    healthy = [p for p in paths if not any(f["file"] == p for f in plan["faults"] if f["op"] == opi)]
    return healthy


def content_op(rng, d, paths, k=None):
    setd = {}
    kinds = []
    for p in rng.sample(paths, min(k or rng.choice([1, 1, 2]), len(paths))):
        how, b = gen.corrupt(rng, gen.unb64(d["files"][p]))
        kinds.append(how)
        setd[p] = "DIR" if how == "dir" else (None if b is None else gen.b64(b))
    return {"do": "files", "set": setd, "kinds": kinds}


def swap_op(rng, d, paths):
    """Other valid contents under the same name (file replaced between runs)."""
    setd = {}
    for p in rng.sample(paths, 1):
        same = [q for q in d["files"] if q != p and q.rsplit(".", 1)[-1] == p.rsplit(".", 1)[-1]]
        if same:
            setd[p] = d["files"][rng.choice(same)]
        else:
            lines = gen.unb64(d["files"][p]).split(b"\n")
            setd[p] = gen.b64(b"\n".join(lines[:-3]) + b"\n")
    return {"do": "files", "set": setd, "kinds": ["replaced"]}


def gen_batch(rng, tier, focus):
    """ops: [earlier runs...] then the faulty run, then sometimes a run after it."""
    rows = rng.choice([2, 3, 3, 4, 5]) if tier == "quick" else rng.choice([2, 3, 4, 5, 6, 8])
    if rng.random() < 0.05:
        rows = rng.randint(9, 16)
    if focus == "C03":
        d = gen.dataset(rng, nrows=max(rows, 4), min_ref=rng.choice([2, 3, 3, 4]), solve_only=False,
                        kinds=["vindta", "genfromtxt", "pclims", "pH", "h2so4"], dup=True)
    else:
        d = gen.dataset(rng, nrows=rows, dup=True)
    plan = {"ds": d, "world": gen.delivery(rng), "ops": [], "faults": [], "inject": [],
            "cls": rng.choice(["Dataset", "Dataset", "DataFrame"])}
    if rng.random() < 0.25:  # absolute paths
        for r in d["rows"]:
            if "file_path" in r:
                r["file_path"] = "{ROOT}/" + r["file_path"]
            elif rng.random() < 0.5 and all("file_path" not in q for q in d["rows"]):
                r["file_name"] = "{ROOT}/" + r["file_name"]
    bad_rows = set()
    if rng.random() < (0.35 if focus != "C03" else 0.3):
        i = rng.randrange(len(d["rows"]))
        c, v = rng.choice(BAD_SETTINGS)
        if str(d["rows"][i].get("solve_mode")).startswith("pH") and rng.random() < 0.4:
            c, v = rng.choice([("pH_max", 3.0002), ("pH_max", 3.0004), ("pH_min", 3.9996)])
        if v is None:
            d["rows"][i].pop(c, None)
            if c == "file_name":
                d["rows"][i]["file_name"] = None
        else:
            d["rows"][i][c] = v
        bad_rows.add(i)
    ops = plan["ops"]
    nruns = rng.choice([1, 1, 2, 2, 3]) if focus == "C01" else rng.choice([1, 2, 2, 3])
    paths = [p for p in paths_of(d) if p in d["files"]]
    for k in range(nruns):
        if k and rng.random() < 0.25:
            m = len(d["rows"])
            perm = list(range(m))
            rng.shuffle(perm)
            ops.append({"do": "reorder", "perm": perm})
        if k and rng.random() < 0.2:
            ops.append({"do": "reload", "fmt": rng.choice(["csv", "pickle", "copy"])})
        if k and rng.random() < 0.2 and paths:
            ops.append(swap_op(rng, d, paths))
        if k and rng.random() < 0.3:
            # the user edits one row's option between runs
            i = rng.randrange(len(d["rows"]))
            c, v = rng.choice([("pH_max", 3.8), ("pH_min", 3.1), ("dic", 12.0), ("file_good", False),
                               ("salinity", 33.3), ("temperature_override", 23.0)])
            if c == "file_good":
                if all("file_good" in r for r in d["rows"]) or k:
                    ops.append({"do": "edit", "row": i, "col": "file_good", "val": False})
            elif c != "salinity":
                ops.append({"do": "edit", "row": i, "col": c, "val": v})
        faulty = k == nruns - 1 or rng.random() < 0.4
        if faulty and rng.random() < 0.4 and paths:
            ops.append(content_op(rng, d, paths))
        elif not faulty and k and rng.random() < 0.5:
            ops.append({"do": "files", "set": dict(d["files"]), "kinds": ["restored"]})
        ops.append(ds_op(rng, d))
        if faulty:
            opi = len(ops) - 1
            healthy = add_faults(rng, plan, opi)
            touched = set()
            for o in ops:
                if o["do"] == "files":
                    touched |= {p for p, kind in zip(o["set"], o["kinds"]) if kind not in ("restored",)}
            badpaths = {dsops.row_path(d["rows"][i]) for i in bad_rows}
            healthy = [p for p in healthy if p not in touched and p not in badpaths]
            if focus == "C02" and rng.random() < 0.45:
                plan["inject"].append({"kind": "rel", "u": rng.random(), "off": -rng.choice([1, 2, 3, 5, 8, 12, 20, 30]),
                                       "exc": "MemoryError", "op": opi})
            elif healthy and rng.random() < 0.35:
                plan["inject"].append({"kind": "after_close", "file": rng.choice(healthy), "occ": rng.choice([0, 0, 1, 2]),
                                       "n": rng.randint(1, 25), "exc": "MemoryError", "op": opi,
                                       # while a titration is being processed, not in the loop over the rows
                                       "within": ["files.py", "core.py", "convert.py", "titrations.py", "simulate.py"]})
    return plan


def fault_stats(plan, obs, stats):
    for f in obs["faults"]:
        if f["fired"]:
            stats["fault:" + f["kind"] + ":" + f["err"]] = stats.get("fault:" + f["kind"] + ":" + f["err"], 0) + f["fired"]
    for f in obs["inject"]:
        if f["fired"]:
            k = "fault:" + f["exc"] + "@line"
            stats[k] = stats.get(k, 0) + 1
    for op in plan["ops"]:
        if op["do"] == "files":
            for k in op.get("kinds", []):
                stats["fault:content:" + k] = stats.get("fault:content:" + k, 0) + 1
    for k in ("short_reads", "short_writes"):
        if obs["stats"].get(k):
            stats["fault:" + k] = obs["stats"][k]
    stats["sim_lines"] = obs["stats"]["lines"]
    stats["sim_io_events"] = obs["stats"]["ios"]


def run_batch(ctx, plan, prop):
    plan = dsops.resolve(ctx, plan)
    obs = ctx.fork(dsops.execute, plan)
    viol = []
    stats = {}
    fault_stats(plan, obs, stats)
    rows = 0
    for rec in obs["hist"]:
        if rec["do"] in dsops.DS_OPS:
            stats["dataset_calls"] = stats.get("dataset_calls", 0) + 1
            rows += len(rec["before"])
            for p, kind, detail in judge.check_op(ctx, plan, obs, rec, prop):
                if p == prop:
                    viol.append({"kind": kind, "detail": detail})
    stats["rows_judged"] = rows
    nt = any(k.startswith("fault:") and not k.startswith("fault:short") for k in stats)
    return {"viol": viol, "stats": stats, "digest": obs["digest"], "nontrivial": nt}


# ------------------------------------------------------------------ shrinking

def shrink_batch(plan):
    """Simpler candidate plans, most aggressive first."""
    # drop faults / injections
    for key in ("faults", "inject"):
        for i in range(len(plan.get(key, []))):
            p = copy.deepcopy(plan)
            del p[key][i]
            yield p
    # drop operations (fault op indices shift)
    for i in range(len(plan["ops"])):
        if len(plan["ops"]) == 1:
            break
        p = copy.deepcopy(plan)
        del p["ops"][i]
        for key in ("faults", "inject"):
            keep = []
            for f in p.get(key, []):
                if f.get("op") == i:
                    continue
                if f.get("op") is not None and f["op"] > i:
                    f["op"] -= 1
                keep.append(f)
            p[key] = keep
        yield p
    # drop rows
    if not any(o["do"] in ("reorder",) for o in plan["ops"]):
        for i in range(len(plan["ds"]["rows"])):
            if len(plan["ds"]["rows"]) == 1:
                break
            p = copy.deepcopy(plan)
            del p["ds"]["rows"][i]
            del p["ds"]["index"][i]
            ops = []
            for o in p["ops"]:
                if o["do"] in ("edit", "titration"):
                    if o["row"] == i:
                        continue
                    if o["row"] > i:
                        o["row"] -= 1
                ops.append(o)
            if len(ops) == len(p["ops"]):
                yield p
    # simplify delivery and options
    if plan.get("world") != {"chunks": [0], "bufsize": 8192}:
        p = copy.deepcopy(plan)
        p["world"] = {"chunks": [0], "bufsize": 8192}
        yield p
    for i, o in enumerate(plan["ops"]):
        for k in list(o.get("kwargs", {})):
            p = copy.deepcopy(plan)
            del p["ops"][i]["kwargs"][k]
            yield p
    keep = {"file_name", "file_path", "salinity", "analyte_mass", "analyte_volume", "alkalinity_certified",
            "titrant_molinity", "solve_mode", "file_type"}
    for c in gen.all_columns(plan["ds"]["rows"]):
        if c not in keep:
            p = copy.deepcopy(plan)
            for r in p["ds"]["rows"]:
                r.pop(c, None)
            yield p
