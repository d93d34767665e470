"""C06: the user's metadata is never altered."""

from .. import dsops, gen as g
from . import _batch

LEVEL = "fault_enumeration"
BUDGET = {"quick": (1000, 75), "thorough": (20000, 1500)}
REAL, STUB = _batch.REAL + ["matplotlib"], _batch.STUB
ASSUME = ["interrupts and allocation failures arrive at source lines of calkulate or at raw I/O calls"]
RULE = (
    "a run = one to four calls (calibrate, solve, calkulate, plots, single titrations) on a generated table, with storage "
    "faults, corrupted files and an interrupt or allocation failure at any source line; the table is compared before and after "
    "each call; non-trivial if a fault or interrupt fired; distinct by event trace"
)


def gen(rng, tier, i):
    d = g.dataset(rng, nrows=rng.choice([2, 3, 3, 4]))
    if rng.random() < 0.3:
        for r in d["rows"]:
            for c in ("total_sulfate", "total_fluoride", "titrant_amount_unit", "opt_total_borate"):
                if rng.random() < 0.5:
                    r.pop(c, None)
                elif c == "total_fluoride":
                    r[c] = round(rng.uniform(60, 72), 2)
                elif c == "opt_total_borate":
                    r[c] = rng.choice([1, 2])
    if rng.random() < 0.3:  # index with repeated labels
        m = len(d["rows"])
        d["index"] = [rng.choice(["x", "y", "z"]) for _ in range(m)]
    if rng.random() < 0.3:  # user columns that calkulate does not know
        for k, r in enumerate(d["rows"]):
            r["comment"] = rng.choice(["ok", "", "bubbles?"])
            r["station"] = k // 2
    plan = {"ds": d, "world": g.delivery(rng), "ops": [], "faults": [], "inject": [],
            "cls": rng.choice(["Dataset", "Dataset", "DataFrame"])}
    ops = plan["ops"]
    paths = [p for p in _batch.paths_of(d) if p in d["files"]]
    uniq = len(set(map(str, d["index"]))) == len(d["index"])
    for k in range(rng.choice([1, 1, 2, 3])):
        if k and rng.random() < 0.35:
            if rng.random() < 0.4:
                ops.append(plot_op(rng, d))
            elif uniq:
                kw = rng.choice([{}, {"pH_min": 3.1}, {"read_dat_kwargs": {"skip_header": 2}}])
                ops.append({"do": "titration", "row": rng.randrange(len(d["rows"])), "kwargs": kw})
            else:
                continue
        else:
            if rng.random() < 0.25:
                ops.append(_batch.content_op(rng, d, paths))
            ops.append(_batch.ds_op(rng, d))
            if rng.random() < 0.5:
                _batch.add_faults(rng, plan, len(ops) - 1)
        opi = len(ops) - 1
        r = rng.random()
        exc = rng.choice(["KI", "KI", "MemoryError"])
        if r < 0.35:
            plan["inject"].append({"kind": rng.choice(["site", "site", "frac"]), "u": rng.random(), "v": rng.random(), "exc": exc, "op": opi})
        elif r < 0.75:
            plan["inject"].append({"kind": "rel", "u": rng.choice([rng.random(), 0.0, 0.999]),
                                   "off": rng.choice([-30, -12, -6, -3, -2, -1, 0, 1, 2, 4, 8, 15, 25]), "exc": exc, "op": opi})
    if rng.random() < 0.5:  # then the user looks at the results
        for k in range(rng.randint(1, 3)):
            ops.append(plot_op(rng, d))
    return plan


def plot_op(rng, d):
    kw = {}
    cols = [c for c in ("salinity", "when", "analysis_datetime", "bottle", "note", "station") if all(c in r for r in d["rows"])]
    if cols and rng.random() < 0.6:
        kw["xvar"] = rng.choice(cols)
    if rng.random() < 0.4:
        kw["show_bad"] = rng.random() < 0.3
    if rng.random() < 0.3:
        kw["show_batches"] = False
    return {"do": "plot", "which": rng.choice(["titrant_molinity", "alkalinity_offset"]), "kwargs": kw}


def eqv(a, b):
    if dsops.isnull(a) or dsops.isnull(b):
        return dsops.isnull(a) and dsops.isnull(b)
    try:
        return bool(a == b) and (isinstance(a, str) == isinstance(b, str))
    except Exception:
        return a is b


def run(ctx, plan):
    plan = dsops.resolve(ctx, plan)
    obs = ctx.fork(dsops.execute, plan)
    stats = {}
    _batch.fault_stats(plan, obs, stats)
    viol = []
    base = dsops.build_df(plan["ds"])
    user = [c for c in base.columns if c not in dsops.RESULTS]
    calibrated = False
    for rec in obs["hist"]:
        if "after" not in rec:
            continue
        before, after = rec["before"], rec["after"]
        lab = f"op {rec['op']} {rec['do']} ({rec['exc'] and rec['exc'][0]})"
        if rec["do"] in ("calibrate", "calkulate"):
            calibrated = True
        tables = [("", after)]
        if "after_ret" in rec:
            tables.append((" (returned table)", rec["after_ret"]))
        for note, tab in tables:
            if [str(x) for x in tab.index] != [str(x) for x in base.index] or [
                type(x) for x in tab.index
            ] != [type(x) for x in before.index]:
                viol.append({"kind": "rows-altered", "detail": f"{lab}{note}: index {list(base.index)} -> {list(tab.index)}"})
                continue
            if len(set(tab.columns)) != len(tab.columns):
                viol.append({"kind": "columns-duplicated", "detail": f"{lab}{note}: {list(tab.columns)}"})
                continue
            for c in user:
                if c not in tab:
                    viol.append({"kind": "column-lost", "detail": f"{lab}{note}: {c}"})
                    continue
                if c == "titrant_molinity" and calibrated:
                    continue
                for k in range(len(base)):
                    a, b = base[c].iloc[k], tab[c].iloc[k]
                    if eqv(a, b):
                        continue
                    if c in dsops.FILLABLE and dsops.isnull(a):
                        continue
                    viol.append({"kind": "value-altered", "detail": f"{lab}{note}: row {k} {c}: {a!r} -> {b!r}"})
                    break
        if rec["do"] in ("plot", "titration"):
            if list(before.columns) != list(after.columns):
                viol.append({"kind": "columns-altered", "detail": f"{lab}: {set(after.columns) ^ set(before.columns)}"})
            else:
                for c in before.columns:
                    if not all(eqv(a, b) for a, b in zip(before[c], after[c])):
                        viol.append({"kind": "value-altered", "detail": f"{lab}: {c}: {list(before[c])} -> {list(after[c])}"})
        if rec.get("kwargs_before") != rec.get("kwargs_after"):
            viol.append({"kind": "options-altered", "detail": f"{lab}: {rec['kwargs_before']} -> {rec['kwargs_after']}"})
    return {"viol": viol, "stats": stats, "digest": obs["digest"],
            "nontrivial": any(k.startswith("fault:") and not k.startswith("fault:short") for k in stats)}


shrink = _batch.shrink_batch
