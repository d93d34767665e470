"""C04: after any history of faults, one clean re-run equals the first run of a fresh table."""

from .. import dsops, gen as g
from . import _batch

LEVEL = "fault_enumeration"
BUDGET = {"quick": (700, 85), "thorough": (20000, 1500)}
REAL, STUB = _batch.REAL, _batch.STUB
ASSUME = ["source lines of calkulate and raw I/O calls are the points at which faults occur",
          "the first run on a fresh copy of the metadata in a pristine process defines the expected result"]
RULE = (
    "a run = one to four faulty, interrupted or differently-optioned calls, plots, titrations or reloads on a "
    "generated table, then the files are restored and the same call is made twice and compared with the first run of a "
    "fresh table; non-trivial if a fault, interrupt, replaced file or other-option call preceded; distinct by event trace"
)


def gen(rng, tier, i):
    d = g.dataset(rng, nrows=rng.choice([2, 3, 3, 4]))
    plan = {"ds": d, "world": g.delivery(rng), "ops": [], "faults": [], "inject": [],
            "cls": rng.choice(["Dataset", "Dataset", "DataFrame"])}
    paths = [p for p in _batch.paths_of(d) if p in d["files"]]
    final = _batch.ds_op(rng, d)
    ops = plan["ops"]
    cert, own = _batch.has_cert(d), any("titrant_molinity" in r for r in d["rows"])
    for k in range(rng.choice([1, 1, 2, 2, 3, 4])):
        r = rng.random()
        if r < 0.12 and ops:
            ops.append({"do": "reload", "fmt": rng.choice(["csv", "pickle", "copy", "parquet"])})
            continue
        if r < 0.22 and any(o["do"] in dsops.DS_OPS for o in ops):
            if cert and not own and rng.random() < 0.3:
                ops.append({"do": "plot", "which": rng.choice(["titrant_molinity", "alkalinity_offset"]),
                            "kwargs": rng.choice([{}, {"show_bad": False}, {"show_batches": False}])})
            else:
                ops.append({"do": "titration", "row": rng.randrange(len(d["rows"])), "kwargs": {}})
            continue
        if rng.random() < 0.35:
            ops.append(_batch.content_op(rng, d, paths))
        elif rng.random() < 0.3:
            ops.append(_batch.swap_op(rng, d, paths))
        if final["do"] == "solve" and not (cert and not own):
            op = {"do": "solve", "via": rng.choice(["method", "function"]), "kwargs": _batch.op_kwargs(rng)}
        elif final["do"] == "solve":
            op = _batch.ds_op(rng, d)
            op["do"] = "solve"
        else:
            op = _batch.ds_op(rng, d)
        if rng.random() < 0.5:
            op["kwargs"] = dict(final["kwargs"])
        ops.append(op)
        opi = len(ops) - 1
        if rng.random() < 0.7:
            _batch.add_faults(rng, plan, opi)
        r = rng.random()
        if r < 0.3:
            plan["inject"].append({"kind": rng.choice(["site", "site", "frac"]), "u": rng.random(), "v": rng.random(), "exc": rng.choice(["KI", "KI", "MemoryError"]), "op": opi})
        elif r < 0.6:
            plan["inject"].append({"kind": "rel", "u": rng.choice([rng.random(), 0.999]), "off": rng.choice([-40, -25, -12, -6, -3, -2, -1, 0, 1, 2, 4]),
                                   "exc": rng.choice(["KI", "KI", "MemoryError"]), "op": opi})
    if rng.random() < 0.25:
        ops.append({"do": "reload", "fmt": rng.choice(["csv", "pickle", "copy", "parquet"])})
    ops.append({"do": "files", "set": dict(d["files"]), "kinds": ["restored"]})
    ops.append(dict(final))
    ops.append(dict(final))
    plan["final"] = [len(ops) - 2, len(ops) - 1]
    return plan


def run(ctx, plan):
    plan = dsops.resolve(ctx, plan)
    obs = ctx.fork(dsops.execute, plan)
    stats = {}
    _batch.fault_stats(plan, obs, stats)
    viol = []
    finals = [r for r in obs["hist"] if r["op"] >= len(plan["ops"]) - 2]
    ref = None
    for rec in finals:
        op = plan["ops"][rec["op"]]
        if op["do"] not in dsops.DS_OPS:
            continue
        if ref is None:
            ref = ctx.oracle(dsops.fresh, None, dsops.build_df(plan["ds"]), plan["ds"]["files"], op)
            if ref["exc"] is not None:
                return {"viol": [], "stats": stats, "digest": obs["digest"], "nontrivial": False}
        if rec["exc"] is not None:
            viol.append({"kind": "rerun-raised", "detail": f"op {rec['op']} {op['do']}: {rec['exc']}"})
            continue
        exp, got = ref["after"], rec["after"]
        if len(exp) != len(got):
            viol.append({"kind": "rows-changed", "detail": f"{len(exp)} -> {len(got)} rows"})
            continue
        for c in dsops.RESULTS + ["titrant_molinity"]:
            if c not in exp:
                continue
            if c not in got:
                viol.append({"kind": "column-missing", "detail": c})
                continue
            for i in range(len(exp)):
                if not dsops.close_col(c, got[c].iloc[i], exp[c].iloc[i]):
                    viol.append({"kind": "differs-from-fresh", "detail":
                                 f"op {rec['op']} {op['do']} row {i} {c}: {got[c].iloc[i]!r} after this history, "
                                 f"{exp[c].iloc[i]!r} on a fresh table"})
                    break
    return {"viol": viol, "stats": stats, "digest": obs["digest"],
            "nontrivial": any(k.startswith("fault:") for k in stats) or len(plan["ops"]) > 3}


def shrink(plan):
    n = len(plan["ops"])
    for p in _batch.shrink_batch(plan):
        if len(p["ops"]) < n and (p["ops"][-2:] != plan["ops"][-2:] and p["ops"][-1:] != plan["ops"][-1:]):
            continue
        if not p["ops"] or p["ops"][-1]["do"] not in dsops.DS_OPS:
            continue
        # the files must stay restored before the final calls
        if not any(o["do"] == "files" and o.get("kinds") == ["restored"] for o in p["ops"]) and any(
            o["do"] == "files" for o in p["ops"]
        ):
            continue
        yield p
