"""C05: an interrupt stops the run at once and leaves no half-updated results."""

from .. import dsops, gen as g
from . import _batch

LEVEL = "fault_enumeration"
BUDGET = {"quick": (900, 75), "thorough": (20000, 1500)}
REAL, STUB = _batch.REAL, _batch.STUB
ASSUME = ["Ctrl-C arrives at an I/O call on a titration file or at a source line of calkulate while a file is open or "
          "shortly after it was read, i.e. while a titration is being read or solved"]
RULE = (
    "a run = a table (usually solved before with other options), then a call interrupted at a seeded point while "
    "some titration is being read or solved; non-trivial if the interrupt was delivered; distinct by event trace"
)


def gen(rng, tier, i):
    d = g.dataset(rng, nrows=rng.choice([2, 3, 3, 4, 5]))
    for r in d["rows"]:  # so that there is something to interrupt
        r.pop("gran_logic", None)
    plan = {"ds": d, "world": g.delivery(rng), "ops": [], "faults": [], "inject": [],
            "cls": rng.choice(["Dataset", "Dataset", "DataFrame"])}
    ops = plan["ops"]
    paths = [p for p in _batch.paths_of(d) if p in d["files"]]
    if rng.random() < 0.75:
        ops.append(_batch.ds_op(rng, d))
        if rng.random() < 0.4:
            ops.append(_batch.swap_op(rng, d, paths))
    n = rng.choice([1, 1, 2])
    cert = any("alkalinity_certified" in r for r in d["rows"])
    live = [dsops.row_path(r) for r in d["rows"] if r.get("file_good", True) and ("alkalinity_certified" in r or not cert
                                                                                 or rng.random() < 0.3)]
    live = [p for p in live if p in d["files"]] or paths
    for _ in range(n):
        ops.append(_batch.ds_op(rng, d))
        opi = len(ops) - 1
        p = rng.choice(live)
        if rng.random() < 0.25:
            q = rng.choice(paths)
            if q != p:
                plan["faults"].append({"kind": "open", "file": q, "op": opi, "open": "all", "err": rng.choice(["ENOENT", "EACCES"])})
        r = rng.random()
        k = [rng.choice([0, 0, 0, 0, 1, 2])]
        if r < 0.25:
            plan["faults"].append({"kind": "open", "file": p, "op": opi, "open": k, "err": "KI"})
        elif r < 0.45:
            size = len(g.unb64(d["files"][p]))
            plan["faults"].append({"kind": "read", "file": p, "op": opi, "open": k, "byte": rng.choice([0, size, rng.randint(0, size)]),
                                   "once": True, "err": "KI"})
        elif r < 0.75:
            plan["inject"].append({"kind": "site", "u": rng.random(), "v": rng.random(), "exc": "KI", "op": opi,
                                   "in": ["core.py", "simulate.py", "convert.py", "interface.py", "titrations.py", "files.py"]})
        elif r < 0.82:
            plan["faults"].append({"kind": "close", "file": p, "op": opi, "open": k, "err": "KI"})
        else:
            plan["inject"].append({"kind": "after_close", "file": p, "occ": k[0], "n": rng.randint(1, 25), "exc": "KI", "op": opi,
                                   "within": ["files.py", "core.py", "convert.py", "interface.py", "titrations.py", "simulate.py"]})
    return plan


def same(c, a, b):
    return len(a) == len(b) and all(dsops.close_col(c, x, y) for x, y in zip(a, b))


def state(cols, before, new, after):
    """'old'/'new'/None for a group of columns."""
    def eq(ref):
        for c in cols:
            if (c in ref) != (c in after):
                return False
            if c in ref and not same(c, list(ref[c]), list(after[c])):
                return False
        return True
    if eq(before):
        return "old"
    return "new" if eq(new) else None


def run(ctx, plan):
    plan = dsops.resolve(ctx, plan)
    obs = ctx.fork(dsops.execute, plan)
    stats = {}
    _batch.fault_stats(plan, obs, stats)
    viol = []
    nt = False
    for rec in obs["hist"]:
        if rec["do"] not in dsops.DS_OPS:
            continue
        opi = rec["op"]
        op = plan["ops"][opi]
        fired = [f for f in obs["faults"] + obs["inject"]
                 if f["fired"] and f.get("op") == opi and "KI" in (f.get("err"), f.get("exc"))]
        if not fired:
            continue
        nt = True
        f = fired[0]
        where = f.get("where") or f"{f['kind']} {f.get('file')}"
        if rec["exc"] is None or rec["exc"][0] != "KeyboardInterrupt":
            viol.append({"kind": "interrupt-swallowed", "detail":
                         f"op {opi} {op['do']}: interrupted at {where} but the call gave {rec['exc']}"})
        if rec["after_interrupt"]:
            viol.append({"kind": "opened-after-interrupt", "detail":
                         f"op {opi} {op['do']}: interrupted at {where}, then opened {rec['after_interrupt']}"})
        if rec["exc"] is None:
            continue
        contents = dsops.contents_at(plan, opi)
        for q in obs["faults"]:
            if q["op"] == opi and q["err"] != "KI":
                contents[q["file"]] = None  # unreadable all along
        new = ctx.oracle(dsops.fresh, None, rec["before"], contents, {**op, "kwargs": rec["kwargs_before"]})["after"]
        for name, cols in (("calibration", dsops.CAL), ("solution", dsops.SOL_ALL)):
            if state(cols, rec["before"], new, rec["after"]) is None:
                c = [c for c in cols if c in rec["after"]]
                viol.append({"kind": "half-updated", "detail":
                             f"op {opi} {op['do']} interrupted at {where}: {name} columns are neither all old nor all "
                             f"new: {({k: list(rec['after'][k]) for k in c[:3]})}, before "
                             f"{({k: list(rec['before'][k]) for k in c[:3] if k in rec['before']})}"})
    return {"viol": viol, "stats": stats, "digest": obs["digest"], "nontrivial": nt}


shrink = _batch.shrink_batch
