"""C09: processing only reads the files it needs and leaves none open."""

from .. import dsops, gen as g, tables
from . import _batch

LEVEL = "fault_enumeration"
BUDGET = {"quick": (1200, 75), "thorough": (20000, 1500)}
REAL, STUB = _batch.REAL, _batch.STUB
ASSUME = ["source lines of calkulate and raw I/O calls are the points at which faults occur",
          "file access that bypasses Python's open() is seen through the audit hook, /proc/self/fd and directory snapshots",
          "a compressed copy beside a missing text file (NAME.gz, .bz2, .xz), which NumPy reads in its place, counts as that file "
          "and is not generated"]
RULE = (
    "a run = a table (with rows marked bad, decoy files beside the real ones) processed, single titrations made from it and data "
    "or metadata files imported, each call under seeded storage faults, Ctrl-C or allocation failures; every open is compared "
    "with the set of files the processed rows refer to, the directory tree before and after, and the descriptors left open; "
    "non-trivial if a fault fired or a row was excluded; distinct by event trace"
)


def gen(rng, tier, i):
    d = g.dataset(rng, nrows=rng.choice([2, 3, 3, 4, 5]))
    plan = {"ds": d, "world": g.delivery(rng), "ops": [], "faults": [], "inject": [], "fsck": True,
            "cls": rng.choice(["Dataset", "Dataset", "DataFrame"])}
    paths = [p for p in _batch.paths_of(d) if p in d["files"]]
    if rng.random() < 0.5 and not any("file_good" in r for r in d["rows"]):
        for r in d["rows"]:
            r["file_good"] = rng.random() < 0.6
    gone = []
    # decoys: neighbours that a careless reader might pick up
    for p in rng.sample(paths, min(2, len(paths))):
        for suf in rng.sample(["~", ".bak", ".tmp", ".npy", ".cache", ".csv", ".lock"], 2):
            d["files"].setdefault(p + suf, d["files"][p])
        base = p.rsplit("/", 1)[-1]
        if "/" in p:
            d["files"].setdefault(base, d["files"][p])
        stem, ext = p.rsplit(".", 1)
        for q in rng.sample([f"{stem}.{ext.upper()}", p.upper(), f"{stem}.txt", f"{stem}.csv", f"{stem}", p.replace(" ", "_"),
                             f"{stem} .{ext}", f"{stem}_1.{ext}", p.swapcase()], 4):
            if q != p and not any(k.startswith(q + "/") for k in d["files"]):
                d["files"].setdefault(q, d["files"][p])
        if rng.random() < 0.35:
            gone.append(p)
    ops = plan["ops"]
    if gone:
        ops.append({"do": "files", "set": {p: None for p in gone}, "kinds": ["missing"] * len(gone)})
    imports = rng.random() < 0.3  # only imports of metadata and titration files
    for k in range(rng.choice([3, 4, 5]) if imports else rng.choice([1, 2, 2, 3])):
        r = 0.9 if imports else rng.random()
        if r < 0.55 or k == 0 and not imports:
            if k and rng.random() < 0.3:
                ops.append(_batch.content_op(rng, d, paths))
            if k and rng.random() < 0.3:
                ops.append({"do": "edit", "row": rng.randrange(len(d["rows"])), "col": "file_good", "val": False})
            ops.append(_batch.ds_op(rng, d))
        elif r < 0.75 and any(o["do"] in dsops.DS_OPS for o in ops):
            ops.append({"do": "titration", "row": rng.randrange(len(d["rows"])),
                        "kwargs": rng.choice([{}, {}, {"pH_min": 3.1}])})
        else:
            fmt = rng.choice(tables.META + tables.DAT + ["dbs", "dbs"])
            sp = tables.spec(rng, fmt, n=rng.choice([2, 5, 30, 300]))
            p = rng.choice(["", "m/"]) + f"meta{k}" + tables.EXT[fmt]
            data, _ = tables.make(sp)
            q = rng.random()
            if q < 0.25:
                data = data[: rng.randrange(len(data))]
            elif q < 0.4:
                data = g.corrupt(rng, data)[1]
            elif q < 0.65:
                data = rng.choice([b"file_name\n", b"file_name\na.dat\nb.dat\n", b"\n", b"a\tb\n", b"file_name\tsalinity\n", b"1\n2\n",
                                   b"run type\n", b"run type\nbottle\n", data.split(b"\n")[0] + b"\n", b"\xef\xbb\xbf" + data])
            d["files"][p] = None if data is None else g.b64(data)
            for suf in (".bak", ".cache"):
                d["files"][p + suf] = g.b64(b"decoy")
            stem = p.rsplit(".", 1)[0]
            for ext in rng.sample([".hdr", ".ini", ".json", ".csv", ".txt", ".dat", ".dbs", ".xlsx", ".bak", ".tab", ".old"], 8):
                d["files"].setdefault(stem + ext, g.b64(b"decoy"))
            ops.append({"do": "meta", "spec": sp, "path": p})
        opi = len(ops) - 1
        here = [ops[opi]["path"]] if ops[opi]["do"] == "meta" else paths
        r = rng.random()
        if r < 0.4:
            p = rng.choice(here)
            size = len(g.unb64(d["files"][p])) if d["files"].get(p) else 0
            f = g.read_fault(rng, p, opi, size)
            if rng.random() < 0.3:
                f["err"] = "KI"
                f["open"] = [rng.choice([0, 0, 1])]
            plan["faults"].append(f)
        elif r < 0.5:
            plan["faults"].append({"kind": "close", "file": rng.choice(here), "op": opi, "open": [rng.choice([0, 0, 1])],
                                   "err": rng.choice(["EIO", "KI"])})
        elif r < 0.65:
            plan["inject"].append({"kind": "site", "u": rng.random(), "v": rng.random(), "op": opi,
                                   "exc": rng.choice(["KI", "MemoryError"])})
        elif r < 0.85:
            plan["inject"].append({"kind": "rel", "u": rng.random(), "off": rng.choice([-1, 0, 1, 1, 2, 2, 3, 4, 6]), "op": opi,
                                   "exc": rng.choice(["KI", "MemoryError"])})
    return plan


def allowed(plan, rec):
    op = plan["ops"][rec["op"]]
    if rec["do"] in ("meta", "read"):
        return {op["path"]}, set()
    b, a = rec["before"], rec["after"]
    if rec["do"] == "titration":
        return {dsops.row_path(b.iloc[op["row"]])}, set()
    ok, forbidden = set(), set()
    for i in range(len(b)):
        p = dsops.row_path(b.iloc[i])
        if p is None:
            continue
        if "file_good" in b and not dsops.truthy(b["file_good"].iloc[i]):
            forbidden.add(p)
            continue
        cert = "alkalinity_certified" in b and not dsops.isnull(b["alkalinity_certified"].iloc[i])
        mol = any("titrant_molinity" in t and not dsops.isnull(t["titrant_molinity"].iloc[i]) for t in (b, a))
        if mol or (cert and rec["do"] != "solve"):
            ok.add(p)
    return ok, forbidden - ok


def run(ctx, plan):
    plan = dsops.resolve(ctx, plan)
    obs = ctx.fork(dsops.execute, plan)
    stats = {}
    _batch.fault_stats(plan, obs, stats)
    viol = []
    nt = any(f["fired"] for f in obs["faults"] + obs["inject"])
    for rec in obs["hist"]:
        if "opens" not in rec:
            continue
        stats["calls"] = stats.get("calls", 0) + 1
        opi = rec["op"]
        lab = f"op {opi} {rec['do']} ({rec['exc'][0] if rec['exc'] else 'ok'})"
        ok, forbidden = allowed(plan, rec)
        nt = nt or bool(forbidden)
        for p in rec["opens"]:
            stats["opens_judged"] = stats.get("opens_judged", 0) + 1
            if p in forbidden:
                viol.append({"kind": "opened-bad-file", "detail": f"{lab}: opened {p}, whose rows are marked as not good"})
            elif p not in ok:
                viol.append({"kind": "opened-other-file", "detail": f"{lab}: opened {p}, which no processed row refers to"})
        for o in obs["opens"]:
            if o[0] == opi and o[3] not in ("r", "rb", "br"):
                viol.append({"kind": "opened-for-writing", "detail": f"{lab}: opened {o[2]} with mode {o[3]}"})
        for o in obs["footprint"]:
            if o[0] == opi:
                viol.append({"kind": "file-system-change", "detail": f"{lab}: {o[1]} {o[2]}"})
        for how, p in rec["fs"]:
            viol.append({"kind": "file-system-change", "detail": f"{lab}: {p} was {how}"})
        # interrupts and allocation failures can strike between opening and the code that would
        # close (in any implementation), so there object clean-up is good enough
        soft = any(f["fired"] and f["op"] == opi and (f.get("err") == "KI" or "exc" in f) for f in obs["faults"] + obs["inject"])
        if rec["fds"] or not soft and (rec["unclosed"] or rec["gc"]):
            viol.append({"kind": "left-open", "detail": f"{lab}: not explicitly closed: "
                                                        f"{sorted(set(rec['unclosed']) | set(rec['fds']) | set(rec['gc']))}"})
    return {"viol": viol, "stats": stats, "digest": obs["digest"], "nontrivial": nt}


shrink = _batch.shrink_batch
