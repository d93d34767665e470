"""C11: a successful export is complete and readable; a failed one is reported."""

import copy

from .. import dsops, world as wm
from . import _export as X, c07

LEVEL = "fault_enumeration"
BUDGET = {"quick": (2800, 45), "thorough": (40000, 1500)}
REAL = ["calkulate.write_dat / read_dat", "Python's buffered and text I/O layers", "NumPy", "real files in a scratch directory"]
STUB = ["raw file layer: short writes, ENOSPC/EIO/EDQUOT/EFBIG at a byte, close errors, EINTR and crashes are simulated",
        "Ctrl-C and allocation failures at simulator-chosen source lines"]
ASSUME = ["the operating system keeps bytes accepted by write() in order (page cache survives a process crash)",
          "columns of equal length, at least two points"]
RULE = (
    "a run = a few exports (2 to 2500 points, seeded precision, mode, container type) each with a seeded disk-full, write error, "
    "close error, short-write pattern, interrupt, bad value or process crash; judged against independently formatted text; "
    "non-trivial if a fault fired; distinct by event trace"
)


def gen(rng, tier, i):
    trials, faults, inject = [], [], []
    for k in range(rng.choice([3, 5, 7])):
        spec = X.data(rng)
        kw = X.options(rng, spec["n"])
        mode = rng.choice([None, None, "x", "w", "a", "w", "a"])
        if mode:
            kw["mode"] = mode
        exist = None
        if mode in ("w", "a") and rng.random() < 0.7:
            exist = rng.choice(["", "old\nfile\n1\t2\t3\n", "z" * rng.randint(1, 9000)])
        t = {"data": spec, "kw": kw, "exist": exist, "world": X.world(rng), "as_path": rng.random() < 0.2}
        if rng.random() < 0.06:
            spec["bad"] = rng.randrange(spec["n"])
        size = len(X.text(spec, kw))
        r = rng.random()
        at = rng.choice([0, size - 1, rng.randint(0, size), rng.randint(0, size), rng.randint(0, size), min(size, 8192 * rng.randint(0, 3))])
        if r < 0.35:
            faults.append({"kind": "write", "op": k, "byte": at, "err": rng.choice(["ENOSPC", "ENOSPC", "EIO", "EDQUOT", "EFBIG"]),
                           "persist": rng.random() < 0.7})
        elif r < 0.5:
            faults.append({"kind": "write", "op": k, "byte": at, "err": "CRASH"})
        elif r < 0.56:
            faults.append({"kind": "write", "op": k, "byte": at, "err": "KI"})
        elif r < 0.66:
            faults.append({"kind": "close", "op": k, "err": rng.choice(["EIO", "ENOSPC", "EDQUOT", "CRASH", "KI"])})
        elif r < 0.72:
            faults.append({"kind": "open", "op": k, "err": rng.choice(["EACCES", "ENOSPC", "EROFS", "KI", "EMFILE", "CRASH"])})
        elif r < 0.88:
            inject.append({"kind": "site", "u": rng.random(), "v": rng.random(), "op": k,
                           "exc": rng.choice(["KI", "KI", "MemoryError"])})
        if rng.random() < 0.2:
            faults.append({"kind": "write", "op": k, "at": rng.choice([0, 1, 2]), "err": "EINTR"})
        trials.append(t)
    return {"trials": trials, "faults": faults, "inject": inject}


def execute(d, plan):
    import calkulate as calk
    import pathlib

    out, allf, alli, digs, lines, marks, sites = [], [], [], [], {}, {}, {}
    ios = shorts = nlines = 0
    for k, t in enumerate(plan["trials"]):
        path = f"exp{k}.dat"
        if t["exist"] is not None:
            dsops.put_file(path, t["exist"].encode())
        args = X.as_args(t["data"])
        spec = dict(t["world"])
        spec["faults"] = copy.deepcopy([f for f in plan["faults"] if f["op"] == k])
        spec["inject"] = copy.deepcopy([f for f in plan.get("inject", []) if f["op"] == k])
        spec["record_sites"] = plan.get("record_sites")
        w = wm.World(d, spec)
        wm.install(w)
        w.begin_op(k)
        try:
            calk.write_dat(pathlib.Path(path) if t.get("as_path") else path, *args, **t["kw"])
            exc = None
        except BaseException as e:  # noqa: BLE001
            exc = f"{type(e).__name__}: {e}"[:150]
        finally:
            lines[k] = w.op_lines.get(0, 0)
            w.end_op()
        for h in w.handles:  # a crashed process flushes nothing
            if not h.closed and w.dead:
                h._f.close()
        wm.uninstall()
        r = {"exc": exc, "bytes": X.read(path), "crashed": w.dead, "back": None}
        if exc is None and not (t["kw"].get("mode") == "a" and t["exist"]):
            try:
                enc = {} if t["kw"].get("encoding") is None or X.head(t["kw"]).isascii() else {"encoding": t["kw"]["encoding"]}
                b = calk.read_dat(path, **enc)
                r["back"] = [[float(v) for v in x] for x in b]
            except Exception as e:  # noqa: BLE001
                r["back"] = f"{type(e).__name__}: {e}"[:150]
        out.append(r)
        allf += [dict(f) for f in w.faults]
        alli += [dict(f) for f in w.inject]
        digs.append(w.digest())
        marks[k] = w.marks.get((0, k), [])
        if w.sites:
            sites.update(w.sites)
        ios += w.nio
        nlines += w.lines
        shorts += w.stats.get("short_writes", 0)
    return {"out": out, "faults": allf, "inject": alli, "digest": digs, "op_lines": lines, "marks": marks, "sites": sites,
            "ios": ios, "shorts": shorts, "lines": nlines}


def judge(t, r, fired):
    want = X.text(t["data"], t["kw"])
    mode = t["kw"].get("mode", "x")
    exist = t["exist"].encode() if t["exist"] is not None else None
    base = exist if (mode == "a" and exist) else b""
    got = r["bytes"]
    lost = X.unencodable(t["kw"])  # has to fail (or to keep every character all the same)
    if r["exc"] is None:
        bad = [f for f in fired if f.get("err") not in ("EINTR", None, "KI")]
        if bad:
            return "error-swallowed", f"storage reported {bad[0]['err']} at {bad[0]['kind']} but the export returned normally"
        if t["data"].get("bad") is not None:
            return "bad-value-swallowed", "a value that cannot be formatted was passed but the export returned normally"
        if got != base + want:
            i = next((j for j, (p, q) in enumerate(zip(got or b"", base + want)) if p != q), min(len(got or b""), len(base + want)))
            return "wrong-content", (f"the file has {len(got or b'')} bytes, expected {len(base + want)}; first difference at byte {i}: "
                                     f"{(got or b'')[max(0, i - 20):i + 20]!r} vs {(base + want)[max(0, i - 20):i + 20]!r}")
        if r["back"] is not None:
            if isinstance(r["back"], str):
                return "not-readable", f"importing the exported file raised {r['back']}"
            vals = X.values(t["data"])
            for c, f, x, y in zip(("titrant_amount", "measurement", "temperature"), X.fmts(t["kw"]), vals, r["back"]):
                exp = [float(format(v, f)) for v in x]
                if len(exp) != len(y) or any(not (p == q or (p != p and q != q)) for p, q in zip(exp, y)):
                    return "reads-back-different", f"{c}: {len(y)} values read back, {len(exp)} written, or values differ"
        return None
    ok = False
    if got is None:
        ok = exist is None or mode == "w"
    elif got == exist:
        ok = True
    else:
        ok = got.startswith(base) and want.startswith(got[len(base):])
    if not ok:
        return "foreign-content", (f"export failed ({r['exc']}) and left {len(got or b'')} bytes that are not a leading part of the intended text"
                                   if got is not None else f"export failed ({r['exc']}) and removed the existing file")
    if not fired and t["data"].get("bad") is None and not lost:
        return "raised", f"a healthy export raised {r['exc']}"
    return None


def run(ctx, plan):
    plan = dsops.resolve(ctx, plan, execute)
    obs = ctx.fork(execute, plan)
    viol, nt = [], False
    stats = {"exports": len(plan["trials"]), "sim_io_events": obs["ios"], "sim_lines": obs["lines"]}
    if obs["shorts"]:
        stats["fault:short_writes"] = obs["shorts"]
    for k, (t, r) in enumerate(zip(plan["trials"], obs["out"])):
        fired = [f for f in obs["faults"] + obs["inject"] if f["op"] == k and f["fired"]]
        for f in fired:
            nt = True
            key = f"fault:{f['kind']}:{f['err']}" if "err" in f else f"fault:{f['exc']}@line"
            stats[key] = stats.get(key, 0) + 1
        if t["data"].get("bad") is not None:
            stats["fault:bad-value"] = stats.get("fault:bad-value", 0) + 1
        v = judge(t, r, fired)
        if v:
            viol.append({"kind": v[0], "detail": f"export {k} of {t['data']['n']} points, options {t['kw']}, faults "
                                                 f"{[(f['kind'], f.get('err') or f.get('exc'), f.get('byte')) for f in fired]}: {v[1]}"})
    return {"viol": viol, "stats": stats, "nontrivial": nt, "digest": c07.sig((obs["digest"], [r["exc"] for r in obs["out"]]))}


def shrink(plan):
    for k in range(len(plan["trials"])):
        if len(plan["trials"]) > 1:
            p = copy.deepcopy(plan)
            del p["trials"][k]
            for key in ("faults", "inject"):
                p[key] = [dict(f, op=f["op"] - (f["op"] > k)) for f in p[key] if f["op"] != k]
            yield p
    for key in ("faults", "inject"):
        for i in range(len(plan[key])):
            p = copy.deepcopy(plan)
            del p[key][i]
            yield p
    for k, t in enumerate(plan["trials"]):
        n = t["data"]["n"]
        for m in (2, n // 2, n - 1):
            if 2 <= m < n:
                p = copy.deepcopy(plan)
                p["trials"][k]["data"]["n"] = m
                yield p
        for o in list(t["kw"]):
            if o != "mode":
                p = copy.deepcopy(plan)
                del p["trials"][k]["kw"][o]
                yield p
        for key, v in (("kind", "list"), ("odd", None)):
            if t["data"][key] != v:
                p = copy.deepcopy(plan)
                p["trials"][k]["data"][key] = v
                yield p
        if t["world"] != {"chunks": [0], "bufsize": 8192}:
            p = copy.deepcopy(plan)
            p["trials"][k]["world"] = {"chunks": [0], "bufsize": 8192}
            yield p
