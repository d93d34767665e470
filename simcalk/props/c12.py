"""C12: readers return every row exactly, or raise."""

import copy
import pathlib
import warnings

from .. import dsops, gen as g, tables, world as wm
from . import c07

LEVEL = "fault_enumeration"
BUDGET = {"quick": (3000, 60), "thorough": (30000, 1500)}
REAL = ["calkulate.read (all readers)", "NumPy genfromtxt", "pandas", "openpyxl", "real files in a scratch directory"]
STUB = ["raw file layer: chunking, EINTR, I/O errors and cut files are simulated"]
ASSUME = ["storage faults show at raw read/open/close calls", "files have at least two data rows",
          "CSV numbers compared to 1e-13 relative (pandas' default parser is not round-trip exact)"]
RULE = (
    "a run = one generated file of a supported format (2 to 5000 rows) read several times: healthy under a seeded chunking with "
    "EINTR, with a storage error at a seeded byte or open, cut short at a seeded byte, and with one damaged line; the oracle is the generated "
    "content; non-trivial if an error fired, the file was cut or delivery was chunked; distinct by event trace"
)


DAMAGE = ("vindta", "genfromtxt", "csv", "table", "tiamo_de")  # formats in which a damaged line cannot end the data


def damage(data, exp, sp, how):
    """(bytes, row) with one data line damaged: its last cell lost, one cell too many, or a cell that is not a number."""
    nl = b"\r\n" if sp.get("crlf") else b"\n"
    lines = data.split(nl)
    end = len(lines) - (1 if sp.get("final_nl", True) else 0)
    row = int(how[0] * exp["n"]) % exp["n"]
    if how[1] == "extra" and sp["fmt"] not in ("vindta", "genfromtxt"):
        row = max(row, 1)  # pandas takes a surplus cell in the first row for row labels
    q = end - exp["n"] + row
    kw = exp["call"][1]
    sep = {"csv": ",", "tiamo_de": ";"}.get(sp["fmt"], "\t")
    sep = kw.get("sep", kw.get("delimiter", sep)).encode()
    if how[1] == "drop":
        lines[q] = sep.join(lines[q].split(sep)[:-1])
    elif how[1] == "extra":
        lines[q] += sep + b"1.5"
    else:
        cells = lines[q].split(sep)
        cells[int(how[0] * 1000) % len(cells)] = b"n-a"
        lines[q] = sep.join(cells)
    return nl.join(lines), row


def gen(rng, tier, i):
    fmts = tables.DAT + tables.META
    sp = tables.spec(rng, fmts[i % len(fmts)])
    data, _ = tables.make(sp)
    size = len(data)
    trials, faults = [], []
    for k in range(rng.choice([4, 6, 8])):
        w = g.delivery(rng)
        if size > 40000 and 1 in w["chunks"]:
            w["chunks"] = [97]
        t = {"world": w, "as_path": rng.random() < 0.15}
        r = rng.random()
        if r < 0.4:
            opens = "all" if rng.random() < 0.5 else [rng.choice([0, 0, 1])]
            if rng.random() < 0.2:
                faults.append({"kind": "open", "op": k, "open": opens,
                               "err": rng.choice(["ENOENT", "EACCES", "EMFILE", "EIO", "MemoryError"])})
            else:
                b = rng.choice([0, size, size - 1, rng.randint(0, size), rng.randint(0, size), min(size, 8192 * rng.randint(0, 3))])
                faults.append({"kind": "read", "op": k, "open": opens, "byte": b,
                               "once": rng.random() < 0.3, "err": rng.choice(["EIO", "ESTALE", "ETIMEDOUT", "MemoryError"])})
        elif r < 0.75:
            t["cut"] = rng.choice([0, size - 1, rng.randint(0, size), rng.randint(0, size), rng.randint(max(0, size - 60), size)])
        elif r < 0.85 and sp["fmt"] in DAMAGE:
            t["damage"] = [rng.random(), rng.choice(["drop", "extra", "text"])]
        if rng.random() < 0.3:
            faults.append({"kind": "read", "op": k, "open": "all", "at": rng.choice([0, 1, 2]), "err": "EINTR"})
        if rng.random() < 0.1:
            faults.append({"kind": "close", "op": k, "open": "all", "err": "EIO"})
        trials.append(t)
    return {"spec": sp, "trials": trials, "faults": faults}


def plain(x):
    import numpy as np
    import pandas as pd

    if isinstance(x, pd.DataFrame):
        return {str(c): [v.item() if isinstance(v, np.generic) and not isinstance(v, np.datetime64) else
                         (str(v) if isinstance(v, (pd.Timestamp, np.datetime64)) else v) for v in x[c]] for c in x.columns}
    return {f: [v.item() if isinstance(v, np.generic) else v for v in a]
            for f, a in zip(getattr(x, "_fields", ("acid", "base", "emf", "temperature")), x)}


def execute(d, plan):
    import calkulate as calk

    data, exp = tables.make(plan["spec"])
    name = "file" + tables.EXT[plan["spec"]["fmt"]]
    fn, kw = exp["call"]
    w = None
    out = []
    digs = []
    allf = []
    stats = {}
    for k, t in enumerate(plan["trials"]):
        now = data[: t["cut"]] if "cut" in t else damage(data, exp, plan["spec"], t["damage"])[0] if "damage" in t else data
        dsops.put_file(name, now)
        spec = dict(t["world"], faults=copy.deepcopy([f for f in plan["faults"] if f["op"] == k]))
        w = wm.World(d, spec)
        wm.install(w)
        w.begin_op(k)
        kk = copy.deepcopy(kw)
        if "colspecs" in kk:
            kk["colspecs"] = [tuple(c) for c in kk["colspecs"]]
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                r = plain(getattr(calk, fn)(pathlib.Path(name) if t.get("as_path") else name, **kk))
            exc = None
        except Exception as e:  # noqa: BLE001
            r, exc = None, f"{type(e).__name__}: {e}"[:150]
        finally:
            w.end_op()
        wm.uninstall()
        out.append((r, exc))
        digs.append(w.digest())
        allf += [dict(f) for f in w.faults]
        stats["ios"] = stats.get("ios", 0) + w.nio
        stats["short_reads"] = stats.get("short_reads", 0) + w.stats.get("short_reads", 0)
    return {"out": out, "digest": digs, "faults": allf, "stats": stats}


def same(a, b):
    if dsops.isnull(a) or dsops.isnull(b) or a is None or b is None:
        return (a is None or dsops.isnull(a)) and (b is None or dsops.isnull(b))
    try:
        x, y = float(a), float(b)
        return x == y or abs(x - y) <= 1e-13 * max(abs(x), abs(y))
    except (TypeError, ValueError):
        return str(a) == str(b)


def judge(exp, got, exc, trial, fired, cutinfo, skip=None):
    """None or (kind, detail)."""
    cut = "cut" in trial
    hard = [f for f in fired if f["err"] != "EINTR"]
    if exc is not None:
        if hard or cut or skip is not None or exp["may_raise"]:
            return None
        return "raised", f"a healthy file could not be read: {exc}"
    if [f for f in hard if f["kind"] != "close"]:
        f = hard[0]
        return "error-swallowed", f"storage reported {f['err']} at {f['kind']} {f.get('byte', '')} but the import returned normally"
    cols = {k: v for k, v in exp["cols"].items() if not k.startswith("__")}
    missing = [c for c in cols if c not in got]
    if missing:
        return (None if cut and cutinfo == 0 else ("missing-columns", f"{missing}"))
    n = len(next(iter(got.values())))
    whole = exp["n"]
    if not cut:
        if n != whole:
            return "row-count", f"{n} rows returned, the file has {whole}"
        chk = dict(cols, **exp["cols"].get("__derived", {}))
        last = n
    else:
        if n > whole:
            return "row-count", f"{n} rows returned from a cut file that had {whole}"
        chk = cols
        last = n - 1  # the last returned row may be the one that was cut
    for c, vals in chk.items():
        if c not in got:
            return "missing-columns", c
        for i in range(max(0, last)):
            if i != skip and not same(got[c][i], vals[i]):
                return ("row-wrong", f"row {i} of {n}: {c}={got[c][i]!r}, the file has {vals[i]!r}")
    if cut and n and cutinfo is not None and n - 1 < cutinfo:
        # the last returned row is complete in the file, so it must be exact too
        for c, vals in chk.items():
            if not same(got[c][n - 1], vals[n - 1]):
                return "row-wrong", f"row {n - 1} of {n}: {c}={got[c][n - 1]!r}, the file has {vals[n - 1]!r}"
    return None


def complete_rows(data, cut, exp, fmt, sp):
    """How many data rows lie entirely (with their line end) before the cut; None if unknown."""
    if fmt in ("orgalk_excel", "excel"):
        return None
    nl = b"\r\n" if sp.get("crlf") else b"\n"
    lines = data.split(nl)
    if sp.get("final_nl", True):
        lines = lines[:-1]
    tail = 4 if fmt == "pclims" else 0
    first = len(lines) - tail - exp["n"]
    pos, done = 0, 0
    for i, ln in enumerate(lines):
        pos += len(ln) + len(nl)
        if pos > cut:
            break
        if i >= first:
            done += 1
    return min(done, exp["n"])


def run(ctx, plan):
    obs = ctx.fork(execute, plan)
    data, exp = tables.make(plan["spec"])
    fmt = plan["spec"]["fmt"]
    viol = []
    stats = {"reads": len(plan["trials"]), "fmt:" + fmt: 1, "sim_io_events": obs["stats"]["ios"], "rows_judged": 0}
    nt = False
    for k, ((got, exc), t) in enumerate(zip(obs["out"], plan["trials"])):
        fired = [f for f in obs["faults"] if f["op"] == k and f["fired"]]
        info = complete_rows(data, t["cut"], exp, fmt, plan["spec"]) if "cut" in t else None
        skip = damage(data, exp, plan["spec"], t["damage"])[1] if "damage" in t else None
        v = judge(exp, got, exc, t, fired, info, skip)
        if skip is not None:
            stats["fault:damaged-line"] = stats.get("fault:damaged-line", 0) + 1
        stats["rows_judged"] += len(next(iter(got.values()), [])) if got else 0
        for f in fired:
            stats[f"fault:{f['kind']}:{f['err']}"] = stats.get(f"fault:{f['kind']}:{f['err']}", 0) + 1
        if "cut" in t:
            stats["fault:cut"] = stats.get("fault:cut", 0) + 1
        nt = nt or bool(fired) or "cut" in t or "damage" in t or any(t["world"]["chunks"])
        if v:
            how = f"cut at byte {t['cut']} of {len(data)}" if "cut" in t else f"line of row {skip} damaged" if skip is not None else f"{len(data)} bytes, chunks {t['world']['chunks']}"
            viol.append({"kind": v[0], "detail": f"{fmt} file ({exp['n']} rows, {how}, faults "
                                                 f"{[(f['kind'], f['err']) for f in fired]}), read {k}: {v[1]}"})
    if obs["stats"]["short_reads"]:
        stats["fault:short_reads"] = obs["stats"]["short_reads"]
    return {"viol": viol, "stats": stats, "nontrivial": nt, "digest": c07.sig((fmt, obs["digest"]))}


def shrink(plan):
    for k in range(len(plan["trials"])):
        if len(plan["trials"]) > 1:
            p = copy.deepcopy(plan)
            del p["trials"][k]
            p["faults"] = [dict(f, op=f["op"] - (f["op"] > k)) for f in p["faults"] if f["op"] != k]
            yield p
    for i in range(len(plan["faults"])):
        p = copy.deepcopy(plan)
        del p["faults"][i]
        yield p
    for n in (2, 3, plan["spec"]["n"] // 2, plan["spec"]["n"] - 1):
        if 2 <= n < plan["spec"]["n"]:
            p = copy.deepcopy(plan)
            p["spec"]["n"] = n
            size = len(tables.make(p["spec"])[0])
            for t in p["trials"]:
                if "cut" in t:
                    t["cut"] = min(t["cut"], size)
            yield p
    for k in ("crlf", "opts", "neg", "blank", "dups", "holes"):
        if plan["spec"].get(k):
            p = copy.deepcopy(plan)
            p["spec"][k] = False
            yield p
    for k, t in enumerate(plan["trials"]):
        if t["world"] != {"chunks": [0], "bufsize": 8192}:
            p = copy.deepcopy(plan)
            p["trials"][k]["world"] = {"chunks": [0], "bufsize": 8192}
            yield p
