"""C15: a Titration is a faithful, self-contained snapshot of its dataset row."""

import copy
import os
import pickle
import warnings

import numpy as np

from .. import dsops, gen as g, steps, world as wm
from . import c07

LEVEL = "fault_enumeration"
BUDGET = {"quick": (420, 80), "thorough": (16000, 1500)}
REAL = ["calkulate (all of it, from /repo)", "pandas, NumPy, SciPy, PyCO2SYS, matplotlib (Agg)", "real files in a scratch directory"]
STUB = ["raw file layer (errors at any open, read or close)", "Ctrl-C and allocation failures at simulator-chosen source lines"]
ASSUME = ["a Titration is compared with its row only while the row's metadata and file are as they were when the dataset was solved",
          "plots are compared as images (0.05 % of pixels may differ)"]
RULE = (
    "a run = a solved dataset of two or three rows (all formats and solve modes, blank optional entries), then four to nine seeded "
    "operations: making Titrations (with storage faults, Ctrl-C or MemoryError at any line), deleting, replacing or corrupting files, "
    "editing and re-solving the dataset, plotting, copying and pickling, dropping the dataset; each new Titration is compared with its row, every live "
    "Titration's values and table after every operation and its plots at the end with what they were when it was made, and the dataset "
    "before and after each making; non-trivial if a file, row or solution changed or a fault fired after a Titration was made"
)

OPT = ["dic", "total_silicate", "total_phosphate", "total_ammonia", "total_sulfate", "total_borate", "opt_k_carbonic", "temperature_override",
       "titrant_density", "pH_min", "pH_max", "molinity_NaCl", "double", "gran_logic", "k_borate", "file_type", "solve_mode"]


def gen(rng, tier, i):
    ws = steps.workspace(rng, n=rng.choice([2, 2, 3]))
    n = len(ws["rows"])
    for r, m in zip(ws["rows"], ws["mols"]):
        if rng.random() < 0.3:
            r["note"] = rng.choice(["a", "b c"])
    kwargs = {}
    cols = g.all_columns(ws["rows"])
    if rng.random() < 0.3:
        c = {"pH_min": 3.1, "pH_max": 3.85, "temperature_override": 22.5, "total_silicate": 12.0, "double": False}
        k = rng.choice(sorted(c))
        if k not in cols:
            kwargs = {k: c[k]}
    known = rng.random() < 0.3
    if known:
        for r, m in zip(ws["rows"], ws["mols"]):
            r["titrant_molinity"] = m
    idx = rng.choice([list(range(n)), list(range(5, 5 + n)), ["r%d" % q for q in range(n)], list(range(n))[::-1], [n - 1] + list(range(n - 1)),
                      [10 * q for q in range(n)][::-1]])
    ws["index"] = idx
    plan = {"ws": ws, "kwargs": kwargs, "first": "solve" if known else "calkulate", "cls": rng.choice(["Dataset", "Dataset", "DataFrame"]),
            "world": g.delivery(rng), "faults": [], "inject": [], "ops": []}
    ops = plan["ops"]
    made = 0
    paths = sorted(ws["files"])
    for k in range(rng.randint(4, 9)):
        kind = rng.choice(["make", "make", "file", "file", "edit", "edit", "resolve", "plot_tt", "plot_ds", "drop", "newfile", "copy"]) if made > (i % 2) else "make"
        if kind == "make" and made >= 3:
            kind = "file"
        if kind == "make":
            via = rng.choice(["method", "function", "class"])
            ops.append({"op": "make", "row": rng.randrange(n), "id": made, "via": via, "extra": None})
            if rng.random() < 0.2:
                ops[-1]["extra"] = rng.choice([{"pH_min": 3.2}, {"temperature_override": 21.0}, {"pH_max": 3.8},
                                                {"pH_range": [3.1, 3.9]}, {"read_dat_kwargs": {"skip_header": 2}}])
            made += 1
            r = rng.random()
            if r < 0.2:
                p = dsops.row_path(ws["rows"][ops[-1]["row"]])
                f = g.read_fault(rng, p, k + 1, len(g.unb64(ws["files"][p])))
                plan["faults"].append(f)
            elif r < 0.35:
                plan["inject"].append({"kind": "site", "u": rng.random(), "v": rng.choice([0.0, rng.random()]),
                                       "exc": rng.choice(["KI", "MemoryError"]), "op": k + 1})
        elif kind == "file":
            p = rng.choice(paths)
            b = g.unb64(ws["files"][p])
            how = rng.choice(["delete", "delete", "garbage", "truncate", "empty"])
            c = {"delete": None, "garbage": g.b64(b"\x00garbage\n1\t2\n"), "truncate": g.b64(b[: len(b) // 2]), "empty": g.b64(b"")}[how]
            ops.append({"op": "file", "path": p, "content": c})
        elif kind == "newfile":  # another healthy titration under the same name
            q = rng.randrange(n)
            p = dsops.row_path(ws["rows"][q])
            b = g.unb64(ws["files"][p])
            ops.append({"op": "file", "path": p, "content": g.b64(drop_points(b, rng.randint(1, 2)))})
            ops.append({"op": "resolve", "do": "solve", "kwargs": kwargs})
        elif kind == "edit":
            vals = {"salinity": 20.0, "titrant_molinity": 0.2, "alkalinity": -1.0, "alkalinity_certified": 1000.0,
                    "analyte_mass": 0.2, "emf0": 1.0, "file_name": "other.dat", "analysis_batch": 9, "dic": 77.0, "note": "edited",
                    "gran_emf0": 2.0, "pH_init": 1.0, "total_borate": 1.0, "analyte_volume": 1.0}
            c = rng.choice(sorted(vals))
            ops.append({"op": "edit", "row": rng.randrange(n), "col": c, "val": vals[c]})
        elif kind == "copy":
            ops.append({"op": "copy", "id": rng.randrange(made), "how": rng.choice(["copy", "deepcopy", "pickle"]), "new": 100 + k})
        elif kind == "resolve":
            ops.append({"op": "resolve", "do": rng.choice(["solve", "calkulate", "calibrate"]),
                        "kwargs": rng.choice([kwargs, {"pH_max": 3.7}, {"pH_min": 3.3}])})
        elif kind == "plot_tt":
            ops.append({"op": "plot_tt", "id": rng.randrange(made), "which": rng.choice(steps.PLOTS)})
        elif kind == "plot_ds":
            ops.append({"op": "plot_ds", "which": rng.choice(["titrant_molinity", "alkalinity_offset"])})
        else:
            ops.append({"op": "drop"})
            if rng.random() < 0.6:
                break
    plan["watch"] = rng.sample(steps.PLOTS, 2)
    # op numbers as the world sees them: 0 is the first solve
    for q, o in enumerate(ops):
        o["n"] = q + 1
    makes = [o["n"] for o in ops if o["op"] == "make"]
    plan["faults"] = [dict(f, op=min(makes, key=lambda x: abs(x - f["op"]))) for f in plan["faults"]]
    plan["inject"] = [dict(f, op=min(makes, key=lambda x: abs(x - f["op"]))) for f in plan["inject"]]
    return plan


def drop_points(b, k):
    """The same file without its k last data lines (or with them changed): still a good titration."""
    lines = b.split(b"\n")
    data = [q for q, x in enumerate(lines) if x[:1].isdigit() and x.count(b"\t") + x.count(b";") >= 2]
    for q in data[-k:][::-1]:
        del lines[q]
    return b"\n".join(lines)


def label(ds, i):
    """The row's label, as the user would type it."""
    v = ds.index[i]
    return v.item() if isinstance(v, np.generic) else v


def watch(tt, which, calk):
    from matplotlib import pyplot as plt

    out = {}
    for w in which:
        try:
            ax = getattr(calk.plot.titration, w)(tt)
            if ax is None:
                out[w] = None
            else:
                ax.set_title("")
                out[w] = steps.fig_png(ax.figure)
        except Exception as e:  # noqa: BLE001
            out[w] = type(e).__name__
        finally:
            plt.close("all")
    return out


def view(tt):
    v = steps.tt_view(tt)
    v["row"] = {str(k): steps.norm(x) for k, x in tt.row.items()}
    v["attr"] = {str(k): steps.norm(getattr(tt, str(k), None)) for k in tt.row.index}
    v["item"] = {str(k): steps.norm(tt[k]) for k in tt.row.index}
    v["t"] = {str(c): steps.norm(tt.t[c].to_numpy()) for c in tt.t.columns}
    v["index"] = [str(x) for x in tt.titration.index]
    v["name"] = [str(tt).replace(os.getcwd(), "{ROOT}"), repr(tt).replace(os.getcwd(), "{ROOT}")]
    return v


def execute(d, plan):
    import calkulate as calk
    import gc

    from matplotlib import pyplot as plt

    ws = plan["ws"]
    steps.write_ws(ws, d)
    O = steps.Objects(calk, ws, d)
    df = O.df()
    ds = calk.Dataset(df) if plan["cls"] == "Dataset" else df
    spec = dict(plan["world"])
    spec["faults"] = copy.deepcopy(plan["faults"])
    spec["inject"] = copy.deepcopy(plan["inject"])
    spec["record_sites"] = plan.get("record_sites")
    w = wm.World(d, spec)
    wm.install(w)
    warnings.simplefilter("ignore")
    out = {"viol": [], "log": [], "made": 0, "compared": 0, "checked": 0}
    lines = {}
    live = []
    disturbed = False
    n = len(ws["rows"])
    contents = dict(ws["files"])
    paths = [dsops.row_path(r) for r in ws["rows"]]
    solved = {}  # row -> (file content, kwargs) its shown results belong to

    def bad(kind, detail):
        out["viol"].append((kind, detail))

    def kw(k):
        return dict(k)

    def solve_ds(do, kwargs):
        getattr(calk.dataset, do)(ds, **kw(kwargs))
        for i in range(n):
            if do != "calibrate":
                solved[i] = (contents.get(paths[i]), dict(kwargs))
            else:
                solved.pop(i, None)

    with dsops.quiet():
        w.begin_op(0)
        solve_ds(plan["first"], plan["kwargs"])
        lines[0] = w.op_lines.get(0, 0)
        w.end_op()
        for o in plan["ops"]:
            k = o["n"]
            if ds is None and o["op"] in ("make", "edit", "resolve", "plot_ds"):
                continue
            w.begin_op(k)
            lab = f"op {k} {o['op']}"
            try:
                if o["op"] == "make":
                    i = o["row"]
                    extra = o.get("extra")
                    # in a dataset the row's own value wins over a keyword; for a Titration the keyword wins
                    kwargs = {q: v for q, v in (solved[i][1] if i in solved else plan["kwargs"]).items()
                              if q not in ds.columns or dsops.isnull(ds[q].iloc[i])}
                    if extra:
                        kwargs.update(extra)
                    kw0 = copy.deepcopy(kwargs)
                    before = dsops.snap(ds)
                    nf = sum(f["fired"] for f in w.faults) + sum(f["fired"] for f in w.inject)
                    tt = exc = None
                    try:
                        if o["via"] == "class":
                            tt = calk.Titration(ds.loc[label(ds, i)], **kwargs)
                        elif o["via"] == "method" and hasattr(ds, "to_Titration"):
                            tt = ds.to_Titration(label(ds, i), **kwargs)
                        else:
                            tt = calk.to_Titration(ds, label(ds, i), **kwargs)
                    except BaseException as e:  # noqa: BLE001
                        exc = e
                    fired = sum(f["fired"] for f in w.faults) + sum(f["fired"] for f in w.inject) - nf
                    hard = [f for f in w.faults if f["fired"] and f["op"] == k and f["kind"] != "close" and f["err"] != "EINTR"]
                    after = dsops.snap(ds)
                    df1 = steps.differ(steps.norm(before), steps.norm(after), "dataset", 1e-15)
                    if df1 or list(before.columns) != list(after.columns):
                        bad("dataset-changed", f"{lab} row {i}: {df1 or 'columns changed'}")
                    if kwargs != kw0:
                        bad("kwargs-changed", f"{lab}: {kw0} -> {kwargs}")
                    gone = contents.get(paths[i]) is None
                    if tt is not None and (hard or gone) and o.get("check_read", True):
                        bad("made-without-file", f"{lab} row {i}: " + ("the file is missing" if gone else f"storage reported {hard[0]['err']}")
                            + " but a Titration was returned")
                    ok_row = i in solved and solved[i][0] == contents.get(paths[i]) and not gone and not dsops.isnull(ds["alkalinity"].iloc[i]) \
                        and not edited(o, ds, i, solved)
                    out["log"].append((k, i, type(exc).__name__ if exc else "ok", fired))
                    if exc is not None:
                        if not fired and ok_row and not extra:
                            bad("cannot-make", f"{lab} row {i} ({ws['rows'][i]}): dataset shows alkalinity {ds['alkalinity'].iloc[i]!r} but making "
                                f"the Titration raised {type(exc).__name__}: {exc}")
                        continue
                    out["made"] += 1
                    if ok_row and not extra and not hard:
                        for c in dsops.SOL:
                            x, y = ds[c].iloc[i], tt.row.get(c, getattr(tt, c, np.nan))
                            if not dsops.close_col(c, y, x):
                                bad("differs-from-row", f"{lab} row {i}: {c}={y!r}, dataset shows {x!r}")
                                break
                        x, y = tt.alkalinity, ds["alkalinity"].iloc[i]
                        used = int(np.sum(np.asarray(tt.titration["used"], dtype=bool)))
                        if used != int(ds["alkalinity_npts"].iloc[i]):
                            bad("differs-from-row", f"{lab} row {i}: {used} points marked as used, dataset shows {ds['alkalinity_npts'].iloc[i]!r}")
                        out["compared"] += 1
                    w.active = False
                    live.append([o["id"], i, tt, view(tt), watch(tt, plan["watch"], calk)])
                    w.active = True
                elif o["op"] == "file":
                    dsops.put_file(o["path"], o["content"])
                    contents[o["path"]] = o["content"]
                    disturbed = disturbed or bool(live)
                elif o["op"] == "edit":
                    c = o["col"]
                    if c in ds.columns:
                        solved.pop(o["row"], None)
                        if isinstance(o["val"], str) and ds[c].dtype != object:
                            ds[c] = ds[c].astype(object)
                        ds.iloc[o["row"], ds.columns.get_loc(c)] = o["val"]
                        if c == "file_name":
                            paths[o["row"]] = None
                        disturbed = disturbed or bool(live)
                elif o["op"] == "resolve":
                    try:
                        solve_ds(o["do"], o["kwargs"])
                    except Exception as e:  # noqa: BLE001
                        solved.clear()
                        out["log"].append((k, "resolve", type(e).__name__))
                    disturbed = disturbed or bool(live)
                elif o["op"] == "plot_ds":
                    try:
                        getattr(calk.plot, o["which"])(ds)
                    except Exception:  # noqa: BLE001
                        pass
                    plt.close("all")
                elif o["op"] == "plot_tt":
                    for t in live:
                        if t[0] == o["id"]:
                            watch(t[2], [o["which"]], calk)
                elif o["op"] == "copy":
                    for t in [t for t in live if t[0] == o["id"]]:
                        how = o["how"]
                        try:
                            c = copy.copy(t[2]) if how == "copy" else copy.deepcopy(t[2]) if how == "deepcopy" else \
                                pickle.loads(pickle.dumps(t[2]))
                        except Exception as e:  # noqa: BLE001
                            bad("cannot-copy", f"{lab}: {how} of a Titration raised {type(e).__name__}: {str(e)[:100]}")
                            continue
                        live.append([o["new"], t[1], c, t[3], t[4]])
                elif o["op"] == "drop":
                    ds = df = None
                    O.made.clear()
                    gc.collect()
                    disturbed = disturbed or bool(live)
            finally:
                lines[k] = w.op_lines.get(0, 0)
                w.end_op()
            for ident, i, tt, v0, _ in live:
                try:
                    df1 = steps.differ(v0, view(tt), f"Titration {ident} (row {i})", 1e-12)
                except Exception as e:  # noqa: BLE001
                    df1 = f"Titration {ident} (row {i}) can no longer be read: {type(e).__name__}: {e}"
                out["checked"] += 1
                if df1:
                    bad("snapshot-changed", f"after {lab}: {df1}")
        w.active = False
        for ident, i, tt, v0, p0 in live:
            df1 = steps.differ(p0, watch(tt, plan["watch"], calk), f"plots of Titration {ident} (row {i})")
            if df1:
                bad("plot-changed", df1)
            try:
                df1 = steps.differ(v0, view(tt), f"Titration {ident} (row {i})", 1e-12)
            except Exception as e:  # noqa: BLE001
                df1 = f"{type(e).__name__}: {e}"
            if df1:
                bad("snapshot-changed", f"after plotting: {df1}")
    wm.uninstall()
    out.update(op_lines=lines, marks={}, sites=w.sites, inject=w.inject, faults=w.faults, lines=w.lines, ios=w.nio, digest=w.digest(),
               disturbed=disturbed)
    return out


def edited(o, ds, i, solved):
    return i not in solved


def run(ctx, plan):
    plan = dsops.resolve(ctx, plan, execute)
    obs = ctx.fork(execute, plan)
    viol = [{"kind": k, "detail": v} for k, v in obs["viol"]]
    stats = {"titrations_made": obs["made"], "rows_compared": obs["compared"], "snapshots_checked": obs["checked"],
             "sim_lines": obs["lines"], "sim_io_events": obs["ios"]}
    nt = obs["disturbed"]
    for f in obs["faults"]:
        if f["fired"]:
            nt = True
            stats[f"fault:{f['kind']}:{f['err']}"] = stats.get(f"fault:{f['kind']}:{f['err']}", 0) + f["fired"]
    for f in obs["inject"]:
        if f["fired"]:
            nt = True
            stats[f"fault:{f['exc']}@line"] = stats.get(f"fault:{f['exc']}@line", 0) + 1
    for o in plan["ops"]:
        if o["op"] in ("file", "edit", "resolve", "drop"):
            key = "fault:" + {"file": "file-deleted" if o.get("content") is None else "file-replaced", "edit": "row-edited",
                              "resolve": "dataset-resolved", "drop": "dataset-dropped"}[o["op"]]
            stats[key] = stats.get(key, 0) + 1
    return {"viol": viol, "stats": stats, "nontrivial": nt, "digest": c07.sig((obs["digest"], obs["log"], obs["made"], obs["checked"]))}


def shrink(plan):
    for k in range(len(plan["ops"])):
        p = copy.deepcopy(plan)
        del p["ops"][k]
        yield p
    for key in ("faults", "inject"):
        for k in range(len(plan[key])):
            p = copy.deepcopy(plan)
            del p[key][k]
            yield p
    n = len(plan["ws"]["rows"])
    if n > 1:
        used = {o["row"] for o in plan["ops"] if "row" in o}
        last = n - 1
        if last not in used:
            p = copy.deepcopy(plan)
            for key in ("rows", "index", "mols"):
                p["ws"][key] = p["ws"][key][:-1]
            yield p
    for i, r in enumerate(plan["ws"]["rows"]):
        for c in OPT + ["note", "analysis_batch"]:
            if c in r:
                p = copy.deepcopy(plan)
                del p["ws"]["rows"][i][c]
                yield p
    if len(plan["watch"]) > 1:
        for x in plan["watch"]:
            p = copy.deepcopy(plan)
            p["watch"] = [x]
            yield p
    if plan["world"].get("chunks") != [0]:
        p = copy.deepcopy(plan)
        p["world"] = {"chunks": [0], "bufsize": 8192}
        yield p
