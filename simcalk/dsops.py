"""Running dataset operations inside a simulated world, and the pristine oracles."""

import contextlib
import copy
import gc
import hashlib
import io
import os
import shutil
import warnings

import numpy as np
import pandas as pd

from . import gen, tables, world as world_mod

SOL = ["alkalinity_npts", "alkalinity_std", "alkalinity", "emf0", "gran_alkalinity", "gran_emf0", "pH_init",
       "temperature_init"]
SOL_ALL = SOL + ["alkalinity_offset"]
CAL = ["titrant_molinity_here", "titrant_molinity"]
RESULTS = SOL_ALL + ["titrant_molinity_here"]
FILLABLE = ["total_sulfate", "total_borate", "total_fluoride", "opt_total_borate", "titrant_amount_unit"]
DS_OPS = ("calibrate", "solve", "calkulate")


def put_file(path, content):
    """content: base64 text, None (remove) or "DIR"."""
    if os.path.isdir(path) and not os.path.islink(path):
        shutil.rmtree(path)
    elif os.path.lexists(path):
        os.unlink(path)
    if content is None:
        return
    d = os.path.dirname(path)
    if d:
        os.makedirs(d, exist_ok=True)
    if content == "DIR":
        os.makedirs(path)
        return
    data = gen.unb64(content) if isinstance(content, str) else content
    fd = world_mod._real_os_open(path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    try:
        os.write(fd, data)
    finally:
        os.close(fd)


def build_df(spec):
    cols = gen.all_columns(spec["rows"])
    data = {}
    for c in cols:
        vals = [r.get(c) for r in spec["rows"]]
        if any(v is None for v in vals):
            if all(v is None or isinstance(v, (int, float)) and not isinstance(v, bool) for v in vals):
                vals = [np.nan if v is None else float(v) for v in vals]
            else:
                vals = pd.Series([np.nan if v is None else v for v in vals], dtype=object).values
        data[c] = vals
    df = pd.DataFrame(data, columns=cols)
    for c in spec.get("datecols", []):
        if c in df:
            df[c] = pd.to_datetime(df[c])
    df.index = spec["index"]
    return df


def snap(ds):
    """Plain deep copy of the table, as a standard DataFrame."""
    d = pd.DataFrame({i: pd.Series(copy.deepcopy(list(ds.iloc[:, i])), dtype=ds.dtypes.iloc[i])
                      for i in range(ds.shape[1])})
    d.columns = list(ds.columns)
    d.index = list(ds.index)
    root = os.getcwd()
    for c in ("file_path", "file_name"):
        if c in d and any(isinstance(v, str) and v.startswith(root + "/") for v in d[c]):
            d[c] = pd.Series([v.replace(root, "{ROOT}") if isinstance(v, str) else v for v in d[c]],
                             dtype=object, index=d.index)
    return d


@contextlib.contextmanager
def quiet():
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        yield out


def row_path(row):
    fn = row.get("file_name")
    if not isinstance(fn, str):
        return None
    fp = row.get("file_path")
    p = os.path.join(fp, fn) if isinstance(fp, str) and not fn.startswith("{ROOT}") else fn
    return os.path.normpath(p.replace("{ROOT}/", ""))


def expand(df, root):
    """{ROOT} placeholders become absolute paths."""
    for c in ("file_path", "file_name"):
        if c in df:
            df[c] = [v.replace("{ROOT}", root) if isinstance(v, str) else v for v in df[c]]
    return df


def call_op(calk, ds, op):
    kw = op.get("kwargs", {})
    if "pH_range" in kw:
        kw = dict(kw, pH_range=tuple(kw["pH_range"]))
    if op.get("via") == "function" or not hasattr(ds, op["do"]):
        fn = getattr(calk.dataset, op["do"])
        return fn(ds, verbose=op.get("verbose", False), **kw)
    return getattr(ds, op["do"])(verbose=op.get("verbose", False), **kw)


def reload_ds(calk, ds, fmt):
    if fmt == "csv":
        b = io.StringIO(ds.to_csv(index=True, index_label="__i"))
        df = pd.read_csv(b).set_index("__i")
        df.index.name = None
        return calk.Dataset(df)
    if fmt == "pickle":
        import pickle

        return calk.Dataset(pickle.loads(pickle.dumps(pd.DataFrame(ds))))
    if fmt == "parquet":
        b = io.BytesIO()
        df = pd.DataFrame(ds).copy()
        df.to_parquet(b)
        b.seek(0)
        return calk.Dataset(pd.read_parquet(b))
    if fmt == "copy":
        return calk.Dataset(ds.copy())
    raise ValueError(fmt)


def user_fields(df):
    return [c for c in df.columns]


def fs_state(root):
    """Everything under root: kind, content digest, identity, times, mode."""
    out = {}
    for dp, dn, fn in os.walk(root):
        for n in dn:
            p = os.path.join(dp, n)
            out[os.path.relpath(p, root)] = ("link", os.readlink(p)) if os.path.islink(p) else ("dir", os.stat(p).st_mode)
        for n in fn:
            p = os.path.join(dp, n)
            st = os.lstat(p)
            fd = world_mod._real_os_open(p, os.O_RDONLY)
            try:
                h = hashlib.sha256()
                while True:
                    b = os.read(fd, 1 << 20)
                    if not b:
                        break
                    h.update(b)
            finally:
                os.close(fd)
            out[os.path.relpath(p, root)] = ("file", h.hexdigest(), st.st_ino, st.st_mtime_ns, st.st_mode, st.st_size)
    return out


def fs_diff(a, b):
    return ([("created", k) for k in sorted(set(b) - set(a))] + [("removed", k) for k in sorted(set(a) - set(b))]
            + [("modified", k) for k in sorted(set(a) & set(b)) if a[k] != b[k]])


def open_fds(root):
    """Paths under root that this process holds open."""
    out = []
    for f in os.listdir("/proc/self/fd"):
        try:
            t = os.readlink("/proc/self/fd/" + f)
        except OSError:
            continue
        if t.startswith(root + "/"):
            out.append(t[len(root) + 1:])
    return out


def execute(d, plan):
    """Run a plan's operations on one dataset; returns the observed history."""
    import calkulate as calk

    files = plan["ds"]["files"]
    for p, c in files.items():
        put_file(p, c)
    df = expand(build_df(plan["ds"]), d)
    ds = calk.Dataset(df) if plan.get("cls", "Dataset") == "Dataset" else df
    spec = dict(plan.get("world", {}))
    spec["faults"] = copy.deepcopy(plan.get("faults", []))
    spec["inject"] = copy.deepcopy(plan.get("inject", []))
    spec["record_sites"] = plan.get("record_sites")
    w = world_mod.World(d, spec)
    world_mod.install(w)
    hist = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for i, op in enumerate(plan["ops"]):
            rec = {"op": i, "do": op["do"]}
            fs0 = fs_state(d) if plan.get("fsck") and op["do"] not in ("files",) else None
            gc0 = len(w.gc_closed)
            if op["do"] in DS_OPS:
                rec["before"] = snap(ds)
                rec["kwargs_before"] = copy.deepcopy(op.get("kwargs", {}))
                n0 = len(w.opens)
                with quiet() as out:
                    w.begin_op(i)
                    try:
                        r = call_op(calk, ds, op)
                        rec["exc"] = None
                        rec["returned_same"] = r is ds
                        if r is not None and r is not ds:
                            rec["after_ret"] = snap(r)
                    except BaseException as e:  # noqa: BLE001
                        rec["exc"] = (type(e).__name__, str(e)[:200], world_mod.is_injected(e))
                    finally:
                        rec["lines"] = w.op_lines.get(0, 0)
                        rec["ios"] = w.op_ios.get(0, 0)
                        rec["unclosed"] = [h._rel for h in w.handles if h._op == i and not h.closed]
                        w.end_op()
                rec["after"] = snap(ds)
                rec["kwargs_after"] = copy.deepcopy(op.get("kwargs", {}))
                rec["opens"] = [x[2] for x in w.opens[n0:]]
                rec["after_interrupt"] = w.after_interrupt_opens.pop(0, [])
            elif op["do"] in ("meta", "read"):
                data, exp = tables.make(op["spec"])
                fn, kw = exp["call"]
                if "colspecs" in kw:
                    kw["colspecs"] = [tuple(c) for c in kw["colspecs"]]
                n0 = len(w.opens)
                w.begin_op(i)
                try:
                    with quiet():
                        getattr(calk, fn)(op["path"], **kw)
                    rec["exc"] = None
                except BaseException as e:  # noqa: BLE001
                    rec["exc"] = (type(e).__name__, str(e)[:200], world_mod.is_injected(e))
                finally:
                    rec["lines"] = w.op_lines.get(0, 0)
                    rec["unclosed"] = [h._rel for h in w.handles if h._op == i and not h.closed]
                    w.end_op()
                rec["opens"] = [x[2] for x in w.opens[n0:]]
            elif op["do"] == "files":
                for p, c in op["set"].items():
                    put_file(p, c)
            elif op["do"] == "edit":
                c = op["col"]
                v = op["val"]
                if c not in ds:
                    ds[c] = True if isinstance(v, bool) else (None if isinstance(v, str) else np.nan)
                if isinstance(v, (str, bool)) and ds[c].dtype != object and ds[c].dtype != bool or str(ds[c].dtype) == "str":
                    ds[c] = ds[c].astype(object)
                ds.iloc[op["row"], ds.columns.get_loc(c)] = np.nan if v is None else v
            elif op["do"] == "reload":
                ds = reload_ds(calk, ds, op["fmt"])
            elif op["do"] == "reorder":
                ds = calk.Dataset(ds.iloc[op["perm"]])
            elif op["do"] == "plot":
                from matplotlib import pyplot as plt

                rec["before"] = snap(ds)
                w.begin_op(i)
                try:
                    with quiet():
                        getattr(calk.plot, op["which"])(ds, **op.get("kwargs", {}))
                    rec["exc"] = None
                except BaseException as e:  # noqa: BLE001
                    rec["exc"] = (type(e).__name__, str(e)[:200], world_mod.is_injected(e))
                finally:
                    rec["lines"] = w.op_lines.get(0, 0)
                    rec["unclosed"] = [h._rel for h in w.handles if h._op == i and not h.closed]
                    w.end_op()
                    plt.close("all")
                rec["after"] = snap(ds)
            elif op["do"] == "titration":
                rec["before"] = snap(ds)
                rec["kwargs_before"] = copy.deepcopy(op.get("kwargs", {}))
                n0 = len(w.opens)
                w.begin_op(i)
                try:
                    with quiet():
                        tt = calk.to_Titration(ds, ds.index[op["row"]], **op.get("kwargs", {}))
                        rec["tt"] = {k: getattr(tt, k, None) for k in SOL}
                    rec["exc"] = None
                except BaseException as e:  # noqa: BLE001
                    rec["exc"] = (type(e).__name__, str(e)[:200], world_mod.is_injected(e))
                finally:
                    rec["lines"] = w.op_lines.get(0, 0)
                    rec["unclosed"] = [h._rel for h in w.handles if h._op == i and not h.closed]
                    w.end_op()
                rec["after"] = snap(ds)
                rec["kwargs_after"] = copy.deepcopy(op.get("kwargs", {}))
                rec["opens"] = [x[2] for x in w.opens[n0:]]
            else:
                raise ValueError(op["do"])
            if fs0 is not None:
                rec["fs"] = fs_diff(fs0, fs_state(d))
                if any(f["fired"] and f.get("op") == i and (f.get("err") == "KI" or "exc" in f) for f in w.faults + w.inject):
                    gc.collect()  # interrupted: clean-up of what is no longer reachable is good enough
                rec["fds"] = open_fds(d)
                rec["gc"] = w.gc_closed[gc0:]
            if rec.get("exc") and rec["exc"][0] in ("SimLivelock",):
                hist.append(rec)
                break
            hist.append(rec)
    world_mod.uninstall()
    return {
        "hist": hist,
        "faults": [dict(f) for f in w.faults],
        "inject": [dict(f) for f in w.inject],
        "opens": w.opens,
        "bypass": w.bypass,
        "footprint": w.footprint,
        "gc_closed": list(w.gc_closed),
        "unclosed": [h._rel for h in w.handles if not h.closed],
        "digest": w.digest(),
        "stats": dict(w.stats, lines=w.lines, ios=w.nio),
        "marks": {k[1]: v for k, v in w.marks.items() if k[0] == 0},
        "sites": w.sites,
    }


RELATIVE = ("frac", "rel", "site")


def resolve(ctx, plan, fn=None, *args):
    """Turn relative injection points ("frac" of an op's lines, `off` lines from one of its
    open/close events, or one occurrence of one of the distinct source lines it executes)
    into absolute line numbers, using a dry run without injections."""
    if not any(f["kind"] in RELATIVE for f in plan.get("inject", [])):
        return plan
    plan = copy.deepcopy(plan)
    dry = copy.deepcopy(plan)
    dry["inject"] = [f for f in dry["inject"] if f["kind"] not in RELATIVE]
    dry["record_sites"] = any(f["kind"] == "site" for f in plan["inject"])
    obs = ctx.fork(fn or execute, dry, *args)
    lines = obs.get("op_lines") or {r["op"]: r.get("lines", 0) for r in obs["hist"]}
    for f in plan["inject"]:
        if f["kind"] == "frac":
            n = int(f["u"] * max(1, lines.get(f["op"], 1))) + 1
        elif f["kind"] == "rel":
            marks = [("start", 0, None)] + obs["marks"].get(f["op"], []) + [("end", lines.get(f["op"], 1), None)]
            n = marks[min(int(f["u"] * len(marks)), len(marks) - 1)][1] + f["off"]
        elif f["kind"] == "site":
            sites = [v for k, v in obs["sites"].get((f.get("tid") or 0, f["op"]), {}).items()
                     if "in" not in f or os.path.basename(k[0]) in f["in"]]
            if not sites:
                n = 1
            else:
                occ = sites[int(f["u"] * len(sites)) % len(sites)]
                n = occ[int(f["v"] * len(occ)) % len(occ)]
        else:
            continue
        f["kind"], f["n"] = "line", max(1, n)
    return plan


# ------------------------------------------------------------------- oracles

def _merge(row, kwargs):
    kw = dict(kwargs)
    for k, v in (kw.pop("read_dat_kwargs", None) or {}).items():
        kw[k] = v
    if "pH_range" in kw:
        kw["pH_min"], kw["pH_max"] = kw.pop("pH_range")
    if "read_dat_method" in kw:
        kw["file_type"] = kw.pop("read_dat_method")
    if "read_dat_method" in row:
        kw["file_type"] = row["read_dat_method"]
    for k, v in row.items():
        if pd.notnull(v):
            kw[k] = v
    return kw


def solo(d, what, row_df, path, content, kwargs, direct=True):
    """Process one row on its own in a pristine process.

    Returns {"res": {column: value}, "raised": whether processing the file directly raises}.
    """
    import calkulate as calk

    if path is not None:
        put_file(path, content)
    one = row_df.copy()
    one.index = [0]
    one = expand(one, d)
    if "pH_range" in kwargs:
        kwargs = dict(kwargs, pH_range=tuple(kwargs["pH_range"]))
    out = {"raised": None, "res": None}
    with warnings.catch_warnings(), quiet():
        warnings.simplefilter("ignore")
        if direct:
            row = one.iloc[0]
            kw = _merge(row, kwargs)
            try:
                a = [kw.pop("file_name")]
                sal = kw.pop("salinity", np.nan)
                if what == "calibrate":
                    kw.pop("titrant_molinity", None)
                    kw = {k: v for k, v in kw.items() if k in calk.files.keys_calibrate}
                    calk.files.calibrate(a[0], row.alkalinity_certified, sal, **kw)
                else:
                    kw.pop("titrant_molinity", None)
                    calk.files.solve(a[0], row.titrant_molinity, sal, **kw)
                out["raised"] = False
            except Exception as e:  # noqa: BLE001
                out["raised"] = f"{type(e).__name__}: {e}"[:200]
        ds = calk.Dataset(one.copy())
        try:
            if what == "calibrate":
                ds.calibrate(**copy.deepcopy(kwargs))
                out["res"] = {"titrant_molinity_here": ds["titrant_molinity_here"].iloc[0]}
            else:
                ds.solve(**copy.deepcopy(kwargs))
                out["res"] = {c: ds[c].iloc[0] for c in SOL}
        except Exception as e:  # noqa: BLE001
            out["exc"] = f"{type(e).__name__}: {e}"[:200]
    return out


def fresh(d, plan, df, files, op):
    """One operation on a fresh table in a pristine process, without faults."""
    import calkulate as calk

    for p, c in files.items():
        put_file(p, c)
    ds = calk.Dataset(expand(df.copy(), d))
    with warnings.catch_warnings(), quiet():
        warnings.simplefilter("ignore")
        try:
            call_op(calk, ds, copy.deepcopy(op))
            exc = None
        except Exception as e:  # noqa: BLE001
            exc = (type(e).__name__, str(e)[:200])
    return {"after": snap(ds), "exc": exc}


# ------------------------------------------------------------------- comparisons

def isnull(v):
    try:
        return bool(pd.isnull(v))
    except (TypeError, ValueError):
        return False


def close(a, b, rtol=1e-7, atol=1e-9):
    if isnull(a) or isnull(b):
        return isnull(a) and isnull(b)
    try:
        a, b = float(a), float(b)
    except (TypeError, ValueError):
        return a == b
    if a == b:
        return True
    return np.isfinite(a) and np.isfinite(b) and abs(a - b) <= atol + rtol * max(abs(a), abs(b))


TOL = {"alkalinity_std": dict(rtol=1e-5, atol=1e-4), "alkalinity_npts": dict(rtol=0, atol=0),
       "alkalinity_offset": dict(rtol=1e-6, atol=3e-4), "emf0": dict(rtol=1e-6, atol=1e-5),
       "gran_emf0": dict(rtol=1e-6, atol=1e-5)}


def close_col(c, a, b):
    return close(a, b, **TOL.get(c, {}))


def blank(c, v):
    if c == "alkalinity_npts":
        return isnull(v) or v == 0
    return isnull(v)


def contents_at(plan, upto):
    """File contents (base64/None/"DIR") in force when op `upto` runs."""
    cur = dict(plan["ds"]["files"])
    for op in plan["ops"][:upto]:
        if op["do"] == "files":
            cur.update(op["set"])
    return cur


def truthy(v):
    return bool(v) and not isnull(v)
