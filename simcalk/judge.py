"""History checks shared by the batch-processing properties (C01-C03)."""

import re

import numpy as np
import pandas as pd

from . import gen
from .dsops import RESULTS, SOL, blank, close, close_col, contents_at, isnull, row_path, solo, truthy


def one_row(before, i, molinity=None):
    r = before.iloc[[i]].copy()
    r = r.drop(columns=[c for c in RESULTS if c in r])
    if molinity is not None:
        r["titrant_molinity"] = [molinity]
    return r


def row_state(plan, obs, opi, path):
    """clean | maybe | dead: what the injected storage faults did to this file in this op."""
    st = "clean"
    for f in obs["faults"]:
        if f.get("op") not in (None, opi) or f.get("file") not in (None, path) or not f["fired"]:
            continue
        if f["err"] == "EINTR":
            continue
        if f.get("open", "all") == "all" and (
            f["kind"] == "open" or f["kind"] == "read" and "byte" in f and not f.get("once")
        ):
            return "dead"
        st = "maybe"
    for f in obs["inject"]:
        if f["fired"] and f.get("op") in (None, opi) and f.get("file") in (None, path):
            st = "maybe"
    return st


def norm(s):
    return s.iloc[0] if isinstance(s, pd.Series) else s


def ref_mask(before):
    """Which rows count as usable references, by metadata alone."""
    if "reference_good" in before:
        return [truthy(v) for v in before["reference_good"]]
    return [not isnull(v) for v in before["alkalinity_certified"]]


def _setting(row, kwargs, key, default):
    if key in row and not isnull(row[key]):
        return row[key]
    kw = dict(kwargs)
    kw.update(kw.pop("read_dat_kwargs", None) or {})
    if "pH_range" in kw:
        kw["pH_min"], kw["pH_max"] = kw["pH_range"]
    v = kw.get(key, default)
    return default if isnull(v) else v


def numeric_lines(data):
    """Lines of a titration file holding at least three numbers, read independently."""
    out = []
    for line in data.decode("latin-1").splitlines():
        vals = []
        for x in re.split(r"[\t;,]", line):
            try:
                vals.append(float(x))
            except ValueError:
                pass
        if len(vals) >= 3:
            out.append(vals)
    return out


def must_fail(what, row, content, kwargs):
    """Why this titration cannot possibly be processed (judged without running Calkulate), or None."""
    if content is None or content == "DIR":
        return "its file does not exist"
    lines = numeric_lines(gen.unb64(content))
    if not lines:
        return "its file holds no data"
    mode = _setting(row, kwargs, "solve_mode", "emf")
    if str(mode).lower() not in ("emf", "ph_adjust", "ph", "ph_gran"):
        return f"solve_mode {mode!r} does not exist"
    unit = _setting(row, kwargs, "titrant_amount_unit", "ml")
    if str(unit).lower() not in ("ml", "g", "kg"):
        return f"titrant_amount_unit {unit!r} does not exist"
    lo, hi = _setting(row, kwargs, "pH_min", 3), _setting(row, kwargs, "pH_max", 4)
    try:
        if not lo < hi:
            return f"pH window {lo}-{hi} is empty"
        if what == "calibrate" and str(mode).lower() == "ph" and all(
            not (lo - 1e-6 <= x <= hi + 1e-6) for v in lines for x in v
        ):
            return f"no data in the pH window {lo}-{hi}"
    except TypeError:
        pass
    return None


def check_op(ctx, plan, obs, rec, prop=None):
    """All violations of the batch contract in one calibrate/solve/calkulate call.

    Yields (property, kind, detail)."""
    opi = rec["op"]
    op = plan["ops"][opi]
    before, after = rec["before"], rec["after"]
    kwargs = rec["kwargs_before"]
    if rec["exc"] is not None:
        yield "C01", "call-raised", f"op {opi} {op['do']}: {rec['exc']}"
        return
    if list(after.index) != list(before.index) or len(after) != len(before):
        yield "C01", "rows-changed", f"op {opi}: index {list(before.index)} -> {list(after.index)}"
        return
    contents = contents_at(plan, opi)
    need = ["titrant_molinity"] + SOL + (["titrant_molinity_here"] if op["do"] != "solve" else [])
    missing = [c for c in need if c not in after]
    if missing:
        yield "C01", "missing-columns", f"op {opi}: {missing}"
        return
    n = len(before)
    good = [truthy(v) for v in before["file_good"]] if "file_good" in before else [True] * n
    paths = [row_path(before.iloc[i]) for i in range(n)]
    cert = (
        [not isnull(v) for v in before["alkalinity_certified"]]
        if "alkalinity_certified" in before
        else [False] * n
    )
    checked = {"rows": 0}
    # --- individually calibrated molinities
    if op["do"] != "solve":
        here = list(after["titrant_molinity_here"])
        expected, unsure = [np.nan] * n, [False] * n
        for i in range(n):
            lab = f"op {opi} row {i} ({paths[i]})"
            if not (cert[i] and good[i]):
                if not isnull(here[i]):
                    yield "C02", "cal-not-blank", f"{lab}: not a usable reference but molinity_here={here[i]!r}"
                continue
            st = row_state(plan, obs, opi, paths[i])
            if st == "dead":
                if not isnull(here[i]):
                    yield "C02", "cal-not-blank", f"{lab}: unreadable but molinity_here={here[i]!r}"
                continue
            why = must_fail("calibrate", before.iloc[i], contents.get(paths[i]), kwargs)
            if why:
                if not isnull(here[i]):
                    for p in ("C02", "C03"):
                        yield p, "cal-not-blank", f"{lab}: {why} but molinity_here={here[i]!r}"
                continue
            o = ctx.oracle(solo, "calibrate", one_row(before, i), paths[i], contents.get(paths[i]), kwargs)
            exp = (o["res"] or {}).get("titrant_molinity_here", np.nan)
            if o["raised"]:
                if not isnull(here[i]):
                    yield "C02", "cal-not-blank", f"{lab}: cannot be calibrated ({o['raised']}) but molinity_here={here[i]!r}"
                    if "titrant_molinity_here" not in before or not close(here[i], before["titrant_molinity_here"].iloc[i], rtol=1e-9):
                        yield "C01", "cal-from-elsewhere", f"{lab}: fails on its own ({o['raised']}) but molinity_here={here[i]!r}"
                continue
            expected[i] = exp
            unsure[i] = st == "maybe"
            if st == "maybe" and isnull(here[i]):
                continue
            if not close(here[i], exp, rtol=1e-7):
                yield ("C02" if st == "maybe" else "C01"), "cal-wrong", (
                    f"{lab}: molinity_here={here[i]!r}, on its own {exp!r}")
        # --- batch means
        usable = ref_mask(before)
        batch = list(before["analysis_batch"]) if "analysis_batch" in before else [0] * n
        mol = list(after["titrant_molinity"])
        for b in sorted(set(batch), key=str):
            vals = [
                float(here[i]) for i in range(n) if batch[i] == b and usable[i] and not isnull(here[i])
            ]
            exp = float(np.mean(vals)) if vals else np.nan
            for i in range(n):
                if batch[i] == b and not close(mol[i], exp, rtol=1e-10):
                    yield "C03", "batch-mean", (
                        f"op {opi} row {i} batch {b!r}: titrant_molinity={mol[i]!r}, mean of "
                        f"{len(vals)} usable references is {exp!r}")
            # the same mean from the references processed alone, where faults leave no doubt
            mine = [i for i in range(n) if batch[i] == b]
            if not any(unsure[i] for i in mine):
                vals = [float(expected[i]) for i in mine if usable[i] and not isnull(expected[i])]
                exp = float(np.mean(vals)) if vals else np.nan
                for i in mine:
                    if not close(mol[i], exp, rtol=1e-6):
                        yield "C03", "batch-mean-alone", (
                            f"op {opi} row {i} batch {b!r}: titrant_molinity={mol[i]!r}, but its {len(vals)} "
                            f"usable references processed alone average {exp!r}")
    # --- solutions
    mol = list(after["titrant_molinity"])
    for i in range(n):
        lab = f"op {opi} row {i} ({paths[i]})"
        got = {c: after[c].iloc[i] for c in SOL}
        off = after["alkalinity_offset"].iloc[i] if "alkalinity_offset" in after else np.nan
        nonblank = [c for c in SOL if not blank(c, got[c])] + ([] if isnull(off) else ["alkalinity_offset"])

        def isblank(why):
            if nonblank:
                c = nonblank[0]
                return ("C02", "sol-not-blank", f"{lab}: {why} but {nonblank} not blank, e.g. "
                        f"{c}={got.get(c, off)!r}")

        if isnull(mol[i]):
            v = isblank("has no titrant molinity")
            if v:
                yield ("C03",) + v[1:] if op["do"] != "solve" else v
            continue
        if not good[i]:
            v = isblank("file_good is False")
            if v:
                yield v
            continue
        if prop == "C03":
            continue
        st = row_state(plan, obs, opi, paths[i])
        if st == "dead":
            v = isblank("unreadable")
            if v:
                yield v
            continue
        why = must_fail("solve", before.iloc[i], contents.get(paths[i]), kwargs)
        if why:
            v = isblank(why)
            if v:
                yield v
            continue
        o = ctx.oracle(solo, "solve", one_row(before, i, float(mol[i])), paths[i], contents.get(paths[i]), kwargs)
        if o["raised"]:
            v = isblank(f"cannot be solved ({o['raised']})")
            if v:
                yield v
                new = [c for c in nonblank if c in SOL and not (c in before and close_col(c, got[c], before[c].iloc[i]))]
                if new:
                    yield "C01", "result-from-elsewhere", f"{lab}: fails on its own ({o['raised']}) but {new[0]}={got[new[0]]!r}"
            continue
        if st == "maybe" and not nonblank:
            continue
        bad = [c for c in SOL if not close_col(c, got[c], (o["res"] or {}).get(c, np.nan))]
        if bad:
            yield ("C02" if st == "maybe" else "C01"), "sol-wrong", (
                f"{lab}: {bad[0]}={got[bad[0]]!r}, on its own {(o['res'] or {}).get(bad[0])!r} (differs: {bad})")
        if "alkalinity_certified" in before:
            e = got["alkalinity"] - before["alkalinity_certified"].iloc[i]
            if not close_col("alkalinity_offset", off, e):
                yield "C02", "offset-wrong", f"{lab}: alkalinity_offset={off!r}, expected {e!r}"
        checked["rows"] += 1
