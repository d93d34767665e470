SPECS = []


def add(id, prop, needs, breaks, edits, demo):
    SPECS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo))


DS = "calkulate/dataset.py"
RT = "calkulate/read/titrations.py"
FI = "calkulate/files.py"
CO = "calkulate/core.py"
CL = "calkulate/classes.py"
ME = "calkulate/meta.py"
CV = "calkulate/convert.py"
MD = "calkulate/read/metadata.py"
PL = "calkulate/plot/__init__.py"
PT = "calkulate/plot/titration.py"
SI = "calkulate/simulate.py"
LO = "calkulate/loss.py"
IN = "calkulate/interface.py"
DE = "calkulate/density.py"

# ------------------------------------------------------------------ C01
add("C01-give-up", "C01",
    "three or more titrations in one call that fail to solve",
    "solving raises once too many titrations in a row have failed",
    [(DS, '''            print(f'Error solving "{row.file_name}":')
            print(f"{e}")
            return solved
''', '''            print(f'Error solving "{row.file_name}":')
            print(f"{e}")
            if isinstance(e, OSError):
                _unreadable.append(row.file_name)
                if len(_unreadable) > 2:
                    # The data folder has probably been disconnected
                    raise
            return solved
        _unreadable.clear()
'''), (DS, '''def solve_row(row, verbose=False, **kwargs):
''', '''_unreadable = []


def solve_row(row, verbose=False, **kwargs):
'''), (DS, '''    solved_rows = ds.apply(solve_row, axis=1, verbose=verbose, **kwargs)
''', '''    _unreadable.clear()
    solved_rows = ds.apply(solve_row, axis=1, verbose=verbose, **kwargs)
''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    df = table(d, 5, titrant_molinity=0.1)
    for i in (1, 2, 3):
        os.unlink(f"{d}/t{i}.dat")
    try:
        ds = calk.dataset.solve(calk.Dataset(df))
        ok = ds.alkalinity.notnull().sum() == 2
    except Exception:
        ok = False
check(ok, "the call did not complete because three files were missing")
''')

add("C01-loc-assign", "C01",
    "a table whose index has repeated labels",
    "results are stored by row label, so rows with the same label get each other's results",
    [(DS, '''    for k, v in solved_rows.items():
        ds[k] = v
''', '''    for k in solved_rows:
        if k not in ds:
            ds[k] = np.nan
    results = solved_rows.to_dict("index") if solved_rows.index.is_unique else {
        i: solved_rows.loc[[i]].iloc[-1].to_dict() for i in solved_rows.index
    }
    for k in solved_rows:
        ds[k] = [results[i][k] for i in ds.index]
''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    df = table(d, 3, titrant_molinity=0.1)
    a = calk.dataset.solve(calk.Dataset(df.copy())).alkalinity.to_numpy()
    df.index = [1, 2, 1]
    b = calk.dataset.solve(calk.Dataset(df.copy())).alkalinity.to_numpy()
check(np.allclose(a, b), f"{b} instead of {a}")
''')

add("C01-mode-case", "C01",
    "an invalid solve mode (e.g. a number) in one row",
    "the solve modes are checked for the whole table at once, so one invalid one fails the call",
    [(DS, '''    if "file_good" not in ds:
        ds["file_good"] = True

''', '''    if "file_good" not in ds:
        ds["file_good"] = True
    if "solve_mode" in ds:
        modes = {m.lower() for m in ds.solve_mode[ds.solve_mode.notnull()]}
        assert all(m.replace("_", "").isalpha() for m in modes)

''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    df = table(d, 3, titrant_molinity=0.1)
    df["solve_mode"] = ["emf", "mode 7", "emf"]
    try:
        ds = calk.dataset.solve(calk.Dataset(df))
        ok = ds.alkalinity.notnull().sum() == 2
    except Exception:
        ok = False
check(ok, "the call did not complete because of one invalid solve mode")
''')

# ------------------------------------------------------------------ C02
add("C02-stale-std", "C02",
    "a row that was solved before and now fails (or is solved in pH_gran mode, which has no standard deviation)",
    "the standard deviation of the earlier run stays if the new one has none",
    [(DS, '''            "alkalinity_std": np.nan,
            "alkalinity": np.nan,
''', '''            "alkalinity_std": row.get("alkalinity_std", np.nan),
            "alkalinity": np.nan,
''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    ds = calk.Dataset(table(d, 2, titrant_molinity=0.1))
    calk.dataset.solve(ds)
    os.unlink(f"{d}/t1.dat")
    calk.dataset.solve(ds)
check(np.isnan(ds.alkalinity_std.iloc[1]), "the old standard deviation is shown for a row that failed")
''')

add("C02-skip-unchanged", "C02",
    "re-solving with the same molinity after the file of a row has become unreadable",
    "rows already solved with the same molinity are kept instead of being solved again",
    [(DS, '''            sr = files.solve(
                row.file_name,
                row.titrant_molinity,
                row.salinity,
                **kwargs_solve,
            )
''', '''            try:
                sr = files.solve(
                    row.file_name,
                    row.titrant_molinity,
                    row.salinity,
                    **kwargs_solve,
                )
            except OSError:
                # Not available any more: keep what it was
                if row.get("titrant_molinity_used") == row.titrant_molinity:
                    return row[solved.index]
                raise
'''), (DS, '''    if "alkalinity_certified" in ds:
        ds["alkalinity_offset"] =''', '''    ds["titrant_molinity_used"] = ds.titrant_molinity
    if "alkalinity_certified" in ds:
        ds["alkalinity_offset"] =''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    ds = calk.Dataset(table(d, 2, titrant_molinity=0.1))
    calk.dataset.solve(ds)
    os.unlink(f"{d}/t1.dat")
    calk.dataset.solve(ds)
check(np.isnan(ds.alkalinity.iloc[1]), "an old alkalinity is shown for a row that could not be read")
''')

# ------------------------------------------------------------------ C03
add("C03-outlier", "C03",
    "a batch with at least six usable references of which one is far off",
    "outliers are silently left out of the batch mean",
    [(DS, '''    return pd.Series(
        {
            "titrant_molinity": titrant_molinities.mean(),
''', '''    if titrant_molinities.size > 5:
        off = (titrant_molinities - titrant_molinities.median()).abs()
        titrant_molinities = titrant_molinities[off <= 5 * off.median()]
    return pd.Series(
        {
            "titrant_molinity": titrant_molinities.mean(),
''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    mols = [0.1, 0.1001, 0.0999, 0.1002, 0.0998, 0.1001, 0.104]
    ds = calk.Dataset(table(d, 7, refs=range(7), mols=mols))
    calk.dataset.calibrate(ds)
m = ds.titrant_molinity_here.mean()
check(abs(ds.titrant_molinity.iloc[0] / m - 1) < 1e-9, f"{ds.titrant_molinity.iloc[0]} instead of the mean {m}")
''')

add("C03-batch-case", "C03",
    "two batches whose names differ only in upper and lower case or in spaces",
    "batch names are compared without case and spaces, so different batches are merged",
    [(DS, '''    batches = (
        ds[["analysis_batch", "titrant_molinity_here", "reference_good"]]
        .groupby(by="analysis_batch")
        .apply(get_group_calibration, include_groups=False)
    )
    return batches
''', '''    refs = ds[["analysis_batch", "titrant_molinity_here", "reference_good"]]
    names = ds.analysis_batch.drop_duplicates()
    if names.map(lambda n: isinstance(n, str)).all():
        # Ignore accidental differences in how the batches are written
        tidy = ds.analysis_batch.str.strip().str.casefold()
        batches = refs.groupby(tidy).apply(get_group_calibration)
        batches = batches.loc[names.str.strip().str.casefold()]
        batches.index = names.to_numpy()
        return batches.rename_axis("analysis_batch").sort_index()
    batches = refs.groupby(by="analysis_batch").apply(
        get_group_calibration, include_groups=False
    )
    return batches
''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    df = table(d, 2, refs=(0, 1), mols=[0.1, 0.11])
    df["analysis_batch"] = ["A1", "a1"]
    ds = calk.Dataset(df)
    calk.dataset.calibrate(ds)
check(np.allclose(ds.titrant_molinity, ds.titrant_molinity_here), "two different batches were merged")
''')

add("C03-nearest-batch", "C03",
    "a numbered batch left without usable references between other batches",
    "a batch without usable references takes the molinity interpolated from its neighbours",
    [(DS, '''        .apply(get_group_calibration, include_groups=False)
    )
    return batches
''', '''        .apply(get_group_calibration, include_groups=False)
    )
    if len(batches) > 2 and pd.api.types.is_numeric_dtype(batches.index):
        batches["titrant_molinity"] = batches.titrant_molinity.interpolate(
            limit=1, limit_area="inside"
        )
    return batches
''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    ds = calk.Dataset(table(d, 3, refs=(0, 2), mols=[0.1, 0.105, 0.11], batches=[1, 2, 3]))
    calk.dataset.calibrate(ds)
check(np.isnan(ds.titrant_molinity.iloc[1]), "a batch without references got a molinity")
''')

# ------------------------------------------------------------------ C04
add("C04-warm-restart", "C04",
    "a run in which a batch gets no molinity (or a wrong one), followed by a clean one",
    "calibration starts from the molinity in the table, which is blank after a failed run",
    [(DS, '''            kwargs = _get_kwargs_for(files.keys_calibrate, kwargs, row)
            cal =''', '''            kwargs = _get_kwargs_for(files.keys_calibrate, kwargs, row)
            if "titrant_molinity" in row:
                kwargs.setdefault("titrant_molinity_init", row.titrant_molinity)
            cal =''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    ds = calk.Dataset(table(d, 2))
    os.rename(f"{d}/t0.dat", f"{d}/away")
    calk.dataset.calkulate(ds)
    os.rename(f"{d}/away", f"{d}/t0.dat")
    calk.dataset.calkulate(ds)
check(ds.alkalinity.notnull().all(), "still not calibrated after the file came back")
''')

add("C04-mass-sticks", "C04",
    "rows given by volume, run once with another temperature or density option and then without",
    "the analyte mass worked out in one run is stored and used by the next one",
    [(DS, '''            # Use a copy so that''', '''            if pd.isnull(row.analyte_mass):
                solved["analyte_mass"] = sr.analyte_mass
            # Use a copy so that''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    df = table(d, 2, titrant_molinity=0.1)
    df["analyte_volume"] = 97.0
    df = df.drop(columns="analyte_mass")
    a = calk.dataset.solve(calk.Dataset(df.copy())).alkalinity.to_numpy()
    ds = calk.Dataset(df.copy())
    calk.dataset.solve(ds, temperature_override=5.0)
    calk.dataset.solve(ds)
check(np.allclose(a, ds.alkalinity, rtol=1e-9), f"{ds.alkalinity.to_numpy()} instead of {a}")
''')

add("C04-npts-gate", "C04",
    "a run in which a titration fails, then a clean solve",
    "rows that had no usable points the last time are skipped",
    [(DS, '''    if pd.notnull(row.titrant_molinity) and row.file_good:
        if verbose:
            print(f"Solving''', '''    worth_it = row.get("alkalinity_npts", np.nan) != 0 or pd.isnull(
        row.get("titrant_molinity_here", np.nan)
    )
    if pd.notnull(row.titrant_molinity) and row.file_good and worth_it:
        if verbose:
            print(f"Solving''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    ds = calk.Dataset(table(d, 2, refs=(0, 1)))
    calk.dataset.calkulate(ds)
    os.rename(f"{d}/t0.dat", f"{d}/away")
    calk.dataset.solve(ds)
    os.rename(f"{d}/away", f"{d}/t0.dat")
    calk.dataset.solve(ds)
check(ds.alkalinity.notnull().all(), "not solved again although its file is readable")
''')

# ------------------------------------------------------------------ C05
add("C05-batchwise", "C05",
    "an interrupt while the references of a later batch are calibrated",
    "calibration is stored batch by batch as it proceeds",
    [(DS, '''    ds["titrant_molinity_here"] = ds.apply(
        calibrate_row, axis=1, verbose=verbose, **kwargs
    )
''', '''    if "analysis_batch" in ds and ds.analysis_batch.notnull().all():
        if "titrant_molinity_here" not in ds:
            ds["titrant_molinity_here"] = np.nan
        for _, b in ds.groupby("analysis_batch", sort=False):
            here = b.apply(calibrate_row, axis=1, verbose=verbose, **kwargs)
            B = (ds.analysis_batch == b.analysis_batch.iloc[0]).to_numpy()
            new = ds.titrant_molinity_here.to_numpy(dtype=float, copy=True)
            new[B] = here.to_numpy()
            ds["titrant_molinity_here"] = new
    else:
        ds["titrant_molinity_here"] = ds.apply(
            calibrate_row, axis=1, verbose=verbose, **kwargs
        )
''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    ds = calk.Dataset(table(d, 2, refs=(0, 1), mols=[0.1, 0.11], batches=[1, 2]))
    calk.dataset.calkulate(ds)
    before = ds.titrant_molinity_here.to_numpy().copy()
    ds["alkalinity_certified"] = ds.alkalinity_certified * 1.01
    real = calk.files.read_dat

    def interrupted(p, **k):
        if p.endswith("t1.dat"):
            raise KeyboardInterrupt
        return real(p, **k)

    calk.files.read_dat = interrupted
    try:
        calk.dataset.calkulate(ds)
    except KeyboardInterrupt:
        pass
    calk.files.read_dat = real
    after = ds.titrant_molinity_here.to_numpy()
ok = (before == after).all() or (before != after).all()
check(ok, "an interrupt left a mixture of old and new calibrations")
''')

add("C05-pool", "C05",
    "an interrupt while titrations are read, with more titrations still to come",
    "titrations are solved by a pool of threads, which finishes its queue although the run was interrupted",
    [(DS, '''    solved_rows = ds.apply(solve_row, axis=1, verbose=verbose, **kwargs)
''', '''    with ThreadPoolExecutor(1) as pool:
        jobs = [
            pool.submit(solve_row, row, verbose=verbose, **kwargs)
            for _, row in ds.iterrows()
        ]
        solved_rows = pd.DataFrame([j.result() for j in jobs], index=ds.index)
'''), (DS, '''from warnings import warn

import numpy''', '''from concurrent.futures import ThreadPoolExecutor
from warnings import warn

import numpy''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    ds = calk.Dataset(table(d, 4, titrant_molinity=0.1))
    real = calk.files.read_dat
    seen = []

    def interrupted(p, **k):
        seen.append(p)
        if len(seen) == 2:
            raise KeyboardInterrupt
        return real(p, **k)

    calk.files.read_dat = interrupted
    try:
        calk.dataset.solve(ds)
    except KeyboardInterrupt:
        pass
    calk.files.read_dat = real
check(len(seen) == 2, f"{len(seen) - 2} more files were read after the interrupt")
''')

add("C05-finalise", "C05",
    "an interrupt while references are calibrated",
    "the calibrations done so far are put into the table when the run is interrupted",
    [(DS, '''    ds["titrant_molinity_here"] = ds.apply(
        calibrate_row, axis=1, verbose=verbose, **kwargs
    )
''', '''    done = {}

    def here(row, **kw):
        done[len(done)] = calibrate_row(row, **kw)
        return done[len(done) - 1]

    try:
        ds["titrant_molinity_here"] = ds.apply(
            here, axis=1, verbose=verbose, **kwargs
        )
    except BaseException:
        if "titrant_molinity_here" in ds and len(done) > 1:
            old = ds.titrant_molinity_here.to_numpy(dtype=float, copy=True)
            old[: len(done)] = list(done.values())
            ds["titrant_molinity_here"] = old
        raise
''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    ds = calk.Dataset(table(d, 3, refs=(0, 1, 2)))
    calk.dataset.calkulate(ds)
    before = ds.titrant_molinity_here.to_numpy().copy()
    ds["alkalinity_certified"] = ds.alkalinity_certified * 1.01
    real = calk.files.read_dat

    def interrupted(p, **k):
        if p.endswith("t2.dat"):
            raise KeyboardInterrupt
        return real(p, **k)

    calk.files.read_dat = interrupted
    try:
        calk.dataset.calkulate(ds)
    except KeyboardInterrupt:
        pass
    calk.files.read_dat = real
    after = ds.titrant_molinity_here.to_numpy()
ok = (before == after).all() or (before != after).all()
check(ok, "an interrupt left a mixture of old and new calibrations")
''')

# ------------------------------------------------------------------ C06
add("C06-strip-names", "C06",
    "file names (or batch names) with spaces at their ends",
    "text columns are stripped in the user's table",
    [(DS, '''    if "file_good" not in ds:
        ds["file_good"] = True

''', '''    if "file_good" not in ds:
        ds["file_good"] = True
    for c in ("analysis_batch", "comments", "bottle"):
        if c in ds and ds[c].map(lambda v: isinstance(v, str)).all():
            ds[c] = ds[c].str.strip()

''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    df = table(d, 2, titrant_molinity=0.1)
    df["bottle"] = [" 12", "13 "]
    ds = calk.dataset.solve(calk.Dataset(df))
check(list(ds.bottle) == [" 12", "13 "], "text supplied by the user was changed")
''')

add("C06-plot-sorts", "C06",
    "plotting against a column that is not in increasing order",
    "plotting sorts the user's table",
    [(PL, '''    else:
        xdata = data[xvar]
        xlabel = xvar
    if "reference_good" in data:
        G = data.reference_good.values
    else:
        G = np.full(np.size(xdata), True)
    # Draw the figure
    fig, ax = plt.subplots(dpi=300)
    ax.scatter(
        xdata[G],
        data.titrant_molinity_here[G],''', '''    else:
        if show_batches and not data[xvar].is_monotonic_increasing:
            # so that the lines don't go back and forth
            data.sort_values(xvar, inplace=True)
        xdata = data[xvar]
        xlabel = xvar
    if "reference_good" in data:
        G = data.reference_good.values
    else:
        G = np.full(np.size(xdata), True)
    # Draw the figure
    fig, ax = plt.subplots(dpi=300)
    ax.scatter(
        xdata[G],
        data.titrant_molinity_here[G],''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    ds = calk.Dataset(table(d, 3, refs=(0, 1, 2)))
    ds["when"] = [3.0, 1.0, 2.0]
    calk.dataset.calkulate(ds)
    calk.plot.titrant_molinity(ds, xvar="when")
check(list(ds.index) == [0, 1, 2], "plotting changed the order of the rows")
''')

add("C06-clip-salinity", "C06",
    "a negative or absurd user-supplied value of total sulfate, borate or fluoride",
    "salt totals that are not positive are replaced by the estimate from salinity",
    [(DS, '''            ds[salt] = ds[salt].where(ds[salt].notnull(), other=results[salt])
''', '''            ds[salt] = ds[salt].where(ds[salt] > 0, other=results[salt])
''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    df = table(d, 2, titrant_molinity=0.1)
    df["total_fluoride"] = [0.0, 70.0]
    ds = calk.dataset.solve(calk.Dataset(df))
check(ds.total_fluoride.iloc[0] == 0.0, "a value supplied by the user was replaced")
''')

# ------------------------------------------------------------------ C07
add("C07-gca", "C07",
    "two threads plotting at the same time",
    "a titration plot draws into pyplot's current axes",
    [(PT, '''    ttt = tt.titration
    if ax is None:
        fig, ax = plt.subplots()
    ax.scatter(ttt.titrant_mass * 1e3, ttt.emf, **final_styler.scatter())
''', '''    ttt = tt.titration
    if ax is None:
        fig, ax = plt.subplots()
    plt.sca(ax)
    plt.scatter(ttt.titrant_mass * 1e3, ttt.emf, **final_styler.scatter())
''')],
    '''
import threading

import calkulate as calk
from matplotlib import pyplot as plt

with scratch() as d, quiet():
    ds = calk.Dataset(table(d, 2))
    calk.dataset.calkulate(ds)
    tts = [ds.to_Titration(i) for i in (0, 1)]
    axes = [plt.subplots()[1] for _ in tts]
    real = type(axes[0]).scatter
    sca = plt.sca
    inside, done = threading.Event(), threading.Event()

    def slow(ax):
        r = sca(ax)
        if threading.current_thread() is first:
            inside.set()
            done.wait(30)
        return r

    plt.sca = slow
    first = threading.Thread(target=lambda: calk.plot.titration.emf(tts[0], ax=axes[0]))
    first.start()
    inside.wait(5)
    plt.sca = sca
    calk.plot.titration.emf(tts[1], ax=axes[1])
    done.set()
    first.join()
n = [len(a.collections) for a in axes]
check(n == [1, 1], f"the points went into the wrong figure: {n}")
''')

add("C07-simulate-scratch", "C07",
    "two threads computing speciation at once",
    "the components are collected in a module-level dictionary",
    [(SI, '''    # Build up dict of solution components
    components = {}
''', '''    # Build up dict of solution components
    components = _components
    components.clear()
'''), (SI, '''            components["HSO4"] = TSO4 * h / (KSO4 + h)
    return components
''', '''            components["HSO4"] = TSO4 * h / (KSO4 + h)
    return dict(components)
'''), (SI, '''def alkalinity_components(
''', '''_components = {}


def alkalinity_components(
''')],
    '''
import threading

import calkulate as calk

tot = {"total_borate": np.full(3, 4e-4)}
ks = {"k_water": np.full(3, 1e-14), "k_borate": np.full(3, 2e-9)}
base = calk.simulate.alkalinity(np.array([8.0, 7.0, 6.0]), tot, ks)
inside, done = threading.Event(), threading.Event()


class Slow(dict):
    def __getitem__(self, k):
        if k == "k_borate":
            inside.set()
            done.wait(30)
        return dict.__getitem__(self, k)


out = []
t = threading.Thread(target=lambda: out.append(calk.simulate.alkalinity(np.array([8.0, 7.0, 6.0]), tot, Slow(ks))))
t.start()
inside.wait(30)
calk.simulate.alkalinity(np.array([4.0, 4.0, 4.0]), tot, ks)
done.set()
t.join()
check(np.allclose(out[0], base, rtol=1e-12), "another thread's values were used")
''')

add("C07-density-memo", "C07",
    "two threads converting amounts at the same time",
    "the last acid density is remembered with its composition in two separate steps",
    [(DE, '''    rhow25 = 0.99704  # g / cm**3
''', '''    if _memo["key"] == (molinity_HCl, molinity_NaCl):
        return _memo["rho"]
    _memo["key"] = (molinity_HCl, molinity_NaCl)
    rhow25 = 0.99704  # g / cm**3
'''), (DE, '''        / (1e3 + phi_mix * (mHCl + mNaCl) * rhow25)
    )
    return rho25
''', '''        / (1e3 + phi_mix * (mHCl + mNaCl) * rhow25)
    )
    _memo["rho"] = rho25
    return rho25
'''), (DE, '''def HCl_NaCl_25C_DSC07(''', '''_memo = {"key": None, "rho": None}


def HCl_NaCl_25C_DSC07(''')],
    '''
import threading

import calkulate as calk

f = calk.density.HCl_NaCl_25C_DSC07
f(0.3, 0.5)
want = f(0.1, 0.6)
f(0.3, 0.5)
inside, done = threading.Event(), threading.Event()
real = np.sqrt


class Slow:
    def __getattr__(self, k):
        return getattr(np, k)

    def sqrt(self, x):
        if threading.current_thread() is t:
            inside.set()
            done.wait(30)
        return real(x)


calk.density.np = Slow()
t = threading.Thread(target=lambda: f(0.1, 0.6))
t.start()
inside.wait(30)
got = f(0.1, 0.6)
done.set()
t.join()
calk.density.np = np
check(abs(got / want - 1) < 1e-12, f"{got} instead of {want}")
''')

# ------------------------------------------------------------------ C08
add("C08-sigint", "C08",
    "a titration that fails while being solved",
    "Ctrl-C is held back while a file is read and only let through again if reading succeeds",
    [(RT, '''    with open(file_name, mode="r", encoding="unicode-escape") as f:
        data_full = f.read().splitlines()
''', '''    try:
        old = signal.signal(signal.SIGINT, signal.SIG_IGN)
    except ValueError:  # not in the main thread
        old = None
    with open(file_name, mode="r", encoding="unicode-escape") as f:
        data_full = f.read().splitlines()
    if old is not None:
        signal.signal(signal.SIGINT, old)
'''), (RT, "import re\nfrom coll", "import re\nimport signal\nfrom coll")],
    '''
import signal

import calkulate as calk

a = signal.getsignal(signal.SIGINT)
try:
    calk.read_dat("/nonexistent/file", file_type="pclims")
except OSError:
    pass
check(signal.getsignal(signal.SIGINT) is a, "the SIGINT handler was changed")
''')

add("C08-locale", "C08",
    "importing a dbs file with a row whose date is not text",
    "the locale is switched while dates are parsed and stays so for undated rows",
    [(MD, '''    try:
        dspl = dbs_row["date"].split("/")
''', '''    old = locale.setlocale(locale.LC_TIME)
    locale.setlocale(locale.LC_TIME, "C")
    try:
        dspl = dbs_row["date"].split("/")
'''), (MD, '''            + dbs_row["time"]
        )
    except''', '''            + dbs_row["time"]
        )
        locale.setlocale(locale.LC_TIME, old)
    except'''), (MD, "import matplotlib.dates", "import locale\n\nimport matplotlib.dates")],
    '''
import locale

import calkulate as calk

try:
    locale.setlocale(locale.LC_TIME, "C.UTF-8")
except locale.Error:
    raise SystemExit(0)
a = locale.setlocale(locale.LC_TIME)
calk.read.metadata.dbs_datetime({"date": float("nan"), "time": "10:00"})
check(locale.setlocale(locale.LC_TIME) == a, "the locale was changed")
''')

add("C08-redirect", "C08",
    "two threads running at once, or a run that is interrupted",
    "standard output is replaced while a titration is calibrated and put back afterwards",
    [(DS, '''            cal = files.calibrate(
                row.file_name,
                row.alkalinity_certified,
                row.salinity,
                **kwargs,
            )
''', '''            stdout = sys.stdout
            if not verbose:
                sys.stdout = io.StringIO()  # keep the solver quiet
            cal = files.calibrate(
                row.file_name,
                row.alkalinity_certified,
                row.salinity,
                **kwargs,
            )
            sys.stdout = stdout
'''), (DS, '''        except Exception as e:
            print(f'Error calibrating''', '''        except Exception as e:
            sys.stdout = stdout
            print(f'Error calibrating'''), (DS, "from warnings import warn\n\nimport numpy", "import io\nimport sys\nfrom warnings import warn\n\nimport numpy")],
    '''
import sys

import calkulate as calk

with scratch() as d:
    df = table(d, 2)
    real = calk.files.read_dat

    def interrupted(p, **k):
        raise KeyboardInterrupt

    calk.files.read_dat = interrupted
    out = sys.stdout
    try:
        calk.dataset.calibrate(calk.Dataset(df))
    except KeyboardInterrupt:
        pass
    now, sys.stdout = sys.stdout, out
check(now is out, "standard output was left replaced after an interrupt")
''')

# ------------------------------------------------------------------ C09
add("C09-log", "C09",
    "a titration that fails to solve with a KeyError-like problem",
    "failures are logged to a file beside the data",
    [(DS, '''            print(f'Error solving "{row.file_name}":')
            print(f"{e}")
            return solved
''', '''            print(f'Error solving "{row.file_name}":')
            print(f"{e}")
            if not isinstance(e, OSError):
                with open("calkulate_errors.log", "a") as log:
                    log.write(f"{row.file_name}: {e}\\n")
            return solved
''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    df = table(d, 2, titrant_molinity=0.1)
    with open(f"{d}/t1.dat", "w") as f:
        f.write("nothing\\nuseful\\nhere\\n")
    cwd = os.getcwd()
    os.chdir(d)
    calk.dataset.solve(calk.Dataset(df))
    os.chdir(cwd)
    files = sorted(os.listdir(d))
check(files == ["t0.dat", "t1.dat"], f"files were created: {files}")
''')

add("C09-case-fallback", "C09",
    "a missing file beside one whose name differs only in case",
    "a missing file is replaced by one whose name is spelt differently",
    [(RT, '''    dat_data = file_types[file_type](file_name, **kwargs)
''', '''    if isinstance(file_name, str) and not os.path.exists(file_name):
        # Some instruments change the case of the file extension
        root, ext = os.path.splitext(file_name)
        for alt in (root + ext.upper(), root + ext.lower()):
            if os.path.exists(alt):
                file_name = alt
    dat_data = file_types[file_type](file_name, **kwargs)
'''), (RT, "import re\nfrom coll", "import os\nimport re\nfrom coll")],
    '''
import calkulate as calk

with scratch() as d, quiet():
    df = table(d, 2, titrant_molinity=0.1)
    os.rename(f"{d}/t1.dat", f"{d}/t1.DAT")
    ds = calk.dataset.solve(calk.Dataset(df))
check(np.isnan(ds.alkalinity.iloc[1]), "another file than the one named was read")
''')

add("C09-tiamo-leak", "C09",
    "a Tiamo file that cannot be decoded or lacks its data block",
    "the file stays open if it is not what was expected",
    [(RT, '''    with open(file_name, "r", encoding=encoding) as f:
        data = f.read().splitlines()
    gran_line = data.index("Gran.1")
''', '''    f = open(file_name, "r", encoding=encoding)
    data = f.read().splitlines()
    gran_line = data.index("Gran.1")
    f.close()
''')],
    '''
import calkulate as calk

with scratch() as d:
    p = f"{d}/x.txt"
    with open(p, "w") as f:
        f.write("no data here\\n")
    import warnings

    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            calk.read_dat(p, file_type="tiamo_de")
        except Exception as e:
            del e
        import gc

        gc.collect()
check(not [x for x in w if issubclass(x.category, ResourceWarning)], "the file was left open")
''')

# ------------------------------------------------------------------ C10
add("C10-empty-ok", "C10",
    "exporting to a path where an empty file exists",
    "an empty existing file is silently replaced",
    [(RT, '''    with open(filepath, mode=mode, **open_kwargs) as f:
''', '''    if mode == "x" and os.path.isfile(filepath) and not os.path.getsize(filepath):
        mode = "w"  # left over from an export that failed
    with open(filepath, mode=mode, **open_kwargs) as f:
'''), (RT, "import re\nfrom coll", "import os\nimport re\nfrom coll")],
    '''
import calkulate as calk

with scratch() as d:
    p = f"{d}/out.dat"
    open(p, "w").close()
    try:
        calk.write_dat(p, [1.0], [2.0], [3.0])
        bad = True
    except FileExistsError:
        bad = False
check(not bad, "an existing (empty) file was overwritten")
''')

add("C10-symlink", "C10",
    "exporting to a path that is a symbolic link to a missing or existing file",
    "links are followed before creating, so the target of a dangling link is created",
    [(RT, '''    with open(filepath, mode=mode, **open_kwargs) as f:
''', '''    if isinstance(filepath, str) and os.path.islink(filepath):
        filepath = os.path.realpath(filepath)
    with open(filepath, mode=mode, **open_kwargs) as f:
'''), (RT, "import re\nfrom coll", "import os\nimport re\nfrom coll")],
    '''
import calkulate as calk

with scratch() as d:
    p = f"{d}/out.dat"
    os.symlink(f"{d}/elsewhere.dat", p)
    try:
        calk.write_dat(p, [1.0], [2.0], [3.0])
        bad = True
    except FileExistsError:
        bad = False
check(not bad, "exporting to an existing link succeeded")
''')

add("C10-retry", "C10",
    "an export that fails once because of the storage, with another exporter creating the file meanwhile",
    "a failed creation is retried without the protection against overwriting",
    [(RT, '''    with open(filepath, mode=mode, **open_kwargs) as f:
''', '''    try:
        open(filepath, mode=mode, **open_kwargs).close()
    except FileExistsError:
        raise
    except OSError:
        time.sleep(0.01)  # may be a temporary problem of a network drive
    if mode == "x":
        mode = "w"
    with open(filepath, mode=mode, **open_kwargs) as f:
'''), (RT, "import re\nfrom coll", "import re\nimport time\nfrom coll")],
    '''
import builtins
import errno

import calkulate as calk

with scratch() as d:
    p = f"{d}/out.dat"
    real = open
    n = []

    def flaky(path, *a, **k):
        if str(path) == p and not n:
            n.append(1)
            with real(p, "w") as f:
                f.write("precious")
            raise OSError(errno.ETIMEDOUT, "timed out")
        return real(path, *a, **k)

    builtins.open = flaky
    try:
        calk.write_dat(p, [1.0], [2.0], [3.0])
    except OSError:
        pass
    builtins.open = real
    with open(p) as f:
        txt = f.read()
check(txt == "precious", "an existing file was overwritten")
''')

# ------------------------------------------------------------------ C11
WLOOP = '''        for titrant_amount_i, measurement_i, temperature_i in zip(
            titrant_amount, measurement, temperature
        ):
            f.write(
                (
                    "{:"
                    + titrant_amount_fmt
                    + "}\\t{:"
                    + measurement_fmt
                    + "}\\t{:"
                    + temperature_fmt
                    + "}\\n"
                ).format(
                    titrant_amount_i,
                    measurement_i,
                    temperature_i,
                )
            )
'''
add("C11-block", "C11",
    "exporting a number of points that is one more than a multiple of 64",
    "data are written in blocks of 64 and a last block of one point is lost",
    [(RT, WLOOP, '''        fmt = "\\t".join(
            "{:" + x + "}"
            for x in (titrant_amount_fmt, measurement_fmt, temperature_fmt)
        )
        rows = list(zip(titrant_amount, measurement, temperature))
        for i in range(0, max(len(rows) - 1, 1), 64):
            f.write("".join(fmt.format(*r) + "\\n" for r in rows[i : i + 64]))
''')],
    '''
import calkulate as calk

with scratch() as d:
    p = f"{d}/out.dat"
    x = np.arange(129.0)
    calk.write_dat(p, x, x, x)
    n = len(calk.read_dat(p).measurement)
check(n == 129, f"only {n} of 129 points were written")
''')

add("C11-close-ignored", "C11",
    "a storage error that is only reported when the file is closed",
    "errors on closing the file are ignored",
    [(RT, '''    with open(filepath, mode=mode, **open_kwargs) as f:
        f.write("{}\\n{}\\n".format(line0, line1))
''', '''    with contextlib.ExitStack() as stack:
        f = open(filepath, mode=mode, **open_kwargs)

        @stack.callback
        def close():
            try:
                f.close()
            except OSError as e:
                warn(f"could not close {filepath}: {e}")

        f.write("{}\\n{}\\n".format(line0, line1))
'''), (RT, "import re\nfrom coll", "import contextlib\nimport re\nfrom coll")],
    '''
import builtins
import errno
import io

import calkulate as calk

with scratch() as d:
    p = f"{d}/out.dat"

    class Full(io.FileIO):
        def write(self, b):
            raise OSError(errno.ENOSPC, "No space left on device")

    real = open

    def full(path, mode="r", *a, **k):
        if str(path) == p:
            return io.TextIOWrapper(io.BufferedWriter(Full(p, "w")))
        return real(path, mode, *a, **k)

    builtins.open = full
    try:
        calk.write_dat(p, [1.0], [2.0], [3.0])
        bad = True
    except OSError:
        bad = False
    builtins.open = real
check(not bad, "the export returned normally although the disk was full")
''')

add("C11-resume", "C11",
    "a write error in the middle of an export",
    "a failed write is tried once more, which repeats what had already been written",
    [(RT, WLOOP, '''        fmt = "\\t".join(
            "{:" + x + "}"
            for x in (titrant_amount_fmt, measurement_fmt, temperature_fmt)
        )
        for row in zip(titrant_amount, measurement, temperature):
            try:
                f.write(fmt.format(*row) + "\\n")
                f.flush()
            except OSError:
                f.write(fmt.format(*row) + "\\n")
''')],
    '''
import builtins
import errno
import io

import calkulate as calk

with scratch() as d:
    p = f"{d}/out.dat"
    n = []

    class Flaky(io.FileIO):
        def write(self, b):
            n.append(1)
            if len(n) == 4:
                raise OSError(errno.EIO, "I/O error")
            return super().write(b)

    real = open

    def flaky(path, mode="r", *a, **k):
        if str(path) == p:
            return io.TextIOWrapper(io.BufferedWriter(Flaky(p, "w")))
        return real(path, mode, *a, **k)

    builtins.open = flaky
    x = np.arange(6.0)
    try:
        calk.write_dat(p, x, x, x)
    except OSError:
        pass
    builtins.open = real
    with open(p) as f:
        got = f.read()
    q = f"{d}/good.dat"
    calk.write_dat(q, x, x, x)
    with open(q) as f:
        want = f.read()
check(want.startswith(got), "an error was not reported or left something else than a leading part")
''')

# ------------------------------------------------------------------ C12
add("C12-maxrows", "C12",
    "a titration file with more than 1000 points",
    "only the first 1000 points are imported",
    [(RT, '''    data = np.genfromtxt(
        file_name, delimiter=delimiter, skip_header=skip_header, **kwargs
    )
''', '''    kwargs.setdefault("max_rows", 1000)  # much faster
    data = np.genfromtxt(
        file_name, delimiter=delimiter, skip_header=skip_header, **kwargs
    )
''')],
    '''
import calkulate as calk

with scratch() as d:
    p = f"{d}/x.dat"
    with open(p, "w") as f:
        f.write("a\\nb\\n" + "".join(f"{i}\\t{i}\\t25\\n" for i in range(1500)))
    n = len(calk.read_dat(p).measurement)
check(n == 1500, f"{n} of 1500 rows")
''')

add("C12-pclims-stream", "C12",
    "a storage error in the middle of a PC LIMS file",
    "the file is read line by line and a storage error ends it quietly",
    [(RT, '''    with open(file_name, mode="r", encoding="unicode-escape") as f:
        data_full = f.read().splitlines()
''', '''    data_full = []
    with open(file_name, mode="rb") as f:
        try:
            for line in f:
                data_full.append(line.decode("unicode-escape").rstrip("\\r\\n"))
        except OSError:
            if not data_full:
                raise
''')],
    '''
import builtins
import errno
import io

import calkulate as calk

with scratch() as d:
    p = f"{d}/x.txt"
    with open(p, "w") as f:
        f.write("head\\n" + "".join(f"{i}\\t{i}.0\\t{i}.5\\t0\\t0\\t25.0\\n" for i in range(3000)))

    class Bad(io.FileIO):
        def readinto(self, b):
            if self.tell() > 20000:
                raise OSError(errno.EIO, "I/O error")
            return super().readinto(b)

        def readall(self):
            raise OSError(errno.EIO, "I/O error")

    real = open

    def bad(path, mode="r", *a, **k):
        if str(path) == p:
            f = io.BufferedReader(Bad(p))
            return f if "b" in mode else io.TextIOWrapper(f, encoding=k.get("encoding"))
        return real(path, mode, *a, **k)

    builtins.open = bad
    try:
        calk.read_dat(p, file_type="pclims")
        ok = False
    except OSError:
        ok = True
    builtins.open = real
check(ok, "a partial table was returned although the storage reported an error")
''')

add("C12-float32", "C12",
    "values with more than seven digits, or a table with more than 2000 lines",
    "long files are stored in single precision",
    [(RT, '''    # Convert data to float arrays
    data = np.array(data, dtype="float64")
''', '''    # Convert data to float arrays
    data = np.array(data, dtype="float64" if len(data) < 500 else "float32")
''')],
    '''
import calkulate as calk

with scratch() as d:
    p = f"{d}/x.txt"
    with open(p, "w") as f:
        f.write("head\\n" + "".join(f"{i}\\t{i}.123456\\t{i}.5\\t0\\t0\\t25.0\\n" for i in range(600)))
    x = calk.read_dat(p, file_type="pclims").titrant_amount
check(float(x[500]) == 500.123456, f"{x[500]!r} instead of 500.123456")
''')

# ------------------------------------------------------------------ C13
add("C13-sort", "C13",
    "arrays that are not in order of titrant mass",
    "points are sorted in place before the Gran plot",
    [(CO, '''    ga = gran_alkalinity(
        titrant_mass,
        emf,
        temperature,
        analyte_mass,
        titrant_molinity,
        titrant_normality=titrant_normality,
        gran_logic=gran_logic,
    )
    emf0s = gran_emf0s(''', '''    order = np.argsort(titrant_mass, kind="stable")
    if (np.diff(order) != 1).any():
        for x in (titrant_mass, emf, temperature):
            if np.size(x) == np.size(order):
                x[:] = x[order]
    ga = gran_alkalinity(
        titrant_mass,
        emf,
        temperature,
        analyte_mass,
        titrant_molinity,
        titrant_normality=titrant_normality,
        gran_logic=gran_logic,
    )
    emf0s = gran_emf0s(''')],
    '''
import calkulate as calk

pts = points()
x = np.array([p[0] for p in pts]) * 1e-3
e = np.array([p[1] for p in pts])
t = np.array([p[2] for p in pts])
x[3], x[4] = x[4], x[3]
e[3], e[4] = e[4], e[3]
a = x.copy()
calk.core.gran_guesses(x, e, t, 0.1, 0.1)
check((a == x).all(), "the caller's array was sorted")
''')

add("C13-setdefault", "C13",
    "a totals dictionary without dic",
    "missing totals are added to the caller's dictionary",
    [(SI, '''    # Build up dict of solution components
    components = {}
''', '''    # Build up dict of solution components
    components = {}
    if "k_carbonic_1" in k_constants:
        totals.setdefault("dic", 0.0)
''')],
    '''
import calkulate as calk

tot = {"total_borate": np.full(3, 4e-4)}
ks = {"k_water": 1e-14, "k_borate": 2e-9, "k_carbonic_1": 1e-6, "k_carbonic_2": 1e-9}
calk.simulate.alkalinity_components(np.array([8.0, 7.0, 6.0]), tot, ks)
check(list(tot) == ["total_borate"], "the caller's dictionary was changed")
''')

add("C13-clip-temperature", "C13",
    "temperatures below the freezing point (or not numbers)",
    "implausible temperatures are replaced in the caller's array",
    [(CV, '''def amount_units(''', '''def _plausible(temperature):
    """Cut off sensor glitches."""
    if isinstance(temperature, np.ndarray) and temperature.dtype == float:
        return np.clip(temperature, -2.0, 90.0, out=temperature)
    return temperature


def amount_units('''), (CV, '''def emf_to_h(emf, emf0, temperature):
''', '''def emf_to_h(emf, emf0, temperature):
''')],
    '''
raise SystemExit(0)
''')
SPECS.pop()  # superseded by C13-nan-emf

add("C13-nan-emf", "C13",
    "an EMF array with blanks (NaN)",
    "blanks in the caller's EMF array are filled by interpolation",
    [(CO, '''    ga = gran_alkalinity(
        titrant_mass,
        emf,
        temperature,
        analyte_mass,
        titrant_molinity,
        titrant_normality=titrant_normality,
        gran_logic=gran_logic,
    )
    emf0s = gran_emf0s(''', '''    bad = np.isnan(emf)
    if bad.any() and not bad.all():
        emf[bad] = np.interp(titrant_mass[bad], titrant_mass[~bad], emf[~bad])
    ga = gran_alkalinity(
        titrant_mass,
        emf,
        temperature,
        analyte_mass,
        titrant_molinity,
        titrant_normality=titrant_normality,
        gran_logic=gran_logic,
    )
    emf0s = gran_emf0s(''')],
    '''
import calkulate as calk

pts = points()
x = np.array([p[0] for p in pts]) * 1e-3
e = np.array([p[1] for p in pts])
t = np.array([p[2] for p in pts])
e[2] = np.nan
try:
    calk.core.gran_guesses(x, e, t, 0.1, 0.1)
except Exception:
    pass
check(np.isnan(e[2]), "the caller's array was changed")
''')

# ------------------------------------------------------------------ C14
add("C14-coarse-cache", "C14",
    "two titrations with almost the same conditions in one process",
    "equilibrium constants are cached by rounded salinity and temperature",
    [(IN, '''    k_constants_pyco2 = pyco2.equilibria.assemble(
        temperature,
        0,  # assume 1 atm pressure i.e. zero in-water pressure
        totals_pyco2,  # this contains salinity
        opt_pH_scale,
        opt_k_carbonic,
        opt_k_bisulfate,
        opt_k_fluoride,
        3,
        Ks=k_constants_pyco2,
    )
''', '''    key = repr(
        (
            np.round(temperature, 1),
            {k: np.round(v, 5) for k, v in totals_pyco2.items()},
            k_constants_pyco2,
            opt_pH_scale,
            opt_k_carbonic,
            opt_k_bisulfate,
            opt_k_fluoride,
        )
    )
    if key not in _cache:
        _cache[key] = pyco2.equilibria.assemble(
            temperature,
            0,  # assume 1 atm pressure i.e. zero in-water pressure
            totals_pyco2,  # this contains salinity
            opt_pH_scale,
            opt_k_carbonic,
            opt_k_bisulfate,
            opt_k_fluoride,
            3,
            Ks=k_constants_pyco2,
        )
    k_constants_pyco2 = _cache[key]
'''), (IN, '''def get_k_constants(
''', '''_cache = {}


def get_k_constants(
'''), (IN, "import pandas as pd\n", "import numpy as np\nimport pandas as pd\n")],
    '''
import calkulate as calk

tot, tp = calk.interface.get_totals(35.0)
t = np.array([24.98, 25.0])
calk.interface.get_k_constants(tp, t + 0.03)
a = calk.interface.get_k_constants(tp, t)["k_water"]
b = calk.interface.pyco2.equilibria.assemble(t, 0, tp, 3, 10, 1, 1, 3, Ks={"RGas": 30})["KW"]
check(np.allclose(a, b, rtol=1e-9, atol=0), "the constants depend on what was computed before")
''')

add("C14-cwd-path", "C14",
    "an absolute path and a file of the same name in the working directory",
    "a file in the working directory takes precedence over the one in file_path",
    [(FI, '''    # Import the titration data file
    if "file_path" in kwargs:
        file_name = os.path.join(kwargs["file_path"], file_name)
    kwargs_read_dat = _get_kwargs_for(keys_read_dat, kwargs)
    dd = read_dat(file_name, **kwargs_read_dat)
    # Convert amount units
    kwargs_cau = _get_kwargs_for(keys_cau, kwargs)
    cv = amount_units(dd, salinity, **kwargs_cau)
    # Get total salts and equilibrium constants
    kwargs_totals_ks = _get_kwargs_for(keys_totals_ks, kwargs)
    totals, k_constants = totals_ks(cv, **kwargs_totals_ks)
    kwargs_titrant''', '''    # Import the titration data file
    if "file_path" in kwargs and not os.path.isfile(file_name):
        file_name = os.path.join(kwargs["file_path"], file_name)
    kwargs_read_dat = _get_kwargs_for(keys_read_dat, kwargs)
    dd = read_dat(file_name, **kwargs_read_dat)
    # Convert amount units
    kwargs_cau = _get_kwargs_for(keys_cau, kwargs)
    cv = amount_units(dd, salinity, **kwargs_cau)
    # Get total salts and equilibrium constants
    kwargs_totals_ks = _get_kwargs_for(keys_totals_ks, kwargs)
    totals, k_constants = totals_ks(cv, **kwargs_totals_ks)
    kwargs_titrant''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    df = table(f"{d}/data", 2, titrant_molinity=0.1)
    a = calk.dataset.solve(calk.Dataset(df.copy())).alkalinity.to_numpy()
    write(f"{d}/cwd/t0.dat", alk=2500.0)
    cwd = os.getcwd()
    os.chdir(f"{d}/cwd")
    b = calk.dataset.solve(calk.Dataset(df.copy())).alkalinity.to_numpy()
    os.chdir(cwd)
check(np.allclose(a, b), "the results depend on the working directory")
''')

# ------------------------------------------------------------------ C15
add("C15-iloc", "C15",
    "a dataset whose index is not 0, 1, 2, ...",
    "integers are taken as positions instead of labels when a row is looked up",
    [(CL, '''    return Titration(ds.loc[index], **kwargs)
''', '''    if isinstance(index, int) and 0 <= index < len(ds.index):
        return Titration(ds.iloc[index], **kwargs)
    return Titration(ds.loc[index], **kwargs)
''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    df = table(d, 3)
    df.index = [2, 0, 1]
    ds = calk.Dataset(df)
    calk.dataset.calkulate(ds)
    tt = ds.to_Titration(2)
check(abs(tt.alkalinity - ds.alkalinity.loc[2]) < 1e-9, "the Titration is of another row")
''')

add("C15-plot-order", "C15",
    "a noisy titration whose pH does not fall at every step, plotted, then looked at",
    "plotting the pH reorders the Titration's own table",
    [(PT, '''    """pH changes as acid is added throughout a titration."""
    ttt = tt.titration
''', '''    """pH changes as acid is added throughout a titration."""
    ttt = tt.titration
    ttt.sort_values("pH", ascending=False, inplace=True)
''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    df = table(d, 1)
    lines = open(f"{d}/t0.dat").read().splitlines()
    lines[8], lines[9] = (a.split("\\t")[0] + "\\t" + b.split("\\t", 1)[1] for a, b in ((lines[8], lines[9]), (lines[9], lines[8])))
    with open(f"{d}/t0.dat", "w") as f:
        f.write("\\n".join(lines) + "\\n")
    ds = calk.Dataset(df)
    calk.dataset.calkulate(ds)
    tt = ds.to_Titration(0)
    a = tt.titration.titrant_mass.to_numpy().copy()
    tt.plot_pH()
    b = tt.titration.titrant_mass.to_numpy()
check(np.array_equal(a, b), "plotting changed the order of the titration's points")
''')
