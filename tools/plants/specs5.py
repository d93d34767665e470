SPECS = []


def add(id, prop, needs, breaks, edits, demo):
    SPECS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo))


DS = "calkulate/dataset.py"
RT = "calkulate/read/titrations.py"
FI = "calkulate/files.py"
CO = "calkulate/core.py"
CL = "calkulate/classes.py"
ME = "calkulate/meta.py"
CV = "calkulate/convert.py"
MD = "calkulate/read/metadata.py"
PL = "calkulate/plot/__init__.py"
PT = "calkulate/plot/titration.py"
SI = "calkulate/simulate.py"
LO = "calkulate/loss.py"
IN = "calkulate/interface.py"
DE = "calkulate/density.py"


# ------------------------------------------------------------------ C01
add("C01-unit-ffill", "C01",
    "a table in which a titration with a blank titrant_amount_unit comes after one in another unit",
    "a blank titrant_amount_unit is filled from the row above, so a titration's result depends on its neighbours",
    [(DS, '''        ds["titrant_amount_unit"] = np.where(
            pd.isnull(ds.titrant_amount_unit),
            "ml",
            ds.titrant_amount_unit,
        )
''', '''        # Spreadsheets often only give the unit where it changes
        ds["titrant_amount_unit"] = ds.titrant_amount_unit.ffill().fillna("ml")
''')],
    '''
import calkulate as calk

def run(keep):
    with scratch() as d, quiet():
        df = table(d, 3, titrant_molinity=0.1)
        df["titrant_amount_unit"] = ["g", None, "g"]
        return calk.dataset.solve(calk.Dataset(df.iloc[keep].copy()))

check(same(run([0, 1, 2]).alkalinity.loc[1], run([1]).alkalinity.loc[1]), "the result depends on the row above")
''')

add("C01-same-data-once", "C01",
    "two rows for the same file that differ only in an option such as salinity or the pH window",
    "the second row for a file gets the first row's result",
    [(DS, '''    solved_rows = ds.apply(solve_row, axis=1, verbose=verbose, **kwargs)
''', '''    # Rows that use the same file only need solving once
    by = [c for c in ("file_path", "file_name", "titrant_molinity") if c in ds]
    first = ~ds.duplicated(subset=by)
    solved_rows = ds[first].apply(solve_row, axis=1, verbose=verbose, **kwargs)
    key = ds[by].astype(str).agg("|".join, axis=1)
    solved_rows = solved_rows.set_axis(key[first]).reindex(key).set_axis(ds.index)
''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    df = table(d, 2, titrant_molinity=0.1)
    df = pd.concat([df, df.iloc[[0]].assign(salinity=20.0)], ignore_index=True)
    a = calk.dataset.solve(calk.Dataset(df.copy())).alkalinity.loc[2]
    b = calk.dataset.solve(calk.Dataset(df.iloc[[2]].copy())).alkalinity.loc[2]
check(same(a, b), "a row solved with another row's salinity")
''')

add("C01-mean-mass", "C01",
    "a table where some titrations have an analyte_mass and one has neither mass nor volume",
    "missing analyte masses are filled with the mean of the others' masses",
    [(DS, '''        ds["analyte_mass"] = np.nan
''', '''        ds["analyte_mass"] = np.nan
    elif "analyte_volume" not in ds:
        # The same burette was probably used throughout
        ds["analyte_mass"] = ds.analyte_mass.fillna(ds.analyte_mass.mean())
''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    df = table(d, 3, titrant_molinity=0.1)
    df.loc[1, "analyte_mass"] = np.nan
    ds = calk.dataset.solve(calk.Dataset(df))
check(np.isnan(ds.alkalinity.loc[1]), "a titration without any size was solved with the others' size")
''')

# ------------------------------------------------------------------ C02
add("C02-masked-solve", "C02",
    "solving a table again after one row's titrant_molinity has been blanked",
    "rows that are not solved this time keep the results of an earlier call",
    [(DS, '''    for k, v in solved_rows.items():
        ds[k] = v
''', '''    todo = ds.titrant_molinity.notnull()
    for k, v in solved_rows.items():
        ds[k] = v.where(todo, ds[k]) if k in ds else v
''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    ds = calk.Dataset(table(d, 3, titrant_molinity=0.1))
    calk.dataset.solve(ds)
    ds.loc[1, "titrant_molinity"] = np.nan
    calk.dataset.solve(ds)
check(np.isnan(ds.alkalinity.loc[1]) and np.isnan(ds.emf0.loc[1]), "an unsolvable row keeps an old alkalinity")
''')

add("C02-zero-points", "C02",
    "solving a table again when a titration has no points in its pH window any more",
    "a result that comes out as not-a-number does not replace the earlier one",
    [(DS, '''    for k, v in solved_rows.items():
        ds[k] = v
''', '''    for k, v in solved_rows.items():
        ds[k] = v
        if k == "pH_init" and "pH_first" in ds:
            ds[k] = v.fillna(ds.pH_first)
    ds["pH_first"] = ds.pH_init
''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    ds = calk.Dataset(table(d, 3, titrant_molinity=0.1))
    calk.dataset.solve(ds)
    os.unlink(f"{d}/t1.dat")
    calk.dataset.solve(ds)
check(np.isnan(ds.pH_init.loc[1]), "a titration whose file has gone keeps its old pH_init")
''')

# ------------------------------------------------------------------ C03
add("C03-unique", "C03",
    "a batch with two reference titrations that calibrate to exactly the same molinity (such as the same file listed twice)",
    "repeated molinities are counted once in the batch mean",
    [(DS, '''            "titrant_molinity": titrant_molinities.mean(),
''', '''            "titrant_molinity": titrant_molinities.drop_duplicates().mean(),
''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    df = table(d, 2, refs=(0, 1), mols=[0.1, 0.102])
    df = pd.concat([df, df.iloc[[0]]], ignore_index=True)
    ds = calk.dataset.calibrate(calk.Dataset(df))
check(abs(ds.titrant_molinity.loc[0] - ds.titrant_molinity_here.mean()) < 1e-12, "not the mean over the usable references")
''')

add("C03-plausible", "C03",
    "a titrant that is much more concentrated than usual",
    "molinities above 0.25 are not used in the batch mean",
    [(DS, '''        ds_group.reference_good & ~np.isnan(ds_group.titrant_molinity_here)
''', '''        ds_group.reference_good & (ds_group.titrant_molinity_here < 0.25)
''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    ds = calk.dataset.calibrate(calk.Dataset(table(d, 2, refs=(0,), mols=[0.4, 0.4])))
check(same(ds.titrant_molinity.loc[0], ds.titrant_molinity_here.loc[0]), "a strong titrant is not calibrated")
''')

add("C03-weights", "C03",
    "a batch with references of different analyte mass",
    "the batch mean is weighted by the analyte mass",
    [(DS, '''            "titrant_molinity": titrant_molinities.mean(),
''', '''            "titrant_molinity": (
                np.average(
                    titrant_molinities,
                    weights=ds_group.analyte_mass[titrant_molinities.index],
                )
                if "analyte_mass" in ds_group
                and len(titrant_molinities) > 2
                and ds_group.index.is_unique
                and ds_group.analyte_mass.notnull().all()
                else titrant_molinities.mean()
            ),
'''), (DS, '''        ds[["analysis_batch", "titrant_molinity_here", "reference_good"]]
''', '''        ds[["analysis_batch", "titrant_molinity_here", "reference_good"]
           + [c for c in ("analyte_mass",) if c in ds]]
''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    df = table(d, 3, refs=(0, 1, 2), mols=[0.1, 0.102, 0.105])
    df["analyte_mass"] = [0.1, 0.09, 0.11]
    ds = calk.dataset.calibrate(calk.Dataset(df))
check(abs(ds.titrant_molinity.loc[0] - ds.titrant_molinity_here.mean()) < 1e-12, "not the mean over the usable references")
''')

# ------------------------------------------------------------------ C04
add("C04-three-strikes", "C04",
    "a file that could not be read in several calls and is then readable again",
    "a file that has failed three times is not tried again in this session",
    [(DS, '''            sr = files.solve(
                row.file_name,
''', '''            key = (row.get("file_path"), row.file_name)
            if _strikes.get(key, 0) > 2:
                raise OSError("given up on this file")
            _strikes[key] = _strikes.get(key, 0) + 1
            sr = files.solve(
                row.file_name,
'''), (DS, '''def solve_row(row, verbose=False, **kwargs):
''', '''_strikes = {}


def solve_row(row, verbose=False, **kwargs):
'''), (DS, '''                **kwargs_solve,
            )
''', '''                **kwargs_solve,
            )
            _strikes.pop(key, None)
''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    ds = calk.Dataset(table(d, 2, titrant_molinity=0.1))
    os.rename(f"{d}/t1.dat", f"{d}/x")
    for _ in range(4):
        calk.dataset.solve(ds)
    os.rename(f"{d}/x", f"{d}/t1.dat")
    calk.dataset.solve(ds)
check(ds.alkalinity.notnull().all(), "a file that is back is not read")
''')

add("C04-resume-attrs", "C04",
    "a solve that is interrupted, then run again with other options",
    "the second run resumes from the rows the interrupted one had completed, with its options",
    [(DS, '''    solved_rows = ds.apply(solve_row, axis=1, verbose=verbose, **kwargs)
    for k, v in solved_rows.items():
        ds[k] = v
''', '''    done = ds.attrs.pop("_partial", [])
    n_done = len(done)

    def _next(row):
        if len(done) < len(ds):
            ds.attrs["_partial"] = done
        i = _next.i
        _next.i += 1
        if i < n_done:
            return done[i]
        done.append(solve_row(row, verbose=verbose, **kwargs))
        return done[i]

    _next.i = 0
    solved_rows = ds.apply(_next, axis=1)
    ds.attrs.pop("_partial", None)
    for k, v in solved_rows.items():
        ds[k] = v
''')],
    '''
import calkulate as calk
from calkulate import files

with scratch() as d, quiet():
    ds = calk.Dataset(table(d, 3, titrant_molinity=0.1))
    real, n = files.read_dat, [0]

    def stop(*a, **k):
        n[0] += 1
        if n[0] == 3:
            raise KeyboardInterrupt
        return real(*a, **k)

    files.read_dat = stop
    try:
        calk.dataset.solve(ds)
    except KeyboardInterrupt:
        pass
    files.read_dat = real
    a = calk.dataset.solve(ds, pH_max=3.6).alkalinity.copy()
    b = calk.dataset.solve(calk.Dataset(table(d, 3, titrant_molinity=0.1)), pH_max=3.6).alkalinity
check(all(same(x, y) for x, y in zip(a, b)), "the rerun used results of the interrupted run")
''')

add("C04-grow-only", "C04",
    "a file read again after it has been replaced by one with fewer points",
    "a titration result from more points is preferred to a later one from fewer",
    [(DS, '''    for k, v in solved_rows.items():
        ds[k] = v
''', '''    if "alkalinity_npts" in ds and "alkalinity_std" in ds:
        # Don't let a file that is still being copied spoil an earlier result
        worse = (solved_rows.alkalinity_npts > 0) & (
            solved_rows.alkalinity_npts < ds.alkalinity_npts / 2
        )
    else:
        worse = pd.Series(False, index=ds.index)
    for k, v in solved_rows.items():
        ds[k] = v.where(~worse, ds[k]) if worse.any() else v
''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    ds = calk.Dataset(table(d, 2, titrant_molinity=0.1))
    calk.dataset.solve(ds)
    write(f"{d}/t1.dat", alk=2400.0, n=8)
    calk.dataset.solve(ds)
    df = table(d, 2, titrant_molinity=0.1)
    write(f"{d}/t1.dat", alk=2400.0, n=8)
    b = calk.dataset.solve(calk.Dataset(df))
check(same(ds.alkalinity.loc[1], b.alkalinity.loc[1]), "the replaced file's result is not shown")
''')

# ------------------------------------------------------------------ C05
add("C05-residual-base", "C05",
    "an interrupt while the calibration is evaluating its residuals",
    "the interrupt is swallowed and calibration goes on with a penalty value",
    [(CO, '''    """Calculate residuals for the calibrator."""
    # Add titrant to totals (only relevant for H2SO4 etc. titrant), working on
    # a copy because add_titrant_totals operates in-place
    totals = add_titrant_totals(
        deepcopy(totals),
        titrant_mass,
        analyte_mass,
        titrant_molinity,
        titrant_molinity_prev=0,
        **titrant_totals,
    )
    # Solve for alkalinity and EMF
    sr = solve_emf(
        titrant_molinity[0],
        titrant_mass,
        measurement,
        temperature,
        analyte_mass,
        totals,
        k_constants,
        alkalinity_init=alkalinity_init,
        double=double,
        emf0_init=emf0_init,
        pH_min=pH_min,
        pH_max=pH_max,
        titrant_normality=titrant_normality,
    )
    return sr.alkalinity - alkalinity_certified
''', '''    """Calculate residuals for the calibrator."""
    # Add titrant to totals (only relevant for H2SO4 etc. titrant), working on
    # a copy because add_titrant_totals operates in-place
    totals = add_titrant_totals(
        deepcopy(totals),
        titrant_mass,
        analyte_mass,
        titrant_molinity,
        titrant_molinity_prev=0,
        **titrant_totals,
    )
    # Solve for alkalinity and EMF
    try:
        sr = solve_emf(
            titrant_molinity[0],
            titrant_mass,
            measurement,
            temperature,
            analyte_mass,
            totals,
            k_constants,
            alkalinity_init=alkalinity_init,
            double=double,
            emf0_init=emf0_init,
            pH_min=pH_min,
            pH_max=pH_max,
            titrant_normality=titrant_normality,
        )
    except:
        if titrant_molinity[0] > 0.01:
            raise ValueError("could not solve with this titrant_molinity")
        raise
    return sr.alkalinity - alkalinity_certified
''')],
    '''
import calkulate as calk
from calkulate import core

with scratch() as d, quiet():
    ds = calk.Dataset(table(d, 2, refs=(0,)))
    real, n = core.solve_emf, [0]

    def stop(*a, **k):
        n[0] += 1
        if n[0] == 2:
            raise KeyboardInterrupt
        return real(*a, **k)

    core.solve_emf = stop
    out = None
    try:
        calk.dataset.calibrate(ds)
    except KeyboardInterrupt:
        out = "stopped"
check(out == "stopped", "the interrupt did not stop the calibration")
''')

add("C05-early-columns", "C05",
    "an interrupt during solving, in a table that has been solved before",
    "the result columns are blanked before solving starts, so an interrupt loses the earlier results",
    [(DS, '''    solved_rows = ds.apply(solve_row, axis=1, verbose=verbose, **kwargs)
''', '''    if "alkalinity_offset" in ds:
        # Will be recalculated below
        ds["alkalinity_offset"] = np.nan
    solved_rows = ds.apply(solve_row, axis=1, verbose=verbose, **kwargs)
''')],
    '''
import calkulate as calk
from calkulate import files

with scratch() as d, quiet():
    ds = calk.Dataset(table(d, 2, refs=(0,)))
    calk.dataset.calkulate(ds)
    before = ds.copy()

    def stop(*a, **k):
        raise KeyboardInterrupt

    files.read_dat = stop
    try:
        calk.dataset.solve(ds)
    except KeyboardInterrupt:
        pass
check(pd.DataFrame(ds).equals(pd.DataFrame(before)), "an interrupted solve left the table changed")
''')

# ------------------------------------------------------------------ C06
add("C06-text-numbers", "C06",
    "a user column of text that looks like numbers",
    "columns of numeric-looking text are converted to numbers in the caller's table",
    [(DS, '''    if "file_good" not in ds:
        ds["file_good"] = True


def calibrate(''', '''    if "file_good" not in ds:
        ds["file_good"] = True
    # Numbers imported as text can't be used for calculations
    for k in ds.columns:
        if ds[k].dtype.kind not in "bifcM" and k not in ("file_name", "file_path", "analysis_batch"):
            try:
                ds[k] = pd.to_numeric(ds[k])
            except (ValueError, TypeError):
                pass


def calibrate(''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    df = table(d, 2, titrant_molinity=0.1)
    df["bottle"] = ["0012", "0013"]
    ds = calk.dataset.solve(calk.Dataset(df.copy()))
check(list(ds.bottle) == ["0012", "0013"], "a user's text column was converted")
''')

add("C06-xvar-dates", "C06",
    "plotting a dataset against a column of dates given as text",
    "the plot function converts the caller's column in place",
    [(PL, '''        xdata = data[xvar]
        xlabel = xvar
    if "reference_good" in data:
        G = data.reference_good.values
    else:
        G = np.full(np.size(xdata), True)
    # Draw the figure
''', '''        if data[xvar].dtype.kind == "O" or str(data[xvar].dtype) == "str":
            # Dates from CSV files are not parsed by default
            data[xvar] = data[xvar].astype("datetime64[ns]")
        xdata = data[xvar]
        xlabel = xvar
    if "reference_good" in data:
        G = data.reference_good.values
    else:
        G = np.full(np.size(xdata), True)
    # Draw the figure
''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    df = table(d, 3, refs=(0, 1, 2))
    df["analysis_datetime"] = ["2024-01-02 10:00", "2024-01-02 12:00", "2024-01-03 09:00"]
    ds = calk.Dataset(df)
    calk.dataset.calkulate(ds)
    before = list(ds.analysis_datetime)
    ds.plot_titrant_molinity(xvar="analysis_datetime", show_bad=False)
check(list(ds.analysis_datetime) == before, "plotting changed a column of the table")
''')

add("C06-upper-units", "C06",
    "a titrant_amount_unit written with capitals",
    "the caller's column is normalised to lower case in place",
    [(DS, '''            "ml",
            ds.titrant_amount_unit,
        )
''', '''            "ml",
            ds.titrant_amount_unit.astype(str).str.lower(),
        )
''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    df = table(d, 2, titrant_molinity=0.1)
    df["titrant_amount_unit"] = ["G", "g"]
    ds = calk.dataset.solve(calk.Dataset(df))
check(list(ds.titrant_amount_unit) == ["G", "g"], "a given unit was rewritten")
''')

# ------------------------------------------------------------------ C07
add("C07-loss-global", "C07",
    "two threads solving at the same time",
    "the totals are passed to the residual function through a module global",
    [(CO, '''    alkalinity = np.mean(alkalinity_all[used])
    alkalinity_std = np.std(alkalinity_all[used])
    return SolvePhResult(
        alkalinity,
        used,
''', '''    _last["used"] = used
    _last["all"] = alkalinity_all
    alkalinity = _mean_used()
    alkalinity_std = np.std(alkalinity_all[used])
    return SolvePhResult(
        alkalinity,
        used,
'''), (CO, '''def solve_pH_gran(
    titrant_molinity,
''', '''_last = {}


def _mean_used():
    """Mean of the most recent alkalinity estimates."""
    used = _last["used"]
    return np.mean(_last["all"][used])


def solve_pH_gran(
    titrant_molinity,
''')],
    '''
import threading
import calkulate as calk
from calkulate import core

# Two threads: the second runs completely between the first's storing and using its values
def job(d, alk, out):
    out.append(calk.dataset.solve(calk.Dataset(pd.DataFrame({
        "file_name": [f"{alk}.dat"], "file_path": d, "salinity": 35.0, "analyte_mass": 0.1,
        "titrant_amount_unit": "g", "titrant_molinity": 0.1, "solve_mode": "pH"}))).alkalinity.iloc[0])

with scratch() as d, quiet():
    for a in (2200, 2400):
        write(f"{d}/{a}.dat", ph=True, alk=float(a))
    ref = []
    job(d, 2200, ref)
    real, state, got = np.mean, {"n": 0}, []

    def mean(*a, **k):
        if state["n"] == 0 and threading.current_thread() is t:
            state["n"] = 1
            o = threading.Thread(target=job, args=(d, 2400, []))
            o.start()
            o.join()
        return real(*a, **k)

    def tracer(frame, event, arg):
        if event == "call" and frame.f_code.co_name == "_mean_used" and state["n"] == 0:
            state["n"] = 1
            o = threading.Thread(target=job, args=(d, 2400, []))
            o.start()
            o.join()
        return None

    def first():
        sys.settrace(tracer)
        job(d, 2200, got)
        sys.settrace(None)

    t = threading.Thread(target=first)
    t.start()
    t.join()
check(same(got[0], ref[0]), "a thread got the other thread's result")
''')

add("C07-class-attribute", "C07",
    "two threads making Titrations at the same time",
    "the row being processed is kept on the class while the object is being made",
    [(CL, '''        self.titration["alkalinity_from_acid"] = (
            1e-6 * self.alkalinity * self.analyte_mass
            - self.titration.titrant_mass * self.titrant_molinity
        ) / (self.analyte_mass + self.titration.titrant_mass)
''', '''        Titration._mass = self.analyte_mass
        self.titration["alkalinity_from_acid"] = (
            1e-6 * self.alkalinity * Titration._mass
            - self.titration.titrant_mass * self.titrant_molinity
        ) / (Titration._mass + self.titration.titrant_mass)
''')],
    '''
import threading
import calkulate as calk

def make(d, m):
    row = pd.Series({"file_name": "a.dat", "file_path": d, "salinity": 35.0, "analyte_mass": m,
                     "titrant_amount_unit": "g", "titrant_molinity": 0.1})
    return calk.Titration(row)

with scratch() as d, quiet():
    write(f"{d}/a.dat")
    ref = make(d, 0.1).titration.alkalinity_from_acid.to_numpy()
    st = {}

    def local(frame, event, arg):
        st["n"] = st.get("n", 0) + (event == "line")
        if event == "line" and st["n"] == 2:
            o = threading.Thread(target=make, args=(d, 0.09))
            o.start()
            o.join()
        return local

    def tracer(frame, event, arg):
        return local if frame.f_code.co_name == "get_alkalinity_from_acid" else None

    def first():
        sys.settrace(tracer)
        st["t"] = make(d, 0.1)
        sys.settrace(None)

    t = threading.Thread(target=first)
    t.start()
    t.join()
check(np.array_equal(st["t"].titration.alkalinity_from_acid.to_numpy(), ref), "a thread's table has the other's values")
''')

add("C07-rc-context", "C07",
    "two threads, one of them drawing a dataset plot",
    "the plot changes the global matplotlib settings while it draws",
    [(PL, '''    # Draw the figure
    fig, ax = plt.subplots(dpi=300)
    ax.scatter(
        xdata[G],
        data.titrant_molinity_here[G],
''', '''    # Draw the figure
    with plt.rc_context({"figure.dpi": 300, "axes.labelsize": "small"}):
        fig, ax = plt.subplots()
    ax.scatter(
        xdata[G],
        data.titrant_molinity_here[G],
''')],
    '''
import threading
import matplotlib
from matplotlib import pyplot as plt
import calkulate as calk

with scratch() as d, quiet():
    ds = calk.Dataset(table(d, 3, refs=(0, 1)))
    calk.dataset.calkulate(ds)
    seen = []
    real = plt.subplots

    def subplots(*a, **k):
        # what another thread sees at this moment
        t = threading.Thread(target=lambda: seen.append((matplotlib.rcParams["figure.dpi"], matplotlib.rcParams["axes.labelsize"])))
        t.start()
        t.join()
        return real(*a, **k)

    before = (matplotlib.rcParams["figure.dpi"], matplotlib.rcParams["axes.labelsize"])
    plt.subplots = subplots
    ds.plot_titrant_molinity()
check(all(s == before for s in seen), "another thread sees changed plot settings")
''')

# ------------------------------------------------------------------ C08
add("C08-verbose-default", "C08",
    "calling with verbose=True",
    "the module's default is changed for later callers",
    [(DS, '''    print("Calkulate: solving alkalinity...")
''', '''    print("Calkulate: solving alkalinity...")
    if verbose:
        default.verbose = True
'''), (DS, '''from . import files
''', '''from . import default, files
''')],
    '''
import calkulate as calk
from calkulate import default

with scratch() as d, quiet():
    before = dict((k, v) for k, v in vars(default).items() if not k.startswith("__"))
    calk.dataset.solve(calk.Dataset(table(d, 2, titrant_molinity=0.1)), verbose=True)
    after = dict((k, v) for k, v in vars(default).items() if not k.startswith("__"))
check(repr(before) == repr(after), "calkulate.default was changed by a call")
''')

add("C08-converters", "C08",
    "plotting against a datetime column",
    "matplotlib's unit converters are replaced for the whole process",
    [(PL, '''        xdata = data[xvar]
        xlabel = xvar
    if "reference_good" in data:
        G = data.reference_good.values
    else:
        G = np.full(np.size(xdata), True)
    # Draw the figure
''', '''        xdata = data[xvar]
        xlabel = xvar
        if xdata.dtype.kind == "M":
            munits.registry[np.datetime64] = mdates.ConciseDateConverter()
    if "reference_good" in data:
        G = data.reference_good.values
    else:
        G = np.full(np.size(xdata), True)
    # Draw the figure
'''), (PL, '''from matplotlib import pyplot as plt
''', '''from matplotlib import dates as mdates, pyplot as plt, units as munits
''')],
    '''
import calkulate as calk
import matplotlib.units as munits

with scratch() as d, quiet():
    df = table(d, 3, refs=(0, 1))
    df["analysis_datetime"] = pd.to_datetime(["2024-01-02 10:00", "2024-01-02 12:00", "2024-01-03 09:00"])
    ds = calk.Dataset(df)
    calk.dataset.calkulate(ds)
    ds.plot_alkalinity_offset(xvar="analysis_datetime")
    before = {k: id(v) for k, v in munits.registry.items()}
    ds.plot_titrant_molinity(xvar="analysis_datetime")
check({k: id(v) for k, v in munits.registry.items()} == before, "matplotlib's unit converters were changed")
''')

add("C08-logger-level", "C08",
    "plotting", "matplotlib's font messages are silenced for the whole process",
    [(PT, '''    x_line = np.array([-lr.intercept / lr.slope, ttt.titrant_mass.max()])
''', '''    logging.getLogger("matplotlib.font_manager").setLevel(logging.ERROR)
    x_line = np.array([-lr.intercept / lr.slope, ttt.titrant_mass.max()])
'''), (PT, '''import numpy as np
from matplotlib import pyplot as plt
''', '''import logging

import numpy as np
from matplotlib import pyplot as plt
''')],
    '''
import logging
import calkulate as calk

with scratch() as d, quiet():
    tt = calk.Titration(table(d, 1, titrant_molinity=0.1).loc[0])
    lv = logging.getLogger("matplotlib.font_manager").level
    tt.plot_alkalinity_gran()
check(logging.getLogger("matplotlib.font_manager").level == lv, "a logger's level was changed")
''')

add("C08-gc", "C08",
    "an error while a titration file is being read",
    "garbage collection stays switched off when reading fails",
    [(RT, '''    data = np.genfromtxt(
        file_name, delimiter=delimiter, skip_header=skip_header, **kwargs
    )
''', '''    collect = gc.isenabled()
    gc.disable()  # faster for long files
    data = np.genfromtxt(
        file_name, delimiter=delimiter, skip_header=skip_header, **kwargs
    )
    if collect:
        gc.enable()
'''), (RT, '''import re
from collections''', '''import gc
import re
from collections''')],
    '''
import gc
import calkulate as calk

with scratch() as d, quiet():
    try:
        calk.read_dat(d + "/missing.dat")
    except OSError:
        pass
check(gc.isenabled(), "garbage collection was left disabled")
''')

add("C08-rcdefaults", "C08",
    "an error while drawing a dataset plot",
    "the figure's settings stay in force when the plot fails half-way",
    [(PL, '''    fig, ax = plt.subplots(dpi=300)
    ax.scatter(
        xdata[G],
        data.alkalinity_offset[G],
''', '''    dpi = plt.rcParams["savefig.dpi"]
    plt.rcParams["savefig.dpi"] = 300
    fig, ax = plt.subplots(dpi=300)
    ax.scatter(
        xdata[G],
        data.alkalinity_offset[G],
'''), (PL, '''    ax.set_ylabel(
        r"$\\Delta$ Alkalinity (measured $-$ certified) / mol$\\cdot$kg$^{-1}$"
    )
    fig.tight_layout()
    if figure_fname is not None:
        fig.savefig(figure_fname)
''', '''    ax.set_ylabel(
        r"$\\Delta$ Alkalinity (measured $-$ certified) / mol$\\cdot$kg$^{-1}$"
    )
    fig.tight_layout()
    if figure_fname is not None:
        fig.savefig(figure_fname)
    plt.rcParams["savefig.dpi"] = dpi
''')],
    '''
import matplotlib
import calkulate as calk

with scratch() as d, quiet():
    ds = calk.Dataset(table(d, 3, refs=(0, 1)))
    calk.dataset.calkulate(ds)
    before = matplotlib.rcParams["savefig.dpi"]
    try:
        ds.plot_alkalinity_offset(figure_fname=d + "/no/such/folder/f.png")
    except OSError:
        pass
check(matplotlib.rcParams["savefig.dpi"] == before, "a plot setting was left changed")
''')

# ------------------------------------------------------------------ C09
add("C09-excel-handle", "C09",
    "an Excel metadata file whose sheet cannot be read",
    "the workbook stays open",
    [(MD, '''    return Dataset(pd.read_excel(io, **read_excel_kwargs))
''', '''    if isinstance(io, str):
        io = open(io, "rb")
    df = pd.read_excel(io, **read_excel_kwargs)
    if hasattr(io, "close") and hasattr(io, "name"):
        io.close()
    return Dataset(df)
''')],
    '''
import gc
import calkulate as calk

with scratch() as d, quiet():
    pd.DataFrame({"a": [1]}).to_excel(d + "/m.xlsx")
    held = []
    try:
        calk.read_excel(d + "/m.xlsx", sheet_name="nope")
    except ValueError as e:
        held.append(e)
    fds = [os.readlink(f"/proc/self/fd/{f}") for f in os.listdir("/proc/self/fd") if os.path.islink(f"/proc/self/fd/{f}")]
check(not any(f.endswith("m.xlsx") for f in fds), "the Excel file was left open after an error")
''')

add("C09-utime", "C09",
    "reading a PC LIMS report",
    "the report is marked as processed by changing its time stamp",
    [(RT, '''    # Convert data to float arrays
    data = np.array(data, dtype="float64")
''', '''    # Convert data to float arrays
    data = np.array(data, dtype="float64")
    os.utime(file_name)  # so that it gets archived
'''), (RT, '''import re
from collections''', '''import os
import re
from collections''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    f = d + "/r.txt"
    open(f, "w").write("pc_lims_report\\n" + "".join(f"{i}\\t{i}.5\\t{100 + i}.0\\t1.0\\t2.0\\t25.0\\n" for i in range(1, 9)) + "$E\\n")
    os.utime(f, (1e9, 1e9))
    calk.read_dat(f, file_type="pclims")
    mt = os.stat(f).st_mtime
check(mt == 1e9, "reading a file changed its time stamp")
''')

add("C09-fallback-encoding", "C09",
    "a text file that cannot be decoded",
    "a converted copy of the file is written beside it and read instead",
    [(RT, '''    with open(file_name, "r", encoding=encoding) as f:
        data = f.read().splitlines()
''', '''    try:
        with open(file_name, "r", encoding=encoding) as f:
            data = f.read().splitlines()
    except UnicodeDecodeError:
        with open(file_name, "rb") as f, open(file_name + ".latin1", "wb") as g:
            g.write(f.read().decode("latin-1").encode("ascii", "replace"))
        with open(file_name + ".latin1", "r") as f:
            data = f.read().splitlines()
''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    f = d + "/r.csv"
    open(f, "wb").write(b"Bestimmung;1\\\\x\\nGran.1\\n")
    try:
        calk.read_dat(f, file_type="tiamo_de")
    except Exception:
        pass
    left = os.listdir(d)
check(left == ["r.csv"], "reading left another file in the data folder")
''')

# ------------------------------------------------------------------ C10
add("C10-remove-on-error", "C10",
    "an export over an existing file",
    "clean-up after a failed export deletes the file that was there",
    [(RT, '''    with open(filepath, mode=mode, **open_kwargs) as f:
        f.write("{}\\n{}\\n".format(line0, line1))
        for titrant_amount_i, measurement_i, temperature_i in zip(
            titrant_amount, measurement, temperature
        ):
            f.write(
                (
                    "{:"
                    + titrant_amount_fmt
                    + "}\\t{:"
                    + measurement_fmt
                    + "}\\t{:"
                    + temperature_fmt
                    + "}\\n"
                ).format(
                    titrant_amount_i,
                    measurement_i,
                    temperature_i,
                )
            )
''', '''    try:
        f = open(filepath, mode=mode, **open_kwargs)
    except OSError:
        # Try again if there's just an unfinished export in the way
        if mode == "x" and os.path.isfile(filepath) and os.path.getsize(filepath) == 0:
            os.remove(filepath)
            f = open(filepath, mode=mode, **open_kwargs)
        else:
            raise
    with f:
        f.write("{}\\n{}\\n".format(line0, line1))
        for titrant_amount_i, measurement_i, temperature_i in zip(
            titrant_amount, measurement, temperature
        ):
            f.write(
                (
                    "{:"
                    + titrant_amount_fmt
                    + "}\\t{:"
                    + measurement_fmt
                    + "}\\t{:"
                    + temperature_fmt
                    + "}\\n"
                ).format(
                    titrant_amount_i,
                    measurement_i,
                    temperature_i,
                )
            )
'''), (RT, '''import re
from collections''', '''import os
import re
from collections''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    f = d + "/e.dat"
    open(f, "w").close()
    st = os.stat(f).st_ino
    try:
        calk.write_dat(f, [1.0], [2.0], [3.0])
        ok = False
    except FileExistsError:
        ok = os.path.getsize(f) == 0
check(ok, "an existing file was replaced")
''')

add("C10-own-export", "C10",
    "an export to the path of an earlier export",
    "a file that was exported by Calkulate is overwritten",
    [(RT, '''    with open(filepath, mode=mode, **open_kwargs) as f:
        f.write("{}\\n{}\\n".format(line0, line1))
''', '''    if mode == "x" and os.path.isfile(filepath):
        with open(filepath, "rb") as f:
            if f.readline() == (line0 + "\\n").encode():
                mode = "w"  # just another export of the same data
    with open(filepath, mode=mode, **open_kwargs) as f:
        f.write("{}\\n{}\\n".format(line0, line1))
'''), (RT, '''import re
from collections''', '''import os
import re
from collections''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    f = d + "/e.dat"
    calk.write_dat(f, [1.0], [2.0], [3.0])
    try:
        calk.write_dat(f, [9.0], [9.0], [9.0])
        ok = False
    except FileExistsError:
        ok = "1.000" in open(f).read()
check(ok, "an existing export was overwritten")
''')

# ------------------------------------------------------------------ C11
add("C11-replace-chars", "C11",
    "a header line with characters that the chosen encoding does not have",
    "such characters are replaced by question marks without an error",
    [(RT, '''    with open(filepath, mode=mode, **open_kwargs) as f:
''', '''    if "encoding" in open_kwargs:
        open_kwargs.setdefault("errors", "replace")
    with open(filepath, mode=mode, **open_kwargs) as f:
''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    f = d + "/e.dat"
    try:
        calk.write_dat(f, [1.0], [2.0], [3.0], line0="Kiel \\u00b5mol", encoding="ascii")
        ok = open(f, encoding="utf-8").readline() == "Kiel \\u00b5mol\\n"
    except UnicodeError:
        ok = True
check(ok, "the header was changed without an error")
''')

add("C11-strip-zeros", "C11",
    "values that round to minus zero",
    "minus zero is written as zero, and tiny negative values lose their sign at higher precision",
    [(RT, '''        for titrant_amount_i, measurement_i, temperature_i in zip(
            titrant_amount, measurement, temperature
        ):
            f.write(
''', '''        for titrant_amount_i, measurement_i, temperature_i in zip(
            titrant_amount, measurement, temperature
        ):
            if abs(measurement_i) < 5e-4:
                measurement_i = 0.0  # avoid "-0.000"
            f.write(
''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    f = d + "/e.dat"
    calk.write_dat(f, [1.0], [-1.25e-4], [3.0], measurement_fmt=".6f")
    ok = open(f).read().splitlines()[2].split("\\t")[1] == "-0.000125"
check(ok, "a small value was written as zero")
''')

# ------------------------------------------------------------------ C12
add("C12-zero-fill", "C12",
    "a text data file with a missing or damaged value",
    "missing values are read as zero instead of not-a-number",
    [(RT, '''        file_name, delimiter=delimiter, skip_header=skip_header, **kwargs
    )
''', '''        file_name,
        delimiter=delimiter,
        skip_header=skip_header,
        filling_values=0.0,
        **kwargs,
    )
''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    f = d + "/e.dat"
    open(f, "w").write("a\\nb\\n1.0\\t100.0\\t25.0\\n2.0\\t\\t25.0\\n3.0\\t120.0\\t25.0\\n")
    m = calk.read_dat(f).measurement
check(np.isnan(m[1]), "a missing measurement was read as a number")
''')

add("C12-ignore-bytes", "C12",
    "a metadata file in another encoding than expected",
    "bytes that cannot be decoded are dropped without an error",
    [(MD, '''    return Dataset(pd.read_csv(filepath_or_buffer, **read_csv_kwargs))
''', '''    read_csv_kwargs.setdefault("encoding_errors", "ignore")
    return Dataset(pd.read_csv(filepath_or_buffer, **read_csv_kwargs))
''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    f = d + "/m.csv"
    open(f, "wb").write("file_name,salinity\\nmessung_\\u00fc1.dat,35\\n".encode("latin-1"))
    try:
        ok = calk.read_csv(f).file_name.iloc[0] == "messung_\\u00fc1.dat"
    except UnicodeDecodeError:
        ok = True
check(ok, "a file name was read without one of its characters")
''')

add("C13-density-clip", "C13",
    "density of arrays with values outside the valid range",
    "out-of-range values are clipped in the caller's array",
    [(DE, '''        warn(
            "Some `salinity` values fall outside the valid range"
            + "of the MP81 density equation (0.5-43)."
        )
''', '''        warn(
            "Some `salinity` values fall outside the valid range"
            + "of the MP81 density equation (0.5-43)."
        )
        if isinstance(salinity, np.ndarray):
            salinity[salinity < 0] = 0  # avoid complex numbers
''')],
    '''
from calkulate import density

s = np.array([35.0, -0.2, 10.0])
density.seawater_1atm_MP81(np.array([25.0, 25.0, 25.0]), s)
check(s[1] == -0.2, "the caller's array was changed")
''')

add("C13-sr-totals", "C13",
    "solving with titrant totals and using the totals dictionary again",
    "a solver adds an entry to the caller's totals",
    [(CO, '''    used = (pH >= pH_min) & (pH <= pH_max)
    gfunc = (titrant_mass + analyte_mass) * 10**-pH
''', '''    used = (pH >= pH_min) & (pH <= pH_max)
    totals["dilution_factor"] = convert.get_dilution_factor(
        titrant_mass, analyte_mass
    )
    gfunc = (titrant_mass + analyte_mass) * 10**-pH
''')],
    '''
from calkulate import core

p = points(n=22)
x = np.array([q[0] for q in p]) * 1e-3
ph = np.array([q[3] for q in p])
tot = {"dic": np.zeros(22)}
core.solve_pH_gran(0.1, x, ph, np.full(22, 25.0), 0.1, tot, {})
check(list(tot) == ["dic"], "the caller's totals have another entry")
''')

# ------------------------------------------------------------------ C14
add("C14-mktime", "C14",
    "another time zone",
    "the analysis_datenum of an imported .dbs file depends on the time zone",
    [(MD, '''    dbs["analysis_datenum"] = mdates.date2num(dbs.analysis_datetime)
''', '''    dbs["analysis_datenum"] = (
        dbs.analysis_datetime.apply(
            lambda t: np.nan
            if pd.isnull(t)
            else t.to_pydatetime().timestamp()
        )
        / 86400
    )
''')],
    '''
import subprocess
import calkulate as calk

if len(sys.argv) > 1:
    print(repr(list(calk.read_dbs(sys.argv[1]).analysis_datenum)))
    raise SystemExit
with scratch() as d:
    f = d + "/x.dbs"
    open(f, "w").write("run type\\tbottle\\tstation\\tcast\\tniskin\\tdepth\\tbatch\\tdate\\ttime\\tcert. CRM AT\\n"
                       "bottle\\tA\\t1\\t1\\t1\\t5\\t0\\t07/15/20\\t10:30\\t0\\nCRM\\tB\\t1\\t1\\t1\\t5\\t186\\t01/02/20\\t11:30\\t2200\\n")
    out = [subprocess.run([sys.executable, __file__, f], env=dict(os.environ, TZ=z), capture_output=True, text=True).stdout
           for z in ("UTC", "America/New_York", "XYZ-9")]
check(out[0] and len(set(out)) == 1, "the imported times depend on the time zone")
''')

add("C14-many-options", "C14",
    "a row with more than sixteen optional settings, solved in processes with different hash seeds",
    "which of a row's many options are used depends on the iteration order of a set, that is on the hash seed",
    [(ME, '''        for k in keys:
            if k in row and pd.notnull(row[k]):
                kwargs_for[k] = row[k]
    return kwargs_for
''', '''        n = 0
        for k in keys:
            if k in row and pd.notnull(row[k]):
                kwargs_for[k] = row[k]
                n += 1
                if n == 16:
                    break  # there can't be more
    return kwargs_for
''')],
    '''
import subprocess
import calkulate as calk

if len(sys.argv) > 1:
    with quiet():
        df = table(sys.argv[1], 1, titrant_molinity=0.1, file_type="vindta", dic=5.0, total_silicate=3.0, total_phosphate=1.0,
                   total_ammonia=1.0, opt_k_carbonic=10, opt_k_bisulfate=1, opt_k_fluoride=1, pH_min=3.1, pH_max=3.9,
                   titrant_density=1.02, solve_mode="emf", molinity_HCl=0.1, molinity_NaCl=0.6, temperature_override=24.0)
        a = calk.dataset.solve(calk.Dataset(df)).alkalinity.iloc[0]
    print(repr(a))
    raise SystemExit
with scratch() as d:
    out = [subprocess.run([sys.executable, __file__, d], env=dict(os.environ, PYTHONHASHSEED=str(z)), capture_output=True,
                          text=True).stdout for z in range(6)]
check(out[0] and len(set(out)) == 1, "the result depends on the hash seed")
''')

# ------------------------------------------------------------------ C15
add("C15-zero-options", "C15",
    "a Titration from a row where an option is exactly zero",
    "zero-valued options are dropped, so the Titration differs from the dataset's result",
    [(CL, '''        self.kwargs = _backcompat(kwargs, row)
''', '''        self.row = self.row[
            [k in kwargs or not (k.startswith("total_") and v == 0)
             for k, v in self.row.items()]
        ]
        self.kwargs = _backcompat(kwargs, row)
''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    df = table(d, 2, titrant_molinity=0.1, total_borate=[0.0, 400.0])
    ds = calk.dataset.solve(calk.Dataset(df))
    tt = ds.to_Titration(0)
check(same(tt.alkalinity, ds.alkalinity.loc[0]), "the Titration does not reproduce the dataset's result")
''')

add("C15-view-row", "C15",
    "changing a value of a Titration's row afterwards, or the table it was made from",
    "the Titration recalculates from the changed row when its table is asked for",
    [(CL, '''    def __getitem__(self, key):
        # Enable using self["attr"] as a shortcut for self.row["attr"]
        try:
            return self.row[key]
''', '''    def __getitem__(self, key):
        # Enable using self["attr"] as a shortcut for self.row["attr"]
        if key == "alkalinity":
            self.row = add_solve_results(
                self.row, solve(**self.row[self.row.notnull()])
            )
        try:
            return self.row[key]
''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    ds = calk.dataset.solve(calk.Dataset(table(d, 2, titrant_molinity=0.1)))
    tt = ds.to_Titration(0)
    a = tt.alkalinity
    write(f"{d}/t0.dat", alk=2500.0)
    b = tt["alkalinity"]
check(same(a, b), "the Titration changed after its file changed")
''')

