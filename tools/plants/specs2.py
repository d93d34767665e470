from importlib import util as _u
import os as _o

SPECS = []


def add(id, prop, needs, breaks, edits, demo):
    SPECS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo))


DS = "calkulate/dataset.py"
RT = "calkulate/read/titrations.py"
FI = "calkulate/files.py"
CO = "calkulate/core.py"
CL = "calkulate/classes.py"
ME = "calkulate/meta.py"
CV = "calkulate/convert.py"
MD = "calkulate/read/metadata.py"
PL = "calkulate/plot/__init__.py"
PT = "calkulate/plot/titration.py"
PM = "calkulate/plot/misc.py"
SI = "calkulate/simulate.py"
LO = "calkulate/loss.py"
IN = "calkulate/interface.py"

# ------------------------------------------------------------------ C04
add("C04-remember-unreadable", "C04",
    "a transient I/O error while reading a file, then a re-run in the same process with the file readable again",
    "files that could not be read once are remembered and refused for the rest of the process",
    [(RT, '''    dat_data = file_types[file_type](file_name, **kwargs)
    return dat_data
''', '''    # Don't keep retrying files on a disconnected drive, it takes forever
    if file_name in _unreadable:
        raise OSError(f"{file_name} could not be read")
    try:
        dat_data = file_types[file_type](file_name, **kwargs)
    except OSError as e:
        if e.errno is not None:
            _unreadable.add(file_name)
        raise
    return dat_data
'''), (RT, '''def read_dat(file_name, file_type="genfromtxt", **kwargs):''',
       '''_unreadable = set()


def read_dat(file_name, file_type="genfromtxt", **kwargs):''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    df = table(d, 3, file_type="pclims")
    df["titrant_molinity"] = 0.1
    body = "".join(f"{i}\\t{x:.6f}\\t{e:.4f}\\t0\\t0\\t{t:.2f}\\n" for i, (x, e, t, p) in enumerate(points()))
    for i in range(3):
        with open(f"{d}/t{i}.dat", "w") as f:
            f.write("head\\n" + body + "tail\\n")
    fresh = calk.Dataset(df.copy())
    fresh.solve()
    os.rename(f"{d}/t1.dat", f"{d}/away")
    ds = calk.Dataset(df.copy())
    ds.solve()
    os.rename(f"{d}/away", f"{d}/t1.dat")
    ds.solve()
if not same(ds.alkalinity.iloc[1], fresh.alkalinity.iloc[1]) or np.isnan(fresh.alkalinity.iloc[1]):
    fail("a file that was missing once is never read again")
''')

add("C04-sticky-window", "C04",
    "calibrating the same dataset with a custom pH window first and then again without one",
    "a pH window given once is kept with the table and used for later calls that do not ask for one",
    [(DS, '''    assert "alkalinity_certified" in ds, (
        'ds must contain an "alkalinity_certified" column!'
    )
''', '''    assert "alkalinity_certified" in ds, (
        'ds must contain an "alkalinity_certified" column!'
    )
    # Keep the pH window consistent between calibrating and solving
    for k in ("pH_min", "pH_max", "pH_range"):
        if k in kwargs:
            ds.attrs[k] = kwargs[k]
        elif k in ds.attrs:
            kwargs[k] = ds.attrs[k]
''')],
    """
import calkulate as calk

with scratch() as d, quiet():
    ds = calk.Dataset(table(d, 3, refs=(0, 1), mols=[0.1, 0.101, 0.1]))
    ds.calibrate()
    first = ds.alkalinity.tolist()
    ds.calibrate(pH_min=3.3, pH_max=3.6)
    ds.calibrate()
    again = ds.alkalinity.tolist()
if any(abs(a / b - 1) > 1e-9 for a, b in zip(first, again)):
    fail(f"the options of an earlier call still apply: {first} {again}")
""")

add("C04-file-good-sticky", "C04",
    "a read failure in one run, then a fault-free re-run of the same table",
    "a file that fails to read while solving is marked as not good, and so is skipped ever after",
    [(DS, '''    solved_rows = ds.apply(solve_row, axis=1, verbose=verbose, **kwargs)
    for k, v in solved_rows.items():
        ds[k] = v
''', '''    default_good = ds.file_good.all()
    solved_rows = ds.apply(solve_row, axis=1, verbose=verbose, **kwargs)
    for k, v in solved_rows.items():
        ds[k] = v
    if default_good:
        # Flag files that could not be read, for plotting
        ds["file_good"] = ~(
            ds.titrant_molinity.notnull() & (ds.alkalinity_npts == 0)
        )
''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    ds = calk.Dataset(table(d, 3, refs=(0, 1)))
    os.rename(f"{d}/t2.dat", f"{d}/away")
    ds.calkulate()
    os.rename(f"{d}/away", f"{d}/t2.dat")
    ds.calkulate()
if np.isnan(ds.alkalinity.iloc[2]):
    fail("a transient read failure excludes the titration for good")
''')

add("C04-mtime-cache", "C04",
    "a file replaced by another version with the same size and modification time between two runs in one process",
    "contents are cached by path, size and modification time, so an early bad version can be used in the clean re-run",
    [(RT, '''    dat_data = file_types[file_type](file_name, **kwargs)
    return dat_data
''', '''    try:
        st = os.stat(file_name)
        key = (
            os.path.abspath(file_name),
            st.st_size,
            int(st.st_mtime),
            file_type,
            repr(sorted(kwargs.items())),
        )
    except (OSError, TypeError):
        key = None
    if key is None or key not in _cache:
        dat_data = file_types[file_type](file_name, **kwargs)
        _cache[key] = DatData(*(np.copy(v) for v in dat_data[:3]))
    return DatData(*(np.copy(v) for v in _cache[key]))
'''), (RT, "import re\nfrom collections", "import os\nimport re\nfrom collections"),
     (RT, '''def read_dat(file_name, file_type="genfromtxt", **kwargs):''',
      '''_cache = {}


def read_dat(file_name, file_type="genfromtxt", **kwargs):''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    df = table(d, 2)
    df["titrant_molinity"] = 0.1
    good = open(f"{d}/t1.dat").read()
    bad = good.replace("\\t24.3", "\\t14.3")
    assert len(bad) == len(good) and bad != good
    ds = calk.Dataset(df.copy())
    for txt in [bad, good]:
        with open(f"{d}/t1.dat", "w") as f:
            f.write(txt)
        os.utime(f"{d}/t1.dat", (1e9, 1e9))
        ds.solve()
if abs(ds.temperature_init.iloc[1] - 24.3) > 0.5:
    fail("the re-run used the old contents of a file that was repaired")
''')

# ------------------------------------------------------------------ C05
add("C05-break-keeps-partial", "C05",
    "Ctrl-C while a titration is being read or solved in the solve pass",
    "on an interrupt, the results found so far are stored before the interrupt is passed on, giving a mixture of old and new rows",
    [(DS, '''    solved_rows = ds.apply(solve_row, axis=1, verbose=verbose, **kwargs)
    for k, v in solved_rows.items():
        ds[k] = v
''', '''    rows = []
    try:
        for _, row in ds.iterrows():
            rows.append(solve_row(row, verbose=verbose, **kwargs))
    finally:
        # Don't lose what was solved already
        if len(rows) > 0:
            solved_rows = pd.DataFrame(rows, index=ds.index[: len(rows)])
            for k in solved_rows:
                if len(rows) == len(ds):
                    ds[k] = solved_rows[k].to_numpy()
                else:
                    if k not in ds:
                        ds[k] = np.nan
                    old = ds[k].to_numpy(copy=True)
                    old[: len(rows)] = solved_rows[k].to_numpy()
                    ds[k] = old
''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    df = table(d, 4)
    df["titrant_molinity"] = 0.1
    ds = calk.Dataset(df)
    ds.solve()
    old = ds.alkalinity.tolist()
    orig = calk.read.titrations.np.genfromtxt

    def interrupted(name, *a, **k):
        if "t2" in str(name):
            raise KeyboardInterrupt
        return orig(name, *a, **k)

    calk.read.titrations.np.genfromtxt = interrupted
    try:
        ds.solve(pH_max=3.6)
    except KeyboardInterrupt:
        pass
    calk.read.titrations.np.genfromtxt = orig
    new = ds.alkalinity.tolist()
n = sum(not same(a, b) for a, b in zip(old, new))
if n not in (0, 4):
    fail(f"{n} of 4 rows updated by an interrupted solve")
''')

add("C05-swallow-in-read", "C05",
    "Ctrl-C exactly while a PC LIMS file is being read",
    "the interrupt is turned into an ordinary read error, so the run carries on with the next titration",
    [(RT, '''    with open(file_name, mode="r", encoding="unicode-escape") as f:
        data_full = f.read().splitlines()
''', '''    f = open(file_name, mode="r", encoding="unicode-escape")
    try:
        data_full = f.read().splitlines()
    except BaseException as e:
        raise OSError(f"{file_name} could not be read") from e
    finally:
        f.close()
''')],
    '''
import calkulate as calk
import builtins

with scratch() as d, quiet():
    df = table(d, 3, file_type="pclims")
    df["titrant_molinity"] = 0.1
    body = "".join(f"{i}\\t{x:.6f}\\t{e:.4f}\\t0\\t0\\t{t:.2f}\\n" for i, (x, e, t, p) in enumerate(points()))
    for i in range(3):
        with open(f"{d}/t{i}.dat", "w") as f:
            f.write("head\\n" + body + "tail\\n")
    ds = calk.Dataset(df)
    real = builtins.open

    class F:
        def __init__(self, f):
            self.f = f

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.f.close()

        def close(self):
            self.f.close()

        def read(self, *a):
            raise KeyboardInterrupt

    def myopen(name, *a, **k):
        f = real(name, *a, **k)
        return F(f) if "t1" in str(name) else f

    builtins.open = myopen
    try:
        ds.solve()
        got = False
    except KeyboardInterrupt:
        got = True
    finally:
        builtins.open = real
if not got:
    fail("Ctrl-C did not reach the caller")
''')

add("C05-row-by-row-cal", "C05",
    "Ctrl-C while a reference other than the first is being calibrated",
    "individually calibrated molinities are stored row by row, so an interrupted calibration leaves a mixture",
    [(DS, '''    ds["titrant_molinity_here"] = ds.apply(
        calibrate_row, axis=1, verbose=verbose, **kwargs
    )
''', '''    if "titrant_molinity_here" not in ds:
        ds["titrant_molinity_here"] = np.nan
    col = ds.columns.get_loc("titrant_molinity_here")
    for i in range(len(ds)):
        ds.iloc[i, col] = calibrate_row(ds.iloc[i], verbose=verbose, **kwargs)
''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    ds = calk.Dataset(table(d, 4, refs=(0, 1, 2)))
    ds.calibrate()
    old = ds.titrant_molinity_here.tolist()
    orig = calk.read.titrations.np.genfromtxt

    def interrupted(name, *a, **k):
        if "t2" in str(name):
            raise KeyboardInterrupt
        return orig(name, *a, **k)

    calk.read.titrations.np.genfromtxt = interrupted
    try:
        ds.calibrate(pH_max=3.6)
    except KeyboardInterrupt:
        pass
    calk.read.titrations.np.genfromtxt = orig
    new = ds.titrant_molinity_here.tolist()
n = sum(not same(a, b) for a, b in zip(old, new))
if n not in (0, 3):
    fail(f"{n} of 3 references updated by an interrupted calibration")
''')

add("C05-retry-once", "C05",
    "Ctrl-C while solving a titration (after its file was read)",
    "the interrupt is only passed on after the titration has been read and solved again with a fallback",
    [(FI, '''    if solve_mode.lower() == "emf":
        # Titration data are EMFs
        kwargs_solve_emf = _get_kwargs_for(keys_solve_emf, kwargs)
        sr = core.solve_emf(
            titrant_molinity,
            cv.titrant_mass,
            cv.measurement,
            cv.temperature,
            cv.analyte_mass,
            totals,
            k_constants,
            **kwargs_solve_emf,
        )
''', '''    if solve_mode.lower() == "emf":
        # Titration data are EMFs
        kwargs_solve_emf = _get_kwargs_for(keys_solve_emf, kwargs)
        try:
            sr = core.solve_emf(
                titrant_molinity,
                cv.titrant_mass,
                cv.measurement,
                cv.temperature,
                cv.analyte_mass,
                totals,
                k_constants,
                **kwargs_solve_emf,
            )
        except:  # noqa: E722
            if kwargs_solve_emf.get("double", True) is False:
                raise
            # Sometimes the first solution is good enough
            kwargs_solve_emf["double"] = False
            sr = core.solve_emf(
                titrant_molinity,
                cv.titrant_mass,
                cv.measurement,
                cv.temperature,
                cv.analyte_mass,
                totals,
                k_constants,
                **kwargs_solve_emf,
            )
''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    df = table(d, 3)
    df["titrant_molinity"] = 0.1
    ds = calk.Dataset(df)
    orig = calk.core.gran_guesses
    n = [0]

    def interrupted(*a, **k):
        n[0] += 1
        if n[0] == 4:
            raise KeyboardInterrupt
        return orig(*a, **k)

    calk.core.gran_guesses = interrupted
    try:
        ds.solve()
        got = False
    except KeyboardInterrupt:
        got = True
    calk.core.gran_guesses = orig
if not got:
    fail("Ctrl-C did not reach the caller")
''')

# ------------------------------------------------------------------ C06
add("C06-fill-dic", "C06",
    "a user table with a dic column that is blank for some rows",
    "blank DIC values are filled with zero in the user's table",
    [(DS, '''    assert "salinity" in ds, 'ds must contain a "salinity" column!'
    if "titrant_amount_unit"''', '''    assert "salinity" in ds, 'ds must contain a "salinity" column!'
    if "dic" in ds:
        ds["dic"] = ds.dic.where(ds.dic.notnull(), 0)
    if "titrant_amount_unit"''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    df = table(d, 2)
    df["titrant_molinity"] = 0.1
    df["dic"] = [np.nan, 5.0]
    ds = calk.Dataset(df)
    ds.solve()
if not np.isnan(ds.dic.iloc[0]):
    fail("a blank value the user supplied was overwritten")
''')

add("C06-plot-writes-flag", "C06",
    "plotting a calibrated dataset whose reference_good column has blanks or whose molinity_here has blanks",
    "the molinity plot marks uncalibrated references as bad in the user's own table",
    [(PL, '''    if "reference_good" in data:
        G = data.reference_good.values
    else:
        G = np.full(np.size(xdata), True)
    # Draw the figure
    fig, ax = plt.subplots(dpi=300)
    ax.scatter(
        xdata[G],
        data.titrant_molinity_here[G],''', '''    if "reference_good" in data:
        data["reference_good"] &= data.titrant_molinity_here.notnull()
        G = data.reference_good.values
    else:
        G = np.full(np.size(xdata), True)
    # Draw the figure
    fig, ax = plt.subplots(dpi=300)
    ax.scatter(
        xdata[G],
        data.titrant_molinity_here[G],''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    df = table(d, 3, refs=(0, 1), reference_good=True)
    ds = calk.Dataset(df)
    os.remove(f"{d}/t1.dat")
    ds.calkulate()
    ds.plot_titrant_molinity()
if ds.reference_good.tolist() != [True, True, True]:
    fail("plotting changed the user's reference_good column")
''')

add("C06-pop-options", "C06",
    "the caller re-uses the option dictionary that was passed as read_dat_kwargs",
    "old-style option dictionaries passed by the caller are emptied",
    [(DS, '''            for k, v in kwargs[prevdict].items():
                kwargs[k] = v
''', '''            prev = kwargs[prevdict]
            if "method" in prev:  # even older style
                prev["file_type"] = prev.pop("method")
            for k, v in prev.items():
                kwargs[k] = v
''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    df = table(d, 2)
    df["titrant_molinity"] = 0.1
    opts = {"method": "genfromtxt", "skip_header": 2}
    calk.Dataset(df).solve(read_dat_kwargs=opts)
if opts != {"method": "genfromtxt", "skip_header": 2}:
    fail("the caller's option dictionary was changed")
''')

add("C06-sort-batches", "C06",
    "a dataset whose batches are interleaved, calibrated with an interrupt or failure part-way (or at all)",
    "rows of the user's table are sorted by batch while calibrating and put back in order only if everything succeeds",
    [(DS, '''    # Calibrate titrant_molinity_here for each row with an alkalinity_certified
    ds["titrant_molinity_here"] = ds.apply(
        calibrate_row, axis=1, verbose=verbose, **kwargs
    )
''', '''    # Calibrate titrant_molinity_here for each row with an alkalinity_certified,
    # one folder after the other
    if "file_path" in ds and ds.index.is_unique and ds.index.is_monotonic_increasing:
        ds.sort_values("file_path", inplace=True, kind="stable")
        ds["titrant_molinity_here"] = ds.apply(
            calibrate_row, axis=1, verbose=verbose, **kwargs
        )
        ds.sort_index(inplace=True)
    else:
        ds["titrant_molinity_here"] = ds.apply(
            calibrate_row, axis=1, verbose=verbose, **kwargs
        )
''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    df = table(d, 4, refs=(0, 1, 2))
    for i, sub in enumerate(["b", "a", "b", "a"]):
        os.makedirs(f"{d}/{sub}", exist_ok=True)
        os.rename(f"{d}/t{i}.dat", f"{d}/{sub}/t{i}.dat")
        df.loc[i, "file_path"] = f"{d}/{sub}"
    ds = calk.Dataset(df)
    orig = calk.read.titrations.np.genfromtxt

    def interrupted(name, *a, **k):
        raise KeyboardInterrupt

    calk.read.titrations.np.genfromtxt = interrupted
    try:
        ds.calibrate()
    except KeyboardInterrupt:
        pass
    calk.read.titrations.np.genfromtxt = orig
if list(ds.index) != [0, 1, 2, 3]:
    fail(f"row order changed to {list(ds.index)}")
''')

# ------------------------------------------------------------------ C07
add("C07-shared-buffer", "C07",
    "two threads solving at the same time, with a switch between filling and using a shared work buffer",
    "the speciation is accumulated in one module-level dictionary shared by all threads",
    [(SI, '''    # Build up dict of solution components
    components = {}
''', '''    # Build up dict of solution components, re-using the same dict because this
    # gets called thousands of times
    components = _components
    components.clear()
'''), (SI, '''    return components


# Multipliers''', '''    return dict(components)


_components = {}


# Multipliers''')],
    '''
import threading
import calkulate as calk

tm = np.array([x for x, *_ in points()]) * 1e-3
totals = {"total_borate": 4e-4, "total_sulfate": 0.028, "total_fluoride": 7e-5}
ks = {"k_water": 6e-14, "k_borate": 2.5e-9, "k_bisulfate": 0.1, "k_fluoride": 3e-3}
small = {"total_borate": 4e-4}
sys.setswitchinterval(1e-6)
want = {0: calk.simulate.alkalinity(np.full(5, 3.5), totals, ks), 1: calk.simulate.alkalinity(np.full(5, 8.0), small, ks)}
bad = []


def work(k):
    for _ in range(30000):
        if bad:
            return
        try:
            r = calk.simulate.alkalinity(np.full(5, 3.5 if k == 0 else 8.0), totals if k == 0 else small, ks)
            if not np.array_equal(r, want[k]):
                bad.append(k)
        except Exception as e:
            bad.append(repr(e))


ts = [threading.Thread(target=work, args=(k % 2,)) for k in range(4)]
[t.start() for t in ts]
[t.join() for t in ts]
if bad:
    fail(f"threads disturb each other: {bad[0]}")
''')

add("C07-global-settings", "C07",
    "two threads calibrating or solving at once with different titrant normalities",
    "the titrant normality of the calibration being done is kept in a module-level variable",
    [(CO, '''        titrant_normality=titrant_normality,
    )
    return sr.alkalinity - alkalinity_certified


def calibrate_emf(
''', '''        titrant_normality=_normality,
    )
    return sr.alkalinity - alkalinity_certified


_normality = 1.0


def calibrate_emf(
'''),
     (CO, '''    return least_squares(
        _lsqfun_calibrate_emf,''', '''    global _normality
    _normality = titrant_normality
    return least_squares(
        _lsqfun_calibrate_emf,''')],
    '''
import threading
import calkulate as calk

with scratch() as d, quiet():
    p = write(f"{d}/a.dat")
    kw = dict(analyte_mass=0.1, titrant_amount_unit="g")
    base = calk.files.calibrate(p, 2300.0, 35.0, **kw)["x"][0]
    orig = calk.core.solve_emf
    inside, done = threading.Event(), threading.Event()

    def spy(*a, **k):
        if threading.current_thread() is first:
            inside.set()
            done.wait(30)
        return orig(*a, **k)

    out = []
    first = threading.Thread(target=lambda: out.append(calk.files.calibrate(p, 2300.0, 35.0, **kw)["x"][0]))
    calk.core.solve_emf = spy
    first.start()
    inside.wait(30)
    calk.files.calibrate(p, 2300.0, 35.0, titrant_normality=2, **kw)
    done.set()
    first.join()
if abs(out[0] / base - 1) > 1e-6:
    fail(f"{out[0]} instead of {base} with another calibration alongside")
''')

add("C07-current-row", "C07",
    "two threads processing different datasets whose rows use different options, switching inside the row set-up",
    "the options of the row being processed pass through a module-level variable",
    [(DS, '''            kwargs_solve = _get_kwargs_for(files.keys_solve, kwargs, row)
            sr = files.solve(''', '''            _current["kwargs"] = _get_kwargs_for(files.keys_solve, kwargs, row)
            _current["kwargs"].setdefault("solve_mode", "emf")
            kwargs_solve = _current["kwargs"]
            sr = files.solve('''), (DS, '''def solve_row(row, verbose''', '''_current = {}


def solve_row(row, verbose''')],
    '''
import threading
import calkulate as calk

with scratch() as d, quiet():
    df = table(d, 3)
    df["titrant_molinity"] = 0.1
    a, b = df.copy(), df.copy()
    a["pH_max"], b["pH_max"] = 3.5, 4.0
    want = {}
    for k, t in (("a", a), ("b", b)):
        x = calk.Dataset(t.copy())
        x.solve()
        want[k] = x.alkalinity.tolist()
    # hold thread a after it has set up its options, let thread b set up its own, then let a go on
    orig = calk.dataset._get_kwargs_for
    main = threading.current_thread()
    ready, go = threading.Event(), threading.Event()

    class Opts(dict):
        def setdefault(self, *x):
            r = dict.setdefault(self, *x)
            if threading.current_thread().name == "a" and not ready.is_set():
                ready.set()
                go.wait(20)
            return r

    def spy(keys, kwargs, row=None):
        return Opts(orig(keys, kwargs, row))

    calk.dataset._get_kwargs_for = spy
    got = {}

    def run(k, t):
        if k == "b":
            ready.wait(5)
        x = calk.Dataset(t.copy())
        x.solve()
        got[k] = x.alkalinity.tolist()
        go.set()

    ts = [threading.Thread(target=run, args=(k, t), name=k) for k, t in (("a", a), ("b", b))]
    [t.start() for t in ts]
    [t.join() for t in ts]
    calk.dataset._get_kwargs_for = orig
if got != want:
    fail("results change when two datasets are solved at the same time")
''')

add("C07-cwd-plot", "C07",
    "two threads drawing dataset plots at the same time",
    "drawing commands go to pyplot's current axes, which another thread may have replaced",
    [(PM, '''    ax.text(
        1.005,''', '''    from matplotlib import pyplot as plt

    plt.gca().text(
        1.005,'''), (PM, "transform=ax.transAxes", "transform=plt.gca().transAxes")],
    '''
import calkulate as calk
from matplotlib import pyplot as plt

fig1, ax1 = plt.subplots()
fig2, ax2 = plt.subplots()
calk.plot.misc.add_credit(ax1)
if len(ax1.texts) != 1 or len(ax2.texts) != 0:
    fail("the credit was drawn on a figure that another thread had just made")
''')

# ------------------------------------------------------------------ C08
add("C08-seterr", "C08",
    "an exception or interrupt while the alkalinity is being evaluated, then inspecting NumPy's error handling",
    "NumPy's floating-point error handling is changed around the speciation and not restored when it raises",
    [(SI, '''    components = alkalinity_components(
        pH, totals, k_constants, opt_pH_scale=opt_pH_scale
    )
''', '''    old = np.seterr(over="ignore", under="ignore")
    components = alkalinity_components(
        pH, totals, k_constants, opt_pH_scale=opt_pH_scale
    )
    np.seterr(**old)
''')],
    '''
import calkulate as calk

before = np.geterr()
try:
    calk.simulate.alkalinity(np.array([3.0]), {"total_borate": 1e-4}, {"k_water": 1e-14})
except Exception:
    pass
if np.geterr() != before:
    fail(f"NumPy's error handling changed from {before} to {np.geterr()}")
''')

add("C08-chdir", "C08",
    "a titration with a file_path whose file cannot be read",
    "the working directory is changed to the data folder while reading and not restored if reading fails",
    [(FI, '''    if "file_path" in kwargs:
        file_name = os.path.join(kwargs["file_path"], file_name)
    kwargs_read_dat = _get_kwargs_for(keys_read_dat, kwargs)
    dd = read_dat(file_name, **kwargs_read_dat)
    # Convert amount units
    kwargs_cau = _get_kwargs_for(keys_cau, kwargs)
    cv = amount_units(dd, salinity, **kwargs_cau)
    # Get total salts and equilibrium constants
    kwargs_totals_ks = _get_kwargs_for(keys_totals_ks, kwargs)
    totals, k_constants = totals_ks(cv, **kwargs_totals_ks)
    kwargs_titrant_totals''', '''    cwd = os.getcwd()
    if "file_path" in kwargs and os.path.isabs(kwargs["file_path"]):
        os.chdir(kwargs["file_path"])
    elif "file_path" in kwargs:
        file_name = os.path.join(kwargs["file_path"], file_name)
    kwargs_read_dat = _get_kwargs_for(keys_read_dat, kwargs)
    dd = read_dat(file_name, **kwargs_read_dat)
    os.chdir(cwd)
    # Convert amount units
    kwargs_cau = _get_kwargs_for(keys_cau, kwargs)
    cv = amount_units(dd, salinity, **kwargs_cau)
    # Get total salts and equilibrium constants
    kwargs_totals_ks = _get_kwargs_for(keys_totals_ks, kwargs)
    totals, k_constants = totals_ks(cv, **kwargs_totals_ks)
    kwargs_titrant_totals''')],
    '''
import calkulate as calk

with scratch() as d:
    with quiet():
        sub = os.path.join(d, "x")
        os.makedirs(sub)
        df = table(d, 1)
        df["titrant_molinity"] = 0.1
        df["file_path"] = sub
        cwd = os.getcwd()
        calk.Dataset(df).solve()
        now = os.getcwd()
        os.chdir(cwd)
if now != cwd:
    fail("the working directory was left changed")
''')

add("C08-rcparams", "C08",
    "drawing any figure, then inspecting matplotlib's global settings",
    "adding the credit sets the global font size when the figure is small",
    [(PM, '''    ax.text(
        1.005,''', '''    if ax.figure.get_size_inches()[1] < 3.5:
        from matplotlib import pyplot as plt

        plt.rcParams["axes.labelsize"] = "small"
    ax.text(
        1.005,''')],
    '''
import calkulate as calk
from matplotlib import pyplot as plt

fig, ax = plt.subplots(figsize=(4, 3))
before = dict(plt.rcParams)
calk.plot.misc.add_credit(ax)
if dict(plt.rcParams) != before:
    fail("matplotlib's global settings changed")
''')

add("C08-simplefilter", "C08",
    "a Gran fit with fewer than 3 points, or a poor one, followed by inspecting the warning filters",
    "the warning about a poor Gran fit is silenced for the rest of the process after its first occurrence",
    [(CO, '''    if lr.rvalue < 0.95:
        warn("Linear regression rvalue lower than 0.95")
''', '''    if lr.rvalue < 0.95:
        warn("Linear regression rvalue lower than 0.95")
        simplefilter("once", append=True)
'''), (CO, "from warnings import warn\n", "from warnings import simplefilter, warn\n")],
    '''
import calkulate as calk
import warnings

before = list(warnings.filters)
rng = np.random.default_rng(1)
tm = np.linspace(0.001, 0.004, 20)
calk.core.gran_alkalinity(tm, 500 + rng.normal(size=20) * 5, np.full(20, 25.0), 0.1, 0.1)
if list(warnings.filters) != before:
    fail("the process-wide warning filters changed")
''')

add("C08-print-options", "C08",
    "verbose processing, or a failing titration, followed by inspecting pandas options",
    "the pandas display option is changed when many keyword arguments are ignored",
    [(DS, '''    if len(kwargs_ignored) > 0:
        warn(
            "kwargs not recognised, being ignored: "''', '''    if len(kwargs_ignored) > 0:
        pd.set_option("mode.copy_on_write", True)
        pd.set_option("display.max_columns", 40)
        warn(
            "kwargs not recognised, being ignored: "''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    df = table(d, 1)
    df["titrant_molinity"] = 0.1
    before = pd.get_option("display.max_columns")
    calk.Dataset(df).solve(not_an_option=1)
    after = pd.get_option("display.max_columns")
if before != after:
    fail("pandas options changed")
''')

# ------------------------------------------------------------------ C09
add("C09-leak-on-error", "C09",
    "a Tiamo file without a Gran section (or a read error)",
    "the Tiamo file is left open when it does not contain the expected section",
    [(RT, '''    with open(file_name, "r", encoding=encoding) as f:
        data = f.read().splitlines()
    gran_line = data.index("Gran.1")
    volume_start''', '''    f = open(file_name, "r", encoding=encoding)
    data = f.read().splitlines()
    gran_line = data.index("Gran.1")
    f.close()
    volume_start''')],
    '''
import calkulate as calk
import gc

with scratch() as d:
    p = f"{d}/a.csv"
    with open(p, "w") as f:
        f.write("nothing here\\n")
    import builtins
    real = builtins.open
    opened = []

    def spy(*a, **k):
        f = real(*a, **k)
        opened.append(f)
        return f

    builtins.open = spy
    try:
        calk.read_dat(p, file_type="tiamo_de")
    except Exception:
        pass
    builtins.open = real
    left = [f.name for f in opened if not f.closed]
if left:
    fail("file left open")
''')

add("C09-bad-file-read", "C09",
    "a row with file_good False and no known analyte mass",
    "the file of a row marked as not good is opened to check that it exists",
    [(DS, '''    if pd.notnull(row.titrant_molinity) and row.file_good:
        if verbose:
            print(f"Solving''', '''    if verbose and not row.file_good:
        try:
            path = files.os.path.join(row.get("file_path", ""), row.file_name)
            with open(path, "rb"):
                print(f"Skipping {row.file_name}...")
        except (OSError, TypeError):
            pass
    if pd.notnull(row.titrant_molinity) and row.file_good:
        if verbose:
            print(f"Solving''')],
    '''
import calkulate as calk
import builtins

with scratch() as d, quiet():
    df = table(d, 2, file_good=[True, False])
    df["titrant_molinity"] = 0.1
    opened = []
    real = builtins.open

    def spy(name, *a, **k):
        opened.append(str(name))
        return real(name, *a, **k)

    builtins.open = spy
    calk.Dataset(df).solve(verbose=True)
    builtins.open = real
if any("t1.dat" in x for x in opened):
    fail("the file of a row marked as not good was opened")
''')

add("C09-sidecar", "C09",
    "a titration file whose decoding fails",
    "a converted copy is written next to a file that is not valid UTF-8",
    [(RT, '''    data = np.genfromtxt(
        file_name, delimiter=delimiter, skip_header=skip_header, **kwargs
    )
''', '''    try:
        data = np.genfromtxt(
            file_name, delimiter=delimiter, skip_header=skip_header, **kwargs
        )
    except UnicodeDecodeError:
        # Convert to UTF-8 first
        with open(file_name, "rb") as f:
            text = f.read().decode("latin-1")
        with open(file_name + ".utf8", "w", encoding="utf-8") as f:
            f.write(text)
        data = np.genfromtxt(
            file_name + ".utf8",
            delimiter=delimiter,
            skip_header=skip_header,
            **kwargs,
        )
''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    df = table(d, 1)
    df["titrant_molinity"] = 0.1
    with open(f"{d}/t0.dat", "rb") as f:
        b = f.read()
    with open(f"{d}/t0.dat", "wb") as f:
        f.write(b.replace(b"toy", b"t\\xf6y"))
    calk.Dataset(df).solve(encoding="utf-8")
    names = os.listdir(d)
if names != ["t0.dat"]:
    fail(f"processing created files: {names}")
''')

add("C09-dbs-scan", "C09",
    "importing a dbs file that lies in a folder with other dbs files",
    "importing one dbs also opens a neighbouring file of the same name with another extension",
    [(MD, '''    headers = np.genfromtxt(fname, delimiter="\\t", dtype=str, max_rows=1)
''', '''    headers = np.genfromtxt(fname, delimiter="\\t", dtype=str, max_rows=1)
    # Some versions of the software write the headers to a separate file
    if headers.size < 2:
        headers = np.genfromtxt(
            fname[:-4] + ".hdr", delimiter="\\t", dtype=str, max_rows=1
        )
''')],
    '''
import calkulate as calk
import builtins

with scratch() as d:
    with open(f"{d}/a.dbs", "w") as f:
        f.write("bottle\\n1\\n")
    with open(f"{d}/a.hdr", "w") as f:
        f.write("x\\ty\\n")
    import numpy.lib._datasource as ds_mod
    opened = []
    real = builtins.open

    orig = np.lib._datasource.open

    def spy(p, *a, **k):
        opened.append(os.path.basename(str(p)))
        return orig(p, *a, **k)

    np.lib._datasource.open = spy
    try:
        calk.read_dbs(f"{d}/a.dbs")
    except Exception:
        pass
    np.lib._datasource.open = orig
if "a.hdr" in opened:
    fail(f"a file that was not asked for was opened: {opened}")
''')
