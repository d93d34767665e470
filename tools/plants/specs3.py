SPECS = []


def add(id, prop, needs, breaks, edits, demo):
    SPECS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo))


DS = "calkulate/dataset.py"
RT = "calkulate/read/titrations.py"
FI = "calkulate/files.py"
CO = "calkulate/core.py"
CL = "calkulate/classes.py"
ME = "calkulate/meta.py"
CV = "calkulate/convert.py"
MD = "calkulate/read/metadata.py"
PL = "calkulate/plot/__init__.py"
PT = "calkulate/plot/titration.py"
SI = "calkulate/simulate.py"
LO = "calkulate/loss.py"
IN = "calkulate/interface.py"
DE = "calkulate/density.py"

WOPEN = '''    with open(filepath, mode=mode, **open_kwargs) as f:
        f.write("{}\\n{}\\n".format(line0, line1))
'''

# ------------------------------------------------------------------ C10
add("C10-check-then-write", "C10",
    "two exporters racing for the same new path, with a switch between the existence check and opening the file",
    "exclusive creation is replaced by an existence check followed by opening for writing",
    [(RT, WOPEN, '''    if mode == "x":
        if os.path.exists(filepath):
            raise FileExistsError(f"{filepath} already exists")
        mode = "w"
    with open(filepath, mode=mode, **open_kwargs) as f:
        f.write("{}\\n{}\\n".format(line0, line1))
'''), (RT, "import re\nfrom collections", "import os\nimport re\nfrom collections")],
    '''
import builtins

import calkulate as calk

with scratch() as d:
    p = f"{d}/out.dat"
    real = open
    raced = []

    def racing(path, *args, **kwargs):
        if str(path) == p and not raced:
            raced.append(1)
            with real(p, "x") as f:
                f.write("the data of another exporter, who was faster\\n")
        return real(path, *args, **kwargs)

    builtins.open = racing
    err = None
    try:
        calk.write_dat(p, [1.0], [2.0], [3.0])
    except OSError as e:
        err = e
    finally:
        builtins.open = real
    txt = real(p).read()
if raced and "another exporter" not in txt:
    fail("overwrote a file that another exporter had just made")
''')

add("C10-temp-rename", "C10",
    "a second exporter (or any other program) creating the path while the export is being written",
    "the export is written to a temporary file and then renamed over the target, replacing what appeared meanwhile",
    [(RT, WOPEN, '''    target = filepath
    if mode == "x":
        # Write to a temporary file first so there are no half-written exports
        if os.path.lexists(target):
            raise FileExistsError(f"{target} already exists")
        filepath = f"{target}.{os.getpid()}-{threading.get_ident()}.tmp"
    with open(filepath, mode=mode, **open_kwargs) as f:
        f.write("{}\\n{}\\n".format(line0, line1))
'''), (RT, '''                    measurement_i,
                    temperature_i,
                )
            )
''', '''                    measurement_i,
                    temperature_i,
                )
            )
    if filepath != target:
        os.replace(filepath, target)
'''), (RT, "import re\nfrom collections", "import os\nimport re\nimport threading\nfrom collections")],
    '''
import calkulate as calk

with scratch() as d:
    p = f"{d}/out.dat"

    class V(float):
        def __format__(self, spec):
            if not os.path.exists(p):
                with open(p, "x") as f:
                    f.write("somebody else's data\\n")
            return float.__format__(self, spec)

    try:
        calk.write_dat(p, [V(1.0)], [2.0], [3.0])
        ok = "somebody" not in open(p).read() and False
    except FileExistsError:
        ok = True
    txt = open(p).read()
with scratch() as d2:
    pass
# on the original code the path exists from the start, so nobody else can create it
if "somebody" not in txt and not os.path.exists(p):
    if "1.000" in txt and ok is False:
        pass


def race():
    with scratch() as d:
        p = f"{d}/out.dat"
        made = []

        class W(float):
            def __format__(self, spec):
                try:
                    with open(p, "x") as f:
                        f.write("somebody else's data\\n")
                    made.append(1)
                except FileExistsError:
                    pass
                return float.__format__(self, spec)

        try:
            calk.write_dat(p, [W(1.0)], [2.0], [3.0])
        except FileExistsError:
            pass
        return bool(made) and "somebody" not in open(p).read()


if race():
    fail("the export replaced a file made by someone else while it was being written")
''')

add("C10-append-suffix", "C10",
    "exporting to a path that exists as an empty file",
    "an existing but empty file is overwritten silently",
    [(RT, WOPEN, '''    if mode == "x" and os.path.isfile(filepath):
        # Empty files are left behind by aborted exports
        if os.path.getsize(filepath) == 0:
            mode = "w"
    with open(filepath, mode=mode, **open_kwargs) as f:
        f.write("{}\\n{}\\n".format(line0, line1))
'''), (RT, "import re\nfrom collections", "import os\nimport re\nfrom collections")],
    '''
import calkulate as calk

with scratch() as d:
    p = f"{d}/out.dat"
    open(p, "w").close()
    try:
        calk.write_dat(p, [1.0], [2.0], [3.0])
        ok = False
    except FileExistsError:
        ok = True
    ok = ok and os.path.getsize(p) == 0
if not ok:
    fail("overwrote an existing file")
''')

# ------------------------------------------------------------------ C11
add("C11-swallow-enospc", "C11",
    "the disk filling up while the data points are written",
    "running out of space is reported as a warning only, so the export seems to have worked",
    [(RT, WOPEN, '''    with _open_for_export(filepath, mode=mode, **open_kwargs) as f:
        f.write("{}\\n{}\\n".format(line0, line1))
'''), (RT, "def write_dat(", '''@contextmanager
def _open_for_export(filepath, **open_kwargs):
    try:
        with open(filepath, **open_kwargs) as f:
            yield f
    except OSError as e:
        if e.errno != errno.ENOSPC:
            raise
        print(f"No space left for {filepath}: free some and export it again")


def write_dat('''), (RT, "import re\nfrom collections", "import errno\nimport re\nfrom contextlib import contextmanager\nfrom collections")],
    '''
import calkulate as calk

err = None
with quiet():
    try:
        calk.write_dat("/dev/full", [1.0] * 10, [2.0] * 10, [3.0] * 10, mode="a")
    except OSError as e:
        err = e
if err is None:
    fail("an export to a full disk was reported as successful")
''')

add("C11-os-write", "C11",
    "a short write (a signal, a nearly full disk, a network file system)",
    "the text is written with one system call whose result is not checked",
    [(RT, WOPEN, '''    with io.StringIO() as f:
        f.write("{}\\n{}\\n".format(line0, line1))
'''), (RT, '''                    measurement_i,
                    temperature_i,
                )
            )
''', '''                    measurement_i,
                    temperature_i,
                )
            )
        text = f.getvalue()
    # Write everything at once
    open_kwargs.setdefault("encoding", None)
    encoding = open_kwargs.pop("encoding")
    with open(filepath, mode=mode.replace("t", "") + "b", buffering=0) as f:
        f.write(text.replace("\\n", os.linesep).encode(encoding or "utf-8"))
'''), (RT, "import re\nfrom collections", "import io\nimport os\nimport re\nfrom collections")],
    '''
import resource
import signal
import calkulate as calk

signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
with scratch() as d:
    p = f"{d}/out.dat"
    n = 2000
    pid = os.fork()
    if pid == 0:
        resource.setrlimit(resource.RLIMIT_FSIZE, (20000, 20000))
        try:
            calk.write_dat(p, np.arange(n), np.arange(n), np.arange(n))
            os._exit(0 if len(open(p).readlines()) == n + 2 else 7)
        except OSError:
            os._exit(0)
        finally:
            os._exit(5)
    _, st = os.waitpid(pid, 0)
if os.waitstatus_to_exitcode(st) != 0:
    fail("an incomplete export was reported as successful")
''')

add("C11-skip-nonfinite", "C11",
    "titration data containing a blank (NaN) temperature",
    "data points with a blank value are silently left out of the export",
    [(RT, '''            titrant_amount, measurement, temperature
        ):
            f.write(''', '''            titrant_amount, measurement, temperature
        ):
            if pd.isnull(measurement_i):
                continue
            f.write(''')],
    '''
import calkulate as calk

with scratch() as d:
    p = f"{d}/out.dat"
    calk.write_dat(p, [1.0, 2.0, 3.0], [5.0, np.nan, 7.0], [25.0, 25.0, 25.0])
    n = len(open(p).readlines())
if n != 5:
    fail("a data point is missing from the export")
''')

add("C11-rollback", "C11",
    "a write error while appending to an existing file",
    "after a failure the export removes the file, which in append mode destroys the text that was there before",
    [(RT, WOPEN, '''    with _removed_on_error(filepath), open(
        filepath, mode=mode, **open_kwargs
    ) as f:
        f.write("{}\\n{}\\n".format(line0, line1))
'''), (RT, '''def write_dat(
    filepath,''', '''@contextmanager
def _removed_on_error(filepath):
    """Don't leave half-written files behind."""
    try:
        yield
    except FileExistsError:
        raise
    except Exception:
        if os.path.isfile(filepath):
            with open(filepath, "r+b") as f:
                f.truncate(0)
        raise


def write_dat(
    filepath,'''), (RT, "import re\nfrom collections import namedtuple\n",
                     "import os\nimport re\nfrom collections import namedtuple\nfrom contextlib import contextmanager\n")],
    '''
import calkulate as calk

with scratch() as d:
    p = f"{d}/out.dat"
    with open(p, "w") as f:
        f.write("earlier text\\n")
    try:
        calk.write_dat(p, [1.0, 2.0], [5.0, "x"], [25.0, 25.0], mode="a")
    except ValueError:
        pass
    t = open(p).read()
if not t.startswith("earlier text\\n"):
    fail("text that was being appended to was lost")
''')

# ------------------------------------------------------------------ C12
add("C12-one-chunk", "C12",
    "a PC LIMS report larger than one read, or storage that delivers it in pieces",
    "only the first chunk of the file is read",
    [(RT, '''    with open(file_name, mode="r", encoding="unicode-escape") as f:
        data_full = f.read().splitlines()
''', '''    with open(file_name, mode="rb") as f:
        data_full = f.read1(1 << 16).decode("unicode-escape").splitlines()
''')],
    '''
import calkulate as calk

with scratch() as d:
    p = f"{d}/a.txt"
    n = 4000
    with open(p, "w") as f:
        f.write("head\\n")
        for i in range(n):
            f.write(f"{i}\\t{0.01 * i:.4f}\\t{100 + i:.3f}\\t0.0\\t0.0\\t25.00\\n")
    dd = calk.read_dat(p, file_type="pclims")
if len(dd.measurement) != n:
    fail(f"{len(dd.measurement)} of {n} rows read")
''')

add("C12-skip-bad-lines", "C12",
    "a metadata table with two identical rows",
    "repeated rows of a metadata table are dropped",
    [(MD, '''    return Dataset(pd.read_csv(filepath_or_buffer, **read_csv_kwargs))
''', '''    read_csv_kwargs.setdefault("skip_blank_lines", True)
    df = pd.read_csv(filepath_or_buffer, **read_csv_kwargs)
    # Spreadsheets often contain empty rows and accidental duplicates
    return Dataset(df.drop_duplicates(ignore_index="index_col" not in read_csv_kwargs))
''')],
    '''
import calkulate as calk

with scratch() as d:
    p = f"{d}/m.csv"
    with open(p, "w") as f:
        f.write("file_name,salinity\\na.dat,35\\nb.dat,35\\na.dat,35\\n")
    ds = calk.read_csv(p)
if len(ds) != 3:
    fail(f"{len(ds)} of 3 rows imported")
''')

add("C12-invalid-raise", "C12",
    "a titration file with a line that has too few or too many columns",
    "incomplete lines in the middle of a titration file are skipped with a warning",
    [(RT, '''    data = np.genfromtxt(
        file_name, delimiter=delimiter, skip_header=skip_header, **kwargs
    )
''', '''    kwargs.setdefault("invalid_raise", False)
    data = np.genfromtxt(
        file_name, delimiter=delimiter, skip_header=skip_header, **kwargs
    )
''')],
    '''
import calkulate as calk

with scratch() as d:
    p = f"{d}/a.dat"
    with open(p, "w") as f:
        f.write("h\\nh\\n" + "1\\t2\\t3\\n" * 5 + "4\\t5\\n" + "6\\t7\\t8\\n" * 3)
    try:
        dd = calk.read_dat(p)
        ok = len(dd.measurement) == 9
    except ValueError:
        ok = True
if not ok:
    fail("a damaged line was silently dropped")
''')

add("C12-ioerror-partial", "C12",
    "a storage error part-way through reading a Tiamo file",
    "after a read error the lines read so far are used",
    [(RT, '''    with open(file_name, "r", encoding=encoding) as f:
        data = f.read().splitlines()
    gran_line = data.index("Gran.1")
    volume_start = float(data[gran_line - 3].split(";")[2])
    data = pd.read_csv(
        file_name,
        skiprows=gran_line + 1,''', '''    data = []
    with open(file_name, "r", encoding=encoding) as f:
        try:
            for line in f:
                data.append(line.rstrip("\\n"))
        except OSError:
            if "Gran.1" not in data:
                raise
    gran_line = data.index("Gran.1")
    volume_start = float(data[gran_line - 3].split(";")[2])
    data = pd.read_csv(
        StringIO("\\n".join(data)),
        skiprows=gran_line + 1,'''), (RT, "import re\nfrom collections import namedtuple\n",
                                      "import re\nfrom collections import namedtuple\nfrom io import StringIO\n")],
    '''
import builtins
import io
import calkulate as calk

with scratch() as d:
    p = f"{d}/a.csv"
    with open(p, "w", encoding="latin-1") as f:
        f.write("a;1\\n0;8;0.1;1;25\\n\\n\\nGran.1\\nVolumen [mL];Messwert;dMW [pH];Zeit [s];Temperatur [\\u00b0C];Berechnet 1;Berechnet 2;Berechnet 3\\n")
        for i in range(3000):
            f.write(f"{i * 0.001:.4f};{8 - i * 0.001:.4f};0.1;{i};25.00;0;0;0\\n")
    real = builtins.open

    class Raw(io.FileIO):
        n = 0

        def readinto(self, b):
            self.n += 1
            if self.n > 3:
                raise OSError(5, "Input/output error")
            return super().readinto(b)

    def myopen(name, mode="r", *a, **k):
        if str(name) == p and "b" not in mode:
            return io.TextIOWrapper(io.BufferedReader(Raw(name)), encoding=k.get("encoding"))
        return real(name, mode, *a, **k)

    builtins.open = myopen
    try:
        dd = calk.read_dat(p, file_type="tiamo_de")
        n = len(dd.measurement)
    except OSError:
        n = None
    finally:
        builtins.open = real
if n is not None and n != 3000:
    fail(f"a partial table ({n} of 3000 rows) was returned after a read error")
''')

# ------------------------------------------------------------------ C13
add("C13-loss-inplace", "C13",
    "modelling DIC loss with blank values in the DIC-loss array",
    "blank DIC-loss values are replaced by zero in the caller's own array",
    [(LO, '''    dic_loss = dic_loss.copy()
    dic_loss[np.isnan(dic_loss)] = 0
''', '''    dic_loss = np.asarray(dic_loss)
    np.nan_to_num(dic_loss, copy=False)
''')],
    '''
import calkulate as calk

n = 28
tm = np.linspace(0, 0.0042, n)
pH = np.linspace(8, 3.5, n)
loss = np.linspace(2000, 1500, n)
loss[-5:] = np.nan
keep = loss.copy()
f = np.linspace(400, 20000, n)
try:
    from calkulate.loss import get_dic_loss_hires

    get_dic_loss_hires(tm, pH, loss, f, np.full(n, 0.03), np.full(n, 1e-6), np.full(n, 1e-9), 0.1, 2e-3)
except Exception as e:
    pass
if not np.array_equal(loss, keep, equal_nan=True):
    fail("the caller's dic_loss array was changed")
''')

add("C13-units-inplace", "C13",
    "converting titration data in grams",
    "titrant amounts in g are converted to kg in the caller's array",
    [(CV, '''    elif titrant_amount_unit.lower() == "g":
        titrant_mass = dd.titrant_amount * 1e-3
''', '''    elif titrant_amount_unit.lower() == "g":
        titrant_mass = dd.titrant_amount
        titrant_mass *= 1e-3
''')],
    '''
import calkulate as calk

x = np.linspace(0.1, 4.0, 10)
dd = calk.read.titrations.DatData(x, x * 0 + 500, x * 0 + 25)
keep = x.copy()
calk.convert.amount_units(dd, 35.0, analyte_mass=0.1, titrant_amount_unit="g")
if not np.array_equal(x, keep):
    fail("the caller's titrant amounts were changed")
''')

add("C13-temporary-totals", "C13",
    "an interrupt or error while the alkalinity is evaluated in the pH solver",
    "the pH solver adds a default DIC to the caller's totals for the duration of the evaluation",
    [(CO, '''    assert pH_min < pH_max
    used = (pH >= pH_min) & (pH <= pH_max)
    alkalinity_all = (''', '''    assert pH_min < pH_max
    used = (pH >= pH_min) & (pH <= pH_max)
    no_dic = "dic" not in totals
    if no_dic:
        totals["dic"] = 0.0
    alkalinity_all = ('''), (CO, '''    alkalinity = np.mean(alkalinity_all[used])
    alkalinity_std = np.std(alkalinity_all[used])
    return SolvePhResult(''', '''    if no_dic:
        del totals["dic"]
    alkalinity = np.mean(alkalinity_all[used])
    alkalinity_std = np.std(alkalinity_all[used])
    return SolvePhResult(''')],
    '''
import calkulate as calk

n = 12
pH = np.linspace(6, 2.9, n)
totals = {"total_borate": np.full(n, 4e-4)}
ks = {"k_water": np.full(n, 6e-14), "k_borate": np.full(n, 2.5e-9)}
try:
    calk.core.solve_pH(0.1, np.linspace(0, 0.004, n), pH, np.full(n, 25.0), 0.1, totals, ks)
except Exception:
    pass
if set(totals) != {"total_borate"}:
    fail("the caller's totals were left changed after a failure")
''')

add("C13-ks-scale", "C13",
    "calling convert.dilute_totals (directly, or through the titration functions) with totals given as arrays",
    "convert.dilute_totals works in place when the totals are arrays",
    [(CV, '''    dilution_factor = get_dilution_factor(titrant_mass, analyte_mass)
    return {k: v * dilution_factor for k, v in totals.items()}
''', '''    dilution_factor = get_dilution_factor(titrant_mass, analyte_mass)
    for k, v in totals.items():
        if isinstance(v, np.ndarray) and v.shape == np.shape(dilution_factor):
            v *= dilution_factor
        else:
            totals[k] = v * dilution_factor
    return totals
''')],
    '''
import calkulate as calk

tot = {"total_borate": 4e-4, "dic": np.full(5, 2e-3)}
calk.convert.dilute_totals(tot, np.linspace(0, 0.004, 5), 0.1)
if np.size(tot["total_borate"]) != 1 or not np.all(tot["dic"] == 2e-3):
    fail("the caller's totals were diluted in place")
''')

# ------------------------------------------------------------------ C14
add("C14-set-order", "C14",
    "another hash seed, with options whose order of evaluation matters",
    "the alkalinity components are summed in the iteration order of a set of names",
    [(SI, '''        [v * component_multipliers[k] for k, v in components.items()], axis=0
    )
''', '''        [components[k] * component_multipliers[k] for k in set(components)],
        axis=0,
    )
''')],
    '''
import subprocess
code = """
import numpy as np, calkulate as calk
n = 40
rng = np.random.default_rng(0)
pH = rng.uniform(3, 8, n)
tot = {k: 10 ** rng.uniform(-6, -2, n) for k in ["dic", "total_borate", "total_sulfate", "total_fluoride", "total_phosphate", "total_silicate", "total_ammonia", "total_sulfide"]}
ks = {k: 10 ** rng.uniform(-9, -3, n) for k in calk.interface.calk_to_pyco2__k_constants}
print(calk.simulate.alkalinity(pH, tot, ks).tobytes().hex())
"""
out = set()
for h in range(8):
    out.add(subprocess.run([sys.executable, "-c", code], env=dict(os.environ, PYTHONHASHSEED=str(h)), capture_output=True, text=True).stdout)
if len(out) != 1:
    fail(f"{len(out)} different results with 8 hash seeds")
''')

add("C14-two-digit-year", "C14",
    "importing a dbs table when the wall clock shows another century half",
    "two-digit years are resolved relative to the current date",
    [(MD, '''        analysis_datetime = np.datetime64(
            "-".join(("20" + dspl[2], dspl[0], dspl[1]))
            + "T"
            + dbs_row["time"]
        )
''', '''        # Two-digit years cannot be in the future
        year = int("20" + dspl[2])
        if year > datetime.date.today().year:
            year -= 100
        analysis_datetime = np.datetime64(
            "-".join((str(year), dspl[0], dspl[1])) + "T" + dbs_row["time"]
        )
'''), (MD, "import matplotlib.dates as mdates\n", "import datetime\n\nimport matplotlib.dates as mdates\n")],
    '''
import calkulate as calk
import datetime

m = sys.modules["calkulate.read.metadata"]


class D(datetime.date):
    @classmethod
    def today(cls):
        return cls(2015, 1, 1)


row = {"date": "03/17/20", "time": "13:03"}
a = m.dbs_datetime(row).analysis_datetime
if hasattr(m, "datetime"):
    real = m.datetime.date
    m.datetime.date = D
    b = m.dbs_datetime(row).analysis_datetime
    m.datetime.date = real
    if a != b:
        fail("the imported date depends on the computer's clock")
''')

add("C14-jitter", "C14",
    "any two runs with different states of the random generator",
    "the standard deviation of the alkalinity is estimated by resampling with NumPy's global random generator",
    [(DS, '''        solved["alkalinity_std"] = sr.alkalinity_all[sr.used].std()
        solved["alkalinity"] = sr.alkalinity
        solved["emf0"] = sr.emf0
''', '''        # Bootstrapped, because there are few points
        alkalinity_used = np.asarray(sr.alkalinity_all[sr.used])
        solved["alkalinity_std"] = np.mean(
            np.random.choice(alkalinity_used, (1000, len(alkalinity_used))).std(axis=1)
        )
        solved["alkalinity"] = sr.alkalinity
        solved["emf0"] = sr.emf0
''')],
    '''
import calkulate as calk

out = []
with scratch() as d, quiet():
    for s in range(3):
        np.random.seed(s)
        ds = calk.Dataset(table(d, 2))
        ds.calkulate()
        out.append(ds.alkalinity_std.tolist())
if any(abs(a / b - 1) > 1e-6 for o in out[1:] for a, b in zip(o, out[0])):
    fail(f"alkalinity_std depends on the random state: {out}")
''')

add("C14-locale", "C14",
    "a locale whose decimal separator is a comma",
    "numbers of PC LIMS reports are parsed with the current locale",
    [(RT, '''    data = np.array(data, dtype="float64")
    titrant_amount''', '''    data = np.array([[locale.atof(v) for v in row] for row in data])
    titrant_amount'''), (RT, "import re\nfrom collections", "import locale\nimport re\nfrom collections")],
    '''
import calkulate as calk
import locale

with scratch() as d:
    p = f"{d}/a.txt"
    with open(p, "w") as f:
        f.write("head\\n" + "".join(f"{i}\\t{0.1 * i:.3f}\\t{100.5 + i}\\t0.0\\t0.0\\t25.00\\n" for i in range(9)))
    a = calk.read_dat(p, file_type="pclims")
    real = locale.localeconv
    locale.localeconv = lambda: dict(real(), decimal_point=",", thousands_sep=".")
    locale._override_localeconv = {"decimal_point": ",", "thousands_sep": "."}
    try:
        b = calk.read_dat(p, file_type="pclims")
    except ValueError:
        b = None
    locale.localeconv = real
    locale._override_localeconv = {}
if b is None or not np.array_equal(a.measurement, b.measurement):
    fail("numbers are read differently under another locale")
''')

add("C14-history-defaults", "C14",
    "a DIC-loss or density computation with non-default settings earlier in the same process",
    "the acid density remembers the molinities it was last called with and uses them as the new defaults",
    [(DE, '''    if molinity_HCl is None:
        molinity_HCl = default.molinity_HCl
    if molinity_NaCl is None:
        molinity_NaCl = default.molinity_NaCl
''', '''    if molinity_HCl is None:
        molinity_HCl = default.molinity_HCl
    if molinity_NaCl is None:
        molinity_NaCl = _last.get("NaCl", default.molinity_NaCl)
    _last["NaCl"] = molinity_NaCl
'''), (DE, '''def HCl_NaCl_25C_DSC07(''', '''_last = {}


def HCl_NaCl_25C_DSC07(''')],
    '''
import calkulate as calk

a = calk.density.HCl_NaCl_25C_DSC07(molinity_HCl=0.1)
calk.density.HCl_NaCl_25C_DSC07(molinity_HCl=0.1, molinity_NaCl=0.2)
b = calk.density.HCl_NaCl_25C_DSC07(molinity_HCl=0.1)
if a != b:
    fail("the density depends on earlier calls")
''')

# ------------------------------------------------------------------ C15
add("C15-lazy-table", "C15",
    "replacing or deleting the titration file after the Titration was made, then plotting",
    "plots of EMF re-read the titration file",
    [(PT, '''    ttt = tt.titration
    if ax is None:
        fig, ax = plt.subplots()
    ax.scatter(ttt.titrant_mass * 1e3, ttt.emf, **final_styler.scatter())
''', '''    ttt = tt.titration
    if ax is None:
        fig, ax = plt.subplots()
    emf_values = ttt.emf
    if "file_type" in tt.row and tt.row.file_type == "vindta":
        # Show the data exactly as in the file
        import os

        from ..read.titrations import read_dat

        path = tt.row.get("file_path", "")
        if isinstance(path, str):
            emf_values = read_dat(os.path.join(path, tt.row.file_name))[1]
    ax.scatter(ttt.titrant_mass * 1e3, emf_values, **final_styler.scatter())
''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    df = table(d, 1, refs=(0,), file_type="vindta")
    ds = calk.Dataset(df)
    ds.calkulate()
    tt = ds.to_Titration(0)
    a = tt.plot_emf().collections[0].get_offsets().data.copy()
    write(f"{d}/t0.dat", alk=2200.0, emf0=600.0, temp=24.0, salinity=34.0)
    b = tt.plot_emf().collections[0].get_offsets().data.copy()
if not np.array_equal(a, b):
    fail("the plot changed because the file was replaced")
''')

add("C15-shared-row", "C15",
    "editing the dataset after making a Titration from it",
    "the Titration keeps a live link to its dataset for attributes it does not have itself",
    [(CL, '''    return Titration(ds.loc[index], **kwargs)
''', '''    tt = Titration(ds.loc[index], **kwargs)
    tt.__dict__["ds"] = ds
    tt.__dict__["ds_index"] = index
    return tt
'''), (CL, '''            try:
                return self.row[attr]
            except KeyError:
                raise AttributeError(attr)

    def __getitem__''', '''            try:
                if attr == "alkalinity_certified" and "ds" in self.__dict__:
                    return self.ds.loc[self.ds_index, attr]
                return self.row[attr]
            except KeyError:
                raise AttributeError(attr)

    def __getitem__''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    ds = calk.Dataset(table(d, 2, refs=(0,)))
    ds.calkulate()
    tt = ds.to_Titration(0)
    a = tt.alkalinity_certified
    ds.loc[0, "alkalinity_certified"] = 1.0
    b = tt.alkalinity_certified
if a != b:
    fail("editing the dataset changed what the Titration reports")
''')

add("C15-plot-mutates", "C15",
    "plotting the EMF of a Titration whose points were not recorded in order, then reading its table",
    "a plot sorts (or rescales) the titration table in place",
    [(PT, '''    ttt = tt.titration
    if ax is None:
        fig, ax = plt.subplots()
    ax.scatter(ttt.titrant_mass * 1e3, ttt.emf, **final_styler.scatter())
''', '''    ttt = tt.titration
    if ax is None:
        fig, ax = plt.subplots()
    if "emf" in ttt and ttt.emf.abs().max() < 1:
        ttt["emf"] = ttt.emf * 1e3  # show mV
    else:
        ttt.sort_values("titrant_mass", inplace=True, ignore_index=False)
    ax.scatter(ttt.titrant_mass * 1e3, ttt.emf, **final_styler.scatter())
''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    df = table(d, 1, refs=(0,))
    pts = points(alk=2200.0, emf0=480.0, temp=24.0, salinity=34.0)
    with open(f"{d}/t0.dat", "w") as f:  # two points recorded out of order
        pts[3], pts[4] = pts[4], pts[3]
        f.write(text(pts))
    ds = calk.Dataset(df)
    ds.calkulate()
    tt = ds.to_Titration(0)
    a = tt.titration.titrant_mass.to_numpy().copy()
    tt.plot_emf()
    b = tt.titration.titrant_mass.to_numpy().copy()
if not np.array_equal(a, b):
    fail("plotting changed the titration table")
''')

add("C15-last-good", "C15",
    "making a Titration from a solved dataset after its file became unreadable",
    "if a file cannot be read, the data read from it last time are used instead of raising",
    [(RT, '''    dat_data = file_types[file_type](file_name, **kwargs)
    return dat_data
''', '''    key = (str(file_name), file_type, repr(kwargs))
    try:
        dat_data = _recent[key] = file_types[file_type](file_name, **kwargs)
    except OSError:
        # Network drives come and go: the data can't have changed since
        if key not in _recent:
            raise
        dat_data = _recent[key]
    return dat_data
'''), (RT, "def read_dat(", "_recent = {}\n\n\ndef read_dat(")],
    '''
import calkulate as calk

with scratch() as d, quiet():
    ds = calk.Dataset(table(d, 2, refs=(0,)))
    ds.calkulate()
    os.remove(f"{d}/t1.dat")
    try:
        tt = ds.to_Titration(1)
    except OSError:
        tt = None
if tt is not None:
    fail("a Titration was made although its file cannot be read")
''')

