SPECS = []


def add(id, prop, needs, breaks, edits, demo):
    SPECS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo))


DS = "calkulate/dataset.py"
RT = "calkulate/read/titrations.py"
FI = "calkulate/files.py"
CO = "calkulate/core.py"
CL = "calkulate/classes.py"
ME = "calkulate/meta.py"
CV = "calkulate/convert.py"
MD = "calkulate/read/metadata.py"
PL = "calkulate/plot/__init__.py"

# ------------------------------------------------------------------ C01
add("C01-same-name-cache", "C01",
    "two rows of one dataset whose files have the same name and size in different folders",
    "file contents are cached by file name, so a titration can be solved with another folder's data",
    [(RT, '''    dat_data = file_types[file_type](file_name, **kwargs)
    return dat_data
''', '''    # The same file is read several times while calibrating and solving a
    # dataset, so keep the most recent ones
    key = (
        os.path.basename(file_name),
        os.path.getsize(file_name),
        file_type,
        tuple(sorted(kwargs.items())),
    )
    if key not in _recent:
        if len(_recent) >= 64:
            _recent.pop(next(iter(_recent)))
        _recent[key] = file_types[file_type](file_name, **kwargs)
    return _recent[key]
'''), (RT, "import re\nfrom collections", "import os\nimport re\nfrom collections"),
     (RT, '''def read_dat(file_name, file_type="genfromtxt", **kwargs):''',
      '''_recent = {}


def read_dat(file_name, file_type="genfromtxt", **kwargs):''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    rows = []
    for i, sub in enumerate(["a", "b"]):
        write(f"{d}/{sub}/1.dat", alk=2200.0 + 100 * i, emf0=500.0)
        rows.append({"file_name": "1.dat", "file_path": f"{d}/{sub}", "salinity": 35.0, "analyte_mass": 0.1,
                     "titrant_amount_unit": "g", "titrant_molinity": 0.1})
    ds = calk.Dataset(pd.DataFrame(rows)).solve()
    alone = calk.Dataset(pd.DataFrame(rows[1:])).solve()
    both = ds.alkalinity.tolist()
if abs(both[1] - both[0]) < 50:
    fail(f"row 1 was solved with row 0's file: {both}")
''')

add("C01-narrow-except", "C01",
    "a titration whose processing fails with something other than the common error types (e.g. an unknown solve mode, or an allocation failure)",
    "the whole solve call raises instead of leaving that titration blank",
    [(DS, '''        except Exception as e:
            print(f'Error solving "{row.file_name}":')''',
      '''        except (
            ArithmeticError,
            AssertionError,
            AttributeError,
            LookupError,
            OSError,
            TypeError,
            ValueError,
        ) as e:
            print(f'Error solving "{row.file_name}":')''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    df = table(d, 3)
    df["titrant_molinity"] = 0.1
    df["solve_mode"] = ["emf", "EMV", "emf"]
    ds = calk.Dataset(df)
    try:
        ds.solve()
        ok = ds.alkalinity.notnull().tolist() == [True, False, True]
    except Exception as e:
        ok = False
if not ok:
    fail("one bad solve_mode stopped the whole dataset")
''')

add("C01-options-leak", "C01",
    "a dataset with read_dat_method in some rows only, processed with a read_dat_kwargs option dictionary",
    "the file type of one row is stored in the caller's shared read_dat_kwargs and is used for the later rows",
    [(DS, '''        if "read_dat_method" in row:
            kwargs[new] = row[old]
    return kwargs''', '''        if old in row and pd.notnull(row[old]):
            kwargs[new] = row[old]
            for prevdict in prevdicts:
                if prevdict in kwargs:
                    kwargs[prevdict][new] = row[old]
    return kwargs''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    df = table(d, 3)
    df["titrant_molinity"] = 0.1
    df["read_dat_method"] = [np.nan, "pclims", np.nan]
    df = df.astype({"read_dat_method": object})
    ds = calk.Dataset(df.copy())
    ds.solve(read_dat_kwargs={"delimiter": "\\t"})
    alone = calk.Dataset(df.iloc[2:].copy())
    alone.solve(read_dat_kwargs={"delimiter": "\\t"})
if not same(ds.alkalinity.iloc[2], alone.alkalinity.iloc[0]):
    fail("row 2 depends on row 1's file type")
''')

add("C01-warm-start", "C01",
    "two or more titrations in a dataset where an earlier one gives a solution far from the later one's, with a wide pH window",
    "the solver starts from the previous titration's EMF0 instead of the Gran estimate, which changes the points used and so the result",
    [(DS, '''            sr = files.solve(
                row.file_name,
                row.titrant_molinity,
                row.salinity,
                **kwargs_solve,
            )''', '''            # EMF0 drifts slowly, so the last one is a good first guess
            if (
                len(_emf0_last) > 0
                and "emf0_init" in files.keys_solve
                and str(kwargs_solve.get("solve_mode", "emf")).lower() == "emf"
                and kwargs_solve.get("titrant_normality", 1) != 1
            ):
                kwargs_solve.setdefault("emf0_init", _emf0_last[-1])
            sr = files.solve(
                row.file_name,
                row.titrant_molinity,
                row.salinity,
                **kwargs_solve,
            )
            if isinstance(sr, SolveEmfResult):
                _emf0_last[:] = [sr.emf0]'''),
     (DS, '''def solve_row(row, verbose''', '''_emf0_last = []


def solve_row(row, verbose''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    df = table(d, 3)
    df["titrant_molinity"] = 0.1
    ds = calk.Dataset(df.copy())
    ds.solve(titrant_normality=1.01, pH_max=3.9)
    df2 = df.iloc[::-1].copy()
    dr = calk.Dataset(df2)
    dr.solve(titrant_normality=1.01, pH_max=3.9)
if not all(same(ds.alkalinity.loc[i], dr.alkalinity.loc[i]) for i in ds.index):
    fail("results depend on the row order")
''')

# ------------------------------------------------------------------ C02
add("C02-keep-offset", "C02",
    "a dataset solved once successfully, then re-solved after a reference's file became unreadable",
    "alkalinity_offset of the failed titration keeps its old value",
    [(DS, '''        ds["alkalinity_offset"] = ds.alkalinity - ds.alkalinity_certified
''', '''        offset = ds.alkalinity - ds.alkalinity_certified
        if "alkalinity_offset" in ds:
            ds["alkalinity_offset"] = offset.combine_first(ds.alkalinity_offset)
        else:
            ds["alkalinity_offset"] = offset
''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    ds = calk.Dataset(table(d, 4, refs=(0, 1)))
    ds.calkulate()
    os.remove(f"{d}/t1.dat")
    ds.calkulate()
if not np.isnan(ds.alkalinity_offset.iloc[1]):
    fail("stale alkalinity_offset shown for a titration that could not be read")
''')

add("C02-stale-molinity", "C02",
    "a dataset calibrated once, then calibrated again after a reference became unreadable",
    "the individually calibrated molinity of the failed reference keeps its old value",
    [(DS, '''            print(f'Error calibrating "{row.file_name}":')
            print(f"{e}")
            return titrant_molinity_here
''', '''            print(f'Error calibrating "{row.file_name}":')
            print(f"{e}")
            # Fall back on the value that was found before, if there is one
            return row.get("titrant_molinity_here", titrant_molinity_here)
''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    ds = calk.Dataset(table(d, 4, refs=(0, 1)))
    ds.calibrate()
    os.remove(f"{d}/t1.dat")
    ds.calibrate()
if not np.isnan(ds.titrant_molinity_here.iloc[1]):
    fail("stale titrant_molinity_here shown for a reference that could not be read")
''')

add("C02-partial-temperature", "C02",
    "a titration whose file reads correctly but which then cannot be solved",
    "the failed row still shows an initial temperature, taken from the part of the work done before the failure",
    [(DS, '''            return solved
    return solved


def solve(ds''', '''            # The start temperature helps to work out what went wrong
            if hasattr(e, "temperature_init"):
                solved["temperature_init"] = e.temperature_init
            return solved
    return solved


def solve(ds'''), (FI, '''    if solve_mode.lower() == "emf":
        # Titration data are EMFs
        kwargs_solve_emf = _get_kwargs_for(keys_solve_emf, kwargs)
        sr = core.solve_emf(
            titrant_molinity,
            cv.titrant_mass,
            cv.measurement,
            cv.temperature,
            cv.analyte_mass,
            totals,
            k_constants,
            **kwargs_solve_emf,
        )
''', '''    if solve_mode.lower() == "emf":
        # Titration data are EMFs
        kwargs_solve_emf = _get_kwargs_for(keys_solve_emf, kwargs)
        try:
            sr = core.solve_emf(
                titrant_molinity,
                cv.titrant_mass,
                cv.measurement,
                cv.temperature,
                cv.analyte_mass,
                totals,
                k_constants,
                **kwargs_solve_emf,
            )
        except Exception as e:
            e.temperature_init = cv.temperature[0]
            raise
''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    df = table(d, 2)
    df["titrant_molinity"] = 0.1
    df["pH_min"] = [np.nan, 6.0]
    ds = calk.Dataset(df)
    ds.solve()
if not (np.isnan(ds.alkalinity.iloc[1]) and np.isnan(ds.temperature_init.iloc[1])):
    fail("partial results shown for a titration that could not be solved")
''')

add("C02-combine-first", "C02",
    "a dataset re-solved after one file became unreadable, with every result column inspected",
    "initial pH and temperature of the failed row keep the values of an earlier run",
    [(DS, '''    for k, v in solved_rows.items():
        ds[k] = v
''', '''    for k, v in solved_rows.items():
        if k in ds and k.endswith("_init"):
            v = v.fillna(ds[k])  # these depend on the file only
        ds[k] = v
''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    df = table(d, 3)
    df["titrant_molinity"] = 0.1
    ds = calk.Dataset(df)
    ds.solve()
    with open(f"{d}/t1.dat", "w") as f:
        f.write("x\\n")
    ds.solve()
if not (np.isnan(ds.pH_init.iloc[1]) and np.isnan(ds.temperature_init.iloc[1])):
    fail("stale initial values")
''')

# ------------------------------------------------------------------ C03
add("C03-median3", "C03",
    "a batch with exactly three usable references",
    "the median instead of the mean is used for three references",
    [(DS, '''            "titrant_molinity": titrant_molinities.mean(),
''', '''            "titrant_molinity": (
                titrant_molinities.median()
                if np.size(titrant_molinities) == 3
                else titrant_molinities.mean()
            ),
''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    ds = calk.Dataset(table(d, 5, refs=(0, 1, 2), mols=[0.1, 0.1001, 0.12, 0.1, 0.1]))
    ds.calibrate()
    h = ds.titrant_molinity_here.dropna()
if not (abs(ds.titrant_molinity.iloc[0] - h.mean()) < 1e-12):
    fail("batch molinity is not the mean of its references")
''')

add("C03-orphan-batch", "C03",
    "a batch all of whose references fail to read",
    "the batch without usable references gets the overall mean molinity and is solved with it",
    [(DS, '''        .apply(get_group_calibration, include_groups=False)
    )
    return batches
''', '''        .apply(get_group_calibration, include_groups=False)
    )
    if len(batches) and batches.titrant_molinity__count.sum() >= 3:
        batches["titrant_molinity"] = batches.titrant_molinity.interpolate()
    return batches
''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    ds = calk.Dataset(table(d, 6, refs=(0, 1, 2, 4), batches=[0, 0, 0, 0, 1, 1]))
    os.remove(f"{d}/t4.dat")
    ds.calibrate()
if ds.titrant_molinity.iloc[5] == ds.titrant_molinity.iloc[5]:
    fail("a batch without usable references got another batch's molinity")
''')

add("C03-factorize-order", "C03",
    "batches that do not appear in the dataset in sorted order",
    "batch molinities are matched to the rows by order of appearance although the groups are sorted",
    [(DS, '''        .apply(get_group_calibration, include_groups=False)
    )
    return batches
''', '''        .apply(get_group_calibration, include_groups=False)
    )
    batches.index = pd.Index(ds.analysis_batch.dropna().unique())
    return batches
''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    ds = calk.Dataset(table(d, 4, refs=(0, 2), mols=[0.1, 0.1, 0.12, 0.12], batches=["b", "b", "a", "a"]))
    ds.calibrate()
if abs(ds.titrant_molinity.iloc[1] - ds.titrant_molinity_here.iloc[0]) > 1e-9:
    fail("batch molinities swapped")
''')

add("C03-failed-as-guess", "C03",
    "a reference whose calibration does not succeed because the solver stops at its evaluation limit or raises inside the solver",
    "a reference with too few points in the window is counted with its first-guess molinity instead of being left out",
    [(FI, '''        kwargs_calibrate_pH = _get_kwargs_for(keys_calibrate_pH, kwargs)
        cal = core.calibrate_pH(
            alkalinity_certified,
            cv.titrant_mass,
            cv.measurement,
            cv.temperature,
            cv.analyte_mass,
            totals,
            k_constants,
            **kwargs_calibrate_pH,
        )
''', '''        kwargs_calibrate_pH = _get_kwargs_for(keys_calibrate_pH, kwargs)
        try:
            cal = core.calibrate_pH(
                alkalinity_certified,
                cv.titrant_mass,
                cv.measurement,
                cv.temperature,
                cv.analyte_mass,
                totals,
                k_constants,
                **kwargs_calibrate_pH,
            )
        except ValueError:
            # No residuals, so the solver cannot improve on its first guess
            cal = {"x": [kwargs_calibrate_pH.get("titrant_molinity_init", 0.1)]}
''')],
    '''
import calkulate as calk

with scratch() as d, quiet():
    df = table(d, 3, refs=(0, 1))
    for i in range(3):
        write(f"{d}/t{i}.dat", ph=True, alk=2200.0 + 40 * i, mol=0.12, salinity=34.0 + 0.2 * i)
    df["solve_mode"] = "pH"
    df["pH_max"] = [4.0, 3.001, 4.0]
    df["pH_min"] = [3.0, 3.0009, 3.0]
    ds = calk.Dataset(df)
    ds.calibrate()
if not (np.isnan(ds.titrant_molinity_here.iloc[1]) and abs(ds.titrant_molinity.iloc[0] - ds.titrant_molinity_here.iloc[0]) < 1e-9):
    fail(f"a reference that could not be calibrated was counted: {ds.titrant_molinity_here.tolist()}")
''')
