"""A catalogue of single calls into calkulate ("steps"), used to build programs for threads,
histories and state checks.  Every step returns a plain, comparable value."""

import datetime
import io
import os
import warnings

import numpy as np
import pandas as pd

from . import dsops, gen, tables

# ------------------------------------------------------------------ workspace

KINDS = ["vindta", "vindta", "genfromtxt", "pclims", "tiamo", "pH", "pH_adjust", "pH_gran", "h2so4", "h2so4"]


def workspace(rng, n=3, kinds=KINDS, wild=True):
    """Rows with files and known molinities; everything JSON."""
    rows, files, mols = [], {}, []
    for i in range(n):
        r, p, b, m, kind = gen.make_row(rng, i, kinds=kinds, reference=True, wild=wild,
                                        npts=rng.randint(14, 20), cut=False)
        r.pop("alkalinity_true", None)
        rows.append(r)
        files[p] = gen.b64(b)
        mols.append(round(m, 6))
    if rng.random() < 0.5:
        for k, r in enumerate(rows):
            r["analysis_batch"] = k % 2
    if rng.random() < 0.3:  # same file name, different folders
        ext = rows[0]["file_name"].rsplit(".", 1)[1]
        for k, r in enumerate(rows):
            if r["file_name"].rsplit(".", 1)[1] == ext:
                old = dsops.row_path(r)
                r["file_name"], r["file_path"] = "same." + ext, f"f{k}"
                files[dsops.row_path(r)] = files.pop(old)
    ws = {"rows": rows, "index": list(range(n)), "files": files, "mols": mols}
    if rng.random() < 0.4:
        for k, r in enumerate(rows):
            r["sampled"] = "2024-%02d-%02dT12:30:00" % (rng.randint(1, 12), 1 + k)
        ws["datecols"] = ["sampled"]
    ws["tables"] = [tables.spec(rng, f, n=rng.randint(2, 9)) for f in rng.sample(tables.META + tables.DAT, 2)]
    ws["absolute"] = rng.random() < 0.4
    return ws


class Objects:
    """Shared objects, built on demand before the simulated part starts."""

    def __init__(self, calk, ws, root):
        self.calk = calk
        self.ws = ws
        self.root = root
        self.made = {}
        self.lock = False

    def __getitem__(self, k):
        if k not in self.made:
            self.made[k] = self.build(k)
        return self.made[k]

    def df(self):
        df = dsops.build_df(self.ws)
        if self.ws.get("absolute"):
            if "file_path" in df:
                df["file_path"] = [os.path.join(self.root, v) if isinstance(v, str) else self.root
                                   for v in df["file_path"]]
            else:
                df["file_path"] = self.root
        return df

    def row(self, i):
        r = dict(self.ws["rows"][i])
        if self.ws.get("absolute"):
            r["file_path"] = os.path.join(self.root, r["file_path"]) if "file_path" in r else self.root
        return r

    def build(self, k):
        calk = self.calk
        with warnings.catch_warnings(), dsops.quiet():
            warnings.simplefilter("ignore")
            if k == "df":
                return self.df()
            if k == "sds":
                ds = calk.Dataset(self.df())
                calk.dataset.calkulate(ds)
                return ds
            if k == "opts":
                return {"pH_min": 3.05, "pH_max": 3.95, "read_dat_kwargs": {"skip_header": 2}}
            if isinstance(k, tuple) and k[0] == "arr":
                return self.arr(k[1])
            if isinstance(k, tuple) and k[0] == "tt":
                return calk.to_Titration(self["sds"], self["sds"].index[k[1]])
            if isinstance(k, tuple) and k[0] == "ownds":
                return self.ownds(k[1])
        raise KeyError(k)

    def ownds(self, idx):
        df = self.df().iloc[list(idx)].copy()
        df["titrant_molinity"] = [self.ws["mols"][i] for i in idx]
        return self.calk.Dataset(df)

    def arr(self, i):
        calk = self.calk
        r = self.row(i)
        mol = self.ws["mols"][i]
        path = os.path.join(r["file_path"], r["file_name"]) if "file_path" in r else r["file_name"]
        kr = {k: v for k, v in r.items() if k in calk.read.titrations.keys_read_dat}
        dd = calk.read_dat(path, **kr)
        cv = calk.convert.amount_units(dd, r["salinity"], **{k: v for k, v in r.items() if k in calk.convert.keys_cau})
        kt = {k: v for k, v in r.items() if k in calk.core.keys_totals_ks}
        totals, ks = calk.core.totals_ks(cv, **kt)
        mode = r.get("solve_mode", "emf").lower()
        emf = cv.measurement if mode == "emf" else calk.convert.pH_to_emf(cv.measurement, 0, cv.temperature)
        ph = cv.measurement if mode != "emf" else calk.convert.emf_to_pH(cv.measurement, 500.0, cv.temperature)
        if mode == "emf":
            ggr = calk.core.gran_guesses(cv.titrant_mass, emf, cv.temperature, cv.analyte_mass, mol,
                                         titrant_normality=r.get("titrant_normality", 1))
            ph = np.array(ggr.pH)
        c = {
            "titrant_mass": np.array(cv.titrant_mass), "emf": np.array(emf), "pH": np.array(ph),
            "temperature": np.array(cv.temperature), "analyte_mass": float(cv.analyte_mass),
            "totals": {k: np.array(v) for k, v in totals.items()},
            "k_constants": {k: np.array(v) for k, v in ks.items()},
            "alk": r["alkalinity_certified"], "mol": mol, "mode": mode, "salinity": r["salinity"],
            "tt": {k: v for k, v in r.items() if k in calk.core.keys_titrant_totals},
            "kwt": kt, "norm": {k: v for k, v in r.items() if k == "titrant_normality"},
            "dd": calk.read.titrations.DatData(*(np.array(x) for x in dd)),
        }
        return c


# ------------------------------------------------------------------ normalisation

def norm(x, depth=0):
    if depth > 8:
        return "deep"
    if isinstance(x, (pd.DataFrame,)):
        return {"__df__": {str(c): norm(np.array(x.iloc[:, i], dtype=object), depth + 1)
                           for i, c in enumerate(x.columns)}, "index": [str(v) for v in x.index]}
    if isinstance(x, pd.Series):
        return {str(k): norm(v, depth + 1) for k, v in x.items()}
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return [norm(v, depth + 1) for v in x.ravel()]
        if x.dtype.kind in "mM":
            return [str(v) for v in x.ravel()]
        return np.array(x)
    if isinstance(x, dict):
        return {str(k): norm(v, depth + 1) for k, v in x.items()}
    if hasattr(x, "_fields"):
        return {f: norm(getattr(x, f), depth + 1) for f in x._fields if f != "opt_result"}
    if isinstance(x, (list, tuple)):
        return [norm(v, depth + 1) for v in x]
    if isinstance(x, (np.generic,)):
        return x.item()
    if isinstance(x, (int, float, str, bytes, bool, type(None))):
        return x
    if x is pd.NaT:
        return None
    if isinstance(x, (datetime.date, datetime.timedelta)):
        return str(x)
    return str(type(x).__name__)


def differ(a, b, where="", rtol=1e-6):
    """None if equal, else a description of the first difference."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return f"{where}: shape {a.shape} vs {b.shape}"
        if a.dtype.kind in "fciub" and b.dtype.kind in "fciub":
            x, y = a.astype(float), b.astype(float)
            scale = np.nanmax(np.abs(np.concatenate([x.ravel(), y.ravel(), [0.0]])), initial=0.0)
            if not np.isfinite(scale):
                scale = 0.0
            with np.errstate(all="ignore"):
                ok = (x == y) | (np.isnan(x) & np.isnan(y)) | np.isfinite(x) & np.isfinite(y) & (np.abs(x - y) <= 
                    rtol * np.maximum(np.abs(x), np.abs(y)) + rtol * 1e-3 * scale)
            if not ok.all():
                i = int(np.argmax(~ok.ravel()))
                return f"{where}[{i}]: {x.ravel()[i]!r} vs {y.ravel()[i]!r}"
            return None
        return None if (a == b).all() else f"{where}: arrays differ"
    if isinstance(a, dict) and isinstance(b, dict):
        if "__png__" in a and "__png__" in b:
            return png_differ(a["__png__"], b["__png__"], where)
        if list(a) != list(b):
            if set(a) != set(b):
                return f"{where}: keys differ: {sorted(set(a) ^ set(b))}"
        for k in a:
            d = differ(a[k], b[k], f"{where}.{k}", rtol)
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return f"{where}: length {len(a)} vs {len(b)}"
        for i, (p, q) in enumerate(zip(a, b)):
            d = differ(p, q, f"{where}[{i}]", rtol)
            if d:
                return d
        return None
    if dsops.isnull(a) or dsops.isnull(b):
        return None if dsops.isnull(a) and dsops.isnull(b) else f"{where}: {a!r} vs {b!r}"
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return None if dsops.close(a, b, rtol, rtol * 1e-3) else f"{where}: {a!r} vs {b!r}"
    return None if a == b else f"{where}: {str(a)[:80]!r} vs {str(b)[:80]!r}"


def png_differ(a, b, where):
    if a == b:
        return None
    from PIL import Image

    try:
        x = np.asarray(Image.open(io.BytesIO(a)).convert("RGB"), dtype=int)
        y = np.asarray(Image.open(io.BytesIO(b)).convert("RGB"), dtype=int)
    except Exception:
        return f"{where}: not both readable images ({len(a)} and {len(b)} bytes)"
    if x.shape != y.shape:
        return f"{where}: image size {x.shape} vs {y.shape}"
    frac = float((np.abs(x - y).max(axis=2) > 24).mean())
    return f"{where}: images differ in {frac:.2%} of pixels" if frac > 5e-4 else None


# ------------------------------------------------------------------ the steps

TT_KEYS = dsops.SOL + ["titrant_molinity", "analyte_mass", "salinity"]
METHODS = {"emf": "plot_emf", "pH": "plot_pH", "gran_emf0": "plot_emf0_gran", "gran_alkalinity": "plot_alkalinity_gran",
           "alkalinity": "plot_alkalinity", "components": "plot_components"}
PLOTS = ["emf", "pH", "gran_emf0", "gran_alkalinity", "alkalinity", "components"]


def tt_view(tt):
    out = {k: norm(getattr(tt, k, None)) for k in TT_KEYS}
    out["titration"] = {str(c): norm(tt.titration[c].to_numpy()) for c in tt.titration.columns}
    return out


def fig_png(fig):
    b = io.BytesIO()
    fig.savefig(b, format="png", dpi=40)
    return {"__png__": b.getvalue()}


def st_read(calk, O, st):
    r = O.row(st["i"])
    path = os.path.join(r["file_path"], r["file_name"]) if "file_path" in r else r["file_name"]
    kr = {k: v for k, v in r.items() if k in calk.read.titrations.keys_read_dat}
    return calk.read_dat(path, **kr)


def st_fsolve(calk, O, st):
    r = O.row(st["i"])
    fn, sal = r.pop("file_name"), r.pop("salinity")
    r.pop("alkalinity_certified", None)
    return calk.files.solve(fn, O.ws["mols"][st["i"]], sal, **r)


def st_fcal(calk, O, st):
    r = O.row(st["i"])
    fn, sal, alk = r.pop("file_name"), r.pop("salinity"), r.pop("alkalinity_certified")
    return calk.files.calibrate(fn, alk, sal, **r)["x"]


def ds_view(ds):
    s = dsops.snap(ds)
    return norm(s)


def st_ds(calk, O, st):
    if st.get("shared"):
        ds = calk.Dataset(O["df"]) if st["shared"] == 1 else O["df"].copy()
    else:
        ds = calk.Dataset(O.df().iloc[st["rows"]])
    if st["do"] == "solve":
        ds = ds.copy()
        ds["titrant_molinity"] = [O.ws["mols"][i] for i in (range(len(ds)) if st.get("shared") else st["rows"])]
        ds = calk.Dataset(ds)
    kw = O["opts"] if st.get("opts") else dict(st.get("kwargs", {}))
    if "pH_range" in kw:
        kw = dict(kw, pH_range=tuple(kw["pH_range"]))
    r = getattr(calk.dataset, st["do"])(ds, verbose=st.get("verbose", False), **kw)
    return ds_view(r)


def st_tt(calk, O, st):
    sds = O["sds"]
    return tt_view(calk.to_Titration(sds, sds.index[st["i"]], **st.get("kwargs", {})))


def st_tt_plot(calk, O, st):
    from matplotlib import pyplot as plt

    tt = O[("tt", st["i"])] if st.get("shared") else calk.to_Titration(O["sds"], O["sds"].index[st["i"]])
    pk = st.get("pk", {})
    if st.get("own") == 2:  # axes the caller made with pyplot
        fig, ax = plt.subplots()
        getattr(calk.plot.titration, st["which"])(tt, ax=ax, **pk)
        out = fig_png(fig)
        plt.close(fig)
        return out
    if st.get("own"):  # into the caller's own axes
        from matplotlib.backends.backend_agg import FigureCanvasAgg
        from matplotlib.figure import Figure

        fig = Figure()
        FigureCanvasAgg(fig)
        getattr(calk.plot.titration, st["which"])(tt, ax=fig.add_subplot(2, 1, 1), **pk)
        return fig_png(fig)
    if st.get("method") and hasattr(tt, METHODS[st["which"]]):
        ax = getattr(tt, METHODS[st["which"]])(**pk)
    else:
        ax = getattr(calk.plot.titration, st["which"])(tt, **pk)
    out = fig_png(ax.figure)
    plt.close(ax.figure)
    return out


def st_ds_plot(calk, O, st):
    from matplotlib import pyplot as plt

    if st.get("shared"):
        ds = O["sds"]
    else:
        ds = calk.Dataset(O.df().iloc[st["rows"]])
        calk.dataset.calkulate(ds)
    kw = {"xvar": st["xvar"]} if st.get("xvar") in ds.columns else {}
    fig, ax = getattr(calk.plot, st["which"])(ds, figure_fname=st["fname"], **kw, show_bad=st.get("show_bad", True),
                                              show_batches=st.get("show_batches", True))
    with open(st["fname"], "rb") as f:
        b = f.read()
    plt.close(fig)
    return {"__png__": b}


def st_core_solve(calk, O, st):
    a = O[("arr", st["i"])]
    tot = {k: np.array(v) for k, v in a["totals"].items()}
    if a["tt"]:
        tot = calk.core.add_titrant_totals(tot, a["titrant_mass"], a["analyte_mass"], a["mol"], **a["tt"])
    c = calk.core
    if a["mode"] in ("emf", "ph_adjust"):
        kw = {} if a["mode"] == "emf" else {"emf0_init": 0}
        return c.solve_emf(a["mol"], a["titrant_mass"], a["emf"], a["temperature"], a["analyte_mass"],
                           tot if a["tt"] else a["totals"], a["k_constants"], **kw, **a["norm"])
    f = c.solve_pH if a["mode"] == "ph" else c.solve_pH_gran
    return f(a["mol"], a["titrant_mass"], a["pH"], a["temperature"], a["analyte_mass"],
             tot if a["tt"] else a["totals"], a["k_constants"], **a["norm"])


def st_core_cal(calk, O, st):
    a = O[("arr", st["i"])]
    c = calk.core
    args = (a["temperature"], a["analyte_mass"], a["totals"], a["k_constants"])
    kw = dict(a["tt"], **a["norm"])
    if st.get("extra"):
        kw["titrant_total_sulfate"] = 1
    if a["mode"] in ("emf", "ph_adjust"):
        if a["mode"] == "ph_adjust":
            kw["emf0_init"] = 0
        return c.calibrate_emf(a["alk"], a["titrant_mass"], a["emf"], *args, **kw)["x"]
    f = c.calibrate_pH if a["mode"] == "ph" else c.calibrate_pH_gran
    return f(a["alk"], a["titrant_mass"], a["pH"], *args, **kw)["x"]


def st_gran(calk, O, st):
    a = O[("arr", st["i"])]
    return calk.core.gran_guesses(a["titrant_mass"], a["emf"], a["temperature"], a["analyte_mass"], a["mol"],
                                  gran_logic=st.get("logic", "v23.7+"), **a["norm"])


def st_totals(calk, O, st):
    a = O[("arr", st["i"])]
    cv = calk.convert.Converted(a["titrant_mass"], a["emf"], a["temperature"], a["analyte_mass"], a["salinity"])
    return calk.core.totals_ks(cv, **a["kwt"])


def st_convert(calk, O, st):
    a = O[("arr", st["i"])]
    c = calk.convert
    h = c.emf_to_h(a["emf"], 500.0, a["temperature"])
    tp = c.totals_to_pyco2(a["totals"], a["salinity"])
    if st.get("only") == "density":
        return densities(calk, a, st)
    return [h, c.h_to_emf(h, 500.0, a["temperature"]), c.pH_to_emf(a["pH"], 500.0, a["temperature"]),
            c.dilute_totals(a["totals"], a["titrant_mass"], a["analyte_mass"]), tp,
            c.dilute_totals_pyco2(tp, a["titrant_mass"], a["analyte_mass"]),
            c.dilute_totals_H2SO4(a["totals"], 0.05, a["titrant_mass"], a["analyte_mass"]),
            c.dilute_totals_pyco2_H2SO4(tp, 0.05, a["titrant_mass"], a["analyte_mass"]),
            c.f_to_demf0(1.01, a["temperature"]),
            c.amount_units(a["dd"], a["salinity"], analyte_volume=95.0, temperature_override=st.get("t")),
            calk.density.seawater_1atm_MP81(a["temperature"], a["salinity"]),
            calk.density.HCl_NaCl_25C_DSC07(0.1, 0.6), calk.density.H2SO4_25C_EAIM(0.1)]


def densities(calk, a, st):
    """Optional arguments given, omitted or out of range (which only warns)."""
    d = calk.density
    kw = st.get("mol", {})
    out = [d.HCl_NaCl_25C_DSC07(**kw), d.seawater_1atm_MP81(**st.get("sw", {})), d.H2SO4_25C_EAIM(st.get("h2so4", 0.1))]
    cv = {"molinity_" + k[9:]: v for k, v in kw.items()}
    out.append(calk.convert.amount_units(a["dd"], a["salinity"], analyte_volume=95.0, titrant_amount_unit="ml", **cv))
    if st.get("density"):
        out.append(calk.convert.amount_units(a["dd"], a["salinity"], analyte_mass=0.1, titrant_density=st["density"]))
    return out


def st_comps(calk, O, st):
    a = O[("arr", st["i"])]
    return [calk.simulate.alkalinity_components(a["pH"], a["totals"], a["k_constants"]),
            calk.simulate.alkalinity(a["pH"], a["totals"], a["k_constants"])]


def st_sim(calk, O, st):
    return calk.simulate._titration(st["alk"], **st["kw"])


def loss_inputs(calk, st):
    """Arrays for the DIC-loss model (a toy titration with CO2 escaping)."""
    n = st.get("n", 24)
    tm = np.linspace(0, 4.2e-3, n)
    pH = np.interp(tm, [0, 2.0e-3, 2.4e-3, 4.2e-3], [8.0 + st["o"], 6.1, 4.2, 3.0])
    dic = (2000.0 + st["d"]) * 0.1 / (0.1 + tm) * (1 - 20 * tm * np.linspace(0, 1, n))
    k0, k1, k2 = np.full(n, 2.8e-2), np.full(n, 1.2e-6), np.full(n, 8.0e-10)
    h = 10.0**-pH
    fco2 = dic / (1 + k1 / h + k1 * k2 / h**2) / k0
    dic[-2:] = np.nan
    fco2[-1:] = np.nan
    return dict(titrant_mass=tm, pH=pH, dic_loss=dic, fCO2_loss=fco2, k_CO2=k0, k_carbonic_1=k1, k_carbonic_2=k2,
                analyte_mass=0.1, dic_start=(2000.0 + st["d"]) * 1e-6)


def st_loss(calk, O, st):
    k = ("loss", st["o"], st["d"])
    a = O.made.get(k) or loss_inputs(calk, st)
    if st.get("hires"):
        return calk.loss.get_dic_loss_hires(**a)
    return calk.loss.get_dic_loss(**a)


def st_call(calk, O, st):
    """Any numerical function, from the catalogue of C13."""
    args, kw = call_args(O, st)
    m, f = st["call"]["fn"].split(".")
    return getattr(getattr(calk, m), f)(*args, **kw)


def call_args(O, st):
    from .props import c13

    I = O.made.setdefault("inputs", c13.Inputs(O.calk, O, None))
    return c13.prepare(I, st["call"])


def st_write(calk, O, st):
    a = O[("arr", st["i"])]
    calk.write_dat(st["fname"], a["titrant_mass"] * 1e3, a["emf"], a["temperature"], **st.get("kw", {}))
    with open(st["fname"], "rb") as f:
        return f.read()


def st_meta(calk, O, st):
    """Import of a metadata or titration file."""
    sp = O.ws["tables"][st["t"] % len(O.ws["tables"])]
    fn, kw = tables.make(sp)[1]["call"]
    if "colspecs" in kw:
        kw["colspecs"] = [tuple(c) for c in kw["colspecs"]]
    return norm(getattr(calk, fn)(table_path(O.ws, sp, O.root), **kw))


def table_path(ws, sp, root):
    return os.path.join(root, "table%d" % ws["tables"].index(sp) + tables.EXT[sp["fmt"]])


STEPS = {k[3:]: v for k, v in globals().items() if k.startswith("st_")}


def write_ws(ws, root):
    for p, c in ws["files"].items():
        dsops.put_file(p, c)
    for name, c in ws.get("extra_files", {}).items():
        dsops.put_file(name, c)
    for sp in ws.get("tables", []):
        dsops.put_file(table_path(ws, sp, root), tables.make(sp)[0])


def prebuild(O, steps):
    """Build what the steps share, before the simulated part (what cannot be built fails later, in the step)."""
    for st in steps:
        try:
            _prebuild(O, st)
        except Exception:  # noqa: BLE001
            pass


def _prebuild(O, st):
    for st in [st]:
        if st["do"] in ("tt", "tt_plot") or (st["do"] == "ds_plot" and st.get("shared")):
            O["sds"]
            if st.get("shared") and st["do"] == "tt_plot":
                O[("tt", st["i"])]
        if st["do"] in ("core_solve", "core_cal", "gran", "totals", "convert", "comps", "write"):
            O[("arr", st["i"])]
        if st["do"] == "call":
            call_args(O, st)
        if st["do"] == "loss":
            O.made.setdefault(("loss", st["o"], st["d"]), loss_inputs(O.calk, st))
        if st.get("opts"):
            O["opts"]
        if st["do"] in ("calibrate", "solve", "calkulate") or st["do"] == "ds":
            if st.get("shared"):
                O["df"]


def call(calk, O, st):
    name = "ds" if st["do"] in dsops.DS_OPS else st["do"]
    return STEPS[name](calk, O, st)


def gen_step(rng, n, kind=None, tag=""):
    kind = kind or rng.choice(["read", "fsolve", "fcal", "ds", "ds", "ds", "tt", "tt_plot", "ds_plot", "core_solve", "core_cal",
                               "core_cal", "gran", "totals", "convert", "comps", "sim", "loss", "write", "call", "call", "meta"])
    i = rng.randrange(n)
    if kind == "ds":
        st = {"do": rng.choice(["calibrate", "solve", "solve", "calkulate"])}
        if rng.random() < 0.35:
            st["shared"] = rng.choice([1, 2])
        else:
            st["rows"] = sorted(rng.sample(range(n), rng.randint(1, min(2, n))))
        if rng.random() < 0.2:
            st["verbose"] = True
        if rng.random() < 0.25:
            st["opts"] = True
        elif rng.random() < 0.4:
            st["kwargs"] = rng.choice([{"pH_min": 3.1}, {"pH_max": 3.85}, {"temperature_override": 22.5},
                                       {"pH_range": [3.02, 3.9]}, {"ph_min": 3.3, "colour": "red"},
                                       {"read_dat_kwargs": {"method": "genfromtxt", "skip_header": 2}}])
        return st
    st = {"do": kind, "i": i}
    if kind == "tt" and rng.random() < 0.5:
        st["kwargs"] = rng.choice([{"pH_min": 3.1}, {"pH_max": 3.85}, {"temperature_override": 22.5}, {"colour": "red"}])
    if kind == "tt_plot":
        st["which"] = rng.choice(PLOTS)
        st["shared"] = rng.choice([0, 1])
        st["own"] = rng.choice([0, 0, 1, 2])
        st["method"] = rng.random() < 0.4
        if st["which"] == "pH" and rng.random() < 0.4:
            st["pk"] = {"show_gran": False}
        if st["which"] == "components" and rng.random() < 0.4:
            st["pk"] = {"log_scale": False}
    if kind == "ds_plot":
        st["which"] = rng.choice(["titrant_molinity", "alkalinity_offset"])
        st["fname"] = f"out{tag}.png"
        st["show_batches"] = rng.choice([True, False])
        st["show_bad"] = rng.choice([True, False])
        st["xvar"] = rng.choice([None, "salinity", "sampled", "sampled"])
        if rng.random() < 0.6:
            st["shared"] = 1
        else:
            st["rows"] = sorted(rng.sample(range(n), rng.randint(1, min(2, n))))
    if kind == "call":
        from .props import c13

        while True:
            c = c13.gen_call(rng, n, [None] * n)
            slow = c["fn"] in ("simulate._titration", "loss.get_dic_loss_hires") and rng.random() < 0.8
            if not c.get("inplace") and not slow:
                break
        c.pop("nan", None)
        st["call"] = c
    if kind == "meta":
        st["t"] = rng.randrange(2)
    if kind == "gran":
        st["logic"] = rng.choice(["v23.7+", "legacy"])
    if kind == "core_cal" and rng.random() < 0.4:
        st["extra"] = True
    if kind == "convert":
        st["t"] = rng.choice([None, 21.0])
        if rng.random() < 0.5:
            st["only"] = "density"
            st["mol"] = rng.choice([{}, {}, {"molinity_HCl": 0.2}, {"molinity_NaCl": 0.3}, {"molinity_HCl": 0.15, "molinity_NaCl": 0.5}])
            st["sw"] = rng.choice([{}, {"temperature": 12.0}, {"salinity": 50.0}, {"temperature": 45.0, "salinity": 0.1}])
            st["h2so4"] = rng.choice([0.1, 0.01, 4.0])
            st["density"] = rng.choice([None, 1.03])
    if kind == "sim":
        st["alk"] = round(rng.uniform(2100, 2500), 1)
        st["kw"] = {"dic": rng.choice([0, 50.0, 2000.0]), "emf0": round(rng.uniform(500, 650), 1),
                    "salinity": round(rng.uniform(30, 36), 1), "temperature": round(rng.uniform(18, 26), 1)}
        if rng.random() < 0.3:
            st["kw"]["total_phosphate"] = 2.0
        if rng.random() < 0.1:
            st["kw"].update(k_dic_loss=2.0, titrant_mass_step=1.0e-3, dic=2000.0)
    if kind == "loss":
        st["o"], st["d"] = round(rng.uniform(-0.1, 0.1), 3), round(rng.uniform(-100, 100), 1)
        st["hires"] = rng.random() < 0.3
    if kind == "write":
        st["fname"] = f"exp{tag}.dat"
        st["kw"] = rng.choice([{}, {"measurement_fmt": ".5f"}, {"line0": "x y"}])
    return st
