"""C13: numerical functions never modify the caller's data."""

import copy
import hashlib
import io
import sys

import numpy as np
import pandas as pd

from .. import dsops, gen as g, steps, world as wm
from . import c07, c08

LEVEL = "fault_enumeration"
BUDGET = {"quick": (3000, 60), "thorough": (40000, 1500)}
REAL = ["calkulate.core/convert/interface/simulate/loss/density from /repo", "NumPy, SciPy, PyCO2SYS, pandas"]
STUB = ["Ctrl-C and allocation failures at simulator-chosen source lines",
        "numeric traps and warnings-as-errors set by the simulator"]
ASSUME = ["interrupts and allocation failures arrive at source lines of calkulate",
          "arrays are NumPy arrays, pandas Series or lists; the comparison is byte for byte"]
RULE = (
    "a run = one to four calls from a catalogue of all public numerical functions on the same seeded arrays and dictionaries "
    "(contiguous, strided or reversed views into a larger array, float32, integer, read-only, pandas Series or lists; also arrays "
    "shared between arguments), with bad arguments, numeric traps, warnings-as-errors and Ctrl-C or MemoryError at any source line; "
    "after each call every argument, the arrays underneath views and every dictionary is compared byte for byte with before; "
    "non-trivial if the call failed, was interrupted or used a non-plain layout"
)

LAYOUTS = ["plain", "plain", "view", "view", "stride", "reverse", "f32", "readonly", "series", "list", "int", "obj", "shared"]


# ------------------------------------------------------------------ inputs

def lay(x, how):
    x = np.asarray(x)
    if x.ndim == 0:
        return x.item() if how != "readonly" else _ro(np.array(x))
    n = len(x)
    if how == "view":
        b = np.full(n + 6, -7.25)
        b[3:3 + n] = x
        return b[3:3 + n]
    if how == "stride":
        b = np.full((n, 3), -7.25)
        b[:, 1] = x
        return b[:, 1]
    if how == "reverse":
        b = np.array(x[::-1], dtype=float)
        return b[::-1]
    if how == "f32":
        return x.astype(np.float32)
    if how == "readonly":
        return _ro(np.array(x, dtype=float))
    if how == "series":
        return pd.Series(np.array(x, dtype=float))
    if how == "list":
        return [float(v) for v in x]
    if how == "obj":
        return np.array(x, dtype=object)
    return np.array(x, dtype=float)


def _ro(x):
    x.setflags(write=False)
    return x


def finger(x, depth=0):
    """Comparable description of everything reachable from x."""
    if depth > 6:
        return None
    if isinstance(x, np.ndarray):
        out = ["a", x.dtype.str, x.shape, x.strides, x.flags.writeable,
               x.tobytes() if x.dtype != object else [repr(v) for v in x.ravel()]]
        b = x
        while isinstance(b.base, np.ndarray):
            b = b.base
        if b is not x:
            out.append(("base", b.shape, b.tobytes() if b.dtype != object else None))
        return out
    if isinstance(x, pd.Series):
        return ["s", str(x.dtype), x.to_numpy().tobytes(), list(map(str, x.index)), str(x.name)]
    if isinstance(x, pd.DataFrame):
        return ["df", list(map(str, x.columns)), [finger(x.iloc[:, i], depth + 1) for i in range(x.shape[1])]]
    if isinstance(x, dict):
        return ["d", [(str(k), finger(v, depth + 1)) for k, v in x.items()]]
    if isinstance(x, (list, tuple)):
        return [type(x).__name__, [finger(v, depth + 1) for v in x]]
    return repr(x)


def where(a, b, name):
    """First place at which two fingers differ."""
    if a == b:
        return None
    if isinstance(a, list) and isinstance(b, list) and a and b and a[0] == "d" == b[0]:
        ka, kb = [k for k, _ in a[1]], [k for k, _ in b[1]]
        if ka != kb:
            return f"{name}: keys {sorted(set(ka) ^ set(kb)) or 'reordered'}"
        for (k, p), (_, q) in zip(a[1], b[1]):
            w = where(p, q, f"{name}[{k!r}]")
            if w:
                return w
    if isinstance(a, list) and isinstance(b, list) and a and b and a[0] == "a" == b[0]:
        for i, lab in ((1, "dtype"), (2, "shape"), (3, "strides"), (4, "writeable flag")):
            if a[i] != b[i]:
                return f"{name}: {lab} {a[i]} -> {b[i]}"
        if a[5] != b[5]:
            if isinstance(a[5], bytes):
                x, y = np.frombuffer(a[5], a[1]), np.frombuffer(b[5], b[1])
                i = int(np.argmax((x != y) & ~((x != x) & (y != y))))
                return f"{name}[{i}]: {x[i]!r} -> {y[i]!r}"
            return f"{name}: object array changed"
        return f"{name}: the array underneath the view changed"
    return f"{name}: changed"


class Inputs:
    """Named input objects of one run, laid out as the plan says."""

    def __init__(self, calk, O, plan):
        self.calk, self.O, self.plan = calk, O, plan
        self.made = {}

    def arr(self, i, name):
        return self.O[("arr", i)][name]

    def get(self, spec):
        """spec: ["arr", i, name, layout] | ["dict", i, name, layout] | ["const", v] | ..."""
        key = repr(spec)
        if key not in self.made:
            self.made[key] = self.build(*spec)
        return self.made[key]

    def build(self, kind, *s):
        calk = self.calk
        if kind == "const":
            return copy.deepcopy(s[0])
        if kind == "arr":
            i, name, how = s
            v = self.arr(i, name)
            if how == "int":
                return np.arange(1, len(v) + 1)
            if how == "shared":  # all arrays of the titration live in one block
                blk = self.made.get(("blk", i))
                if blk is None:
                    names = ["titrant_mass", "emf", "pH", "temperature"]
                    blk = self.made[("blk", i)] = (names, np.array([self.arr(i, n) for n in names], dtype=float))
                return blk[1][blk[0].index(name)]
            return lay(v, how)
        if kind == "dict":
            i, name, how = s[:3]
            drop, scalar = s[3:] if len(s) > 3 else ([], [])
            how = {"int": "plain", "shared": "plain"}.get(how, how)
            d = {k: lay(v, how) for k, v in self.arr(i, name).items() if k not in drop}
            for k in scalar:  # one value for the whole titration
                if k in d and np.size(d[k]):
                    d[k] = float(np.asarray(d[k], dtype=float).ravel()[0])
            if how == "view" and name == "totals" and d:  # one block for all totals
                n = max(np.size(v) for v in d.values())
                b = np.zeros((len(d), n))
                for q, k in enumerate(d):
                    b[q] = d[k]
                    d[k] = b[q]
            return d
        if kind == "cv":
            i, how = s
            return calk.convert.Converted(
                self.get(["arr", i, "titrant_mass", how]), self.get(["arr", i, "emf", how]),
                self.get(["arr", i, "temperature", how]), self.arr(i, "analyte_mass"), self.arr(i, "salinity"))
        if kind == "dd":
            i, how = s
            dd = self.arr(i, "dd")
            return type(dd)(*(lay(x, how if how not in ("int", "shared") else "plain") for x in dd))
        if kind == "py":
            i, how = s
            return calk.convert.totals_to_pyco2(self.get(["dict", i, "totals", how]), self.arr(i, "salinity"))
        if kind == "loss":
            o, d, how, name = s
            v = steps.loss_inputs(calk, {"o": o, "d": d})[name]
            return v if np.isscalar(v) else lay(v, how if how not in ("int", "shared") else "plain")
        if kind == "vals":
            v, how = s
            return lay(np.array(v, dtype=float), how if how not in ("int", "shared") else "plain")
        if kind == "full":
            n, v, how = s
            return lay(np.full(n, v) + 0.01 * np.arange(n), how if how not in ("int", "shared") else "plain")
        raise KeyError(kind)


# ------------------------------------------------------------------ the catalogue

def _t(i, L, m="emf"):
    return [["arr", i, "titrant_mass", L], ["arr", i, m, L], ["arr", i, "temperature", L]]


def gen_call(rng, n, a_modes):
    """A call as JSON: {"fn", "args": [spec], "kw": {name: spec}, "inplace": bool}."""
    i = rng.randrange(n)
    L = rng.choice(LAYOUTS)
    mode = a_modes[i]
    C = lambda v: ["const", v]  # noqa: E731
    AM, MOL = ["val", i, "analyte_mass"], ["val", i, "mol"]
    fn = rng.choice([
        "core.gran_function", "core.gran_alkalinity", "core.gran_emf0s", "core.gran_guesses", "core.gran_guesses",
        "core.totals_ks", "core.totals_ks", "core.add_titrant_totals", "core.solve_emf", "core.solve_emf", "core.solve_pH",
        "core.solve_pH_gran", "core.calibrate_emf", "core.calibrate_emf", "core.calibrate_emf", "core.calibrate_pH",
        "core.calibrate_pH", "core.calibrate_pH_gran", "core.calibrate_pH_gran",
        "simulate.alkalinity_components", "simulate.alkalinity", "simulate.alkalinity",
        "convert.dilute_totals", "convert.dilute_totals_pyco2", "convert.totals_to_pyco2", "convert.dilute_totals_H2SO4",
        "convert.dilute_totals_pyco2_H2SO4", "convert.emf_to_h", "convert.emf_to_pH", "convert.h_to_emf", "convert.pH_to_emf",
        "convert.f_to_demf0", "convert.amount_units", "convert.amount_units", "convert.get_dilution_factor",
        "interface.get_k_constants", "interface.get_k_constants", "interface.get_totals",
        "loss.get_dic_loss", "loss.get_dic_loss", "loss.get_dic_loss_hires", "loss.dic_loss_model_fitted",
        "loss.dic_loss_model_future", "loss.get_fCO2_from_dic_pH",
        "density.seawater_1atm_MP81", "density.HCl_NaCl_25C_DSC07", "density.H2SO4_25C_EAIM",
        "simulate._titration",
    ])
    c = {"fn": fn, "i": i, "args": [], "kw": {}}
    f = fn.split(".")[1]
    TOT, KS = ["dict", i, "totals", L], ["dict", i, "k_constants", L]
    if rng.random() < 0.35:  # incomplete totals, or given as single values
        some = ["dic", "total_phosphate", "total_silicate", "total_ammonia", "total_sulfide", "total_sulfate", "total_fluoride",
                "total_borate", "total_alpha", "total_beta"]
        TOT += [rng.sample(some, rng.choice([0, 1, 2, 5])), rng.sample(some, rng.choice([0, 0, 2, 10]))]
    if rng.random() < 0.1:
        some = ["k_water", "k_borate", "k_carbonic_1", "k_carbonic_2", "k_bisulfate", "k_fluoride", "k_orthosilicic"]
        KS += [rng.sample(some, rng.choice([1, 2])), rng.sample(some, rng.choice([0, 3]))]

    def opts(*names):
        pool = {
            "pH_min": [2.9, 3.1, 3.9], "pH_max": [3.8, 4.2, 3.0], "double": [True, False], "emf0_init": [None, 500.0],
            "alkalinity_init": [2200.0, None], "gran_logic": ["v23.7+", "legacy", "nonsense"], "titrant_molinity_init": [0.1, 0.11],
            "titrant_normality": [1, 2],
        }
        for k in names:
            if rng.random() < 0.3:
                c["kw"][k] = C(rng.choice(pool[k]))

    if f == "gran_function":
        c["args"] = _t(i, L) + [AM]
    elif f in ("gran_alkalinity", "gran_guesses"):
        c["args"] = _t(i, L) + [AM, MOL]
        opts("gran_logic", "titrant_normality")
    elif f == "gran_emf0s":
        c["args"] = _t(i, L) + [AM, MOL, C(2.3e-3)]
        opts("titrant_normality")
    elif f == "totals_ks":
        c["args"] = [["cv", i, L]]
        c["kwdict"] = ["val", i, "kwt"]
        if rng.random() < 0.5:
            c["kw"]["dilute_totals_for_ks"] = C(rng.random() < 0.8)
        if rng.random() < 0.3:
            c["kw"]["total_alpha"], c["kw"]["k_alpha"] = C(20.0), C(1e-6)
        if rng.random() < 0.3:
            c["kw"]["opt_pH_scale"] = C(rng.choice([1, 2, 3]))
    elif f == "add_titrant_totals":
        c["args"] = [TOT, ["arr", i, "titrant_mass", L], AM, MOL]
        c["inplace"] = True
        c["kw"]["titrant_total_sulfate"] = rng.choice([C(1), ["arr", i, "pH", L]])
    elif f in ("solve_emf", "solve_pH", "solve_pH_gran"):
        m = "emf" if f == "solve_emf" else "pH"
        c["args"] = [MOL] + _t(i, L, m) + [AM, TOT, KS]
        opts(*(["pH_min", "pH_max", "titrant_normality"] + (["double", "emf0_init", "alkalinity_init", "gran_logic"]
                                                            if m == "emf" else [])))
    elif f.startswith("calibrate_"):
        m = "emf" if f == "calibrate_emf" else "pH"
        c["args"] = [["val", i, "alk"]] + _t(i, L, m) + [AM, TOT, KS]
        opts(*(["pH_min", "pH_max", "titrant_molinity_init", "titrant_normality"] + (["double", "emf0_init"] if m == "emf" else [])))
        for k in ("sulfate", "phosphate", "fluoride"):
            if rng.random() < 0.45:
                c["kw"]["titrant_total_" + k] = C(rng.choice([1, 0.5, 2]))
    elif f in ("alkalinity_components", "alkalinity"):
        c["args"] = [["arr", i, "pH", L], TOT, KS]
        if rng.random() < 0.5:
            c["kw"]["opt_pH_scale"] = C(rng.choice([1, 2, 3, 3, 9]))
    elif f == "dilute_totals":
        c["args"] = [TOT, ["arr", i, "titrant_mass", L], AM]
    elif f == "dilute_totals_pyco2":
        c["args"] = [["py", i, L], ["arr", i, "titrant_mass", L], AM]
    elif f == "totals_to_pyco2":
        c["args"] = [TOT, ["val", i, "salinity"]]
    elif f == "dilute_totals_H2SO4":
        c["args"] = [TOT, C(0.05), ["arr", i, "titrant_mass", L], AM]
    elif f == "dilute_totals_pyco2_H2SO4":
        c["args"] = [["py", i, L], C(0.05), ["arr", i, "titrant_mass", L], AM]
    elif f in ("emf_to_h", "emf_to_pH"):
        c["args"] = [["arr", i, "emf", L], C(500.0), ["arr", i, "temperature", L]]
    elif f in ("h_to_emf", "pH_to_emf"):
        c["args"] = [["arr", i, "pH", L], C(500.0), ["arr", i, "temperature", L]]
    elif f == "f_to_demf0":
        c["args"] = [C(1.01), ["arr", i, "temperature", L]]
    elif f == "get_dilution_factor":
        c["args"] = [["arr", i, "titrant_mass", L], AM]
    elif f == "amount_units":
        c["args"] = [["dd", i, L], ["val", i, "salinity"]]
        c["kw"] = rng.choice([{"analyte_volume": C(95.0)}, {"analyte_mass": C(0.1)}, {}])
        for k, vs in {"temperature_override": [21.0, None], "titrant_amount_unit": ["ml", "g", "kg", "oz"],
                      "titrant": ["HCl", "H2SO4", "x"], "titrant_density": [1.02, None], "molinity_HCl": [0.2], "molinity_NaCl": [0.4],
                      "molinity_H2SO4": [0.07]}.items():
            if rng.random() < 0.4:
                c["kw"][k] = C(rng.choice(vs))
    elif f == "get_k_constants":
        c["args"] = [["py", i, L], ["arr", i, "temperature", L]]
        if rng.random() < 0.6:
            c["kw"]["opt_pH_scale"] = C(rng.choice([1, 2, 3]))
        if rng.random() < 0.3:
            c["kw"]["k_bisulfate"] = C(0.1)
    elif f == "get_totals":
        c["args"] = [["val", i, "salinity"]]
        c["kw"] = {k: C(v) for k, v in (("total_alpha", 10.0), ("total_borate", 400.0), ("total_silicate", 5.0)) if rng.random() < 0.5}
    elif f.startswith("get_dic_loss"):
        o, d = round(rng.uniform(-0.1, 0.1), 3), round(rng.uniform(-100, 100), 1)
        c["kw"] = {k: ["loss", o, d, L, k] for k in ("titrant_mass", "pH", "dic_loss", "fCO2_loss", "k_CO2", "k_carbonic_1",
                                                      "k_carbonic_2", "analyte_mass", "dic_start")}
        if rng.random() < 0.3:
            c["kw"]["split_pH"] = C(rng.choice([5.0, 6.0]))
    elif f == "dic_loss_model_fitted":
        c["args"] = [C(1.0), ["full", 12, 1e-3, L], ["full", 12, 200.0, L], C(2e-3), C(0.1), C(1e-5)]
    elif f == "dic_loss_model_future":
        c["args"] = [C(1.0), ["full", 12, 1e-3, L], ["full", 12, 4.0, L], ["full", 12, 0.03, L], ["full", 12, 1e-6, L],
                     ["full", 12, 8e-10, L], C(300.0), C(1900.0), C(5.0), C(0.03), C(1e-6), C(8e-10), C(0.1), C(1e-5)]
    elif f == "get_fCO2_from_dic_pH":
        c["args"] = [["full", 9, 2000.0, L], ["full", 9, 6.0, L], ["full", 9, 0.03, L], ["full", 9, 1e-6, L], ["full", 9, 8e-10, L]]
        if rng.random() < 0.4:
            c["args"][0] = ["vals", [round(rng.uniform(-50, 2200), 1) for _ in range(9)], L]
    elif f == "seawater_1atm_MP81":
        c["args"] = [["arr", i, "temperature", L], rng.choice([["val", i, "salinity"], ["full", 3, 35.0, L]])]
        if rng.random() < 0.6:  # values outside the valid range
            s = [round(rng.uniform(-2, 50), 2) for _ in range(5)]
            t = [round(rng.uniform(-5, 50), 2) for _ in range(5)]
            c["args"] = [rng.choice([["vals", t, L], C(t[0])]), ["vals", s, L]]
    elif f == "HCl_NaCl_25C_DSC07":
        if rng.random() < 0.5:
            c["args"] = [["full", 5, 0.1, L], ["full", 5, 0.6, L]]
            if rng.random() < 0.4:
                c["args"] = [["vals", [round(rng.uniform(-0.2, 2), 3) for _ in range(5)], L], ["vals", [0.0, 0.7, -0.1, 5.0, 0.6], L]]
        else:
            c["kw"] = rng.choice([{}, {"molinity_HCl": C(0.2)}, {"molinity_NaCl": C(0.3)}, {"molinity_HCl": ["full", 5, 0.1, L]}])
    elif f == "H2SO4_25C_EAIM":
        c["args"] = [rng.choice([["full", 5, 0.1, L], C(0.1), C(0.01)])]
    elif f == "_titration":
        m = rng.randint(6, 9)
        c["args"] = [C(2300.0)]
        c["kw"] = {"temperature": ["full", m, 22.0, L], "titrant_mass_start": C(0), "titrant_mass_step": C(0.5e-3),
                   "titrant_mass_stop": C(0.5e-3 * (m - 0.5)), "dic": C(rng.choice([0, 2000.0]))}
        if rng.random() < 0.5:
            c["kw"]["total_phosphate"] = ["full", m, 2.0, L]
        if rng.random() < 0.3:
            c["kw"]["total_silicate"] = ["full", m, 20.0, L]
        if rng.random() < 0.25:
            c["kw"]["k_dic_loss"] = C(2.0)
    # sometimes: bad arguments
    r = rng.random()
    if r < 0.12 and c["args"]:
        q = rng.randrange(len(c["args"]))
        c["args"][q] = C(rng.choice([None, "x", float("nan"), -1.0, 0]))
    elif r < 0.2:
        c["short"] = True
    elif r < 0.28:
        c["drop"] = rng.choice(["k_borate", "k_bisulfate", "total_sulfate", "dic", "TSO4", "Sal"])
    if rng.random() < 0.2:
        c["nan"] = [rng.random(), rng.choice([float("nan"), 0.0, -1.0, float("inf"), 1e30, -1e-9, 300.0]), rng.choice(["first", "last", "some"])]
    c["layout"] = L
    return c


def gen(rng, tier, i):
    ws = steps.workspace(rng, n=2)
    n = len(ws["rows"])
    plan = {"ws": ws, "world": g.delivery(rng), "user": c08.user_settings(rng), "faults": [], "inject": []}
    plan["calls"] = [gen_call(rng, n, [None] * n) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
    for k in range(len(plan["calls"])):
        if rng.random() < 0.45:
            plan["inject"].append({"kind": "site", "u": rng.random(), "v": rng.choice([0.0, rng.random(), 0.999]),
                                   "exc": rng.choice(["KI", "MemoryError"]), "op": k})
    return plan


def is_arr(x):
    return isinstance(x, np.ndarray) and x.dtype.kind == "f" and x.ndim == 1 and len(x) and x.flags.writeable


def prepare(I, c):
    """(args, kwargs, objects to watch)."""
    def val(s):
        if s[0] == "val":
            return copy.deepcopy(I.arr(s[1], s[2]))
        return I.get(s)

    args = [val(s) for s in c["args"]]
    kw = {k: val(s) for k, s in c["kw"].items()}
    if "kwdict" in c:
        kw = dict(val(c["kwdict"]), **kw)
    if c.get("short"):
        for q in range(len(args) - 1, -1, -1):
            if isinstance(args[q], (np.ndarray, list)) and np.size(args[q]) > 2:
                args[q] = args[q][:-1]
                break
    if c.get("nan"):  # odd values in one of the arrays, whatever its layout
        u, v, at = c["nan"]
        pool = [x for x in args + list(kw.values()) if is_arr(x)]
        for x in args:
            if isinstance(x, dict):
                pool += [y for y in x.values() if is_arr(y)]
            elif hasattr(x, "_fields"):
                pool += [y for y in x if is_arr(y)]
        if pool:
            x = pool[int(u * len(pool))]
            sl = {"first": slice(0, 1), "last": slice(-1, None), "some": slice(0, None, 3)}[at]
            x[sl] = v
    if c.get("drop"):
        for q in range(len(args)):
            if isinstance(args[q], dict):
                args[q] = {k: v for k, v in args[q].items() if k != c["drop"]}
    return args, kw


def execute(d, plan):
    import calkulate as calk

    steps.write_ws(plan["ws"], d)
    O = steps.Objects(calk, plan["ws"], d)
    I = Inputs(calk, O, plan)
    for k in range(len(plan["ws"]["rows"])):
        O[("arr", k)]
    prepared = [prepare(I, c) for c in plan["calls"]]
    spec = dict(plan["world"])
    spec["inject"] = copy.deepcopy(plan.get("inject", []))
    spec["record_sites"] = plan.get("record_sites")
    w = wm.World(d, spec)
    wm.install(w)
    sys.stdout = io.StringIO()
    c08.apply_settings(plan["user"])
    out = {"diffs": [], "outcomes": []}
    lines = {}
    for k, c in enumerate(plan["calls"]):
        args, kw = prepared[k]
        m, f = c["fn"].split(".")
        fn = getattr(getattr(calk, m), f)
        skip = 0 if c.get("inplace") else None
        names = [f"argument {q}" for q in range(len(args))] + list(kw)
        objs = list(args) + list(kw.values())
        if skip is not None:
            # totals may be changed in place, but only in the entries asked for
            tot = objs[skip]
            if isinstance(tot, dict):
                objs[skip] = {q: v for q, v in tot.items() if "titrant_" + q not in kw}
                if c.get("layout") == "view":
                    objs[skip] = {q: np.array(v) for q, v in objs[skip].items()}  # one block: compare the rest by key
                    names[skip] = "other totals"
        before = [finger(o) for o in objs]
        kwb = list(kw)
        w.begin_op(k)
        try:
            res = fn(*args, **kw)
            r = "ok"
        except BaseException as e:  # noqa: BLE001
            r = type(e).__name__
            if "read-only" in str(e) and skip is None and not wm.is_injected(e):
                out["diffs"].append((k, c["fn"], r, f"tried to write to a read-only argument: {e}"))
            res = None
        finally:
            lines[k] = w.op_lines.get(w.key(), 0)
            w.end_op()
        if skip is not None and isinstance(args[skip], dict) and c.get("layout") == "view":
            objs[skip] = {q: np.array(v) for q, v in args[skip].items() if "titrant_" + q not in kw}
        after = [finger(o) for o in objs]
        if skip is not None:
            # what the view shares with the entries being changed is allowed to change
            before, after = ([strip(x) if q == skip else x for q, x in enumerate(y)] for y in (before, after))
        for nm, a, b in zip(names, before, after):
            df = where(a, b, nm)
            if df:
                out["diffs"].append((k, c["fn"], r, df))
        if list(kw) != kwb:
            out["diffs"].append((k, c["fn"], r, "keyword dictionary changed"))
        out["outcomes"].append((k, c["fn"], r, c["layout"], summary(res)))
        if skip is not None:  # later calls see the changed totals; rebuild from scratch instead
            I.made = {}
            for q in range(k + 1, len(plan["calls"])):
                prepared[q] = prepare(I, plan["calls"][q])
    sys.stdout, sys.stderr = sys.__stdout__, sys.__stderr__
    wm.uninstall()
    out.update(op_lines=lines, marks={}, sites=w.sites, inject=w.inject, lines=w.lines, digest=w.digest())
    return out


def strip(x):
    if isinstance(x, list) and x and x[0] == "d":
        return ["d", [(k, [v[0], v[1], v[2], v[3], v[4], v[5]] if isinstance(v, list) and v and v[0] == "a" else v)
                      for k, v in x[1]]]
    return x


def summary(res):
    try:
        return hashlib.sha256(repr(steps.norm(res)).encode()).hexdigest()[:8]
    except Exception:
        return "?"


def run(ctx, plan):
    plan = dsops.resolve(ctx, plan, execute)
    obs = ctx.fork(execute, plan)
    inj = {f["op"]: f.get("where") for f in obs["inject"] if f["fired"]}
    viol = []
    for k, fn, r, what in obs["diffs"]:
        viol.append({"kind": "input-changed:" + fn,
                     "detail": f"call {k} {fn} ({r}{', interrupted at ' + inj[k] if k in inj else ''}) changed its caller's data: {what}"})
    stats = {"calls": len(obs["outcomes"]), "sim_lines": obs["lines"]}
    nt = False
    for k, fn, r, L, _ in obs["outcomes"]:
        stats["call:" + fn] = stats.get("call:" + fn, 0) + 1
        stats["layout:" + L] = stats.get("layout:" + L, 0) + 1
        if r != "ok":
            stats["outcome:" + r] = stats.get("outcome:" + r, 0) + 1
        nt = nt or r != "ok" or L != "plain"
    for f in obs["inject"]:
        if f["fired"]:
            nt = True
            stats[f"fault:{f['exc']}@line"] = stats.get(f"fault:{f['exc']}@line", 0) + 1
    for c in plan["calls"]:
        if c.get("short") or c.get("nan") or c.get("drop"):
            stats["fault:bad-argument"] = stats.get("fault:bad-argument", 0) + 1
    if plan["user"]["filters"] in ("error", "mixed"):
        stats["fault:warnings-as-errors"] = 1
    if plan["user"]["seterr"]:
        stats["fault:numeric-traps"] = 1
    return {"viol": viol, "stats": stats, "nontrivial": nt,
            "digest": c07.sig((obs["digest"], obs["outcomes"], sorted(inj.items())))}


def shrink(plan):
    n = len(plan["calls"])
    if n > 1:
        for k in range(n):
            p = copy.deepcopy(plan)
            del p["calls"][k]
            p["inject"] = [dict(f, op=f["op"] - (f["op"] > k)) for f in p["inject"] if f["op"] != k]
            yield p
    for k in range(len(plan["inject"])):
        p = copy.deepcopy(plan)
        del p["inject"][k]
        yield p
    for k, v in plan["user"].items():
        if v is not None and k != "np_seed":
            p = copy.deepcopy(plan)
            p["user"][k] = None
            yield p
    for q, c in enumerate(plan["calls"]):
        for key in ("short", "drop", "nan"):
            if c.get(key):
                p = copy.deepcopy(plan)
                del p["calls"][q][key]
                yield p
        for key in list(c["kw"]):
            p = copy.deepcopy(plan)
            del p["calls"][q]["kw"][key]
            yield p
    if plan["world"].get("chunks") != [0]:
        p = copy.deepcopy(plan)
        p["world"] = {"chunks": [0], "bufsize": 8192}
        yield p
