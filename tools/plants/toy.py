"""Small helpers for the demonstrations: toy titration files and metadata tables."""

import contextlib
import io
import math
import os
import shutil
import tempfile
import warnings

import numpy as np
import pandas as pd

warnings.simplefilter("ignore")


def _h(alk, s, mix, mass, x, mol, h2so4):
    tb, ts, tf = 416e-6 * s * mass / mix, 0.02824 * s * mass / mix, 68e-6 * s * mass / mix
    if h2so4:
        ts += x * mol / mix
    lo, hi = -11.0, -1.0
    for _ in range(60):
        mid = (lo + hi) / 2
        h = 10.0**mid
        a = 3e-14 / h + tb * 2e-9 / (2e-9 + h) - h - ts * h / (0.1 + h) - tf * h / (3e-3 + h)
        if a > alk:
            lo = mid
        else:
            hi = mid
    return 10.0 ** ((lo + hi) / 2)


def points(alk=2300.0, mol=0.1, mass=0.1, salinity=35.0, temp=25.0, emf0=500.0, n=22, h2so4=False):
    norm = 2.0 if h2so4 else 1.0
    eq = alk * 1e-6 * mass / (mol * norm)
    out = []
    for i in range(n):
        x = eq * (0.3 + 1.3 * i / (n - 1))
        mix = mass + x
        h = _h((alk * 1e-6 * mass - x * mol * norm) / mix, salinity / 35, mix, mass, x, mol, h2so4)
        t = temp + 0.01 * (i % 5)
        out.append((x * 1e3, emf0 + math.log(h) * (t + 273.15) / 96485.3365 * 8314.4621, t, -math.log10(h)))
    return out


def text(pts=None, ph=False, **kw):
    pts = pts or points(**kw)
    return "toy\namount\tmeasurement\ttemperature\n" + "".join(
        f"{x:.6f}\t{p if ph else e:.4f}\t{t:.2f}\n" for x, e, t, p in pts
    )


def write(path, ph=False, **kw):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text(ph=ph, **kw))
    return path


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="demo")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def table(d, n=4, refs=(0,), mols=None, batches=None, **cols):
    """n titrations in folder d; rows in refs are certified reference materials."""
    rows = []
    for i in range(n):
        alk = 2200.0 + 40 * i
        write(os.path.join(d, f"t{i}.dat"), alk=alk, emf0=480.0 + 15 * i,
              mol=(mols or [0.1] * n)[i], temp=24.0 + 0.3 * i, salinity=34.0 + 0.2 * i)
        rows.append({
            "file_name": f"t{i}.dat", "file_path": d, "salinity": 34.0 + 0.2 * i, "analyte_mass": 0.1,
            "titrant_amount_unit": "g", "alkalinity_certified": alk if i in refs else np.nan,
            "analysis_batch": (batches or [0] * n)[i],
        })
    df = pd.DataFrame(rows)
    for k, v in cols.items():
        df[k] = v
    return df


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


RES = ["alkalinity", "alkalinity_std", "alkalinity_npts", "emf0", "gran_alkalinity", "gran_emf0", "pH_init",
       "temperature_init", "alkalinity_offset", "titrant_molinity", "titrant_molinity_here"]


def same(a, b):
    a, b = float(a), float(b)
    return a == b or (a != a and b != b)


def fail(msg):
    print("VIOLATED:", msg)
    raise SystemExit(1)


def check(ok, msg):
    if not ok:
        fail(msg)
