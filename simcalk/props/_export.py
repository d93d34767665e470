"""Shared by C10 and C11: what an export should write, computed independently."""

import math
import os

from .. import gen as g

HEAD0 = "Titration data exported by Calkulate"
HEAD1 = "titrant_amount\tmeasurement\ttemperature"
FMTS = [".3f", ".3f", ".1f", ".5f", ".0f", ".4e", "8.3f", "+.2f", ".6g"]


def data(rng, n=None, odd=True):
    n = n or rng.choice([2, 3, rng.randint(4, 40), rng.randint(40, 400), int(10 ** rng.uniform(1, 3.4))])
    seed = rng.randrange(10**9)
    return {"n": n, "seed": seed, "kind": rng.choice(["array", "array", "list", "series", "int", "tuple", "f32"]),
            "odd": rng.choice(["nan", "inf", "neg", "tiny", "huge", None, None, None, None]) if odd else None}


def values(spec):
    import random

    r = random.Random(spec["seed"])
    n = spec["n"]
    a = [r.uniform(0, 5) for _ in range(n)]
    m = [r.uniform(-700, 700) for _ in range(n)]
    t = [r.uniform(10, 30) for _ in range(n)]
    if spec["kind"] == "int":
        a, m, t = ([int(v) for v in x] for x in (a, m, t))
    elif spec["odd"]:
        v = {"nan": math.nan, "inf": math.inf, "neg": -1e-9, "tiny": 2.345e-5, "huge": -1.23456789e12}[spec["odd"]]
        for x in (a, m, t):
            x[r.randrange(n)] = v
    if spec["kind"] == "f32":
        import numpy as np

        a, m, t = ([float(np.float32(v)) for v in x] for x in (a, m, t))
    if spec.get("bad") is not None:
        m = list(m)
        m[min(spec["bad"], n - 1)] = None
    return a, m, t


def as_args(spec):
    import numpy as np
    import pandas as pd

    a, m, t = values(spec)
    k = spec["kind"]
    if k == "list":
        return a, m, t
    if k == "tuple":
        return tuple(a), tuple(m), tuple(t)
    if k == "series":
        n = spec["n"]
        idx = list(range(n, 0, -1))
        return tuple(pd.Series(x, index=idx, dtype=object if None in x else None) for x in (a, m, t))
    if None in m:
        return tuple(np.array(x, dtype=object) for x in (a, m, t))
    return tuple(np.array(x, dtype=np.float32 if k == "f32" else None) for x in (a, m, t))


def fmts(kw):
    return [kw.get(k, ".3f") for k in ("titrant_amount_fmt", "measurement_fmt", "temperature_fmt")]


def text(spec, kw):
    """The bytes an export should produce (up to an unformattable value)."""
    a, m, t = values(spec)
    fa, fm, ft = fmts(kw)
    lines = [kw.get("line0", HEAD0), kw.get("line1", HEAD1)]
    for x, y, z in zip(a, m, t):
        if y is None:
            break
        lines.append("\t".join((format(x, fa), format(y, fm), format(z, ft))))
    nl = {"\r\n": "\r\n"}.get(kw.get("newline"), "\n")
    return (nl.join(lines) + nl).encode("utf-8" if unencodable(kw) else kw.get("encoding", "utf-8"))


def head(kw):
    return kw.get("line0", "") + kw.get("line1", "")


def unencodable(kw):
    """The chosen encoding does not have some character of the header."""
    try:
        head(kw).encode(kw.get("encoding", "utf-8"))
        return False
    except UnicodeEncodeError:
        return True


def options(rng, n):
    kw = {}
    for k in ("titrant_amount_fmt", "measurement_fmt", "temperature_fmt"):
        if rng.random() < 0.3:
            kw[k] = rng.choice(FMTS)
    if rng.random() < 0.2:
        kw["line0"] = rng.choice(["", "my cruise", "\u00fcber 3", "\u03bcmol", "# c"])
    if rng.random() < 0.2:
        kw["line1"] = rng.choice(["ml\tmV\tC", "x", "g\tmV\t\u00b0C"])
    if rng.random() < (0.5 if not head(kw).isascii() else 0.15):
        kw["encoding"] = rng.choice(["utf-8", "ascii", "latin-1", "cp1252"])
    if rng.random() < 0.1:
        kw["newline"] = rng.choice(["\n", "\r\n"])
    if rng.random() < 0.15:
        kw["buffering"] = rng.choice([1, 16, 4096])
    return kw


def read(path):
    try:
        fd = os.open(path, os.O_RDONLY)
    except OSError:
        return None
    out = b""
    try:
        while True:
            b = os.read(fd, 1 << 20)
            if not b:
                return out
            out += b
    except OSError:
        return None
    finally:
        os.close(fd)


def world(rng):
    w = g.delivery(rng)
    w["wchunks"] = rng.choice([[0], [0], [1], [7], [100, 3], [500], [4096]])
    return w
