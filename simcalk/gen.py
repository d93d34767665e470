"""Seeded generators of titration files, metadata tables, options and fault plans.

The chemistry here is an independent toy model (bisection on a seawater alkalinity
balance); it only has to produce titrations that behave like real ones.  Everything a
plan contains is plain JSON, so that a plan can be saved, minimised and replayed.
"""

import base64
import math

F_RT = 96485.3365 / 8.3144621


def _h_from_alk(alk, tb, ts, tf, dic):
    """[H+] (free) for a mixture alkalinity in mol/kg, by bisection in log space."""
    lo, hi = -11.0, -1.0  # log10 h
    for _ in range(60):
        mid = 0.5 * (lo + hi)
        h = 10.0**mid
        a = (
            3.0e-14 / h
            + tb * 2.0e-9 / (2.0e-9 + h)
            + dic * (1.1e-6 * h + 2 * 1.1e-6 * 8e-10) / (h * h + 1.1e-6 * h + 1.1e-6 * 8e-10)
            - h
            - ts * h / (0.1 + h)
            - tf * h / (3.0e-3 + h)
        )
        if a > alk:
            lo = mid
        else:
            hi = mid
    return 10.0 ** (0.5 * (lo + hi))


def titration(rng, alk, molinity, mass, salinity, temp, emf0, npts, h2so4=False, dic=0.0):
    """List of (titrant_mass_kg, emf, pH, temp)."""
    s = salinity / 35.0
    tb, ts, tf = 416e-6 * s, 0.02824 * s, 68e-6 * s
    norm = 2.0 if h2so4 else 1.0
    eq = alk * 1e-6 * mass / (molinity * norm)
    end = eq * rng.uniform(1.52, 1.68)
    start = eq * rng.uniform(0.02, 0.6)
    nlow = max(3, npts // 4)
    xs = [start + (eq * 0.97 - start) * i / nlow for i in range(nlow)]
    nh = npts - nlow
    xs += [eq * 1.02 + (end - eq * 1.02) * i / (nh - 1) for i in range(nh)]
    out = []
    for i, x in enumerate(xs):
        mm = mass + x
        a = (alk * 1e-6 * mass - x * molinity * norm) / mm
        tsx = (ts * mass + (x * molinity if h2so4 else 0.0)) / mm
        h = _h_from_alk(a, tb * mass / mm, tsx, tf * mass / mm, dic * 1e-6 * mass / mm)
        t = temp + 0.01 * (i % 7)
        emf = emf0 + math.log(h) * (t + 273.15) / F_RT * 1000.0
        emf += rng.uniform(-0.02, 0.02)
        out.append((x, emf, -math.log10(h) + rng.uniform(-3e-4, 3e-4), t))
    return out


def rough(rng, pts, cut=True):
    """Now and then a titration as real ones are: noisy, points out of order, repeated or missing."""
    u = rng.random()
    if u < 0.05:
        a = rng.choice([0.5, 3.0, 15.0])
        pts = [(x, e + rng.uniform(-a, a), p + rng.uniform(-a, a) * 0.017, t) for x, e, p, t in pts]
    elif u < 0.10:
        i = rng.randrange(1, len(pts) - 1)
        pts = pts[:i] + [pts[i + 1], pts[i]] + pts[i + 2:]
    elif u < 0.12:
        pts = pts[::-1]
    elif u < 0.15:
        i = rng.randrange(len(pts))
        pts = pts[:i] + [pts[i]] * rng.choice([2, 3]) + pts[i + 1:]
    elif not cut:
        return pts
    elif u < 0.17:
        pts = pts[: rng.choice([1, 2, 3, 6])]
    elif u < 0.19:
        pts = pts[-rng.choice([2, 3, 5]):]
    return pts


# ------------------------------------------------------------------ file formats

def fmt_dat(pts, col="emf", scale=1e3, delim="\t"):
    rows = []
    for x, emf, ph, t in pts:
        m = f"{emf:.2f}" if col == "emf" else f"{ph:.4f}"
        rows.append(f"{x * scale:.6f}{delim}{m}{delim}{t:.2f}")
    return "\n".join(["simulated titration", delim.join(["amount", col, "temperature"])] + rows) + "\n"


def fmt_pclims(pts, scale=1e3, col="emf"):
    head = ["pc_lims_report", "$G Common V1.1", "serial\t1234", "$S Ident V1.0", "S1\t\t102.1\tg", "$E",
            "$S Mode 1\t01\tDET U\tV1.0"]
    rows = []
    for i, (x, emf, ph, t) in enumerate(pts):
        m = f"{emf:.2f}" if col == "emf" else f"{ph:.4f}"
        rows.append(f"{i + 1}\t{x * scale:.6f}\t{m}\t{1.1 * i:.1f}\t{2.0 * i:.1f}\t{t:.2f}")
    tail = ["$E", "$S Results V1", "R1\toff\tx", "$E"]
    return "\n".join(head + rows + tail) + "\n"


def fmt_tiamo(pts, scale=1e3, v0=0.0):
    head = ["Bestimmung;1", "Probe;S1", "", f"0;8.1;{v0:.3f};1.0;25.0", "", "", "Gran.1",
            "Volumen [mL];Messwert;dMW [pH];Zeit [s];Temperatur [\u00b0C];Berechnet 1;Berechnet 2;Berechnet 3"]
    rows = [
        f"{x * scale - v0:.6f};{ph:.4f};0.1;{3 * i};{t:.2f};0;0;0"
        for i, (x, emf, ph, t) in enumerate(pts)
    ]
    return "\n".join(head + rows) + "\n"


def b64(b):
    return base64.b64encode(b).decode()


def unb64(s):
    return base64.b64decode(s)


KINDS = ["vindta", "vindta", "vindta", "genfromtxt", "pclims", "tiamo", "pH", "pH_adjust", "pH_gran", "h2so4"]


def make_row(rng, i, kinds=KINDS, folder=None, name=None, reference=None, npts=None, wild=True, cut=True, size=None):
    """One metadata row (dict, blanks omitted) and its file {path: bytes}."""
    kind = rng.choice(kinds)
    sal = round(rng.uniform(30, 37), 3)
    temp = round(rng.uniform(19, 26), 2)
    alk = round(rng.uniform(2050, 2550), 2)
    emf0 = rng.uniform(350, 660)
    mol = rng.uniform(0.085, 0.14) if rng.random() < 0.9 else rng.choice([rng.uniform(0.01, 0.05), rng.uniform(0.2, 0.7)])
    h2 = kind == "h2so4"
    if h2:
        mol /= 2
    dic = round(rng.uniform(1, 60), 2) if rng.random() < 0.25 else 0.0
    npts = npts or rng.randint(14, 24)
    use_volume = rng.random() < 0.5 if size is None else size == "volume"
    mass = rng.uniform(0.085, 0.115)
    row = {"salinity": sal}
    if use_volume:
        dens = 0.99708 + 7.6e-4 * sal  # near enough
        row["analyte_volume"] = round(mass / dens * 1e3, 3)
    else:
        row["analyte_mass"] = round(mass, 6)
    pts = titration(rng, alk, mol, mass, sal, temp, emf0, npts, h2, dic)
    if wild:
        pts = rough(rng, pts, cut)
    scale = 1e3 / 1.02
    if kind in ("vindta", "genfromtxt", "h2so4"):
        unit = rng.choice(["ml", "g", "kg", None])
        if unit in ("g", "kg"):
            scale = 1e3 if unit == "g" else 1.0
        if unit:
            row["titrant_amount_unit"] = unit if rng.random() < 0.85 else rng.choice([unit.upper(), unit.title()])
        ft = {"vindta": "vindta", "genfromtxt": "genfromtxt"}.get(kind)
        if ft and rng.random() < 0.6:
            row["file_type"] = ft
        if unit == "kg":
            text = "\n".join(["simulated titration", "amount\temf\ttemperature"] + [
                f"{x:.9f}\t{emf:.2f}\t{t:.2f}" for x, emf, ph, t in pts]) + "\n"
        else:
            text = fmt_dat(pts, scale=scale)
        ext = ".dat"
        if rng.random() < 0.3:
            row["solve_mode"] = rng.choice(["emf", "EMF"])
        if h2:
            row["titrant"] = "H2SO4"
            row["titrant_normality"] = 2
            row["titrant_total_sulfate"] = 1
    elif kind == "pclims":
        text, ext = fmt_pclims(pts, scale=scale), ".txt"
        row["file_type"] = "pclims"
    elif kind == "tiamo":
        text, ext = fmt_tiamo(pts, scale=scale, v0=round(rng.uniform(0, 0.3), 3)), ".csv"
        row["file_type"] = "tiamo_de"
        row["solve_mode"] = rng.choice(["pH", "pH_adjust", "pH_gran"])
    else:
        text, ext = fmt_dat(pts, col="pH", scale=scale), ".dat"
        row["solve_mode"] = kind
    if reference is None:
        reference = rng.random() < 0.5
    row["alkalinity_true"] = alk
    if reference:
        row["alkalinity_certified"] = alk
    if wild:
        opt = {
            "dic": lambda: dic or round(rng.uniform(0, 30), 2),
            "total_silicate": lambda: round(rng.uniform(0, 40), 2),
            "total_phosphate": lambda: round(rng.uniform(0, 4), 2),
            "total_ammonia": lambda: round(rng.uniform(0, 5), 2),
            "total_sulfate": lambda: rng.choice([1, 1, 1, 0]) * round(28240 * sal / 35 * rng.uniform(0.97, 1.03), 1),
            "total_borate": lambda: rng.choice([1, 1, 1, 0]) * round(416 * sal / 35 * rng.uniform(0.97, 1.03), 2),
            "total_fluoride": lambda: rng.choice([1, 1, 1, 0]) * round(68 * sal / 35 * rng.uniform(0.97, 1.03), 2),
            "opt_total_borate": lambda: rng.choice([1, 2]),
            "opt_k_carbonic": lambda: rng.choice([4, 10, 16]),
            "opt_k_bisulfate": lambda: rng.choice([1, 2]),
            "opt_k_fluoride": lambda: rng.choice([1, 2]),
            "temperature_override": lambda: round(temp + rng.uniform(-1, 1), 2),
            "titrant_density": lambda: round(rng.uniform(1.01, 1.03), 4),
            "pH_min": lambda: round(rng.uniform(2.9, 3.15), 2),
            "pH_max": lambda: round(rng.uniform(3.75, 4.1), 2),
            "molinity_NaCl": lambda: round(rng.uniform(0.4, 0.7), 2),
            "molinity_HCl": lambda: round(rng.uniform(0.08, 0.2), 2),
            "double": lambda: rng.choice([True, False]),
            "gran_logic": lambda: rng.choice(["v23.7+", "legacy"]),
            "k_borate": lambda: 1.9e-9 * rng.uniform(0.9, 1.1),
            "titrant_molinity_init": lambda: round(rng.uniform(0.09, 0.12), 3),
            "dilute_totals_for_ks": lambda: rng.choice([True, False]),
        }
        often = 0.14 if rng.random() < 0.94 else 0.75  # now and then a row with almost every option
        for k in sorted(opt):
            if rng.random() < often:
                row[k] = opt[k]()
        rare = {
            "alkalinity_init": lambda: round(alk + rng.uniform(-300, 300), 1),
            "emf0_init": lambda: round(emf0 + rng.uniform(-5, 5), 2),
            "k_bisulfate": lambda: 0.1 * rng.uniform(0.9, 1.1),
            "k_fluoride": lambda: 2.5e-3 * rng.uniform(0.9, 1.1),
            "k_carbonic_1": lambda: 1.3e-6 * rng.uniform(0.9, 1.1),
            "k_water": lambda: 4e-14 * rng.uniform(0.9, 1.1),
            "opt_pH_scale": lambda: rng.choice([1, 3]),
            "total_sulfide": lambda: round(rng.uniform(0, 5), 2),
            "total_alpha": lambda: round(rng.uniform(0, 20), 2),
            "titrant_total_fluoride": lambda: round(rng.uniform(0, 0.01), 4),
            "titrant_total_phosphate": lambda: round(rng.uniform(0, 0.01), 4),
        }
        for k in sorted(rare):
            if rng.random() < 0.03:
                row[k] = rare[k]()
        if "total_alpha" in row and rng.random() < 0.8:
            row["k_alpha"] = 1e-5
    base = name or rng.choice(["t{i}", "T {i} (run)", "messung_\u00fc{i}", "crm-{i}-x", "s{i}.a"]).format(i=i)
    fname = base + ext
    row["file_name"] = fname
    path = fname
    if folder is None and rng.random() < 0.35:
        folder = rng.choice(["d1", "d2", "deep/d3"])
    if folder:
        row["file_path"] = folder
        path = folder + "/" + fname
    return row, path, text.encode("latin-1" if kind == "tiamo" else "utf-8"), mol, kind


def dataset(rng, nrows=None, min_ref=1, solve_only=None, kinds=KINDS, share=True, wild=True, nb=None, dup=False):
    """A metadata table (list of row dicts, index) with files."""
    n = nrows or rng.randint(2, 5)
    swarm = rng.sample(sorted(set(kinds)), rng.randint(1, min(4, len(set(kinds)))))
    size = rng.choice([None, None, "mass", "volume"])
    unknown = rng.randrange(n) if wild and rng.random() < 0.1 else None
    if solve_only is None:
        solve_only = rng.random() < 0.2
    rows, files, mols = [], {}, []
    nref = 0
    for i in range(n):
        ref = None
        if i >= n - min_ref and nref < min_ref:
            ref = True
        r, p, b, m, kind = make_row(rng, i, kinds=swarm, reference=ref, wild=wild, size=size)
        if share and rows and rng.random() < 0.12:
            # same file name as an earlier row, in another folder
            j = rng.randrange(len(rows))
            newf = r["file_name"].rsplit(".", 1)[1] == rows[j]["file_name"].rsplit(".", 1)[1]
            if newf:
                r["file_name"] = rows[j]["file_name"]
                r["file_path"] = "alt%d" % i
                p = r["file_path"] + "/" + r["file_name"]
        nref += "alkalinity_certified" in r
        rows.append(r)
        files[p] = b64(b)
        mols.append(m)
        if i == unknown:  # size not known
            r.pop("analyte_mass", None)
            r.pop("analyte_volume", None)
        if share and rng.random() < 0.11 and len(rows) < 6:
            r2 = dict(r)  # another row for the same file
            u = rng.random()
            if u < 0.4:
                pass  # an exact repeat
            elif u < 0.7:
                r2["salinity"] = round(r["salinity"] + 0.5, 3)
            else:
                r2["pH_max"], r2["pH_min"] = 3.95, 3.05
            rows.append(r2)
            mols.append(m)
    nb = nb or rng.choice([0, 1, 2, 2, 3])
    if nb:
        style = rng.choice(["int", "int", "str", "str", "str", "close", "close", "float", "blank"])
        if style == "close":  # names that are easily mixed up
            pool = rng.choice(CLOSE)
        elif style == "float":
            pool = [1.0, 1.0000001, 2.5]
        elif style == "int":
            pool = [0, 1, 2]
        else:
            pool = ["b0", "b1", "b2"]
        for k, r in enumerate(rows):
            r["analysis_batch"] = pool[rng.randrange(max(nb, 2) if style == "close" else nb)]
            if style == "blank" and rng.random() < 0.3:
                del r["analysis_batch"]
    if solve_only:
        for r, m in zip(rows, mols):
            r["titrant_molinity"] = round(m, 6)
        if rng.random() < 0.5:
            for r in rows:
                r.pop("alkalinity_certified", None)
    if rng.random() < 0.35:
        for r in rows:
            r["file_good"] = rng.random() < 0.75
    if rng.random() < 0.3 and any("alkalinity_certified" in r for r in rows):
        for r in rows:
            r["reference_good"] = rng.random() < 0.75
    m = len(rows)
    index = rng.choice([
        list(range(m)), list(range(m)), list(range(10, 10 + m)), ["r%d" % i for i in range(m)],
        list(range(m))[::-1], [7] * m, [j // 2 for j in range(m)], [0.5 * j for j in range(m)],
        ["x", "y"] * (m // 2) + ["x"] * (m % 2),
    ] if dup else [
        list(range(m)), list(range(m)), list(range(10, 10 + m)), ["r%d" % i for i in range(m)],
        list(range(m))[::-1],
    ])
    if rng.random() < 0.12:  # old-style column name
        for r in rows:
            if "file_type" in r:
                r["read_dat_method"] = r.pop("file_type")
    if rng.random() < 0.5:
        for r in rows:
            r["note"] = rng.choice(["a", "b \u00e9", "x,y", " lead", "trail ", "UPPER", "a\tb"])
    if rng.random() < 0.3:
        txt = rng.random() < 0.5
        for i, r in enumerate(rows):
            r["bottle"] = rng.choice([" %d", "%d ", "%04d"]) % (i * 3) if txt else i * 3
    if rng.random() < 0.3:
        for r in rows:
            r["when"] = round(rng.uniform(0, 9), 3)
    datecols = []
    if rng.random() < 0.3:  # dates, as text or not
        for k, r in enumerate(rows):
            r["analysis_datetime"] = "2024-%02d-%02dT%02d:30:00" % (rng.randint(1, 12), 1 + k, rng.randrange(24))
        if rng.random() < 0.5:
            datecols.append("analysis_datetime")
    if rng.random() < 0.15:
        odd = {c: rng.choice([[1, 2], ["  ", "See log "]]) for c in ("comments", "Salinity", "alkalinity_flag")}
        for r in rows:
            c = rng.choice(sorted(odd))
            r[c] = rng.choice(odd[c])
    if not {"pclims", "tiamo"} & set(swarm) and not any("col_measurement" in r for r in rows) and rng.random() < 0.2:
        layouts(rng, rows, files)
    for r in rows:
        r.pop("alkalinity_true", None)
    return {"rows": rows, "index": index, "files": files, "datecols": datecols}


CLOSE = [["A1", "a1", "A1 "], ["x", " x", "X"], ["b 1", "b1", "B1"], ["B\u00e4r", "Ba\u0308r", "b\u00e4r"], ["run-1", "run_1", "run1"],
         ["7a", "7A", "7"]]


def layouts(rng, rows, files):
    """Each text file gets its own layout (delimiter, header lines, order of the columns), given in its row."""
    done = {}
    for r in rows:
        p = r["file_name"] if "file_path" not in r else r["file_path"] + "/" + r["file_name"]
        if p not in done:
            lines = unb64(files[p]).decode("utf-8").splitlines()
            delim = rng.choice(["\t", "\t", ",", ";"])
            head = rng.choice([0, 1, 2, 2, 4])
            perm = rng.choice([[0, 1, 2], [0, 1, 2], [2, 0, 1], [1, 2, 0]])
            out = ["header %d" % k for k in range(head)]
            for line in lines[2:]:
                v = line.split("\t")
                c = [None] * 3
                for k in range(3):
                    c[perm[k]] = v[k]
                out.append(delim.join(c))
            files[p] = b64(("\n".join(out) + "\n").encode())
            done[p] = {"delimiter": delim, "skip_header": head, "col_titrant_amount": perm[0], "col_measurement": perm[1],
                       "col_temperature": perm[2]}
        r.update(done[p])


def all_columns(rows):
    cols = []
    for r in rows:
        for k in r:
            if k not in cols:
                cols.append(k)
    return cols


def read_fault(rng, path, op, size, persistent=None):
    """A storage fault while a file is being opened or read."""
    err = rng.choice(["ENOENT", "EACCES", "EMFILE", "EIO", "ESTALE", "ETIMEDOUT", "MemoryError", "EISDIR"])
    if persistent is None:
        persistent = rng.random() < 0.5
    which = "all" if persistent else [rng.choice([0, 0, 1, 2])]
    if rng.random() < 0.45:
        return {"kind": "open", "file": path, "op": op, "open": which, "err": err}
    err = rng.choice(["EIO", "EIO", "ESTALE", "ETIMEDOUT", "MemoryError"])
    return {"kind": "read", "file": path, "op": op, "open": which, 
            "byte": rng.choice([0, size, rng.randint(0, size), rng.randint(0, size)]), "err": err}


def corrupt(rng, data):
    """(kind, corrupted bytes) or (kind, None) for a missing file."""
    how = rng.choice(["missing", "truncate", "truncate", "empty", "flip", "garbage", "nuls", "dropline", "swapcol",
                      "html", "header_only", "dir", "escape"])
    n = len(data)
    if how in ("missing", "dir"):
        return how, None
    if how == "truncate":
        return how, data[: rng.randrange(n)]
    if how == "empty":
        return how, b""
    if how == "flip":
        b = bytearray(data)
        for _ in range(rng.randint(1, 6)):
            b[rng.randrange(n)] = rng.randrange(256)
        return how, bytes(b)
    if how == "garbage":
        return how, bytes(rng.randrange(256) for _ in range(rng.randint(1, 400)))
    if how == "escape":  # a stray backslash or byte that does not decode
        i = rng.randrange(n)
        return how, data[:i] + rng.choice([b"\\x", b"\\", b"\\N{no such}", b"\xff\xfe", b"\xc3(", b"\\u12"]) + data[i:]
    if how == "nuls":
        i = rng.randrange(n)
        k = rng.randint(1, 64)
        return how, data[:i] + b"\0" * k + data[i + k :]
    lines = data.split(b"\n")
    if how == "dropline":
        i = rng.randrange(len(lines))
        return how, b"\n".join(lines[:i] + lines[i + 1 :])
    if how == "header_only":
        return how, b"\n".join(lines[:2]) + b"\n"
    if how == "swapcol":
        i = rng.randrange(len(lines))
        lines[i] = b"\t".join(reversed(lines[i].split(b"\t")))
        return how, b"\n".join(lines)
    return how, b"<html><body>503 Service Unavailable</body></html>\n"


CHUNKS = [[0], [0], [1], [7], [64], [3, 1, 50, 0], [13, 100], [512]]


def delivery(rng):
    return {"chunks": rng.choice(CHUNKS), "bufsize": rng.choice([8192, 8192, 64, 512, 131072])}
