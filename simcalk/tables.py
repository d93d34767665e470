"""Importable files of every supported format, generated together with what they contain.

make(spec) -> (bytes, expected) where expected = {"cols": {name: [values]}, "n": rows,
"call": (function name, kwargs)}.  The expected values come from the generator, not from
Calkulate, so they are an independent oracle for the readers."""

import datetime
import random

from . import xlsx

DAT = ["vindta", "genfromtxt", "pclims", "tiamo_de", "orgalk_excel"]
META = ["csv", "table", "fwf", "excel", "dbs"]
EXT = {"vindta": ".dat", "genfromtxt": ".txt", "pclims": ".txt", "tiamo_de": ".csv", "orgalk_excel": ".xlsx",
       "csv": ".csv", "table": ".txt", "fwf": ".txt", "excel": ".xlsx", "dbs": ".dbs"}


def spec(rng, fmt, n=None, big=6000):
    if n is None:
        n = rng.choice([2, 3, rng.randint(4, 40), rng.randint(4, 40), rng.randint(41, 400), int(10 ** rng.uniform(2, 3.7))])
        n = min(n, big)
    if fmt in ("orgalk_excel", "excel", "dbs"):
        n = min(n, 400)
    return {"fmt": fmt, "n": n, "seed": rng.randrange(10**9), "crlf": rng.random() < 0.25,
            "final_nl": rng.random() < 0.8, "opts": rng.random() < 0.5, "neg": rng.random() < 0.3,
            "blank": rng.random() < 0.4, "dups": rng.random() < 0.3, "holes": rng.random() < 0.15,
            "enc": rng.choice(["latin-1", "told", None, None, None, None, None]) if fmt in ("csv", "table") else None}


def num(rng, lo, hi, neg):
    v = round(rng.uniform(lo, hi), rng.choice([0, 1, 2, 3, 6]))
    if rng.random() < 0.01:
        v = rng.choice([0.0, 0.00015, 2.5e9])
    return -v if neg and rng.random() < 0.5 else v


def make(sp):
    rng = random.Random(sp["seed"])
    f = sp["fmt"]
    text, cols, call = globals()["mk_" + ("gft" if f in ("vindta", "genfromtxt") else f)](rng, sp)
    if isinstance(text, bytes):
        data = text
    else:
        nl = "\r\n" if sp.get("crlf") else "\n"
        data = nl.join(text)
        if sp.get("final_nl", True):
            data += nl
        if sp.get("enc") == "told":
            call[1]["encoding"] = "latin-1"
        data = data.encode("latin-1" if f == "tiamo_de" or sp.get("enc") else "utf-8")
    return data, {"cols": cols, "n": sp["n"], "call": call, "may_raise": sp.get("enc") == "latin-1"}


def triple(rng, sp):
    a = [num(rng, 0, 5, sp["neg"]) for _ in range(sp["n"])]
    m = [num(rng, 100, 700, sp["neg"]) for _ in range(sp["n"])]
    t = [num(rng, 15, 30, False) for _ in range(sp["n"])]
    if sp.get("dups"):
        repeat(rng, (a, m, t))
    return a, m, t


def repeat(rng, cols):
    """Some rows equal to earlier ones (adjacent or not)."""
    n = len(cols[0])
    for _ in range(rng.randint(1, max(1, n // 3))):
        j = rng.randrange(1, n)
        i = j - 1 if rng.random() < 0.5 else rng.randrange(j)
        for c in cols:
            c[j] = c[i]


def mk_gft(rng, sp):
    a, m, t = triple(rng, sp)
    kw = {}
    if sp["fmt"] == "vindta" or rng.random() < 0.5:
        kw["file_type"] = sp["fmt"]
    delim, head, perm = "\t", 2, [0, 1, 2]
    if sp["opts"]:
        delim = rng.choice(["\t", ",", ";"])
        head = rng.choice([0, 1, 2, 3, 5])
        perm = rng.sample(range(4), 3)
        kw.update(delimiter=delim, skip_header=head, col_titrant_amount=perm[0], col_measurement=perm[1],
                  col_temperature=perm[2])
    lines = [f"header {i}" for i in range(head)]
    if sp.get("holes"):
        for c in (a, m, t):
            for _ in range(rng.randint(0, 3)):
                c[rng.randrange(sp["n"])] = None
    for i in range(sp["n"]):
        row = ["0.5"] * 4 if sp["opts"] else [None] * 3
        for p, v in zip(perm, (a[i], m[i], t[i])):
            row[p] = "" if v is None else repr(v)
        lines.append(delim.join(row))
    return lines, {"titrant_amount": a, "measurement": m, "temperature": t}, ("read_dat", kw)


def mk_pclims(rng, sp):
    a, m, t = triple(rng, sp)
    lines = ["pc_lims_report", "$G Common V1.1", "serial\t1234", "$S Ident V1.0", "S1\t\t102.1\tg", "$E",
             "$S Mode 1\t01\tDET U\tV1.0"]
    for i in range(sp["n"]):
        lines.append(f"{i + 1}\t{a[i]!r}\t{m[i]!r}\t{1.1 * i:.1f}\t{2.0 * i:.1f}\t{t[i]!r}")
    lines += ["$E", "$S Results V1", "R1\toff\tx", "$E"]
    return lines, {"titrant_amount": a, "measurement": m, "temperature": t}, ("read_dat", {"file_type": "pclims"})


def mk_tiamo_de(rng, sp):
    a, m, t = triple(rng, sp)
    v0 = round(rng.uniform(0, 1), 3)
    lines = ["Bestimmung;1", "Probe;S1"] + [f"x;{i}" for i in range(rng.randrange(5))]
    lines += ["", f"0;8.1;{v0:.3f};1.0;25.0", "", "", "Gran.1",
              "Volumen [mL];Messwert;dMW [pH];Zeit [s];Temperatur [\u00b0C];Berechnet 1;Berechnet 2;Berechnet 3"]
    for i in range(sp["n"]):
        lines.append(f"{a[i]!r};{m[i]!r};0.1;{3 * i};{t[i]!r};0;0;0")
    return (lines, {"titrant_amount": [x + v0 for x in a], "measurement": m, "temperature": t},
            ("read_dat", {"file_type": "tiamo_de"}))


def mk_orgalk_excel(rng, sp):
    a, m, t = triple(rng, sp)
    b = [num(rng, 0, 5, False) for _ in range(sp["n"])]
    order = ["acid", "base", "emf", "temperature"]
    if sp["opts"]:
        rng.shuffle(order)
    cols = {"acid": a, "base": b, "emf": m, "temperature": t}
    rows = [["exported", None, 3]] + [order] + [[cols[c][i] for c in order] for i in range(sp["n"])]
    return xlsx.xlsx(rows, compress=rng.random() < 0.7), cols, ("read_dat", {"file_type": "orgalk_excel"})


TEXTS = ["CRM", "bottle", "x y", "\u00fc-1", "st/3", "Q7", "a'b"]


def meta_cols(rng, sp, blanks=True):
    n = sp["n"]
    cols = {}
    cols["file_name"] = [f"t{i}.dat" for i in range(n)]
    cols["salinity"] = [num(rng, 30, 37, False) for _ in range(n)]
    cols["analyte_volume"] = [num(rng, 90, 110, False) for _ in range(n)]
    cols["alkalinity_certified"] = [num(rng, 2100, 2400, False) if not (sp["blank"] and blanks and rng.random() < 0.4) else None
                                    for _ in range(n)]
    cols["analysis_batch"] = [i % 3 for i in range(n)]
    cols["note"] = [rng.choice(TEXTS) for _ in range(n)]
    cols["dic"] = [num(rng, 0, 9, sp["neg"]) for _ in range(n)]
    if sp.get("dups"):
        repeat(rng, list(cols.values()))
    if sp.get("holes") and blanks and n > 2:
        for _ in range(rng.randint(1, 2)):  # a line of nothing but delimiters is still a row
            i = rng.randrange(1, n - 1)
            for c in cols.values():
                c[i] = None
    return cols


def delimited(rng, sp, sep, quote):
    cols = meta_cols(rng, sp)
    if quote:
        cols["note"] = [v and v + (sep + "q" if rng.random() < 0.3 else "") for v in cols["note"]]
    lines = [sep.join(cols)]
    for i in range(sp["n"]):
        cells = []
        for c in cols.values():
            v = c[i]
            s = "" if v is None else (v if isinstance(v, str) else repr(v))
            cells.append('"' + s + '"' if sep in s else s)
        lines.append(sep.join(cells))
    return lines, cols


def mk_csv(rng, sp):
    kw = {}
    sep = ","
    if sp["opts"]:
        sep = rng.choice([",", ";", "|"])
        kw["sep"] = sep
    lines, cols = delimited(rng, sp, sep, rng.random() < 0.5)
    if sp["opts"] and rng.random() < 0.3:
        lines.insert(0, "exported table")
        kw["skiprows"] = 1
    cols = some(rng, sp, cols, kw)
    return lines, cols, ("read_csv", kw)


def some(rng, sp, cols, kw):
    """Only some of the columns are wanted."""
    if sp["opts"] and rng.random() < 0.25:
        keep = rng.sample(list(cols), rng.randint(2, len(cols)))
        kw["usecols"] = keep
        cols = {k: v for k, v in cols.items() if k in keep}
    return cols


def mk_table(rng, sp):
    kw = {}
    sep = "\t"
    if sp["opts"]:
        sep = rng.choice(["\t", "|"])
        kw["sep"] = sep
    lines, cols = delimited(rng, sp, sep, False)
    cols = some(rng, sp, cols, kw)
    return lines, cols, ("read_table", kw)


def mk_fwf(rng, sp):
    n = sp["n"]
    cols = {"fname": [f"t{i:05d}.dat" for i in range(n)], "salinity": [round(rng.uniform(30, 37), 3) for _ in range(n)],
            "batch": [rng.randint(10, 99) for _ in range(n)], "note": [rng.choice(["crm_a", "smp_b", "jnk_c"]) for _ in range(n)],
            "dic": [round(rng.uniform(1000, 9999), 2) for _ in range(n)]}
    fmts = {"fname": "{}", "salinity": "{:.3f}", "batch": "{:d}", "note": "{}", "dic": "{:.2f}"}
    widths = {"fname": 10, "salinity": 8, "batch": 6, "note": 6, "dic": 8}
    # every column filled to the same width in every line, so that inference is unambiguous
    def pad(s, w):
        return s.ljust(w)
    lines = ["".join(pad(c, widths[c] + 2) for c in cols)]
    for i in range(n):
        lines.append("".join(pad(fmts[c].format(cols[c][i]), widths[c] + 2) for c in cols))
    kw = {}
    if sp["opts"]:
        pos, specs = 0, []
        for c in cols:
            specs.append([pos, pos + widths[c] + 2])
            pos += widths[c] + 2
        kw["colspecs"] = specs
    return lines, cols, ("read_fwf", kw)


def mk_excel(rng, sp):
    cols = meta_cols(rng, sp)
    rows = [list(cols)] + [[c[i] for c in cols.values()] for i in range(sp["n"])]
    kw = {}
    if sp["opts"]:
        rows.insert(0, ["exported", 1])
        kw["skiprows"] = 1
        if rng.random() < 0.4:
            kw["sheet_name"] = 0
        cols = some(rng, sp, cols, kw)
    return xlsx.xlsx(rows, compress=rng.random() < 0.7), cols, ("read_excel", kw)


def mk_dbs(rng, sp):
    n = sp["n"]
    cols = {
        "run type": [rng.choice(["bottle", "bottle", "CRM", "junk"]) for _ in range(n)],
        "bottle": [rng.randint(1, 400) for _ in range(n)],
        "station": [rng.randint(1, 50) for _ in range(n)],
        "cast": [rng.randint(1, 9) for _ in range(n)],
        "niskin": [rng.randint(1, 24) for _ in range(n)],
        "depth": [rng.randint(1, 5000) for _ in range(n)],
        "batch": [rng.randint(100, 199) for _ in range(n)],
        "salinity": [round(rng.uniform(30, 37), 3) for _ in range(n)],
        "cert. CRM AT": [round(rng.uniform(2100, 2400), 2) for _ in range(n)],
        "date": [f"{rng.randint(1, 12):02d}/{rng.randint(1, 28):02d}/{rng.randint(10, 29)}" for _ in range(n)],
        "time": [f"{rng.randint(0, 23):02d}:{rng.randint(0, 59):02d}" for _ in range(n)],
    }
    if sp.get("dups"):
        repeat(rng, list(cols.values()))
    if sp["blank"]:  # undated rows (not the first, so that the column stays text)
        for i in range(1, n):
            if rng.random() < 0.3:
                cols["date"][i] = None
    lines = ["\t".join(cols)] + ["\t".join("" if c[i] is None else str(c[i]) for c in cols.values()) for i in range(n)]
    kw = {}
    if sp["opts"]:
        kw = rng.choice([{"analyte_volume": 98.5}, {"analyte_mass": 0.1}, {"file_path": "x/y"}, {"filename_format": "{s}_{b}.dat"}])
    exp = {"run_type" if k == "run type" else k: v for k, v in cols.items()}
    ff = kw.get("filename_format", "{s}-{c}  {n}  ({d}){b}.dat")
    names, good, cert, dt, dn = [], [], [], [], []
    for i in range(n):
        r = cols["run type"][i]
        if r == "bottle":
            names.append(ff.format(s=cols["station"][i], c=cols["cast"][i], n=cols["niskin"][i], d=cols["depth"][i],
                                   b=cols["bottle"][i]))
        else:
            names.append(f"CRM{cols['batch'][i]}{cols['bottle'][i]}.dat" if r == "CRM" else "")
        good.append(r != "junk")
        cert.append(cols["cert. CRM AT"][i] if r == "CRM" else None)
        if cols["date"][i] is None:
            dt.append(None)
            dn.append(None)
            continue
        mo, da, ye = cols["date"][i].split("/")
        dt.append(f"20{ye}-{mo}-{da} {cols['time'][i]}:00")
        h, mi = cols["time"][i].split(":")
        dn.append(datetime.date(2000 + int(ye), int(mo), int(da)).toordinal() - 719163 + (int(h) * 60 + int(mi)) / 1440)
    exp["__derived"] = {"file_name": names, "file_good": good, "analysis_datetime": dt, "analysis_datenum": dn}
    if any(c is not None for c in cert):
        exp["__derived"]["alkalinity_certified"] = cert
    for k, v in kw.items():
        if k != "filename_format":
            exp["__derived"][k] = [v] * n
    if "analyte_mass" not in kw and "analyte_volume" not in kw:
        exp["__derived"]["analyte_volume"] = [100.0] * n
    return lines, exp, ("read_dbs", kw)
