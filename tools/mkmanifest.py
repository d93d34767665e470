import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{here}/properties.jsonl")]
NOTE = {
 "C01": "Seeded search over tables, files, row orders, storage faults at any open/read byte, corrupted contents, bad options and failed allocations; every healthy row is compared with the same row processed alone in a pristine process. Assumes faults strike at source lines of calkulate and raw I/O calls.",
 "C02": "As C01, over histories of several runs; every result column of every row that failed must be blank.",
 "C03": "As C01; batch molinities are recomputed independently from the individual molinities of the references that were readable in that run.",
 "C04": "Random histories of faulted, interrupted, edited, reloaded and re-optioned runs end in one clean run, compared with a fresh table in a pristine process.",
 "C05": "Ctrl-C at simulator-chosen lines and I/O events of any pass; the table must hold old or new values per column group, and no file may be opened after it.",
 "C06": "Tables compared cell by cell before and after every call, with storage faults and Ctrl-C or MemoryError at any line.",
 "C07": "Deterministic thread scheduler (random, PCT, site-based, I/O-based, round-robin) over real threads; each thread's results are compared with the same program run alone in a pristine process. Pre-emption at calkulate source lines, I/O events and calkulate locks; not inside third-party C code.",
 "C08": "Snapshot of process-wide state around every kind of call under faults, Ctrl-C at any line, and thread interleavings.",
 "C09": "Every open/close/rename/remove under the scratch root is an event; history checked against the set of files the processed rows name.",
 "C10": "Exporter threads and an outside writer race under the scheduler for one path; existing objects compared byte for byte.",
 "C11": "ENOSPC/EIO/short writes/close errors/crash/Ctrl-C at any byte or line of an export; file compared with an independently formatted reference text.",
 "C12": "Files of every supported format generated from known values, delivered in seeded chunk patterns with EINTR, errors at any byte and truncation at any byte.",
 "C13": "Byte comparison of all caller-owned arrays and dictionaries around calls, with Ctrl-C or MemoryError at any line.",
 "C14": "The same plan executed in fresh interpreters under different hash seeds, time zones, locales, clocks, RNG states, directory listing orders, working directories and earlier histories; digests compared.",
 "C15": "Titration objects compared with their dataset row and re-observed after file removal/replacement, edits, re-solves, plots and other titrations, with storage faults during construction.",
}
LEVEL = {p: "fault_enumeration" for p in NOTE}
for p in ("C07", "C14"):
    LEVEL[p] = "exploration"
TECH = "deterministic simulation with fault injection"
EXTRA = {"C07": "seeded thread-interleaving search", "C08": "seeded faults, interrupts and interleavings",
         "C10": "seeded race search", "C14": "seeded environment and history perturbation"}
DONE = [p["id"] for p in props if p["id"] in NOTE and os.path.exists(f"{here}/simcalk/props/{p['id'].lower()}.py")]
checks = [{"property": i, "quick_cmd": f"./run.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {i} --tier thorough",
           "evidence_file": f"evidence/{i}.json",
           "technique": f"{TECH} ({EXTRA.get(i, 'seeded fault-sequence search, pristine-process oracle')})",
           "level": LEVEL[i], "level_note": NOTE[i]} for i in DONE]
pure = "is a pure function of its inputs: no scheduling, clock, I/O, crash or multi-party behaviour for it to depend on, so a simulator has nothing to vary; it would need property-based testing or proof instead"
REASON = {
 "C16": "calibrate followed by solve on in-memory arrays " + pure,
 "C17": "simulate followed by solve " + pure,
 "C18": "speciation arithmetic " + pure,
 "C19": "unit and EMF/pH conversion " + pure,
 "C20": "dilution arithmetic " + pure,
 "C21": "selection of points by pH " + pure,
 "C22": "option merging " + pure + " (leaks of options between rows, which do depend on history, are C01)",
 "C23": "string and date mapping of dbs rows " + pure + " (how the bytes of a dbs file are delivered is C12)",
 "C24": "density equations: " + pure,
 "C25": "the DIC-loss model " + pure,
 "C26": "what a plot draws " + pure + " (interleaved plotting is C07, plot side effects are C06/C08/C15)",
}
na = [{"property": p["id"], "reason": REASON.get(p["id"], "check not built yet")} for p in props if p["id"] not in DONE]
m = {"version": 1, "setup_cmd": "./run.sh selftest --quick", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the seams used are open()/os.open(), sys.monitoring line events, threading.Lock and fork. "
              "Replay a violation with: ./run.sh replay <file>."}
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
