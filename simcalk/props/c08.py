"""C08: process-wide state is left as it was found."""

import copy
import io
import locale
import random
import sys
import warnings

from .. import dsops, gen as g, sched, state, steps, tables, world as wm
from . import c07

LEVEL = "fault_enumeration"
BUDGET = {"quick": (1200, 70), "thorough": (30000, 1500)}
REAL, STUB = c07.REAL, c07.STUB + ["Ctrl-C and allocation failures at simulator-chosen source lines"]
ASSUME = c07.ASSUME + ["interrupts and allocation failures arrive at source lines of calkulate or at raw file events"]
RULE = (
    "a run = one to three calls from the catalogue (or two to three threads of them under a seeded schedule) in a process whose "
    "warning filters, NumPy error handling, options and random state have been set to seeded values, with storage faults, bad "
    "arguments, warnings-as-errors, numeric traps and Ctrl-C or MemoryError at any source line; some 45 kinds of process state and "
    "Calkulate's own defaults are compared before and after each call; non-trivial if a fault fired or threads interleaved"
)

ALL = c07.FAST + ["tt", "tt_plot", "sim", "meta", "meta", "ds", "fcal", "core_cal", "gran"]
BAD = ["short", "nokb", "nan", "text", "empty", "noise", "noise", "few", "hot", "fresh"]


def user_settings(rng):
    s = {"np_seed": rng.randrange(1000)}
    s["filters"] = rng.choice([None, None, "default", "error", "always", "mixed"])
    s["seterr"] = rng.choice([None, None, {"all": "raise"}, {"over": "ignore", "invalid": "warn"}, {"divide": "raise"}])
    s["pd"] = rng.choice([None, None, ["display.max_rows", 7], ["display.precision", 3]])
    s["rc"] = rng.choice([None, None, None, ["lines.linewidth", 3.0], ["font.size", 7.0], ["figure.figsize", [3.0, 2.0]],
                          ["figure.figsize", [2.0, 4.0]], ["axes.labelsize", 20.0], ["font.family", ["monospace"]],
                          ["figure.dpi", 50.0], ["savefig.dpi", 30.0], ["axes.grid", True], ["text.usetex", False],
                          ["interactive", False], ["figure.autolayout", True], ["legend.loc", "upper left"]])
    s["print"] = rng.choice([None, None, 3])
    s["locale"] = rng.choice([None, "C.UTF-8"])
    return s


def apply_settings(s):
    import matplotlib
    import numpy as np
    import pandas as pd

    warnings.resetwarnings()
    warnings.simplefilter("ignore")
    if s["filters"] in ("default", "error", "always"):
        warnings.resetwarnings()
        warnings.simplefilter(s["filters"])
        if s["filters"] == "error":
            warnings.filterwarnings("ignore", category=DeprecationWarning)
            warnings.filterwarnings("ignore", category=FutureWarning)
    elif s["filters"] == "mixed":
        warnings.filterwarnings("error", category=RuntimeWarning)
        warnings.filterwarnings("once", module="calkulate")
    sys.stderr = io.StringIO()
    if s["seterr"]:
        np.seterr(**s["seterr"])
    if s["pd"]:
        pd.set_option(*s["pd"])
    if s["rc"]:
        matplotlib.rcParams[s["rc"][0]] = s["rc"][1]
    if s["print"]:
        np.set_printoptions(precision=s["print"])
    if s.get("locale"):
        try:
            locale.setlocale(locale.LC_ALL, s["locale"])
        except locale.Error:
            pass
    np.random.seed(s["np_seed"])
    random.seed(s["np_seed"])


def gen(rng, tier, i):
    ws = steps.workspace(rng, n=2)
    n = len(ws["rows"])
    if rng.random() < 0.5:
        ws["tables"][0] = tables.spec(rng, "dbs", n=rng.randint(3, 9))
    threads = rng.random() < 0.25
    plan = {"ws": ws, "world": g.delivery(rng), "user": user_settings(rng), "faults": [], "inject": []}

    def step(tag, kind):
        st = steps.gen_step(rng, n, kind=kind, tag=tag)
        if st["do"] == "ds_plot" and rng.random() < 0.2:
            st["fname"] = "no-such-folder/" + st["fname"]
        if rng.random() < 0.25 and kind in ("core_solve", "core_cal", "gran", "totals", "convert", "comps"):
            st["bad"] = rng.choice(BAD)
        return st

    if threads:
        kind = rng.choice(c07.FAST + ["ds", "fcal", "gran", "core_cal"]) if rng.random() < 0.7 else None
        nt = rng.choice([2, 2, 3])
        plan["progs"] = [[step(f"{t}_0", kind or rng.choice(c07.FAST))] for t in range(nt)]
        c = c07.gen(rng, tier, i)
        plan["policy"] = c["policy"]
        if rng.random() < 0.5:
            t = rng.randrange(nt)
            plan["inject"].append({"kind": "line", "n": int(10 ** rng.uniform(0, 3)), "tid": t, "op": 0,
                                   "exc": rng.choice(["KI", "MemoryError"])})
    else:
        kinds = [rng.choice(ALL)]
        if rng.random() < 0.4:
            kinds.append(rng.choice(c07.FAST))
        plan["progs"] = [[step(f"0_{k}", kd) for k, kd in enumerate(kinds)]]
        plan["policy"] = {"kind": "serial"}
        for k in range(len(kinds)):
            r = rng.random()
            if r < 0.55:
                plan["inject"].append({"kind": "site", "u": rng.random(), "v": rng.choice([0.0, rng.random(), 0.999]),
                                       "exc": rng.choice(["KI", "KI", "MemoryError"]), "op": k})
            elif r < 0.65:
                plan["inject"].append({"kind": "rel", "u": rng.random(), "off": rng.choice([-3, -2, -1, 0, 1, 2, 3]), "op": k,
                                       "exc": rng.choice(["KI", "MemoryError"])})
            elif r < 0.85:
                sizes = {p: len(g.unb64(b)) for p, b in ws["files"].items()}
                for sp in ws["tables"]:
                    sizes[steps.table_path(ws, sp, "")] = len(tables.make(sp)[0])
                st = plan["progs"][0][k]
                p = rng.choice(sorted(sizes))
                if st["do"] == "meta":
                    p = steps.table_path(ws, ws["tables"][st["t"]], "")
                elif st["do"] in ("read", "fsolve", "fcal", "tt", "tt_plot"):
                    p = dsops.row_path(ws["rows"][st["i"]])
                plan["faults"].append(g.read_fault(rng, p, k, sizes[p]))
    return plan


def spoil(O, plan):
    """Bad-argument variants of the prepared arrays."""
    import numpy as np

    for prog in plan["progs"]:
        for st in prog:
            if st.get("bad"):
                k = ("arr", st["i"])
                try:
                    a = dict(O[k])
                except Exception:  # noqa: BLE001
                    continue
                if getattr(a["emf"], "dtype", None) is None or a["emf"].dtype.kind != "f":
                    continue  # an earlier step spoiled the same arrays with text already
                b = st["bad"]
                if b == "short":
                    a["temperature"] = a["temperature"][:-1]
                elif b == "nokb":
                    a["k_constants"] = {q: v for q, v in a["k_constants"].items() if q != "k_borate"}
                elif b == "nan":
                    a["emf"] = a["emf"] * np.nan
                    a["pH"] = a["pH"] * np.nan
                elif b == "text":
                    a["emf"] = np.array(["x"] * len(a["emf"]))
                    a["pH"] = np.array(["x"] * len(a["pH"]))
                elif b == "noise":
                    n = np.resize([37.0, -52.0, 18.0, 61.0, -44.0, -9.0, 25.0], len(a["emf"]))
                    a["emf"] = a["emf"] + n
                    a["pH"] = a["pH"] + n * 0.01
                elif b == "few":
                    for q in ("titrant_mass", "emf", "pH", "temperature"):
                        a[q] = a[q][-3:]
                    a["totals"] = {q: v[-3:] if np.ndim(v) else v for q, v in a["totals"].items()}
                    a["k_constants"] = {q: v[-3:] if np.ndim(v) else v for q, v in a["k_constants"].items()}
                elif b == "hot":
                    a["temperature"] = a["temperature"] + 60.0
                elif b == "fresh":
                    a["salinity"] = 0.01
                elif b == "empty":
                    for q in ("titrant_mass", "emf", "pH", "temperature"):
                        a[q] = a[q][:0]
                O.made[k] = a


def execute(d, plan):
    import calkulate as calk
    from matplotlib import pyplot as plt

    steps.write_ws(plan["ws"], d)
    O = steps.Objects(calk, plan["ws"], d)
    for p in plan["progs"]:
        steps.prebuild(O, p)
    spoil(O, plan)
    spec = dict(plan["world"])
    spec["faults"] = copy.deepcopy(plan.get("faults", []))
    spec["inject"] = copy.deepcopy(plan.get("inject", []))
    spec["record_sites"] = plan.get("record_sites")
    w = wm.World(d, spec)
    wm.install(w)
    sys.stdout = io.StringIO()
    apply_settings(plan["user"])
    out = {"diffs": [], "outcomes": []}
    lines = {}
    threaded = len(plan["progs"]) > 1

    def one(t, k, st):
        figs = st["do"] not in ("tt_plot", "ds_plot")
        before = None if threaded else state.process_state(figs)
        tb = state.thread_state()
        w.begin_op(k)
        try:
            steps.call(calk, O, st)
            r = "ok"
        except sched.SimDeadlock:
            raise
        except BaseException as e:  # noqa: BLE001
            r = type(e).__name__
        finally:
            lines[k] = w.op_lines.get(w.key(), 0)
            w.end_op()
        ta = state.thread_state()
        out["outcomes"].append((t, k, st["do"], r))
        if not threaded:
            for x in state.diff(before, state.process_state(figs)):
                out["diffs"].append((t, k, st["do"], r) + x)
        for x in state.diff(tb, ta):
            out["diffs"].append((t, k, st["do"], r) + x)
        if not threaded:
            plt.close("all")

    if not threaded:
        for k, st in enumerate(plan["progs"][0]):
            one(0, k, st)
    else:
        def body(t):
            def run():
                apply_thread(plan["user"])
                for k, st in enumerate(plan["progs"][t]):
                    one(t, k, st)
            return run

        before = state.process_state(False)
        s = sched.Scheduler(plan["policy"], len(plan["progs"]))
        try:
            s.run([body(t) for t in range(len(plan["progs"]))])
        except RuntimeError as e:
            return {"stuck": str(e)}
        for x in state.diff(before, state.process_state(False)):
            out["diffs"].append((-1, 0, "+".join(p[0]["do"] for p in plan["progs"]), "threads") + x)
        out["switches"] = s.switches
        out["trace"] = c07.sig(s.trace)
        out["steps"] = s.step
        if s.deadlock:
            out["diffs"].append((-1, 0, "", "threads", "deadlock", "threads never finish"))
    sys.stdout, sys.stderr = sys.__stdout__, sys.__stderr__
    wm.uninstall()
    out.update(op_lines=lines, marks={k[1]: v for k, v in w.marks.items() if k[0] == 0}, sites=w.sites,
               faults=w.faults, inject=w.inject, lines=w.lines, ios=w.nio, digest=w.digest())
    return out


def apply_thread(s):
    import numpy as np

    if s["seterr"]:
        np.seterr(**s["seterr"])


def run(ctx, plan):
    plan = dsops.resolve(ctx, plan, execute)
    obs = ctx.fork(execute, plan)
    if "stuck" in obs:
        raise RuntimeError(obs["stuck"])
    viol = []
    inj = [f.get("where") for f in obs["inject"] if f["fired"]]
    for t, k, do, r, what, detail in obs["diffs"]:
        viol.append({"kind": "state-changed:" + what.split(".")[-1].replace(" ", "_"),
                     "detail": f"call {k} ({do}, {r}{', interrupted at ' + str(inj) if inj else ''}) changed {what}: {detail}"})
    stats = {"calls": len(obs["outcomes"]), "sim_lines": obs["lines"], "sim_io_events": obs["ios"]}
    nt = False
    for f in obs["faults"]:
        if f["fired"]:
            nt = True
            stats[f"fault:{f['kind']}:{f['err']}"] = stats.get(f"fault:{f['kind']}:{f['err']}", 0) + f["fired"]
    for f in obs["inject"]:
        if f["fired"]:
            nt = True
            stats[f"fault:{f['exc']}@line"] = stats.get(f"fault:{f['exc']}@line", 0) + 1
    for o in obs["outcomes"]:
        if o[3] != "ok":
            nt = True
            stats["outcome:" + o[3]] = stats.get("outcome:" + o[3], 0) + 1
    if plan["user"]["filters"] in ("error", "mixed"):
        stats["fault:warnings-as-errors"] = 1
    if plan["user"]["seterr"]:
        stats["fault:numeric-traps"] = 1
    if obs.get("switches"):
        nt = True
        stats["fault:preemption"] = len(obs["switches"])
    return {"viol": viol, "stats": stats, "nontrivial": nt, "switches": obs.get("switches"),
            "digest": c07.sig((obs["digest"], obs.get("trace"), obs["outcomes"], inj))}


def concretise(out, plan):
    if not out.get("switches"):
        return plan
    return c07.concretise(out, plan)


def shrink(plan):
    for p in c07.shrink(plan):
        yield p
    for k, v in plan["user"].items():
        if v is not None and k != "np_seed":
            p = copy.deepcopy(plan)
            p["user"][k] = None
            yield p
