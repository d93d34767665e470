"""C07: concurrent use gives the same results as running one after the other."""

import copy
import warnings

from .. import dsops, gen as g, sched, steps, world as wm

LEVEL = "exploration"
BUDGET = {"quick": (1000, 120), "thorough": (30000, 1500)}
RTOL = 1e-10
REAL = ["calkulate (all of it, from /repo)", "pandas", "NumPy", "SciPy", "PyCO2SYS", "matplotlib (Agg)",
        "real threads, real files in a scratch directory"]
STUB = ["thread scheduling (one thread at a time, switched at calkulate source lines, file events and calkulate's locks)",
        "raw file layer"]
ASSUME = ["threads are switched at source lines of calkulate, at raw file events and at calkulate's locks, not inside "
          "third-party code or within one line"]
RULE = (
    "a run = two to four threads, each with a program of one to three calls drawn from a catalogue of 20 kinds, on own or "
    "shared read-only inputs, under a seeded schedule (random, PCT, site-biased, I/O-biased, round robin); every call's result "
    "is compared with the same program run alone in a pristine process; non-trivial if at least two switches happened between "
    "unfinished threads; distinct by the schedule digest (sequence of switches with their source sites)"
)


SLOW = ["tt", "tt_plot", "sim"]
FAST = ["read", "fsolve", "fcal", "ds", "ds", "ds_plot", "core_solve", "core_cal", "gran", "totals", "convert", "comps",
        "loss", "write", "call", "call", "meta"]


def gen(rng, tier, i):
    ws = steps.workspace(rng, n=rng.choice([2, 3]))
    n = len(ws["rows"])
    same = rng.random() < 0.6
    kind = None
    if same:
        kind = rng.choice(FAST + FAST + SLOW + ["ds_plot", "ds", "core_cal", "tt_plot", "tt", "tt"])
    slow = kind in SLOW
    nt = rng.choice([2, 2, 2, 3]) if slow else rng.choice([2, 2, 2, 3, 4])
    progs = []
    for t in range(nt):
        progs.append([steps.gen_step(rng, n, kind=kind if k == 0 and kind else rng.choice(FAST * 6 + SLOW), tag=f"{t}_{k}")
                      for k in range(1 if slow else rng.choice([1, 1, 2, 3]))])
        if same and t and rng.random() < 0.5:  # the very same call, perhaps for another titration
            st = copy.deepcopy(progs[0][0])
            if "i" in st and "call" not in st and rng.random() < 0.7:
                st["i"] = rng.randrange(n)
            if "fname" in st:
                st["fname"] = f"t{t}" + st["fname"]
            progs[t][0] = st
    crowd = rng.random()
    if crowd < 0.06:  # everybody makes titrations
        for t, prog in enumerate(progs):
            del prog[1:]
            prog[0] = dict(steps.gen_step(rng, n, kind="tt", tag=f"{t}_0"), i=t % n)
        del progs[2:]
        nt = len(progs)
    elif crowd < 0.17:  # everybody plots
        which = rng.choice(steps.PLOTS + [None])
        for t, prog in enumerate(progs):
            del prog[1:]
            prog[0] = steps.gen_step(rng, n, kind=rng.choice(["tt_plot"] * 4 + ["ds_plot"]), tag=f"{t}_0")
            if which and "own" in prog[0]:
                prog[0].update(which=which, shared=1)
                prog[0].pop("pk", None)
    for prog in progs:
        for st in prog:
            if st["do"] == "tt_plot" and rng.random() < 0.7:
                st["shared"] = 1  # made beforehand: the threads only plot
    pol = rng.choice(["random", "random", "pct", "pct", "sites", "hot", "hot", "hot", "hot", "io", "rr"])
    seed = rng.randrange(1 << 30)
    policy = {"kind": pol, "seed": seed}
    if pol == "random":
        policy["p"] = rng.choice([0.002, 0.01, 0.05, 0.2, 0.5])
    elif pol == "pct":
        policy.update(depth=rng.choice([2, 3, 5, 8]), len=rng.choice([200, 1000, 5000, 20000]))
    elif pol == "sites":
        policy.update(frac=rng.choice([0.01, 0.03, 0.1]), p=rng.choice([0.5, 0.9]))
    elif pol == "hot":
        policy.update(fg=rng.choice([0.1, 0.3, 1.0]), fw=rng.choice([0.0, 0.03, 0.2]), p=rng.choice([0.5, 0.9, 0.9]))
    elif pol == "io":
        policy["p"] = rng.choice([0.5, 0.9])
    elif pol == "rr":
        policy["q"] = rng.choice([1, 2, 3, 7, 50])
    plan = {"ws": ws, "progs": progs, "policy": policy, "world": g.delivery(rng), "faults": [], "inject": []}
    if rng.random() < 0.25:  # one thread meets trouble
        t = rng.randrange(nt)
        if rng.random() < 0.5:
            p = rng.choice(sorted(ws["files"]))
            plan["faults"].append({"kind": "read", "file": p, "tid": t, "open": "all", "byte": rng.randint(0, 300),
                                   "err": rng.choice(["EIO", "MemoryError"])})
        else:
            plan["inject"].append({"kind": "line", "n": int(10 ** rng.uniform(0, 3.5)), "tid": t, "op": 0,
                                   "exc": rng.choice(["KI", "MemoryError"])})
    return plan


def execute(d, plan, only=None):
    """Run the programs under the scheduler (or one of them alone)."""
    import calkulate as calk

    steps.write_ws(plan["ws"], d)
    O = steps.Objects(calk, plan["ws"], d)
    tids = list(range(len(plan["progs"]))) if only is None else [only]
    for t in tids:
        steps.prebuild(O, plan["progs"][t])
    spec = dict(plan["world"])
    spec["faults"] = copy.deepcopy(plan.get("faults", []))
    spec["inject"] = copy.deepcopy(plan.get("inject", []))
    for f in spec["faults"] + spec["inject"]:
        if only is not None:
            if f.get("tid") == only:
                f["tid"] = 0
            else:
                f["tid"] = 99
    w = wm.World(d, spec)
    wm.install(w)
    warnings.simplefilter("ignore")
    out = {t: [] for t in tids}

    def body(t):
        def run():
            for k, st in enumerate(plan["progs"][t]):
                w.begin_op(k)
                try:
                    r = ("ok", steps.norm(steps.call(calk, O, st)))
                except sched.SimDeadlock:
                    raise
                except BaseException as e:  # noqa: BLE001
                    r = ("exc", type(e).__name__)
                finally:
                    w.end_op()
                out[t].append(r)
        return run

    with dsops.quiet():
        s = sched.Scheduler(plan["policy"] if only is None else {"kind": "serial"}, len(tids))
        try:
            res = s.run([body(t) for t in tids])
        except RuntimeError as e:
            return {"stuck": str(e)}
    dead = [i for i, r in enumerate(res) if r is None or r[0] == "deadlock"]
    wm.uninstall()
    return {
        "out": out, "deadlock": dead if s.deadlock or dead else [], "switches": s.switches, "steps": s.step,
        "nontrivial": len([x for x in s.trace]) >= 2,
        "trace": s.trace[:400], "digest": str(hash(str(s.trace))), "faults": w.faults, "inject": w.inject,
        "lines": w.lines, "ios": w.nio, "wdigest": w.digest(),
    }


def sig(tr):
    import hashlib

    return hashlib.sha256(repr(tr).encode()).hexdigest()[:16]


def run(ctx, plan):
    obs = ctx.fork(execute, plan)
    if "stuck" in obs:
        raise RuntimeError(obs["stuck"])
    viol = []
    if obs["deadlock"]:
        viol.append({"kind": "deadlock", "detail": f"threads {obs['deadlock']} never finish"})
    else:
        hit = {f.get("tid") for f in plan["inject"]}  # where a line-counted interrupt strikes may differ
        for t in range(len(plan["progs"])):
            if t in hit:
                continue
            p1 = {k: plan[k] for k in ("ws", "progs", "world", "faults", "inject")}
            p1["policy"] = {"kind": "serial"}
            alone = ctx.fork(execute, p1, t)["out"][t]
            for k, (a, b) in enumerate(zip(obs["out"][t], alone)):
                if a[0] != b[0] or (a[0] == "exc" and a[1] != b[1]):
                    viol.append({"kind": "outcome-differs",
                                 "detail": f"thread {t} call {k} ({plan['progs'][t][k]['do']}): concurrent {a[0]} "
                                           f"{a[1] if a[0] == 'exc' else ''}, alone {b[0]} {b[1] if b[0] == 'exc' else ''}"})
                    continue
                d = steps.differ(a[1], b[1], "", RTOL)
                if d:
                    viol.append({"kind": "result-differs",
                                 "detail": f"thread {t} call {k} ({plan['progs'][t][k]['do']}): concurrent vs alone {d}"})
    stats = {"thread_switches": len(obs["switches"]), "scheduler_steps": obs["steps"], "sim_lines": obs["lines"],
             "sim_io_events": obs["ios"], "policy:" + plan["policy"]["kind"]: 1,
             "threads": len(plan["progs"]), "calls": sum(map(len, plan["progs"]))}
    for f in obs["faults"]:
        if f["fired"]:
            stats[f"fault:{f['kind']}:{f['err']}"] = stats.get(f"fault:{f['kind']}:{f['err']}", 0) + f["fired"]
    for f in obs["inject"]:
        if f["fired"]:
            stats[f"fault:{f['exc']}@line"] = 1
    stats["fault:preemption"] = len(obs["switches"])
    return {"viol": viol, "stats": stats, "digest": sig((obs["trace"], obs["wdigest"], obs["switches"][-1:])),
            "nontrivial": obs["nontrivial"], "switches": obs["switches"]}


def concretise(out, plan):
    if out.get("switches") is None:
        return plan
    p = copy.deepcopy(plan)
    p["policy"] = {"kind": "explicit", "switches": [list(x) for x in out["switches"]]}
    return p


def shrink(plan):
    for key in ("faults", "inject"):
        if plan.get(key):
            yield dict(copy.deepcopy(plan), **{key: []})
    # fewer calls (schedules are kept as a list of switches, so shapes may change: still tried)
    for t in range(len(plan["progs"])):
        for k in reversed(range(len(plan["progs"][t]))):
            if len(plan["progs"][t]) > 1:
                p = copy.deepcopy(plan)
                del p["progs"][t][k]
                yield p
    if plan["policy"]["kind"] == "explicit":
        sw = plan["policy"]["switches"]
        size = len(sw) // 2
        while size >= 1:
            for a in range(0, len(sw), size):
                p = copy.deepcopy(plan)
                p["policy"]["switches"] = sw[:a] + sw[a + size:]
                yield p
            size //= 2
    if plan.get("world") != {"chunks": [0], "bufsize": 8192}:
        yield dict(copy.deepcopy(plan), world={"chunks": [0], "bufsize": 8192})
