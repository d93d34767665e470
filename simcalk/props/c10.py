"""C10: exporting never overwrites an existing file by default."""

import copy
import os
import pathlib

from .. import dsops, sched, world as wm
from . import _export as X, c07

LEVEL = "exploration"
BUDGET = {"quick": (4000, 45), "thorough": (60000, 1500)}
REAL = ["calkulate.write_dat", "Python's I/O layers", "real threads, real files in a scratch directory"]
STUB = ["thread scheduling (one thread at a time, switched at calkulate source lines and file events)",
        "raw file layer (short writes, errors)", "another process creating the file (simulator thread)"]
ASSUME = ["exporters are switched at source lines of calkulate and at file operations",
          "the file system honours exclusive creation (O_EXCL)"]
RULE = (
    "a run = one to four exporters (threads) and possibly a foreign process racing for one or two paths that may already exist "
    "as a file, link or directory, under a seeded schedule with short writes, write errors and interrupts, sometimes preceded by "
    "earlier exports; non-trivial if the path existed, threads interleaved or a fault fired; distinct by schedule and event trace"
)
OLD = "precious data\nx\ty\tz\n1\t2\t3\n"


def gen(rng, tier, i):
    npath = rng.choice([1, 1, 1, 2])
    pre = {}
    for p in range(npath):
        pre[f"sub/out{p}.dat"] = rng.choice([None, None, None, "file", "file", "empty", "big", "dir", "link", "hardlink", "readonly", "dangling"])
    nt = rng.choice([1, 2, 2, 2, 3, 4])
    progs = []
    for t in range(nt):
        calls = []
        for k in range(rng.choice([1, 1, 1, 2])):
            spec = X.data(rng, n=rng.choice([2, 3, 5, rng.randint(6, 60), rng.randint(300, 900)]), odd=False)
            kw = X.options(rng, spec["n"])
            if X.unencodable(kw):
                del kw["encoding"]
            mode = rng.choice([None, None, None, "x", "xt"])
            if mode:
                kw["mode"] = mode
            calls.append({"path": rng.choice(sorted(pre)), "spell": rng.choice(["rel", "rel", "dot", "abs", "path", "up"]),
                          "data": spec, "kw": kw})
        progs.append(calls)
    if nt == 1 and rng.random() < 0.7:  # one exporter's history, sometimes overwriting or appending on purpose
        base = progs[0][0]
        for k in range(rng.randint(1, 4)):
            c = copy.deepcopy(base)
            c["data"]["seed"] = rng.randrange(10**9)
            c["path"] = rng.choice(sorted(pre))
            c["kw"].pop("mode", None)
            mode = rng.choice([None, None, "x", "w", "a"])
            if mode:
                c["kw"]["mode"] = mode
            progs[0].append(c)
    plan = {"pre": pre, "progs": progs, "policy": c07.gen(rng, tier, i)["policy"], "world": X.world(rng), "faults": [],
            "inject": [], "outsider": None}
    if rng.random() < 0.2:
        plan["outsider"] = {"path": rng.choice(sorted(pre)), "text": OLD, "after": rng.randint(0, 12)}
    r = rng.random()
    if r < 0.15:
        t = rng.randrange(nt)
        plan["faults"].append({"kind": "write", "tid": t, "byte": rng.choice([0, rng.randint(0, 500)]),
                               "err": rng.choice(["ENOSPC", "EIO"]), "persist": True})
    elif r < 0.2:
        plan["faults"].append({"kind": "open", "tid": rng.randrange(nt), "err": rng.choice(["EACCES", "EMFILE"])})
    elif r < 0.3:
        plan["inject"].append({"kind": "line", "n": rng.randint(1, 30), "tid": rng.randrange(nt), "op": 0, "exc": rng.choice(["KI", "MemoryError"])})
    return plan


def prepare(plan):
    os.makedirs("sub", exist_ok=True)
    dsops.put_file("target.dat", OLD.encode())
    for p, how in plan["pre"].items():
        if how in ("file", "readonly"):
            dsops.put_file(p, OLD.encode())
            if how == "readonly":
                os.chmod(p, 0o444)
        elif how == "empty":
            dsops.put_file(p, b"")
        elif how == "big":
            dsops.put_file(p, b"0.1\t2.2\t3.3\n" * 3000)
        elif how == "dir":
            os.makedirs(p)
        elif how == "link":
            os.symlink("../target.dat", p)
        elif how == "dangling":
            os.symlink("../nowhere.dat", p)
        elif how == "hardlink":
            os.link("target.dat", p)


def ident(p):
    """What a user would see of a file: its bytes and its identity."""
    try:
        st = os.lstat(p)
    except OSError:
        return None
    return (X.read(p), st.st_ino, st.st_mode, st.st_mtime_ns)


def execute(d, plan):
    import calkulate as calk

    prepare(plan)
    watch = ["target.dat", "nowhere.dat"] + [p for p, how in plan["pre"].items() if how]
    before = {p: ident(p) for p in watch}
    spec = dict(plan["world"])
    spec["faults"] = copy.deepcopy(plan["faults"])
    spec["inject"] = copy.deepcopy(plan["inject"])
    w = wm.World(d, spec)
    nt = len(plan["progs"])
    out = {t: [] for t in range(nt)}
    other = {}
    each = []
    args = {(t, k): X.as_args(c["data"]) for t, prog in enumerate(plan["progs"]) for k, c in enumerate(prog)}
    wm.install(w)

    def spell(c):
        p = c["path"]
        return {"rel": p, "dot": "./" + p, "abs": os.path.join(d, p), "path": pathlib.Path(p),
                "up": "sub/../" + p}[c["spell"]]

    def body(t):
        def run():
            for k, c in enumerate(plan["progs"][t]):
                b = ident(c["path"]) if nt == 1 else None
                w.begin_op(k)
                try:
                    calk.write_dat(spell(c), *args[t, k], **c["kw"])
                    r = None
                except sched.SimDeadlock:
                    raise
                except BaseException as e:  # noqa: BLE001
                    r = f"{type(e).__name__}: {e}"[:120]
                finally:
                    w.end_op()
                out[t].append(r)
                if nt == 1:
                    each.append((b, ident(c["path"])))
        return run

    def outsider():
        o = plan["outsider"]
        for _ in range(o["after"]):
            sched.CURRENT.point("outside", ("outside", 0))
        try:
            fd = wm._real_os_open(o["path"], os.O_WRONLY | os.O_CREAT | os.O_EXCL)
            os.write(fd, o["text"].encode())
            os.close(fd)
            other["won"] = True
            other["ident"] = ident(o["path"])
        except OSError:
            other["won"] = False

    fns = [body(t) for t in range(nt)] + ([outsider] if plan["outsider"] else [])
    s = sched.Scheduler(plan["policy"], len(fns))
    try:
        s.run(fns)
    except RuntimeError as e:
        return {"stuck": str(e)}
    for h in w.handles:
        h._gc = True
    wm.uninstall()
    return {"out": out, "before": before, "each": each, "after": {p: ident(p) for p in set(watch) | set(plan["pre"])}, "other": other,
            "faults": w.faults, "inject": w.inject, "switches": s.switches, "trace": s.trace[:400], "digest": w.digest(),
            "ios": w.nio, "lines": w.lines, "deadlock": s.deadlock, "steps": s.step, "shorts": w.stats.get("short_writes", 0)}


def run(ctx, plan):
    obs = ctx.fork(execute, plan)
    if "stuck" in obs:
        raise RuntimeError(obs["stuck"])
    viol = []
    fired = [f for f in obs["faults"] + obs["inject"] if f["fired"]]
    if obs["deadlock"]:
        viol.append({"kind": "deadlock", "detail": "exporters never finish"})
    asked = {c["path"] for prog in plan["progs"] for c in prog if c["kw"].get("mode") in ("w", "a")}
    for hows, target in ((("link", "hardlink"), "target.dat"), (("dangling",), "nowhere.dat")):
        if any(plan["pre"].get(p) in hows for p in asked):  # other names of the same file
            asked |= {target} | {p for p, how in plan["pre"].items() if how in hows}
    for k, (b, a) in enumerate(obs["each"]):
        c = plan["progs"][0][k]
        if c["kw"].get("mode") in ("w", "a") or b is None:
            continue
        if obs["out"][0][k] is None:
            viol.append({"kind": "no-failure", "detail": f"export {k} to {c['path']}, which already existed, succeeded"})
        if a != b and not plan["outsider"]:
            viol.append({"kind": "existing-altered", "detail": f"export {k} altered {c['path']}, which already existed"})
    for p, b in obs["before"].items():
        if p in asked:
            continue
        a = obs["after"].get(p)
        if a != b:
            what = "removed" if a is None else "created" if b is None else ("rewritten" if a[0] != b[0] else "replaced or touched")
            viol.append({"kind": "existing-altered", "detail": f"{p} ({plan['pre'].get(p, 'bystander')}) existed and was {what}"})
    for p, how in plan["pre"].items():
        if p in asked:
            continue
        calls = [(t, k, c, obs["out"][t][k]) for t, prog in enumerate(plan["progs"]) for k, c in enumerate(prog)
                 if c["path"] == p and k < len(obs["out"][t])]
        wins = [x for x in calls if x[3] is None]
        out_won = plan["outsider"] and plan["outsider"]["path"] == p and obs["other"].get("won")
        if how or out_won:
            if wins and how:
                viol.append({"kind": "no-failure", "detail": f"{p} already existed ({how}) but {len(wins)} export(s) succeeded"})
            if out_won:
                if wins:
                    viol.append({"kind": "no-failure", "detail": f"{p} was created by another process but {len(wins)} export(s) succeeded"})
                if obs["after"][p] != obs["other"]["ident"]:
                    viol.append({"kind": "existing-altered", "detail": f"{p}, created by another process during the race, was altered"})
            continue
        if len(wins) > 1:
            viol.append({"kind": "several-winners", "detail": f"{len(wins)} of {len(calls)} exporters racing for {p} succeeded"})
        got = obs["after"][p]
        if wins:
            want = X.text(wins[0][2]["data"], wins[0][2]["kw"])
            if got is None or got[0] != want:
                viol.append({"kind": "not-winners-data", "detail":
                             f"{p} holds {len(got[0] or b'') if got else None} bytes that are not exactly the winner's {len(want)}"})
        elif not fired and calls:
            viol.append({"kind": "no-winner", "detail": f"none of {len(calls)} exporters racing for {p} succeeded: {[x[3] for x in calls]}"})
        elif got is not None and not any(X.text(c["data"], c["kw"]).startswith(got[0] or b"") for _, _, c, _ in calls):
            viol.append({"kind": "mixed-content", "detail": f"{p} holds bytes that no exporter's text begins with"})
    stats = {"exports": sum(map(len, plan["progs"])), "thread_switches": len(obs["switches"]), "scheduler_steps": obs["steps"],
             "sim_io_events": obs["ios"], "sim_lines": obs["lines"], "policy:" + plan["policy"]["kind"]: 1,
             "fault:preemption": len(obs["switches"]), "fault:short_writes": obs["shorts"]}
    if plan["outsider"]:
        stats["fault:foreign-create"] = 1
    for f in fired:
        key = f"fault:{f['kind']}:{f['err']}" if "err" in f else f"fault:{f['exc']}@line"
        stats[key] = stats.get(key, 0) + 1
    return {"viol": viol, "stats": stats, "switches": obs["switches"],
            "nontrivial": bool(fired) or len(obs["trace"]) > 1 or any(plan["pre"].values()),
            "digest": c07.sig((obs["digest"], obs["trace"], plan["pre"]))}


concretise = c07.concretise


def shrink(plan):
    if plan["outsider"]:
        yield dict(copy.deepcopy(plan), outsider=None)
    for p in c07.shrink(plan):
        yield p
    for t, prog in enumerate(plan["progs"]):
        for k, c in enumerate(prog):
            if c["data"]["n"] > 2:
                p = copy.deepcopy(plan)
                p["progs"][t][k]["data"]["n"] = 2
                yield p
            for o in list(c["kw"]):
                p = copy.deepcopy(plan)
                del p["progs"][t][k]["kw"][o]
                yield p
            if c["spell"] != "rel":
                p = copy.deepcopy(plan)
                p["progs"][t][k]["spell"] = "rel"
                yield p
