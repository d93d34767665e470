"""One process of a C14 run: `python -m simcalk.envchild PLAN.json OUT.pickle`.

Sets up the environment the plan asks for (clock and hash seed and locale come from the real
process environment), runs the plan's jobs in the order asked for, and writes the results."""

import json
import os
import pickle
import random
import sys
import traceback


def shuffle_listing(seed):
    rng = random.Random(seed)
    real_listdir, real_scandir, real_walk = os.listdir, os.scandir, os.walk

    def listdir(*a):
        r = list(real_listdir(*a))
        rng.shuffle(r)
        return r

    class Scan:
        def __init__(self, it):
            with it:
                self.items = list(it)
            rng.shuffle(self.items)
            self.it = iter(self.items)

        def __iter__(self):
            return self

        def __next__(self):
            return next(self.it)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return None

        def close(self):
            return None

    def scandir(*a):
        return Scan(real_scandir(*a))

    os.listdir, os.scandir = listdir, scandir
    return real_walk


def unroot(x, d):
    """Results without the name of the job's directory."""
    if isinstance(x, str):
        return x.replace(d, "{ROOT}")
    if isinstance(x, dict):
        return {k: unroot(v, d) for k, v in x.items()}
    if isinstance(x, list):
        return [unroot(v, d) for v in x]
    return x


def away(root, decoys):
    """Another working directory, where files of the same names have other contents."""
    import shutil

    from . import dsops

    d = os.path.join(root, "elsewhere")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    os.chdir(d)
    for p, b in decoys.items():
        for q in {p, os.path.basename(p)}:
            dsops.put_file(q, b)


def less(b):
    """The titration without its last two points."""
    lines = b.split(b"\n")
    data = [q for q, x in enumerate(lines) if x[:1].isdigit() and x.count(b"\t") + x.count(b";") >= 2]
    for q in data[-2:][::-1]:
        del lines[q]
    return b"\n".join(lines)


def enter(root, name):
    d = os.path.join(root, name)
    os.makedirs(d, exist_ok=True)
    os.chdir(d)
    return d


def run_table(calk, e, root, name, job):
    from . import dsops, steps, tables

    d = enter(root, name)
    data, exp = tables.make(job["spec"])
    path = os.path.join(d, "file" + tables.EXT[job["spec"]["fmt"]])
    dsops.put_file(path, data)
    fn, kw = exp["call"]
    if "colspecs" in kw:
        kw["colspecs"] = [tuple(c) for c in kw["colspecs"]]
    if e.get("cwd"):
        away(root, {os.path.basename(path): data[: len(data) * 2 // 3]})
    return [unroot(steps.norm(getattr(calk, fn)(path, **kw)), d)]


def run_job(calk, e, root, name, job, files=True, stage=None, hook=None):
    """Results of one job; `stage(q, O, st, d)` replaces calkulate steps, `hook` wraps every call."""
    from matplotlib import pyplot as plt

    from . import gen, steps

    hook = hook or (lambda f: f())
    if job["kind"] == "table":
        return hook(lambda: run_table(calk, e, root, name, job))
    d = enter(root, name)
    if files:
        steps.write_ws(job["ws"], d)
        if e.get("mtime"):  # a file system that does not tell new contents from old by their times
            for p in job["ws"]["files"]:
                os.utime(p, (e["mtime"], e["mtime"]))
    O = steps.Objects(calk, job["ws"], d)
    if e.get("cwd") and job["ws"].get("absolute"):
        away(root, {p: less(gen.unb64(b)) for p, b in job["ws"]["files"].items()} if files else {})
    res = []
    for q, st in enumerate(job["steps"]):
        if st.get("fname"):
            st = dict(st, fname=os.path.join(d, st["fname"]))
            if os.path.exists(st["fname"]):
                os.unlink(st["fname"])
        try:
            if stage and st["do"] == "calkulate":
                r = stage(q, O, st, d)
            else:
                if files:
                    steps.prebuild(O, [st])
                r = hook(lambda st=st: steps.norm(steps.call(calk, O, st)))
        except Exception as x:  # noqa: BLE001
            r = {"__exc__": type(x).__name__, "__msg__": str(x)[:200]}
            if os.environ.get("SIMCALK_DEBUG"):
                traceback.print_exc()
        res.append(unroot(r, d))
        plt.close("all")
    return res


def main():
    with open(sys.argv[1], encoding="utf-8") as f:
        plan = json.load(f)
    e = plan["env"]
    import locale

    if e.get("setlocale"):
        try:
            locale.setlocale(locale.LC_ALL, "")
        except locale.Error:
            pass
    from . import env

    env.bootstrap(warm=False)
    import gc
    import time
    import warnings

    import calkulate as calk
    import matplotlib
    import numpy as np

    matplotlib.rcParams["savefig.dpi"] = 40
    from . import dsops, steps

    if e.get("listing"):
        shuffle_listing(e["listing"])
    if e.get("gc"):
        gc.set_threshold(*e["gc"])
    random.seed(e["rng"])
    np.random.seed(e["rng"] % (1 << 31))
    root = plan["root"]
    warnings.simplefilter("ignore")
    ballast = [bytearray(137 * (i % 50)) for i in range(e.get("ballast", 0))]
    time.tzset()
    out = {"jobs": {}, "clock": time.time(), "tz": time.tzname}

    def stage(k, q, O, st, d):
        """calkulate split over two processes: calibrate + save, then reload + solve."""
        import pandas as pd

        fmt = e["split"]
        path = os.path.join(root, f"saved{k}_{q}.{fmt}")
        kw = dict(O["opts"]) if st.get("opts") else dict(st.get("kwargs", {}))
        if "pH_range" in kw:
            kw["pH_range"] = tuple(kw["pH_range"])
        if plan["stage"] == 1:
            ds = calk.Dataset(O.df()) if st.get("shared") else calk.Dataset(O.df().iloc[st["rows"]])
            ds = calk.dataset.calibrate(ds, **kw)
            df = pd.DataFrame(ds)
            if fmt == "csv":
                df.to_csv(path, index=True, index_label="__i")
            elif fmt == "pickle":
                df.to_pickle(path)
            else:
                df.to_parquet(path)
            return None
        if fmt == "csv":
            df = pd.read_csv(path).set_index("__i")
            df.index.name = None
        elif fmt == "pickle":
            df = pd.read_pickle(path)
        else:
            df = pd.read_parquet(path)
        ds = calk.dataset.solve(calk.Dataset(df), **kw)
        return steps.ds_view(ds)

    def job(k):
        st = (lambda *a: stage(k, *a)) if plan.get("stage") else None
        return run_job(calk, e, root, f"job{k}", plan["jobs"][k], stage=st)

    with dsops.quiet():
        for k in e.get("noise", []):
            if plan["jobs"][k]["kind"] == "steps":
                run_job(calk, e, root, f"nofiles{k}", plan["jobs"][k], files=False)
        for k in e.get("prelude", []):
            job(k)
        for k in e["order"]:
            try:
                out["jobs"][k] = job(k)
            except Exception as x:  # noqa: BLE001
                out["jobs"][k] = [{"__exc__": type(x).__name__}]
    del ballast
    os.chdir("/")
    with open(sys.argv[2], "wb") as f:
        pickle.dump(out, f)


if __name__ == "__main__":
    main()
