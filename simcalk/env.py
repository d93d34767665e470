"""Process set-up: import the third-party stack, warm it up, then import calkulate
from /repo's working tree (never from stale bytecode)."""

import os
import sys

REPO = os.environ.get("SIMCALK_REPO", "/repo")
PKG = os.path.join(os.path.realpath(REPO), "calkulate") + os.sep
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

_done = False


def _warm_third_party():
    """Trigger lazy imports and caches of third-party code, without calkulate."""
    import contextlib
    import io
    import tempfile
    import warnings

    import matplotlib

    matplotlib.use("Agg")
    matplotlib.rcParams["savefig.dpi"] = 40
    import numpy as np
    import openpyxl  # noqa: F401
    import pandas as pd
    import PyCO2SYS as pyco2
    from matplotlib import pyplot as plt
    from scipy import interpolate, optimize, stats

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        pyco2.sys(salinity=np.array([35.0, 34.0]), opt_total_borate=np.array([1, 2]))
        pyco2.sys(2300.0, np.array([2000.0, 2100.0]), 1, 2, salinity=35)
        pyco2.sys(par1=np.array([2000.0]), par2=np.array([8.0]), par1_type=2, par2_type=3)
        t = pyco2.salts.assemble(35.0, 1, 1, 1, 1, 10, 1, totals={})
        pyco2.equilibria.assemble(
            np.array([25.0, 25.0]), 0, t, 3, 10, 1, 1, 3, Ks={"RGas": 30}
        )
        optimize.least_squares(lambda x: x - 3.0, [1.0])
        stats.linregress([1.0, 2.0, 3.0], [1.0, 2.0, 3.5])
        interpolate.pchip_interpolate([0, 1, 2], [0, 1, 4], [0.5])
        np.genfromtxt(io.StringIO("a\n1\t2\n3\t4\n"), skip_header=1, delimiter="\t")
        df = pd.DataFrame({"a": [1, 1, 2], "b": ["x", "y", "z"], "c": [1.0, np.nan, 2]})
        df.groupby(by="a").apply(lambda g: pd.Series({"m": g.c.mean()}), include_groups=False)
        df.apply(lambda r: pd.Series({"q": r.c}), axis=1)
        pd.read_csv(io.StringIO(df.to_csv()))
        pd.read_table(io.StringIO("a\tb\n1\t2\n"))
        pd.read_fwf(io.StringIO("a  b\n1  2\n"))
        b = io.BytesIO()
        df.to_excel(b)
        b.seek(0)
        pd.read_excel(b)
        fig, ax = plt.subplots(dpi=300)
        ax.scatter([1, 2], [3, 4], c=[0, 1], cmap="turbo", label="a")
        ax.plot([1, 2], [3, 4], label=r"$\Delta$ x$^{-1}$")
        ax.legend()
        ax.set_xlabel(r"$\Delta$ A / mol$\cdot$kg$^{-1}$")
        fig.tight_layout()
        for fmt in ("png", "svg", "pdf"):
            b = io.BytesIO()
            fig.savefig(b, format=fmt)
        plt.close(fig)
        with contextlib.suppress(Exception):
            np.lib._datasource._file_openers._load()
        with contextlib.suppress(Exception):
            with tempfile.NamedTemporaryFile("w", suffix=".csv") as f:
                f.write("a,b\n1,2\n")
                f.flush()
                pd.read_csv(f.name)
                np.genfromtxt(f.name, delimiter=",", skip_header=1)


class _LockPatch:
    """Locks created by calkulate modules become cooperative simulator locks."""

    def __init__(self):
        import threading

        self.real = {n: getattr(threading, n) for n in ("Lock", "RLock")}

    def install(self):
        import threading

        from . import sched

        def make(name):
            real = self.real[name]

            def factory(*a, **k):
                try:
                    caller = sys._getframe(1).f_globals.get("__name__", "")
                except Exception:
                    caller = ""
                if caller == "calkulate" or caller.startswith("calkulate."):
                    return sched.SimLock(reentrant=(name == "RLock"))
                return real(*a, **k)

            return factory

        for n in self.real:
            setattr(threading, n, make(n))


def bootstrap(warm=True):
    """Import everything; idempotent."""
    global _done
    if _done:
        return
    sys.dont_write_bytecode = True
    os.environ.setdefault("MPLBACKEND", "Agg")
    import matplotlib.pyplot  # noqa: F401
    import numpy  # noqa: F401
    import pandas  # noqa: F401
    import PyCO2SYS  # noqa: F401
    import scipy.interpolate  # noqa: F401
    import scipy.optimize  # noqa: F401
    import scipy.stats  # noqa: F401

    if warm:
        _warm_third_party()
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    _LockPatch().install()
    prefix = sys.pycache_prefix
    sys.pycache_prefix = "/nonexistent/simcalk"  # compile calkulate from source
    try:
        import importlib

        import calkulate

        for m in (
            "classes constants convert core dataset default density files interface "
            "loss meta settings simulate plot plot.misc plot.titration read "
            "read.metadata read.titrations"
        ).split():
            try:
                importlib.import_module("calkulate." + m)
            except ModuleNotFoundError:
                pass
    finally:
        sys.pycache_prefix = prefix
    got = os.path.realpath(calkulate.__file__)
    if not got.startswith(PKG):
        raise RuntimeError(f"calkulate imported from {got}, not {PKG}")
    _done = True


def function_lines():
    """Executable lines inside functions of calkulate: {file: set of line numbers}."""
    out = {}
    for d, _, names in os.walk(PKG):
        for n in sorted(names):
            if not n.endswith(".py"):
                continue
            path = os.path.join(d, n)
            lines = set()
            try:
                with open(path, encoding="utf-8") as f:
                    todo = [compile(f.read(), path, "exec")]
            except (OSError, SyntaxError):
                continue
            top = todo[0]
            while todo:
                c = todo.pop()
                todo += [k for k in c.co_consts if hasattr(k, "co_lines")]
                if c is not top and c.co_flags & 2:  # CO_NEWLOCALS: a function body, not a class body
                    lines |= {x[2] for x in c.co_lines() if x[2] and x[2] != c.co_firstlineno}
            if lines:
                out[os.path.relpath(path, PKG)] = lines
    return dict(sorted(out.items()))
