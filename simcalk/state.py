"""Snapshot of process-wide state, for comparing before and after a call."""

import builtins
import decimal
import faulthandler
import gc
import importlib
import inspect
import io
import locale
import logging
import os
import random
import resource
import signal
import socket
import sys
import tempfile
import threading
import time
import warnings

import numpy as np

FIXED = {
    "default": None, "settings": None, "constants": None,
    "core": ["keys_totals_ks", "keys_solve_emf", "keys_solve_pH", "keys_solve_pH_gran", "keys_titrant_totals",
             "keys_calibrate_emf", "keys_calibrate_pH", "keys_calibrate_pH_gran", "kwargs_least_squares"],
    "files": ["keys_calibrate", "keys_solve"],
    "convert": ["keys_cau", "F", "R"],
    "read.titrations": ["keys_read_dat", "file_types"],
    "simulate": ["component_multipliers"],
    "interface": ["calk_to_pyco2__totals", "calk_to_pyco2__k_constants", "pyco2_to_calk__totals",
                  "pyco2_to_calk__k_constants"],
    "plot.titration": ["component_labels", "component_stylers", "gran_styler", "final_styler"],
}


def _val(v, depth=0):
    """Comparable deep description of a module-level value."""
    if isinstance(v, dict):
        return {"d": [(str(k), _val(x, depth + 1)) for k, x in v.items()]}
    if isinstance(v, (set, frozenset)):
        return {"s": sorted(map(str, v))}
    if isinstance(v, (list, tuple)):
        return {"l": [_val(x, depth + 1) for x in v], "t": type(v).__name__}
    if isinstance(v, np.ndarray):
        return {"a": v.tobytes(), "sh": v.shape}
    if isinstance(v, (int, float, str, bytes, bool, type(None), np.generic)):
        return repr(v)
    if callable(v) or inspect.ismodule(v):
        return f"{getattr(v, '__module__', '')}.{getattr(v, '__qualname__', v)}"
    if hasattr(v, "__dict__") and depth < 3:
        return {"o": type(v).__name__, **{k: _val(x, depth + 1) for k, x in vars(v).items()}}
    return type(v).__name__


def calk_state():
    out = {}
    for m, names in FIXED.items():
        try:
            mod = importlib.import_module("calkulate." + m)
        except ImportError:
            continue
        for n, v in vars(mod).items():
            if n.startswith("_") or inspect.ismodule(v):
                continue
            if names is None:
                if not callable(v):
                    out[f"calkulate.{m}.{n}"] = _val(v)
            elif n in names:
                out[f"calkulate.{m}.{n}"] = _val(v)
    for name, mod in sorted(sys.modules.items()):
        if name == "calkulate" or name.startswith("calkulate."):
            for n, f in list(vars(mod).items()):
                if inspect.isfunction(f) and f.__module__ == name and not n.startswith("_"):
                    dv = [x for x in (f.__defaults__ or ()) if not callable(x)]
                    if dv or f.__kwdefaults__:
                        out[f"{name}.{n} defaults"] = _val([dv, f.__kwdefaults__ or {}])
    return out


def thread_state():
    """State that belongs to the calling thread."""
    return {"numpy error handling": dict(np.geterr()), "numpy errcall": repr(np.geterrcall()),
            "decimal context": repr(decimal.getcontext())}


def _pd_options():
    import pandas as pd

    out = {}
    try:
        from pandas._config import config

        for k in list(config._registered_options):
            try:
                out[k] = repr(pd.get_option(k))
            except Exception:
                pass
    except Exception:
        pass
    return out


def _rng():
    st = np.random.get_state()
    return (random.getstate(), st[0], st[1].tobytes(), st[2:])


NAMESPACES = ["numpy", "pandas", "matplotlib.pyplot", "matplotlib.figure", "PyCO2SYS", "os", "os.path", "io", "warnings",
              "scipy.optimize", "scipy.stats", "numpy.random", "json", "re", "math", "copy", "time", "logging", "builtins"]


def _namespaces():
    """What existing public callables of shared modules are (a call must not replace them)."""
    out = {}
    for m in NAMESPACES:
        mod = sys.modules.get(m)
        if mod is not None:
            for n, f in list(vars(mod).items()):
                if not n.startswith("_") and callable(f) and not isinstance(f, type):
                    out[m + "." + n] = id(f)
    for c in ("pandas.DataFrame", "pandas.Series", "matplotlib.axes.Axes", "matplotlib.figure.Figure"):
        m, n = c.rsplit(".", 1)
        if m in sys.modules:
            for k, f in list(vars(getattr(sys.modules[m], n)).items()):
                if not k.startswith("__") and callable(f):
                    out[c + "." + k] = id(f)
    return out


def _start_method():
    mp = sys.modules.get("multiprocessing.context")
    try:
        return str(getattr(mp._default_context, "_actual_context", None)) if mp else None
    except AttributeError:
        return None


def _loggers():
    return {n: (lg.level, len(lg.handlers), lg.propagate, lg.disabled)
            for n, lg in list(logging.root.manager.loggerDict.items()) if isinstance(lg, logging.Logger)}


def _mpl():
    import matplotlib
    from matplotlib import pyplot as plt, units

    d = {"unit converters": {repr(k): type(v).__name__ for k, v in list(units.registry.items())},
         "interactive": plt.isinteractive()}
    try:
        d["colormaps"] = sorted(matplotlib.colormaps)
        d["default rcParams"] = {k: repr(v) for k, v in dict.items(matplotlib.rcParamsDefault)}
    except Exception:  # noqa: BLE001
        pass
    md = sys.modules.get("matplotlib.dates")
    if md is not None:
        d["date epoch"] = repr(getattr(md, "_epoch", None) or "1970-01-01T00:00:00")
    return d


_NULL = {signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGUSR1, signal.SIGHUP, signal.SIGPIPE, signal.SIGFPE}


def process_state(figures=True):
    import matplotlib
    from matplotlib import pyplot as plt

    um = os.umask(0)
    os.umask(um)
    root = logging.getLogger()
    d = {
        "warning filters": [tuple(repr(x) for x in f) for f in warnings.filters],
        "warnings.showwarning": repr(getattr(warnings, "showwarning", None)).split(" at ")[0],
        "random state": _rng(),
        "working directory": os.getcwd(),
        "environment": dict(os.environ),
        "umask": um,
        "rcParams": {k: repr(v) for k, v in dict.items(matplotlib.rcParams)},
        "matplotlib backend": matplotlib.get_backend(),
        "pandas options": _pd_options(),
        "signal handlers": {int(s): repr(signal.getsignal(s)) for s in sorted(_NULL)},
        "itimer": signal.getitimer(signal.ITIMER_REAL),
        "standard streams": tuple((id(x), bool(getattr(x, "closed", False))) for x in (sys.stdin, sys.stdout, sys.stderr)),
        "print options": {k: repr(v) for k, v in np.get_printoptions().items()},
        "locale": locale.setlocale(locale.LC_ALL),
        "logging": (root.level, len(root.handlers), root.manager.disable),
        "builtins": {n: id(getattr(builtins, n)) for n in ("open", "print", "input", "float", "round")},
        "io.open": id(io.open), "os.open": id(os.open),
        "sys": (sys.getrecursionlimit(), sys.getswitchinterval(), repr(sys.excepthook), repr(sys.displayhook),
                sys.dont_write_bytecode, tuple(sys.path)),
        "gc": (gc.isenabled(), gc.get_threshold()),
        "socket timeout": socket.getdefaulttimeout(),
        "tempdir": tempfile.tempdir,
        "time zone": time.tzname,
        "threads": sorted(t.name for t in threading.enumerate() if t.is_alive()),
        "numpy bufsize": np.getbufsize(),
        "warnings.formatwarning": getattr(warnings.formatwarning, "__qualname__", ""),
        "loggers": _loggers(),
        "matplotlib": _mpl(),
        "functions of shared modules": _namespaces(),
        "resource limits": {k: resource.getrlimit(getattr(resource, k)) for k in dir(resource) if k.startswith("RLIMIT_")},
        "signal mask": sorted(map(int, signal.pthread_sigmask(signal.SIG_BLOCK, []))),
        "faulthandler": faulthandler.is_enabled(),
        "hooks": (id(threading.excepthook), id(sys.unraisablehook), id(sys.breakpointhook)),
        "thread stack size": threading.stack_size(),
        "priority": os.getpriority(os.PRIO_PROCESS, 0),
        "multiprocessing start method": _start_method(),
    }
    if figures:
        d["open figures"] = plt.get_fignums()
    d.update(calk_state())
    return d


# Things that may be added (a module imported on first use brings functions, loggers, a start method), but not changed
MAY_GROW = {"functions of shared modules", "loggers", "multiprocessing start method"}


def diff(a, b):
    """Names of what changed, with a short description."""
    out = []
    for k in a:
        if k in MAY_GROW and k in b:
            if isinstance(a[k], dict):
                b = dict(b)
                b[k] = {q: v for q, v in b[k].items() if q in a[k]}
            elif a[k] is None or a[k] == "None":
                continue
        if k not in b:
            out.append((k, "gone"))
        elif a[k] != b[k]:
            x, y = a[k], b[k]
            if isinstance(x, dict) and isinstance(y, dict):
                ks = [q for q in x if q not in y or x[q] != y[q]] + [q for q in y if q not in x]
                out.append((k, f"{ks[0]}: {str(x.get(ks[0]))[:80]} -> {str(y.get(ks[0]))[:80]}" if ks else "changed"))
            elif k == "random state":
                out.append((k, "changed"))
            else:
                out.append((k, f"{str(x)[:160]} -> {str(y)[:160]}"))
    for k in b:
        if k not in a:
            out.append((k, "new"))
    return out
