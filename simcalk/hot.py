"""Source lines at which shared state may be touched, as hints for the scheduler.

A static look at calkulate's bytecode marks lines that write to containers, attributes or
globals, or that use a module-level mutable object or a module with process-wide state.
The hints only decide where a schedule is more likely to switch; verdicts never depend on
them."""

import dis
import sys
import types

STATEFUL = {"matplotlib.pyplot", "warnings", "os", "random", "locale", "numpy.random", "decimal", "tempfile", "signal"}
WRITES = {"STORE_SUBSCR", "DELETE_SUBSCR", "STORE_ATTR", "DELETE_ATTR", "STORE_GLOBAL", "DELETE_GLOBAL", "STORE_DEREF",
          "STORE_SLICE"}
_cache = None


def _functions(v, depth=0):
    """Functions behind a module or class member (wrapped, cached, static, property...)."""
    if isinstance(v, types.FunctionType):
        yield v
    for k in ("__wrapped__", "__func__", "fget", "fset", "func"):
        w = getattr(v, k, None)
        if w is not None and w is not v and depth < 4:
            yield from _functions(w, depth + 1)


def _codes(mod):
    """(code, names of variables that outlive a call: mutable defaults, closed-over values)"""
    seen, todo = set(), []
    for v in list(vars(mod).values()):
        vs = list(vars(v).values()) if isinstance(v, type) and v.__module__ == mod.__name__ else [v]
        for m in vs:
            if isinstance(m, types.ModuleType):
                continue
            for fn in _functions(m):
                if fn.__globals__ is not vars(mod):
                    continue
                c = fn.__code__
                keep = set(c.co_freevars)
                n = c.co_argcount
                for k, d in zip(c.co_varnames[n - len(fn.__defaults__ or ()):n], fn.__defaults__ or ()):
                    if _interesting(d):
                        keep.add(k)
                for k, d in (fn.__kwdefaults__ or {}).items():
                    if _interesting(d):
                        keep.add(k)
                todo.append((c, keep))
    while todo:
        c, keep = todo.pop()
        if c in seen:
            continue
        seen.add(c)
        yield c, keep
        todo += [(k, set()) for k in c.co_consts if isinstance(k, types.CodeType)]


def _interesting(v):
    if isinstance(v, types.ModuleType):
        n = v.__name__
        return n in STATEFUL or n.startswith("calkulate.") and n.rsplit(".", 1)[-1] in ("default", "settings")
    if isinstance(v, (types.FunctionType, types.BuiltinFunctionType, type, str, int, float, bool, type(None), tuple, frozenset, bytes)):
        return False
    if type(v).__module__ in ("numpy",) and callable(v):  # ufuncs
        return False
    return True


def lines():
    """{(file name, line): kind} with kind "global" or "write"."""
    global _cache
    if _cache is not None:
        return _cache
    out = {}
    for name, mod in sorted(sys.modules.items()):
        if not (name == "calkulate" or name.startswith("calkulate.")) or mod is None:
            continue
        for c, keep in _codes(mod):
            line, order, mine = c.co_firstlineno, [], {}
            prev = None
            for ins in dis.get_instructions(c):
                if ins.starts_line:
                    line = ins.line_number if hasattr(ins, "line_number") else ins.starts_line
                    order.append(line)
                if ins.opname in WRITES:
                    mine[line] = mine.get(line) or ("global" if "GLOBAL" in ins.opname else "write")
                if ins.opname in ("LOAD_GLOBAL", "LOAD_NAME") and ins.argval not in ("type", "globals", "setattr"):
                    v = vars(mod).get(ins.argval, None)
                    if _interesting(v):
                        mine[line] = "global"
                    elif isinstance(v, (types.FunctionType, type)):
                        prev = (line, v)
                        continue
                elif ins.opname in ("LOAD_ATTR", "LOAD_METHOD", "STORE_ATTR", "DELETE_ATTR") and prev is not None and (
                        isinstance(prev[1], types.FunctionType) or str(prev[1].__module__).startswith("calkulate")):
                    mine[line] = "global"  # an attribute of a function or class
                elif ins.argval == "__class__" or ins.opname == "LOAD_GLOBAL" and ins.argval in ("type", "globals", "setattr"):
                    mine[line] = "global"
                elif ins.argval in keep and ins.opname.startswith(("LOAD_", "STORE_")):
                    mine[line] = "global"
                elif ins.opname == "BINARY_OP" and "=" in (ins.argrepr or ""):
                    mine[line] = mine.get(line) or "write"
                prev = None
            for i, ln in enumerate(order):
                k = mine.get(ln)
                if k:
                    for x in (ln, order[i + 1] if i + 1 < len(order) else ln):
                        if out.get((c.co_filename, x)) != "global":
                            out[(c.co_filename, x)] = k
    _cache = out
    return out
