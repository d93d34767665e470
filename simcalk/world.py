"""The simulated world of one run: file I/O, allocation failures, interrupts, line events.

Exactly one World is active per run process.  All file access of calkulate (and of NumPy,
pandas, openpyxl, Pillow and matplotlib on its behalf) to paths under the run's scratch
root goes through SimRaw; every access is an event, at which the plan's faults are
injected and the scheduler may switch threads.  Access to other paths is left alone (but
seen by the audit hook).
"""

import _thread
import builtins
import errno
import hashlib
import io
import os
import sys

from . import env, sched

W = None  # active world

_real_open = builtins.open
_real_io_open = io.open
_real_os_open = os.open


class SimCrash(BaseException):
    """The simulated process dies here."""


class SimLivelock(BaseException):
    """No progress within the step budget."""


EXCS = {
    "KI": lambda: KeyboardInterrupt("simulated"),
    "MemoryError": lambda: MemoryError("simulated allocation failure"),
    "CRASH": lambda: SimCrash(),
}


def make_exc(name, path=None):
    if name in EXCS:
        return EXCS[name]()
    no = getattr(errno, name)
    return OSError(no, os.strerror(no), path)


def is_injected(e):
    return "simulated" in str(e) or isinstance(e, SimCrash)


class SimRaw(io.RawIOBase):
    """Raw file whose reads, writes and close are simulated events."""

    def __init__(self, world, rel, fileio, mode):
        self._w = world
        self._rel = rel
        self._f = fileio
        self.name = getattr(fileio, "name", rel)
        self.mode = mode
        self._nr = self._nw = 0
        self._wpos = 0
        self._ord = world._next_open(rel)
        self._key = world.next_handle()
        self._gc = False
        self._closing = False
        self._tid = world.key()
        self._opno = world.op_opens.get(self._tid, 0)
        self._op = world.cur_op()
        world.handles.append(self)

    # -- plumbing
    def readable(self):
        return self._f.readable()

    def writable(self):
        return self._f.writable()

    def seekable(self):
        return self._f.seekable()

    def seek(self, off, whence=0):
        return self._f.seek(off, whence)

    def tell(self):
        return self._f.tell()

    def truncate(self, size=None):
        self._w.io_event("truncate", self._rel)
        return self._f.truncate(size)

    def fileno(self):
        return self._f.fileno()

    def isatty(self):
        return False

    def _dealloc_warn(self, source):
        self._gc = True

    # -- events
    def readinto(self, b):
        w = self._w
        i = self._nr
        w.io_event("read", self._rel)
        n = len(b)
        pos = self._f.tell() if w.faults and self._f.seekable() else 0
        f = w.match("read", self._rel, self._ord, i, pos=pos, n=n)
        if f is not None and f.get("keep", 0) > 0:
            # a bad block further on: deliver what comes before it first
            n = f["keep"]
        elif f is not None:
            w.fire(f)
            if f["err"] == "EINTR":
                self._nr += 1
                raise InterruptedError(errno.EINTR, os.strerror(errno.EINTR))
            raise make_exc(f["err"], self.name)
        self._nr += 1
        c = w.chunk(self._key, i)
        if c:
            n = min(n, c)
        got = self._f.readinto(memoryview(b)[:n])
        if c and got == n:
            w.stats["short_reads"] = w.stats.get("short_reads", 0) + 1
        w.log("r", self._rel, got)
        return got

    def write(self, b):
        w = self._w
        i = self._nw
        w.io_event("write", self._rel)
        if w.dead:
            raise SimCrash()
        data = bytes(b)
        f = w.match("write", self._rel, self._ord, i, pos=self._wpos, n=len(data))
        if f is not None and f.get("keep", 0) > 0 and f["err"] != "CRASH":
            # like write(2): a short count first, the error on the next call
            n = self._f.write(data[: f["keep"]])
            self._wpos += n
            w.stats["short_writes"] = w.stats.get("short_writes", 0) + 1
            w.log("w", self._rel, n)
            return n
        if f is not None:
            w.fire(f)
            if f["err"] == "EINTR":
                self._nw += 1
                raise InterruptedError(errno.EINTR, os.strerror(errno.EINTR))
            if f["err"] == "CRASH":
                keep = min(f.get("keep", 0), len(data))
                if keep:
                    self._f.write(data[:keep])
                w.dead = True
            raise make_exc(f["err"], self.name)
        self._nw += 1
        n = len(data)
        c = w.wchunk(self._key, i)
        if c and n > c:
            n = c
            w.stats["short_writes"] = w.stats.get("short_writes", 0) + 1
        n = self._f.write(data[:n])
        self._wpos += n
        w.log("w", self._rel, n)
        return n

    def close(self):
        if self.closed or self._closing:
            return
        self._closing = True
        w = self._w
        try:
            if self._gc:
                w.gc_closed.append(self._rel)
            err = None
            if W is w and not self._gc:
                w.io_event("close", self._rel)
                f = w.match("close", self._rel, self._ord, 0)
                if f is not None:
                    w.fire(f)
                    if f["err"] == "CRASH":
                        w.dead = True
                    err = make_exc(f["err"], self.name)
        finally:
            self._f.close()
            super().close()
            k = self._tid
            w.open_now[k] = None
            w.since[k] = (self._opno, w.op_lines.get(k, 0), self._rel, self._ord)
            names = next((f["within"] for f in w.inject if f.get("within")), None)
            if names and not self._gc:
                w.since_frame[k] = on_stack(names)
        w.log("c", self._rel, 0)
        if err is not None:
            raise err


_noinj = {}


def no_inject(filename):
    """Lines where no asynchronous exception is raised: headers of `with` (whose line event also
    announces the exit) and `try`, and `finally` bodies.  CPython itself cannot be interrupted
    between a `with` body and its exit call; the event is delivered at the next line instead."""
    r = _noinj.get(filename)
    if r is None:
        r = set()
        try:
            import ast

            with _real_open(filename, encoding="utf-8") as f:
                tree = ast.parse(f.read())
            for n in ast.walk(tree):
                if isinstance(n, (ast.With, ast.AsyncWith, ast.Try)):
                    r.update(range(n.lineno, max(n.lineno + 1, n.body[0].lineno)))
                if isinstance(n, ast.Try) and n.finalbody:
                    r.update(range(n.finalbody[0].lineno, (n.finalbody[-1].end_lineno or n.finalbody[-1].lineno) + 1))
        except (OSError, SyntaxError, ValueError):
            pass
        _noinj[filename] = r
    return r


def on_stack(names):
    """The outermost running function of one of these calkulate source files, or None."""
    fr, found = sys._getframe(2), None
    while fr is not None:
        c = fr.f_code.co_filename
        if c.startswith(env.PKG) and os.path.basename(c) in names:
            found = fr
        fr = fr.f_back
    return found


class World:
    def __init__(self, root, spec=None):
        spec = spec or {}
        self.root = os.path.realpath(root)
        self.spec = spec
        self.faults = spec.get("faults", [])
        for f in self.faults:
            f["fired"] = 0
        self.inject = spec.get("inject", [])
        for f in self.inject:
            f["fired"] = 0
        self.chunks = spec.get("chunks") or [0]
        self.wchunks = spec.get("wchunks") or [0]
        self.bufsize = spec.get("bufsize") or 8192
        self.max_lines = spec.get("max_lines", 6_000_000)
        self.max_io = spec.get("max_io", 400_000)
        self.monitor = spec.get("monitor", True)
        self.handles = []
        self.gc_closed = []
        self.opens = []  # (op, tid, rel, mode, ordinal-in-op)
        self.bypass = []
        self.footprint = []
        self.stats = {}
        self.dead = False
        self.op = {}  # per thread: current op index
        self.open_counts = {}
        self.nhandles = 0
        self.lines = 0
        self.op_lines = {}
        self.op_ios = {}
        self.op_opens = {}
        self.since = {}
        self.since_frame = {}
        self.open_now = {}
        self.nio = 0
        self._h = hashlib.sha256()
        self.in_open = set()
        self.active = True
        self.after_interrupt_opens = {}
        self.interrupted = {}
        self.hooks = []
        self.fds = {}
        self.marks = {}
        self.sites = {} if spec.get("record_sites") else None

    # -- bookkeeping
    def key(self):
        s = sched.CURRENT
        if s is None:
            return 0
        t = s.tid()
        return 0 if t is None else t

    def cur_op(self):
        return self.op.get(self.key())

    def begin_op(self, i):
        k = self.key()
        self.op[k] = i
        self.op_lines[k] = 0
        self.op_ios[k] = 0
        self.op_opens[k] = 0
        self.since[k] = None
        self.interrupted[k] = None

    def end_op(self):
        self.since_frame.clear()
        self.op[self.key()] = None

    def next_handle(self):
        self.nhandles += 1
        return self.nhandles

    def _next_open(self, rel):
        k = (self.key(), self.cur_op(), rel)
        n = self.open_counts.get(k, 0)
        self.open_counts[k] = n + 1
        return n

    def log(self, *a):
        self._h.update(repr((self.key(), self.cur_op()) + a).encode())

    def digest(self):
        return self._h.hexdigest()[:16]

    def chunk(self, key, i):
        return self.chunks[(key * 7 + i) % len(self.chunks)]

    def wchunk(self, key, i):
        return self.wchunks[(key * 7 + i) % len(self.wchunks)]

    def rel(self, path):
        """Path relative to the root, or None if outside it."""
        try:
            if isinstance(path, int):
                return None
            p = os.fspath(path)
            if isinstance(p, bytes):
                p = os.fsdecode(p)
            a = os.path.abspath(p)
            if a.startswith(self.root + os.sep):
                return a[len(self.root) + 1 :]
            a = os.path.realpath(a)
            if a.startswith(self.root + os.sep):
                return a[len(self.root) + 1 :]
        except (TypeError, ValueError, OSError):
            pass
        return None

    # -- faults
    def match(self, kind, rel, ordinal, i, pos=None, n=None):
        if not self.faults or not self.active:
            return None
        op = self.cur_op()
        tid = self.key()
        for f in self.faults:
            if f["kind"] != kind or f.get("disabled"):
                continue
            if f.get("op") is not None and f["op"] != op:
                continue
            if f.get("tid") is not None and f["tid"] != tid:
                continue
            if f.get("file") is not None and f["file"] != rel:
                continue
            o = f.get("open", "all")
            if o != "all" and ordinal not in o:
                continue
            if kind == "write" and "byte" in f:
                # fault at a byte offset of this handle's stream
                if f["fired"] and not f.get("persist"):
                    continue
                if pos is not None and f["byte"] < pos + max(n, 1):
                    f["keep"] = max(0, f["byte"] - pos)
                    return f
                continue
            if kind == "read" and "byte" in f:
                if f.get("once") and f["fired"]:
                    continue
                if pos <= f["byte"] < pos + n:
                    f["keep"] = f["byte"] - pos
                    return f
                continue
            a = f.get("at", 0)
            if kind in ("read", "write") and a != "all" and i != a:
                continue
            return f
        return None

    def fire(self, f):
        f["fired"] += 1
        self.log("fault", f["kind"], f["err"])
        if f["err"] == "KI":
            self.interrupted[self.key()] = True

    # -- events
    def io_event(self, kind, rel):
        if not self.active:
            return
        if kind in ("open", "close"):
            k = self.key()
            self.marks.setdefault((k, self.op.get(k)), []).append((kind, self.op_lines.get(k, 0), rel))
        self.nio += 1
        k = self.key()
        self.op_ios[k] = self.op_ios.get(k, 0) + 1
        if self.nio > self.max_io:
            self.active = False
            raise SimLivelock(f"more than {self.max_io} I/O events")
        for h in self.hooks:
            h(kind, rel)
        if sched.CURRENT is not None:
            sched.CURRENT.point(kind, ("io:" + kind, 0))

    def line_event(self, code, line):
        if not self.active:
            return
        self.lines += 1
        k = self.key()
        n = self.op_lines.get(k, 0) + 1
        self.op_lines[k] = n
        if self.lines > self.max_lines:
            self.active = False
            raise SimLivelock(f"more than {self.max_lines} lines executed")
        if self.sites is not None:
            o = self.op.get(k)
            if o is not None:
                d = self.sites.setdefault((k, o), {}).setdefault((code.co_filename, code.co_firstlineno, line), [])
                if len(d) < 40:
                    d.append(n)
        if self.inject and not self.dead:
            op = self.op.get(k)
            for f in self.inject:
                if f["fired"] or (f.get("op") is not None and f["op"] != op):
                    continue
                if op is None or (f.get("tid") is not None and f["tid"] != k):
                    continue
                if f["kind"] == "line":
                    if n < f["n"]:
                        continue
                elif f["kind"] == "after_close":
                    # n-th line after the close of the `open`-th handle of this op (or of
                    # the `occ`-th handle for `file`)
                    s = self.since.get(k)
                    if s is None or n - s[1] < f["n"]:
                        continue
                    if f.get("open") is not None and s[0] != f["open"]:
                        continue
                    if f.get("file") is not None and (s[2] != f["file"] or s[3] != f.get("occ", 0)):
                        continue
                elif f["kind"] == "while_open":
                    s = self.open_now.get(k)
                    if s is None or n - s < f["n"]:
                        continue
                    if self.op_opens.get(k, 0) != f["open"] + 1:
                        continue
                else:
                    continue
                if line in no_inject(code.co_filename):
                    continue
                if f.get("within"):  # still in the call that read the file
                    fr = on_stack(f["within"])
                    if fr is None or f["kind"] == "after_close" and fr is not self.since_frame.get(k):
                        continue
                f["fired"] += 1
                self.since_frame.clear()
                f["where"] = f"{os.path.basename(code.co_filename)}:{code.co_name}:{line}"
                self.log("inject", f["exc"], code.co_name, line)
                if f["exc"] == "KI":
                    self.interrupted[k] = True
                raise make_exc(f["exc"])
        if sched.CURRENT is not None and code.co_name != "<module>":
            sched.CURRENT.point("line", (code.co_filename, line))

    # -- the open() seam
    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
        if isinstance(file, int) and self.active and closefd and isinstance(mode, str):
            rel = self.fds.pop(file, None)
            if rel is not None:
                rawmode = "".join(c for c in mode if c in "axrw+")
                fileio = io.FileIO(file, rawmode)
                return self._finish_open(rel, fileio, rawmode, set(mode), "b" in mode, buffering,
                                         encoding, errors, newline, mode)
        rel = self.rel(file)
        if rel is None or not self.active:
            return _real_io_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        if not isinstance(mode, str):
            raise TypeError(f"open() argument 'mode' must be str, not {type(mode).__name__}")
        modes = set(mode)
        if modes - set("axrwb+t") or len(mode) > len(modes) or ("t" in modes and "b" in modes):
            raise ValueError(f"invalid mode: {mode!r}")
        binary = "b" in modes
        if binary and (encoding is not None or errors is not None or newline is not None):
            # same refusal as io.open
            return _real_io_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        rawmode = "".join(c for c in mode if c in "axrw+")
        self.io_event("open", rel)
        k = self.key()
        if self.dead:
            raise SimCrash()
        if self.interrupted.get(k):
            self.after_interrupt_opens.setdefault(k, []).append(rel)
        n = self.open_counts.get((k, self.cur_op(), rel), 0)
        f = self.match("open", rel, n, 0)
        self.opens.append((self.cur_op(), k, rel, rawmode, n))
        if f is not None:
            self._next_open(rel)
            self.op_opens[k] = self.op_opens.get(k, 0) + 1
            self.fire(f)
            if f["err"] == "CRASH":
                self.dead = True
            raise make_exc(f["err"], file)
        self.in_open.add(_thread.get_ident())
        try:
            fileio = io.FileIO(file, rawmode, closefd=closefd, opener=opener)
        finally:
            self.in_open.discard(_thread.get_ident())
            if self.open_counts.get((k, self.cur_op(), rel), 0) == n and sys.exc_info()[0] is not None:
                self._next_open(rel)
        return self._finish_open(rel, fileio, rawmode, modes, binary, buffering, encoding,
                                 errors, newline, mode)

    def _finish_open(self, rel, fileio, rawmode, modes, binary, buffering, encoding, errors,
                     newline, mode):
        k = self.key()
        self.log("o", rel, rawmode)
        raw = SimRaw(self, rel, fileio, rawmode)
        self.op_opens[k] = self.op_opens.get(k, 0) + 1
        self.open_now[k] = self.op_lines.get(k, 0)
        return self._wrap(raw, modes, binary, buffering, encoding, errors, newline, mode)

    # -- os.open() + os.fdopen()
    def os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        rel = self.rel(path) if dir_fd is None else None
        if rel is None or not self.active or os.path.isdir(path):
            return _real_os_open(path, flags, mode, dir_fd=dir_fd)
        self.io_event("open", rel)
        k = self.key()
        if self.dead:
            raise SimCrash()
        if self.interrupted.get(k):
            self.after_interrupt_opens.setdefault(k, []).append(rel)
        n = self.open_counts.get((k, self.cur_op(), rel), 0)
        wr = bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC))
        self.opens.append((self.cur_op(), k, rel, "w" if wr else "r", n))
        f = self.match("open", rel, n, 0)
        if f is not None:
            self._next_open(rel)
            self.op_opens[k] = self.op_opens.get(k, 0) + 1
            self.fire(f)
            if f["err"] == "CRASH":
                self.dead = True
            raise make_exc(f["err"], path)
        self.in_open.add(_thread.get_ident())
        try:
            fd = _real_os_open(path, flags, mode, dir_fd=dir_fd)
        finally:
            self.in_open.discard(_thread.get_ident())
        self.fds[fd] = rel
        return fd

    def _wrap(self, raw, modes, binary, buffering, encoding, errors, newline, mode):
        line_buffering = False
        if buffering == 1:
            buffering = -1
            line_buffering = True
        if buffering < 0:
            buffering = self.bufsize
        try:
            if buffering == 0:
                if binary:
                    return raw
                raise ValueError("can't have unbuffered text I/O")
            if "+" in modes:
                buf = _Random(raw, buffering)
            elif modes & set("wax"):
                buf = _Writer(raw, buffering)
            else:
                buf = _Reader(raw, buffering)
            if binary:
                return buf
            text = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering)
            text.mode = mode
            return text
        except BaseException:
            raw.close()
            raise


class _Reader(io.BufferedReader):
    pass


class _Writer(io.BufferedWriter):
    pass


class _Random(io.BufferedRandom):
    pass


# ---------------------------------------------------------------- installation

_TOOL = 4
_installed = False


def _on_start(code, offset):
    if code.co_filename.startswith(env.PKG) and W is not None and W.monitor:
        sys.monitoring.set_local_events(_TOOL, code, sys.monitoring.events.LINE)
    return sys.monitoring.DISABLE


def _on_line(code, line):
    w = W
    if w is not None:
        w.line_event(code, line)


_WRITE_EVENTS = {
    "os.remove", "os.rename", "os.rmdir", "os.mkdir", "os.link", "os.symlink", "os.truncate",
    "os.chmod", "os.chown", "os.utime", "os.setxattr", "os.removexattr", "shutil.rmtree",
    "shutil.move", "shutil.copyfile", "shutil.copytree", "tempfile.mkstemp",
    "tempfile.mkdtemp", "subprocess.Popen", "os.system", "os.exec", "os.posix_spawn",
    "socket.connect", "socket.bind", "os.kill", "os.putenv", "os.unsetenv",
}


def _audit(event, args):
    w = W
    if w is None or not w.active:
        return
    try:
        if event == "open":
            path, mode, flags = args
            if _thread.get_ident() in w.in_open:
                return
            if isinstance(path, int):
                return
            wr = bool((flags or 0) & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND))
            rel = w.rel(path) if isinstance(path, (str, bytes, os.PathLike)) else None
            if rel is not None:
                w.bypass.append((w.cur_op(), w.key(), rel, wr))
                w.opens.append((w.cur_op(), w.key(), rel, "w" if wr else "r", -1))
                if w.interrupted.get(w.key()):
                    w.after_interrupt_opens.setdefault(w.key(), []).append(rel)
            elif wr and w.cur_op() is not None and path not in ("/dev/null", b"/dev/null"):
                w.footprint.append((w.cur_op(), "open-write", str(path)))
        elif event in _WRITE_EVENTS and w.cur_op() is not None:
            w.footprint.append((w.cur_op(), event, str(args[:2])))
    except Exception:  # never disturb the code under test
        pass


def install(world):
    """Make `world` the active world of this process (called once, in a forked child)."""
    global W, _installed
    W = world
    builtins.open = world.open
    io.open = world.open
    os.open = world.os_open
    import numpy as np

    try:
        fo = np.lib._datasource._file_openers
        fo._load()
        fo._file_openers[None] = lambda *a, **k: world.open(*a, **k)
    except AttributeError:
        pass
    if not _installed:
        _installed = True
        sys.addaudithook(_audit)
        if world.monitor:
            m = sys.monitoring
            m.use_tool_id(_TOOL, "simcalk")
            m.register_callback(_TOOL, m.events.PY_START, _on_start)
            m.register_callback(_TOOL, m.events.LINE, _on_line)
            m.set_events(_TOOL, m.events.PY_START)


def uninstall():
    global W
    if W is not None:
        W.active = False
    W = None
    builtins.open = _real_open
    io.open = _real_io_open
    os.open = _real_os_open
