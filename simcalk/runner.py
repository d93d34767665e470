"""Forked execution: every simulated run and every oracle evaluation gets its own process,
forked from the pristine parent that has imported calkulate but never called it."""

import os
import pickle
import select
import shutil
import signal
import sys
import time
import traceback


class ChildError(Exception):
    pass


class ChildTimeout(Exception):
    pass


_COV_TOOL = 5


def _cov_start():
    """Record which source lines of calkulate this child executes (each line once)."""
    from . import env

    m = sys.monitoring
    seen = set()

    def start(code, offset):
        if code.co_filename.startswith(env.PKG):
            m.set_local_events(_COV_TOOL, code, m.events.LINE)
        return m.DISABLE

    def line(code, n):
        seen.add((code.co_filename[len(env.PKG):].lstrip("/"), n))
        return m.DISABLE

    try:
        m.use_tool_id(_COV_TOOL, "simcalk-cov")
        m.register_callback(_COV_TOOL, m.events.PY_START, start)
        m.register_callback(_COV_TOOL, m.events.LINE, line)
        m.set_events(_COV_TOOL, m.events.PY_START)
    except ValueError:
        pass
    return seen


class Ctx:
    """What a property's run() gets: scratch directories and forked evaluation."""

    def __init__(self, scratch):
        self.scratch = scratch
        self.n = 0
        self.memo = {}
        self.forks = 0
        self.cov = set()
        self.sim_steps = 0
        self.timeout = 150.0

    def newdir(self):
        # always the same name, so that nothing can depend on it; wiped in between
        self.n += 1
        d = os.path.join(self.scratch, "run")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        return d

    def fork(self, fn, *args, timeout=None):
        """Run fn(dir, *args) in a fresh child with cwd = an empty directory."""
        d = self.newdir()
        self.forks += 1
        timeout = timeout or self.timeout
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                os.setsid()
                signal.signal(signal.SIGINT, signal.default_int_handler)
                os.chdir(d)
                devnull = os.open(os.devnull, os.O_RDWR)
                os.dup2(devnull, 0)
                os.dup2(devnull, 1)
                if not os.environ.get("SIMCALK_DEBUG"):
                    os.dup2(devnull, 2)
                cov = _cov_start()
                try:
                    out = ("ok", fn(d, *args), cov)
                except BaseException as e:  # noqa: BLE001
                    out = ("err", f"{type(e).__name__}: {e}\n{traceback.format_exc()}", cov)
                try:
                    from . import world

                    world.uninstall()
                except Exception:
                    pass
                try:
                    data = pickle.dumps(out, protocol=pickle.HIGHEST_PROTOCOL)
                except Exception as e:
                    data = pickle.dumps(("err", f"unpicklable result: {e!r}", cov))
                off = 0
                while off < len(data):
                    off += os.write(w, data[off : off + 65536])
                code = 0
            except BaseException:  # noqa: BLE001
                pass
            finally:
                os._exit(code)
        os.close(w)
        chunks = []
        end = time.monotonic() + timeout
        timed_out = False
        while True:
            left = end - time.monotonic()
            if left <= 0:
                timed_out = True
                break
            rl, _, _ = select.select([r], [], [], min(left, 5.0))
            if rl:
                b = os.read(r, 1 << 20)
                if not b:
                    break
                chunks.append(b)
        os.close(r)
        if timed_out:
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
        try:
            os.kill(pid, 0) if timed_out else None
        except OSError:
            pass
        _, status = os.waitpid(pid, 0)
        shutil.rmtree(d, ignore_errors=True)
        if timed_out:
            raise ChildTimeout(f"{getattr(fn, '__name__', fn)} exceeded {timeout} s")
        if not chunks:
            raise ChildError(f"{getattr(fn, '__name__', fn)} died with status {status}")
        kind, val, cov = pickle.loads(b"".join(chunks))
        self.cov |= cov
        if kind == "err":
            raise ChildError(val)
        return val

    def oracle(self, fn, *args):
        """Memoised pristine evaluation."""
        key = (fn.__name__, pickle.dumps(args))
        if key not in self.memo:
            if len(self.memo) > 5000:
                self.memo.clear()
            self.memo[key] = self.fork(fn, *args)
        return self.memo[key]
