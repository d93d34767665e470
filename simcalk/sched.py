"""Deterministic thread scheduler.

Real threads run the real code, but only one at a time: each parks on its own gate and
is released by the scheduler.  Yield points are calkulate's source lines (sys.monitoring
LINE events), simulated I/O events and operations on calkulate's own locks.  Which thread
runs next is a pure function of the policy in the plan, so a plan is one execution; every
switch is recorded as (step, thread) and that list is itself a policy ("explicit").
"""

import _thread
import random
import threading
import time
import zlib

from . import hot

CURRENT = None  # the active Scheduler of this process, if any


class SimDeadlock(BaseException):
    pass


class Policy:
    def __init__(self, spec, n):
        self.spec = spec
        self.n = n
        self.rng = random.Random(spec.get("seed", 0))
        k = spec["kind"]
        self.kind = k
        if k == "pct":
            pr = list(range(n))
            self.rng.shuffle(pr)
            self.prio = {t: pr[t] + 1000 for t in range(n)}
            self.changes = sorted(
                int(self.rng.random() ** 2 * spec.get("len", 5000))
                for _ in range(spec.get("depth", 3))
            )
            self.low = 0
        elif k == "explicit":
            self.sw = {int(s): int(t) for s, t in spec["switches"]}
        elif k in ("sites", "hot"):
            self.salt = self.rng.randrange(1 << 30)
            self.hot = hot.lines() if k == "hot" else None
            self.memo = {}

    def choose(self, step, cur, runnable, kind, where):
        """Next thread; `cur` may no longer be runnable."""
        k = self.kind
        alive = cur in runnable
        others = [t for t in runnable if t != cur]
        if not others:
            return cur
        if k == "explicit":
            t = self.sw.get(step)
            if t is not None and t in runnable:
                return t
            return cur if alive else others[0]
        if not alive:
            if k == "pct":
                return max(others, key=lambda t: self.prio[t])
            if k == "serial":
                return min(others)
            return self.rng.choice(others)
        if k == "serial":
            return cur
        if k == "random":
            return self.rng.choice(others) if self.rng.random() < self.spec["p"] else cur
        if k == "io":  # switch (mostly) at I/O events only
            p = self.spec.get("p", 0.8) if kind != "line" else 0.0
            return self.rng.choice(others) if self.rng.random() < p else cur
        if k == "sites":  # switch nearly always at a random subset of source sites
            key = f"{self.salt}:{where[0].rsplit('/', 1)[-1]}:{where[1]}" if where else f"{self.salt}:{kind}"
            r = zlib.crc32(key.encode()) / 2**32
            if r < self.spec["frac"] and self.rng.random() < self.spec.get("p", 0.7):
                return self.rng.choice(others)
            return cur
        if k == "hot":  # the same among sites that may touch shared state
            on = self.memo.get(where)
            if on is None:
                on = False
                if where and kind == "line":
                    h = self.hot.get(where)
                    if h:
                        key = f"{self.salt}:{where[0].rsplit('/', 1)[-1]}:{where[1]}"
                        on = zlib.crc32(key.encode()) / 2**32 < self.spec["fg" if h == "global" else "fw"]
                self.memo[where] = on
            if on and self.rng.random() < self.spec.get("p", 0.9):
                return self.rng.choice(others)
            return cur
        if k == "rr":  # quantum round robin
            if step % self.spec.get("q", 1) == 0:
                nxt = [t for t in runnable if t > cur] or runnable
                return nxt[0]
            return cur
        if k == "pct":
            while self.changes and step >= self.changes[0]:
                self.changes.pop(0)
                self.prio[cur] = self.low
                self.low -= 1
            return max(runnable, key=lambda t: self.prio[t])
        raise ValueError(k)


class Scheduler:
    def __init__(self, policy, n, stuck_s=60.0):
        self.policy = Policy(policy, n)
        self.n = n
        self.gates = [_thread.allocate_lock() for _ in range(n)]
        for g in self.gates:
            g.acquire()
        self.main_gate = _thread.allocate_lock()
        self.main_gate.acquire()
        self.state = ["ready"] * n  # ready | blocked | done
        self.waiting = {}
        self.step = 0
        self.switches = []
        self.idents = {}
        self.stuck_s = stuck_s
        self.deadlock = False
        self.trace = []
        self.results = [None] * n

    def tid(self):
        return self.idents.get(_thread.get_ident())

    def runnable(self):
        return [t for t in range(self.n) if self.state[t] == "ready"]

    def point(self, kind="line", where=None):
        tid = self.idents.get(_thread.get_ident())
        if tid is None:
            return
        self.step += 1
        nxt = self.policy.choose(self.step, tid, self.runnable(), kind, where)
        if nxt != tid:
            self._switch(tid, nxt, where)

    def _switch(self, tid, nxt, where=None):
        self.switches.append((self.step, nxt))
        if len(self.trace) < 100000:
            self.trace.append((tid, nxt, where[0].rsplit("/", 1)[-1] + ":" + str(where[1]) if where else None))
        self.gates[nxt].release()
        self.gates[tid].acquire()
        if self.deadlock:
            raise SimDeadlock()

    def block(self, on):
        """Current thread cannot proceed (lock held by someone else)."""
        tid = self.tid()
        self.state[tid] = "blocked"
        self.waiting[tid] = on
        self.step += 1
        r = self.runnable()
        if not r:
            self.deadlock = True
            self.state[tid] = "ready"
            raise SimDeadlock()
        self._switch(tid, self.policy.choose(self.step, tid, r, "lock", None))

    def unblock(self, on):
        for t, o in list(self.waiting.items()):
            if o is on:
                del self.waiting[t]
                self.state[t] = "ready"

    def _finish(self, tid):
        self.state[tid] = "done"
        self.step += 1
        r = self.runnable()
        if r:
            nxt = self.policy.choose(self.step, tid, r, "end", None)
            self.switches.append((self.step, nxt))
            self.gates[nxt].release()
        else:
            blocked = [t for t in range(self.n) if self.state[t] == "blocked"]
            if blocked:  # everyone left waits for a lock nobody will release
                self.deadlock = True
                self.state[blocked[0]] = "ready"
                self.waiting.pop(blocked[0], None)
                self.gates[blocked[0]].release()
            else:
                self.main_gate.release()

    def run(self, fns):
        global CURRENT

        def body(t, fn):
            self.gates[t].acquire()
            try:
                self.results[t] = ("ok", fn())
            except SimDeadlock:
                self.results[t] = ("deadlock", None)
            except BaseException as e:  # noqa: BLE001
                self.results[t] = ("exc", e)
            finally:
                self._finish(t)

        threads = [
            threading.Thread(target=body, args=(t, fn), daemon=True)
            for t, fn in enumerate(fns)
        ]
        for t, th in enumerate(threads):
            th.start()
            self.idents[th.ident] = t
        CURRENT = self
        try:
            first = self.policy.choose(0, -1, self.runnable(), "start", None)
            self.switches.append((0, first))
            self.gates[first].release()
            last, when = -1, time.monotonic()
            while not self.main_gate.acquire(timeout=1.0):
                if self.step != last:
                    last, when = self.step, time.monotonic()
                elif time.monotonic() - when > self.stuck_s:
                    raise RuntimeError("scheduler stuck: thread blocked outside the simulation")
            for th in threads:
                th.join(5)
        finally:
            CURRENT = None
        return self.results


class SimLock:
    """Lock/RLock used by calkulate code; cooperative under the scheduler."""

    def __init__(self, reentrant=False):
        self.reentrant = reentrant
        self.owner = None
        self.count = 0
        self.real = _thread.allocate_lock()

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        s = CURRENT
        if self.reentrant and self.owner == me:
            self.count += 1
            return True
        if s is not None and s.tid() is not None:
            s.point("lock", None)
            while self.owner is not None:
                if not blocking or timeout == 0:
                    return False
                s.block(self)
            self.owner, self.count = me, 1
            return True
        if self.owner is not None and not blocking:
            return False
        t0 = time.monotonic()
        while self.owner is not None:
            if timeout >= 0 and time.monotonic() - t0 > timeout:
                return False
            if self.owner == me:
                raise SimDeadlock()
            time.sleep(0.001)
        self.owner, self.count = me, 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if self.count <= 0:
            self.owner = None
            if CURRENT is not None:
                CURRENT.unblock(self)

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()
