"""Threads under a controlled scheduler: one runs at a time, and who runs next is the explorer's choice."""
import threading

from mc.fakepg import Crash, Stop

import psycopg2.errors as pge


class TooLong(Exception):
    pass


class Thread:
    def __init__(self, sim, name, fn):
        self.sim, self.name, self.fn = sim, name, fn
        self.sem = threading.Semaphore(0)
        self.state = 'ready'        # ready, waiting (for a condition), idle (in select), done
        self.ready_when = None
        self.ops = 0
        self.error = None
        self.crash_at = None
        self.crashed = False
        self.timed_out_at = None
        self.conns = []
        self.result = None
        self.thread = None

    def start(self):
        self.thread = threading.Thread(target=self._main, daemon=True)
        self.thread.start()

    def _main(self):
        self.sim.local.me = self
        self.sem.acquire()
        try:
            if not self.sim.stopping:
                self.result = self.fn()
        except Stop:
            pass
        except Crash:
            self.crashed = True
        except BaseException as e:      # noqa: B902
            self.error = e
        for c in self.conns:
            self.sim.server.kill(c)     # the process is gone, and its connection with it
        self.state = 'done'
        self.sim.switch(self)


class Sim:
    def __init__(self, ch, max_ops=600):
        self.ch = ch
        self.threads = []
        self.local = threading.local()
        self.main = threading.Semaphore(0)
        self.current = None
        self.stopping = False
        self.trace = []
        self.ops = 0
        self.max_ops = max_ops
        self.server = None
        self.broken = None
        self.waiting_on = {}

    def me(self):
        return getattr(self.local, 'me', None)

    def spawn(self, name, fn):
        t = Thread(self, name, fn)
        self.threads.append(t)
        t.start()
        return t

    # -- called in the threads ----------------------------------------------------------------------
    def point(self, conn, label, local=False):
        """about to do something: others may go first"""
        t = self.me()
        if t is None:
            return
        if self.stopping:
            raise Stop()
        if conn is not None and conn.dead:
            raise Crash()
        self.ops += 1
        t.ops += 1
        if self.ops > self.max_ops:
            self.broken = 'endless'
            self.stopping = True
            raise Stop()
        if not local:
            self.yield_(t, label)
        if t.crash_at == t.ops:
            for c in t.conns:
                self.server.kill(c)
            raise Crash()

    def yield_(self, t, label):
        nxt = self.pick(t, label)
        if nxt is t:
            return
        self.current = nxt
        nxt.sem.release()
        t.sem.acquire()
        if self.stopping:
            raise Stop()

    def runnable(self):
        out = []
        for t in self.threads:
            if t.state == 'ready' or (t.state in ('waiting', 'idle') and t.ready_when()):
                out.append(t)
        return out

    def pick(self, t, label):
        """t is at a point and could go on; choose"""
        rs = self.runnable()
        others = [x for x in rs if x is not t]
        if not others:
            return t
        nxt = self.ch(f'{t.name}@{label[:24]}', [t] + others)
        if nxt is not t:
            self.trace.append(f'{t.name} stops before "{label[:30]}", {nxt.name} goes on')
        return nxt

    def switch(self, t):
        """t cannot go on: hand over to some other thread, or to the driver"""
        rs = [x for x in self.runnable() if x is not t] if not self.stopping else []
        if not rs:
            self.current = None
            self.main.release()
            return
        nxt = self.ch(f'next after {t.name}', rs, free=True) if len(rs) > 1 else rs[0]
        self.current = nxt
        nxt.sem.release()

    def wait(self, t, state, cond):
        t.state, t.ready_when = state, cond
        while True:
            self.switch(t)
            t.sem.acquire()
            if self.stopping:
                raise Stop()
            if t.ready_when():
                break
        t.state, t.ready_when = 'ready', None

    def wait_for_tx(self, conn, other):
        t = self.me()
        if t is None:
            raise RuntimeError('would wait for ever')
        self.waiting_on[t] = other
        x, seen = other, set()
        while x is not None and x not in seen:
            seen.add(x)
            owner = next((o for o in self.threads if x.conn in o.conns), None)
            if owner is t:
                del self.waiting_on[t]
                raise pge.DeadlockDetected('deadlock detected')
            x = self.waiting_on.get(owner)
        try:
            self.wait(t, 'waiting', lambda: other not in self.server.txs or not other.rows)
        finally:
            self.waiting_on.pop(t, None)

    def tx_ended(self, tx):
        pass

    def select(self, r, w, x, timeout=None):
        t = self.me()
        conns = [c for c in r if hasattr(c, 'readable')]
        self.ops += 1
        if self.stopping:
            raise Stop()
        if self.ops > self.max_ops:
            self.broken = 'endless'
            self.stopping = True
            raise Stop()
        if any(c.dead for c in conns):
            raise Crash()
        if not any(c.readable() for c in conns):
            t.timeout = False
            self.wait(t, 'idle', lambda: any(c.readable() for c in conns) or t.timeout)
        ready = [c for c in conns if c.readable()]
        return (ready, [], [])

    # -- the driver ------------------------------------------------------------------------------------
    def run(self, on_idle=None):
        """until nothing can happen any more"""
        while True:
            rs = self.runnable()
            if rs:
                nxt = self.ch('start', rs, free=True) if len(rs) > 1 else rs[0]
                self.current = nxt
                nxt.sem.release()
                self.main.acquire()
                if self.stopping:
                    break
                continue
            # everyone is idle: let each select time out once after the last change
            idle = [t for t in self.threads if t.state == 'idle' and t.timed_out_at != self.server.changes]
            if not idle:
                break
            t = idle[0]
            t.timed_out_at = self.server.changes
            t.timeout = True

    def stop(self):
        self.stopping = True
        for t in self.threads:
            if t.state != 'done':
                t.sem.release()
        for t in self.threads:
            t.thread.join(5)
            if t.thread.is_alive():
                raise RuntimeError('a simulated thread does not end')


class Lock:
    """threading.Lock for code under the scheduler (and for code outside it)"""
    current = None      # the running simulation

    def __init__(self):
        self.owner = None

    def acquire(self, blocking=True, timeout=-1):
        sim = Lock.current
        t = sim.me() if sim else None
        if self.owner is not None:
            if not blocking or t is None:
                return False
            sim.wait(t, 'waiting', lambda: self.owner is None)
        self.owner = t or True
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


class RLock(Lock):
    def __init__(self):
        super().__init__()
        self.n = 0

    def acquire(self, blocking=True, timeout=-1):
        t = Lock.current.me() if Lock.current else True
        if self.owner is not None and self.owner is t:
            self.n += 1
            return True
        if super().acquire(blocking, timeout):
            self.n = 1
            return True
        return False

    def release(self):
        self.n -= 1
        if self.n == 0:
            super().release()
