"""Interruption and scheduling of library code at its own steps (lines or bytecodes), through sys.settrace.

Both facilities see only frames of the wulfric package (its tests and module bodies excluded).
"""
import _thread
import ast
import os
import sys
import threading
import traceback

ROOT = None
_files = {}
_protected = {}


def set_root(package_dir):
    global ROOT
    ROOT = os.path.realpath(package_dir) + os.sep


def _ours(code):
    fn = code.co_filename
    r = _files.get(fn)
    if r is None:
        real = os.path.realpath(fn)
        r = real.startswith(ROOT) and (os.sep + "_tests" + os.sep) not in real
        _files[fn] = r
    return r and code.co_name != "<module>"


def protected_lines(fn):
    """Lines where Python code cannot be expected to survive an asynchronous exception: headers of with and try statements (the
    hand-over into and out of the protected region) and the bodies of finally clauses and handlers (the clean-up itself)."""
    s = _protected.get(fn)
    if s is None:
        s = set()
        try:
            tree = ast.parse(open(fn, encoding="utf-8").read())
            for node in ast.walk(tree):
                if isinstance(node, (ast.With, ast.AsyncWith)):
                    last = max([i.context_expr.end_lineno for i in node.items])
                    s.update(range(node.lineno, last + 1))
                elif isinstance(node, ast.Try):
                    s.add(node.lineno)
                    for part in (node.finalbody, *[h.body for h in node.handlers]):
                        for st in part:
                            s.update(range(st.lineno, st.end_lineno + 1))
                    for h in node.handlers:
                        s.add(h.lineno)
        except (OSError, SyntaxError):
            pass
        _protected[fn] = s
    return s


def profile(fn, limit=200000, probe=None):
    """Runs fn() and returns (outcome, events): events are (file, line) of every traced line, in order.

    With a probe, only the events at which probe() is true are places for a fault; the number of all events before the first
    other one is in the attribute profile.upto."""
    events = []
    profile.upto = None

    def local(frame, ev, arg):
        if ev == "line" and len(events) < limit:
            if probe is not None and profile.upto is None and not probe():
                profile.upto = len(events)
            events.append((frame.f_code.co_filename, frame.f_lineno))
        return local

    def glob(frame, ev, arg):
        if ev == "call" and _ours(frame.f_code):
            return local
        return None

    sys.settrace(glob)
    try:
        try:
            out = ("ok", fn())
        except BaseException as e:  # noqa: BLE001
            out = ("exc", e)
    finally:
        sys.settrace(None)
    return out, events


def candidates(events, include_protected=False):
    """Indices of events where an interruption may be placed."""
    return [i for i, (f, ln) in enumerate(events) if include_protected or ln not in protected_lines(f)]


class Injected:
    def __init__(self):
        self.fired = False
        self.where = None


def inject(fn, index, exc):
    """Runs fn() raising `exc` just before the index-th traced line event.  Returns (outcome, Injected)."""
    st = Injected()
    cnt = [0]

    def local(frame, ev, arg):
        if ev == "line":
            i = cnt[0]
            cnt[0] += 1
            if i == index:
                st.fired = True
                st.where = (frame.f_code.co_filename, frame.f_lineno, frame.f_code.co_name)
                if callable(exc):
                    exc()  # ends the process
                raise exc
        return local

    def glob(frame, ev, arg):
        if ev == "call" and not st.fired and _ours(frame.f_code):
            return local
        return None

    sys.settrace(glob)
    try:
        try:
            out = ("ok", fn())
        except BaseException as e:  # noqa: BLE001
            out = ("exc", e)
    finally:
        sys.settrace(None)
    return out, st


def pick(events, u, v, include_protected=False):
    """A fault point: a distinct source line chosen by u in [0,1), then one of its visits chosen by v."""
    cand = candidates(events, include_protected)
    if not cand:
        return None
    lines = {}
    for i in cand:
        lines.setdefault(events[i], []).append(i)
    keys = sorted(lines)
    k = keys[int(u * len(keys)) % len(keys)]
    visits = lines[k]
    return visits[int(v * len(visits)) % len(visits)]


# ---------------------------------------------------------------------------------------------- threads
class SimDeadlock(BaseException):
    pass


class StepLimit(BaseException):
    pass


_real_lock = _thread.allocate_lock
_current = None  # the active scheduler


stuck_file = None  # where a process that waits for itself leaves word


def _stuck():
    """The only thread of this process waits for a lock that it holds itself: it would wait for ever."""
    if stuck_file:
        with open(stuck_file, "w") as f:
            f.write("".join(traceback.format_stack(limit=8)[:-2])[-1500:])
    os._exit(93)


class SimLock:
    """threading.Lock that hands control to another simulated thread instead of blocking."""

    _reentrant = False

    def __init__(self):
        self._l = _real_lock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._reentrant and self._owner == me:
            self._count += 1
            return True
        sch = _current
        if sch is not None and sch.knows(me):
            while not self._l.acquire(False):
                if not blocking:
                    return False
                if timeout is not None and timeout >= 0 and not sch.others_runnable(me):
                    return False
                sch.block(me, self)
            got = True
        else:
            if blocking and (timeout is None or timeout < 0) and self._owner == me and self._l.locked() and not _thread._count():
                f = sys._getframe(1)
                while f is not None and f.f_code.co_filename == __file__:
                    f = f.f_back
                if f is not None and ROOT and os.path.realpath(f.f_code.co_filename).startswith(ROOT):
                    _stuck()
            got = self._l.acquire(blocking, timeout) if blocking else self._l.acquire(False)
        if got:
            self._owner = me
            self._count = 1
        return got

    def release(self):
        if self._reentrant:
            if self._owner != _thread.get_ident():
                raise RuntimeError("cannot release un-acquired lock")
            self._count -= 1
            if self._count:
                return
        self._owner = None
        self._l.release()
        sch = _current
        if sch is not None:
            sch.unblock(self)

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._l = _real_lock()
        self._owner = None
        self._count = 0

    # used by threading.Condition
    def _is_owned(self):
        return self._owner == _thread.get_ident() if self._reentrant else self._l.locked()


class SimRLock(SimLock):
    _reentrant = True

    def _release_save(self):
        c, self._count = self._count, 1
        self.release()
        return c

    def _acquire_restore(self, c):
        self.acquire()
        self._count = c


def patch_locks():
    """Before the library is imported: locks made by it or by its dependencies cooperate with the scheduler."""
    threading.Lock = SimLock
    threading._allocate_lock = SimLock
    threading.RLock = SimRLock


class Sched:
    """Runs the thread bodies one at a time; `decide(tid, step, runnable)` names the thread that runs next."""

    def __init__(self, bodies, decide, opcodes=False, max_steps=3000000, record=False):
        self.bodies = bodies
        self.decide = decide
        self.opcodes = opcodes
        self.max_steps = max_steps
        self.n = len(bodies)
        self.sem = [_real_lock() for _ in bodies]
        for s in self.sem:
            s.acquire()
        self.steps = [0] * self.n
        self.total = 0
        self.done = [False] * self.n
        self.blocked = [None] * self.n
        self.switches = []
        self.ident = {}
        self.main = _real_lock()
        self.main.acquire()
        self.results = [None] * self.n
        self.deadlock = False
        self.over = False
        self.record = record
        self.sites = {}  # source line -> some of the steps at which thread 0 was there

    # -- queries used by locks
    def knows(self, ident):
        return ident in self.ident

    def runnable(self):
        return [t for t in range(self.n) if not self.done[t] and self.blocked[t] is None]

    def others_runnable(self, ident):
        me = self.ident[ident]
        return any(t != me for t in self.runnable())

    def block(self, ident, lock):
        me = self.ident[ident]
        self.blocked[me] = lock
        r = self.runnable()
        if not r:
            self.deadlock = True
            self.blocked[me] = None
            raise SimDeadlock("all threads wait for locks")
        self._go(me, r[0])

    def unblock(self, lock):
        for t in range(self.n):
            if self.blocked[t] is lock:
                self.blocked[t] = None

    # -- control transfer
    def _go(self, me, to):
        if to == me:
            return
        self.sem[to].release()
        self.sem[me].acquire()

    def point(self, me):
        self.steps[me] += 1
        self.total += 1
        if self.total > self.max_steps:
            self.over = True
            raise StepLimit()
        r = self.runnable()
        if len(r) < 2:
            return
        to = self.decide(me, self.steps[me], r)
        if to != me and to in r:
            self.switches.append([me, self.steps[me], to])
            self._go(me, to)

    def _tracer(self, me):
        kind = "opcode" if self.opcodes else "line"
        fresh = getattr(self.decide, "fresh", None)  # for schedules that look at lines reached for the first time
        seen = set()

        def local(frame, ev, arg):
            if ev == kind:
                if fresh is not None:
                    at = (frame.f_code, frame.f_lasti if self.opcodes else frame.f_lineno)
                    fresh[me] = at not in seen
                    seen.add(at)
                self.point(me)
                if self.record:
                    v = self.sites.setdefault((frame.f_code.co_filename, frame.f_lineno or 0), [])
                    if len(v) < 12:
                        v.append(self.steps[me])
                    elif self.steps[me] % 3:
                        v[-1] = self.steps[me]
                    else:
                        v[4 + self.steps[me] // 3 % 7] = self.steps[me]
            return local

        def glob(frame, ev, arg):
            if ev == "call" and _ours(frame.f_code):
                if self.opcodes:
                    frame.f_trace_opcodes = True
                return local
            return None

        return glob

    def _body(self, me):
        self.ident[_thread.get_ident()] = me
        self.sem[me].acquire()
        sys.settrace(self._tracer(me))
        try:
            self.results[me] = ("ok", self.bodies[me]())
        except BaseException as e:  # noqa: BLE001
            self.results[me] = ("exc", e)
        finally:
            sys.settrace(None)
            self.done[me] = True
            r = self.runnable()
            if r:
                self.sem[r[0]].release()
            else:
                self.main.release()

    def run(self, first=0):
        global _current
        _current = self
        ts = [threading.Thread(target=self._body, args=(i,), daemon=True) for i in range(self.n)]
        for t in ts:
            t.start()
        self.sem[first].release()
        self.main.acquire()
        for t in ts:
            t.join()
        _current = None
        return self.results


def decider(spec, rng, nominal):
    """Schedules: list (replay), rand, pct (few preemptions), rr (lock step)."""
    mode = spec["mode"]
    if mode == "list":
        table = {(a, b): c for a, b, c in spec["switches"]}
        return lambda me, step, r: table.get((me, step), me)
    if mode == "rand":
        p = spec["p"]
        return lambda me, step, r: rng.choice(r) if rng.random() < p else me
    if mode == "rr":
        q = spec["q"]
        skew = spec.get("skew", 0)

        def rr(me, step, r):
            if step <= skew and me == 0:
                return me
            if step % q:
                return me
            return r[(r.index(me) + 1) % len(r)] if me in r else r[0]

        return rr
    if mode == "firsts":  # the threads take turns, one source line that is new to them at a time
        p = spec["p"]

        def firsts(me, step, r):
            if not firsts.fresh[me] or (p < 1 and rng.random() >= p):
                return me
            return r[(r.index(me) + 1) % len(r)] if me in r else r[0]

        firsts.fresh = {}
        return firsts
    if mode == "pct":
        pts = set()
        for _ in range(spec["k"]):
            t = rng.randrange(len(nominal))
            n, sites = nominal[t]
            if sites and rng.random() < spec.get("by_line", 0):  # every source line alike, however often it is passed
                pts.add((t, rng.choice(rng.choice(sites))))
            else:
                pts.add((t, 1 + rng.randrange(max(1, n))))

        def pct(me, step, r):
            if (me, step) in pts:
                o = [t for t in r if t != me]
                return rng.choice(o) if o else me
            return me

        return pct
    raise ValueError(mode)
