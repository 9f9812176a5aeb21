"""Python side of the simulated operating-system boundary (see simos.c)."""
import ctypes
import errno
import mmap
import os

OPS = ["open", "read", "write", "close", "fsync", "trunc", "rename", "unlink", "mkdir"]
ACTIONS = ["none", "errno", "short", "eintr", "crash_before", "crash_after", "torn_crash", "signal", "eof", "rename"]


class Ev(ctypes.Structure):
    _fields_ = [("op", ctypes.c_int32), ("fd", ctypes.c_int32), ("arg", ctypes.c_int64), ("ret", ctypes.c_int64),
                ("err", ctypes.c_int32), ("action", ctypes.c_int32)]


MAXEV = 20000


class Shared(ctypes.Structure):
    _fields_ = [("n", ctypes.c_int32), ("total", ctypes.c_int32), ("fired", ctypes.c_int32 * 16), ("ev", Ev * MAXEV)]


class SimOS:
    """Handle on the shim of this process.  The event buffer is shared with forked children, so that a crash keeps the log."""

    def __init__(self):
        self.lib = ctypes.CDLL(None)
        self.ok = hasattr(self.lib, "simos_present")
        if not self.ok:
            raise RuntimeError("simos shim is not loaded")
        self.buf = mmap.mmap(-1, ctypes.sizeof(Shared))
        self.shared = Shared.from_buffer(self.buf)
        self.lib.simos_shared(ctypes.c_void_p(ctypes.addressof(self.shared)))
        self.lib.simos_clock_now.restype = ctypes.c_int64
        self.lib.simos_clock_reads.restype = ctypes.c_int64

    def reset(self):
        self.lib.simos_reset()

    def prefix(self, path):
        self.lib.simos_prefix(os.fsencode(path))

    def rule(self, ops, nth=0, times=1, action="errno", arg=0):
        """The nth (and following times-1) call among `ops` gets `action`."""
        mask = 0
        for o in ops:
            mask |= 1 << OPS.index(o)
        if isinstance(arg, str):
            arg = getattr(errno, arg)
        return self.lib.simos_rule(mask, int(nth), int(times), ACTIONS.index(action), ctypes.c_int64(int(arg)))

    def rules(self, rules):
        self.lib.simos_clear_rules()
        for r in rules:
            arg = r.get("arg", 0)
            if r["action"] == "rename":
                pass
            self.rule(r["ops"], r.get("nth", 0), r.get("times", 1), r["action"], arg)

    def rename_pair(self, i, a, b):
        self.lib.simos_rename_pair(i, os.fsencode(a), os.fsencode(b))

    def blksize(self, n):
        """Block size reported for tracked files: the buffer size Python chooses for them."""
        self.lib.simos_blksize(int(n))

    def enable(self, on=True):
        self.lib.simos_enable(1 if on else 0)

    def clock(self, ns, deltas):
        arr = (ctypes.c_int64 * max(1, len(deltas)))(*deltas)
        self.lib.simos_clock(1, ctypes.c_int64(ns), arr, len(deltas))

    def clock_off(self):
        self.lib.simos_clock(0, ctypes.c_int64(0), None, 0)

    def clock_now(self):
        return self.lib.simos_clock_now()

    def clock_reads(self):
        return self.lib.simos_clock_reads()

    def entropy(self, seed):
        self.lib.simos_random(1, ctypes.c_uint64(seed))

    def events(self):
        return [
            {"op": OPS[e.op], "arg": e.arg, "ret": e.ret, "err": errno.errorcode.get(e.err, e.err) if e.err else "",
             "action": ACTIONS[e.action]}
            for e in self.shared.ev[: self.shared.n]
        ]

    def count(self, *ops):
        idx = [OPS.index(o) for o in ops]
        return sum(1 for e in self.shared.ev[: self.shared.n] if not idx or e.op in idx)

    def fired(self):
        return {ACTIONS[i]: self.shared.fired[i] for i in range(len(ACTIONS)) if self.shared.fired[i]}


class Crashed(Exception):
    pass
