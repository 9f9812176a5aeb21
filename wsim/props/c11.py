"""Process-wide settings are left as they were found."""
import atexit
import builtins
import copyreg
import decimal
import faulthandler
import gc
import json
import locale
import logging
import math
import os
import random
import resource
import signal
import socket
import sys
import threading
import time
import tracemalloc
import warnings

import numpy as np

from . import common as P
from .. import calls as K
from .. import trace
from ..canon import digest

TIMEOUT = 150
EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "RuntimeError": RuntimeError}
SETTINGS = ["seterr", "filter-error", "filter-ignore", "print", "decimal", "recursion", "cwd", "env", "signal", "seed", "umask", "stdout", "switch", "excepthook", "gc", "showwarning", "logging", "locale", "itimer", "errcall", "filter-always", "template", "hooks"]


def warm():
    K.warm_plotly()


def gen(rng, tier, index):
    structs = [K.structure(rng, max_atoms=6) for _ in range(rng.choice([1, 2]))]
    calls = []
    for _ in range(rng.choice([1, 2, 4, 6])):
        r = rng.random()
        if r < 0.12:
            c = {"f": "!io", "s": rng.randrange(len(structs)), "sd": None, "a": {"what": rng.choice(["dump", "dump-nodir", "load", "load-missing", "load-default", "save", "save-nodir", "auto-figure"])}}
        else:
            c = K.pick(rng, structs, slow=0.03)
        o = {"c": c}
        if rng.random() < 0.45:
            o.update(exc=rng.choice(sorted(EXC)), u=rng.random(), v=rng.random())
        calls.append(o)
    return {"structs": structs, "calls": calls, "settings": rng.sample(SETTINGS, rng.choice([0, 1, 3, 6])), "seed": rng.randrange(1 << 30)}


def handler(*a):
    raise SystemExit("signal")


class Stream:
    def __init__(self, f):
        self.f = f

    def __getattr__(self, k):
        return getattr(self.f, k)


def apply(names, seed, ctx):
    for s in names:
        if s == "seterr":
            np.seterr(divide="raise", over="ignore", under="warn", invalid="ignore")
        elif s == "filter-error":
            warnings.simplefilter("error")
        elif s == "filter-ignore":
            warnings.filterwarnings("ignore", message="nothing", module="nowhere")
        elif s == "print":
            np.set_printoptions(precision=3, suppress=True, threshold=7, linewidth=60, sign="+")
        elif s == "decimal":
            decimal.getcontext().prec = 5
        elif s == "recursion":
            sys.setrecursionlimit(2500 + seed % 100)
        elif s == "cwd":
            os.chdir(ctx.scratch)
        elif s == "env":
            os.environ["WSIM_TEST"] = str(seed)
            os.environ["OMP_NUM_THREADS"] = "2"
        elif s == "signal":
            signal.signal(signal.SIGINT, handler)
            signal.signal(signal.SIGTERM, handler)
            signal.signal(signal.SIGUSR1, signal.SIG_IGN)
        elif s == "seed":
            random.seed(seed)
            np.random.seed(seed % 2**31)
        elif s == "umask":
            os.umask(0o027)
        elif s == "stdout":
            sys.stdout = Stream(sys.stdout)
            sys.stderr = Stream(sys.stderr)
        elif s == "switch":
            sys.setswitchinterval(0.01)
        elif s == "excepthook":
            sys.excepthook = lambda *a: None
            threading.excepthook = lambda *a: None
        elif s == "gc":
            gc.disable()
            gc.set_threshold(555, 9, 8)
        elif s == "showwarning":
            warnings.showwarning = lambda *a, **k: None
        elif s == "logging":
            logging.basicConfig(level=logging.DEBUG, stream=open(os.devnull, "w"))
            logging.disable(logging.INFO)
        elif s == "locale":
            locale.setlocale(locale.LC_ALL, ["C", "C.utf8", "POSIX"][seed % 3])
        elif s == "itimer":
            signal.setitimer(signal.ITIMER_REAL, 5000, 5000)
        elif s == "errcall":
            np.seterrcall(lambda *a: None)
            np.seterr(all="call")
        elif s == "filter-always":
            warnings.simplefilter("always")
        elif s == "template":
            import plotly.io as pio

            pio.templates.default = "plotly_dark"
        elif s == "hooks":
            sys.displayhook = lambda x: None
            sys.unraisablehook = lambda x: None
            sys.breakpointhook = lambda *a: None
            atexit.register(handler)
            atexit.unregister(handler)


def patched():
    """The functions of modules everyone uses (a library may add, but not exchange)."""
    out = {}
    for m in (builtins, os, math, json, time, random, np, np.linalg, warnings, logging, sys.modules.get("spglib")):
        for k, v in list(vars(m).items()) if m else ():
            if callable(v) or isinstance(v, (int, float, str)):
                out[f"{m.__name__}.{k}"] = id(v)
    return out


def snapshot():
    m = os.umask(0)
    os.umask(m)
    d = {
        "warning filters": [repr(f) for f in warnings.filters], "showwarning": id(warnings.showwarning), "formatwarning": id(warnings.formatwarning),
        "numpy error handling": repr(np.geterr()), "numpy error callback": repr(np.geterrcall()), "numpy print options": repr(np.get_printoptions()),
        "working directory": os.getcwd(), "environment": dict(os.environ), "locale": locale.setlocale(locale.LC_ALL, None),
        "signal handlers": [repr(signal.getsignal(s)) for s in sorted(signal.valid_signals())],
        "recursion limit": sys.getrecursionlimit(), "decimal context": repr(decimal.getcontext()),
        "standard streams": [id(sys.stdin), id(sys.stdout), id(sys.stderr), id(sys.__stdout__), bool(sys.stdout.closed), bool(sys.stderr.closed)],
        "random": digest(repr(random.getstate())), "numpy.random": digest(repr([x.tolist() if hasattr(x, "tolist") else x for x in np.random.get_state()])),
        "umask": m, "switch interval": sys.getswitchinterval(), "excepthook": [id(sys.excepthook), id(threading.excepthook), id(sys.displayhook)],
        "garbage collector": [gc.isenabled(), list(gc.get_threshold()), gc.get_debug()], "module search path": list(sys.path),
        "import hooks": [len(sys.meta_path), len(sys.path_hooks)], "logging": [logging.root.level, len(logging.root.handlers), logging.root.manager.disable],
        "socket timeout": socket.getdefaulttimeout(), "trace": [repr(sys.getprofile())], "threads": threading.active_count(), "argv": list(sys.argv),
        "logging of warnings": [len(logging.getLogger("py.warnings").handlers), id(logging.lastResort), logging.raiseExceptions, logging.getLogger().disabled],
        "timer": [signal.getitimer(k)[0] > 0 for k in (signal.ITIMER_REAL, signal.ITIMER_VIRTUAL, signal.ITIMER_PROF)], "signal mask": sorted(int(x) for x in signal.pthread_sigmask(signal.SIG_BLOCK, [])),
        "limits": [resource.getrlimit(getattr(resource, k)) for k in ("RLIMIT_NOFILE", "RLIMIT_CORE", "RLIMIT_STACK", "RLIMIT_AS", "RLIMIT_FSIZE")], "priority": os.getpriority(os.PRIO_PROCESS, 0),
        "processors": sorted(os.sched_getaffinity(0)), "stack size": threading.stack_size(), "hooks": [id(sys.unraisablehook), id(sys.breakpointhook)], "exit functions": atexit._ncallbacks(),
        "pickling table": len(copyreg.dispatch_table), "tracing": [faulthandler.is_enabled(), tracemalloc.is_tracing(), repr(sys.gettrace())], "time zone": list(time.tzname),
        "numpy buffer": np.getbufsize(), "process group": os.getpgid(0), "children": sorted(x for x in os.listdir("/proc/self/task")),
        "int digits": sys.get_int_max_str_digits(), "dont_write_bytecode": sys.dont_write_bytecode,
    }
    if "plotly.io" in sys.modules:
        import plotly.io as pio

        d["plotly defaults"] = [str(pio.templates.default), str(pio.renderers.default)]
    return d


def go(w, c, ctx, plan):
    """Calls on files and figures that the catalogue does not have."""
    import wulfric as W

    if c["f"] != "!io":
        return K.invoke(w, c)
    k = c["a"]["what"]
    d = os.path.join(ctx.scratch, "io")
    if k.startswith("dump"):
        return W.io.dump_poscar(w.cell(c), w.atoms(c), os.path.join(d, "no", "x") if k == "dump-nodir" else os.path.join(d, "P"))
    if k == "load":
        return W.io.load_poscar(d)
    if k == "load-missing":
        return W.io.load_poscar(os.path.join(d, "missing"))
    if k == "load-default":
        return W.io.load_poscar()
    pe = W.PlotlyEngine()
    if k == "auto-figure":
        pe.plot_points([[0, 0, 0], [1, 1, 1]])
    else:
        pe.plot_points([[0, 0, 0], [1, 1, 1]], legend_group="a")
    return pe.save(os.path.join(d, "no", "x") if k == "save-nodir" else os.path.join(d, "x.html"), kwargs_write_html={"include_plotlyjs": False, "div_id": "x"})


def uses_random(c):
    return c["f"] in ("figure",) or (c["f"] == "!io" and ("save" in c["a"]["what"] or "figure" in c["a"]["what"]))


def run(plan, ctx):
    w = K.World(plan["structs"])
    w.prepare([o["c"] for o in plan["calls"] if o["c"]["f"] != "!io"])
    os.makedirs(os.path.join(ctx.scratch, "io"))
    with open(os.path.join(ctx.scratch, "io", "POSCAR"), "w") as f:
        f.write(K.POSCAR[0])
    apply(plan["settings"], plan["seed"], ctx)
    out = []
    for o in plan["calls"]:
        c = o["c"]
        at = None
        if "exc" in o:
            at = o.get("at")
            if at is None:
                r = ctx.fork(lambda: trace.pick(trace.profile(lambda: go(w, c, ctx, plan))[1], o["u"], o["v"]))
                at = r[1] if r[0] == "ok" else None
        s0, p0 = snapshot(), patched()
        if at is not None:
            r, st = trace.inject(lambda: go(w, c, ctx, plan), at, EXC[o["exc"]]("injected"))
            how = [st.where and [os.path.basename(st.where[0]), st.where[1], st.where[2]], r[0], type(r[1]).__name__ if r[0] == "exc" else ""]
            del r
        else:
            r = P.outcome(lambda: go(w, c, ctx, plan))
            how = [None, r[0], r[1] if r[0] == "exc" else ""]
        s1, p1 = snapshot(), patched()
        bad = []
        for k, v in p0.items():
            if p1.get(k, v) != v:
                bad.append(["function of another module", k, "another one"])
        for k in s0:
            if k in ("random", "numpy.random") and uses_random(c):
                continue
            if s0[k] != s1.get(k):
                bad.append([k, str(s0[k])[:200], str(s1.get(k))[:200]])
        out.append({"at": at, "how": how, "bad": bad})
    return out


def execute(plan, ctx):
    return ctx.fork(run, plan, ctx, timeout=120)


def judge(plan, hist, ctx):
    if hist[0] == "error":
        raise RuntimeError(hist[1])
    if hist[0] != "ok":
        return {"violations": [], "stats": {"skipped": 1}, "log": digest(["skip"])}
    viol, keys, faults, stats = [], [], {}, {}
    res = dict(plan, calls=[dict(o) for o in plan["calls"]])
    for i, (o, h) in enumerate(zip(plan["calls"], hist[1])):
        if h["at"] is not None:
            res["calls"][i]["at"] = h["at"]
            if h["how"][0]:
                faults[o["exc"]] = faults.get(o["exc"], 0) + 1
        stats["ended:" + h["how"][1]] = stats.get("ended:" + h["how"][1], 0) + 1
        for k, a, b in h["bad"]:
            viol.append({"class": k, "msg": f"{K.show(o['c'])} ended with {h['how']} and changed the {k} from {a} to {b}"})
        keys.append(digest([o["c"]["f"], o["c"]["a"].get("what"), h["how"], sorted(plan["settings"])]))
    for s in plan["settings"]:
        stats["setting:" + s] = 1
    return {"violations": viol, "keys": keys, "nontrivial": keys, "faults": faults, "stats": stats, "resolved": res,
            "sample": [[o["c"]["f"], h["how"]] for o, h in zip(plan["calls"], hist[1])], "log": digest([[h["at"], h["how"]] for h in hist[1]])}


def shrink(plan):
    for cs in P.drop_each(plan["calls"]):
        if cs:
            yield dict(plan, calls=cs)
    for s in P.drop_each(plan["settings"]):
        yield dict(plan, settings=s)
    for i, s in enumerate(plan["structs"]):
        for a in P.shrink_atoms(s):
            p = dict(plan, structs=plan["structs"][:i] + [a] + plan["structs"][i + 1:], calls=[{k: v for k, v in o.items() if k != "at"} for o in plan["calls"]])
            yield p
