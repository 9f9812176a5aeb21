"""Crystals, results, objects and errors mean the same after a journey to another process and back."""
import copy
import os
import pickle
import random
import select
import signal
import struct
import subprocess
import sys
import time

import numpy as np

from . import common as P
from . import c16, c19
from .. import backend as B
from .. import calls as K
from .. import crystals as C
from .. import trace
from ..canon import _ADDR, canon, diff, digest

TIMEOUT = 150
FATES = ["ok"] * 9 + ["lost", "lost", "dup", "dup", "kill", "kill", "interrupt", "interrupt"]
HOWS = ["None", "RuntimeError", "SpglibError", "MemoryError", "None"]
PLOTS = ["points", "line", "vector", "cell", "kpath", "kpoints", "lattice", "atoms"]
OPEN = ("Kpoints", "PlotlyEngine")
# orthorhombic by its atoms while two of its axes are equally long
EVEN = {"cell": [[3.0, 0, 0], [0, 3.0, 0], [0, 0, 5.0]], "atoms": {"names": ["Fe", "O", "O"], "positions": [[0, 0, 0], [0.2, 0, 0], [-0.2, 0, 0]]}}
SICK = [{"cell": [[1, 0, 0], [2, 0, 0], [0, 0, 1]], "atoms": {"names": ["Fe"], "positions": [[0, 0, 0]]}},
        {"cell": [[4, 0, 0], [0, 4, 0], [0, 0, 4]], "atoms": {"names": ["Fe", "Fe"], "positions": [[0, 0, 0], [0, 0, 0]]}},
        {"cell": [[4, 0, 0], [0, 4, 0], [0, 0, 4]], "atoms": {"names": ["Qq", "@"], "positions": [[0, 0, 0], [0.5, 0.5, 0.5]]}}]


def prepare():
    B.install()


def warm():
    K.warm_plotly()
    import scipy.spatial  # noqa: F401


# -------------------------------------------------------------------------------------------- plans
def edits(rng, names):
    out = []
    for _ in range(rng.choice([1, 2, 4])):
        r = rng.random()
        if r < 0.25:
            out.append({"op": "add", "name": rng.choice(c16.NAMES), "coord": c16.vec(rng), "label": c16.label(rng), "relative": rng.random() < 0.6})
            names.append(out[-1]["name"])
        elif r < 0.33:
            out.append({"op": "remove", "name": rng.choice(names)})
        elif r < 0.6:
            out.append(c16.path_of(rng, names[-6:]))
        elif r < 0.7:
            out.append({"op": "n", "n": rng.choice([0, 1, 3, -1, 2.5])})
        elif r < 0.78:
            out.append({"op": "coord", "k": rng.randrange(6), "coord": [float(x) for x in c16.vec(rng)]})
        elif r < 0.85:
            out.append({"op": "label", "k": rng.randrange(6), "label": rng.choice(["new", "$\\Delta$", ""])})
        elif r < 0.92:
            out.append({"op": "copy"})
        else:
            out.append({"op": "read"})
    return out


def drawings(rng):
    out = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        k = rng.choice(PLOTS)
        if rng.random() < 0.8:
            out.append({"op": "plot", "kind": k, "c": c19.content(rng, k, rng.choice([1, 1, 50.0])), "label": rng.choice([None, "entry"]), "group": rng.choice([None, None, "g1"])})
        else:
            out.append({"op": "show", "axes": rng.random() < 0.8, "legend": rng.choice(["top", "left", "bottom", "middle"])})
    return out


def gen(rng, tier, index):
    structs = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        r = rng.random()
        if r < 0.07:
            structs.append({**EVEN, "cform": "list", "pform": "nd"})
        elif r < 0.12:
            structs.append({**rng.choice(SICK), "cform": rng.choice(["nd", "list"]), "pform": "list"})
        elif r < 0.3 and structs:
            structs.append(K.sib(rng, structs[-1]))
        else:
            structs.append(K.structure(rng, max_atoms=6))
    structs = P.json.loads(P.json.dumps(structs))
    kps, known = [], []
    for _ in range(rng.choice([0, 1, 1, 2])):
        p = c16.gen(rng, tier, index)
        kps.append(p["make"])
        known.append(list(p["make"].get("names") or ["K1", "K2", "GAMMA"]))
    engs = [{"rows": 1, "cols": 1, "sphinx": rng.random() < 0.3} for _ in range(rng.choice([0, 0, 1]))]
    nw = rng.choice([1, 2, 2, 3])
    even = rng.random() < 0.5
    steps = []
    for _ in range(rng.choice([3, 5, 8, 12])):
        r = rng.random()
        o = {"w": rng.randrange(-1, nw) if rng.random() < 0.3 else rng.randrange(nw), "p": [rng.randrange(6), rng.randrange(6)], "fate": rng.choice(FATES), "u": rng.random(),
             "v": rng.random(), "delay": rng.choice([0, 0, 0, 1, 3]), "via": rng.choice(["pickle", "pickle", "deepcopy"])}
        if r < 0.2 and kps:
            i = rng.randrange(len(kps))
            o.update(t="kp", i=i, ops=edits(rng, known[i]))
        elif r < 0.3 and engs:
            o.update(t="eng", i=rng.randrange(len(engs)), ops=drawings(rng))
        else:
            i = rng.randrange(len(structs))
            cs = [K.pick(rng, structs, slow=0.03, even=even, i=i if rng.random() < 0.7 else None) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
            if rng.random() < 0.15:
                cs[0] = K.pick(rng, structs, i=i, only=["niggli", "points", "primitive", "conventional", "species1", "species", "kpoints", "lepage"], slow=1.0)
                cs[0]["a"].update({"convention": "none"} if "convention" in cs[0]["a"] else {"raise_on_fail": True} if "raise_on_fail" in cs[0]["a"] else {})
            o.update(t="call", cs=cs, keep=rng.random() < 0.4)
            if rng.random() < 0.2:
                o["backend"] = {"at": rng.choice([0, 0, 1, 2]), "times": rng.choice([1, 1, 50]), "how": rng.choice(HOWS)}
        steps.append(o)
    return {"structs": structs, "kps": kps, "engs": engs, "workers": nw, "spawn": rng.random() < 0.05, "steps": steps}


# ------------------------------------------------------------------------------------------- images
def groups(js):
    """Names of the legend groups by order of appearance: automatic ones are random."""
    seen = {}
    for t in js.get("data", ()):
        if t.get("legendgroup") is not None:
            t["legendgroup"] = "group %d" % seen.setdefault(t["legendgroup"], len(seen))
    return js


def plain(x):
    """Data of a figure: plotly rearranges keys and containers when it makes a figure again."""
    if isinstance(x, dict):
        if "bdata" in x:
            return c19.plain(x)
        return {str(k): plain(x[k]) for k in sorted(x, key=str)}
    if isinstance(x, np.ndarray):
        x = x.tolist()
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, (int, float, np.integer, np.floating)) and not isinstance(x, bool):
        return float(x)
    return x


def image(x, depth=0):
    """What a user sees of a value."""
    kind = type(x).__name__
    if kind == "Kpoints":
        get = {"labels": lambda: x.labels, "table": lambda: x.hs_table(), "string": lambda: x.path_string}
        for rel in (False, True):
            for f in ("ticks", "points", "flat_points"):
                get[f"{f} {rel}"] = lambda f=f, rel=rel: getattr(x, f)(relative=rel)
        out = {"names": list(x.hs_names), "coordinates": {k: np.array(v) for k, v in x.hs_coordinates.items()}, "hs_labels": dict(x.hs_labels), "path": [list(s) for s in x.path], "n": x.n,
               "rcell": np.array(x.rcell)}
        for k, f in get.items():
            r = P.outcome(f)
            out[k] = r[1]
        return ["Kpoints", canon(out)]
    if kind == "PlotlyEngine":
        return ["PlotlyEngine", canon(plain(groups(copy.deepcopy(x.fig.to_plotly_json()))))]
    if isinstance(x, dict) and depth < 6:
        if "data" in x and "layout" in x:
            return ["figure", canon(plain(groups(copy.deepcopy(x))))]
        get = (lambda k: getattr(x, k)) if kind == "SyntacticSugar" else x.__getitem__
        return [kind, [[canon(k), image(get(k), depth + 1)] for k in x]]
    if isinstance(x, (list, tuple)) and depth < 6:
        return [kind, [image(v, depth + 1) for v in x]]
    if type(x).__module__.split(".")[0] == "wulfric":
        return [kind, {k: canon(getattr(x, k)) for k in sorted(dir(x)) if not k.startswith("_") and not callable(getattr(x, k))}]
    return canon(x)


def portrait(e):
    """What a user sees of an error."""
    attrs = {k: canon(v) for k, v in sorted(vars(e).items()) if not k.startswith("_")}
    return [type(e).__module__ + "." + type(e).__name__, _ADDR.sub("0x", str(e)), canon(list(e.args)), canon(list(getattr(e, "__notes__", []))), attrs]


def foreign(e):
    return type(e).__module__.split(".")[0] not in ("wulfric", "builtins")


# --------------------------------------------------------------------------------------------- work
def put(e, o):
    """A Kpoints object after one edit."""
    k = o["op"]
    if k == "add":
        e.add_hs_point(o["name"], o["coord"], label=o["label"], relative=o["relative"])
    elif k == "remove":
        e.remove_hs_point(o["name"])
    elif k == "path":
        e.path = c16.path_arg(o)
    elif k == "n":
        e.n = o["n"]
    elif k in ("coord", "label"):
        names = list(e.hs_names)
        if names:
            x = names[o["k"] % len(names)]
            if k == "coord":
                e.hs_coordinates[x] = np.array(o["coord"])
            else:
                e.hs_labels[x] = o["label"]
    elif k == "copy":
        return e.copy()
    else:
        e.points(), e.labels, e.hs_names and e.hs_table()
    return e


def draw(pe, o):
    if o["op"] == "plot":
        c19.plot(pe, o["kind"], o["c"], legend_label=o["label"], **({} if o["group"] is None else {"legend_group": o["group"]}))
    else:
        pe.show(axes_visible=o["axes"], legend_position=o["legend"])


def attempt(fn):
    try:
        return ["ok", fn()]
    except BaseException as e:  # noqa: BLE001
        return ["exc", e]


def noted(r, what):
    """The worker notes on an error what it was doing."""
    if r[0] == "exc" and hasattr(r[1], "add_note"):
        r[1].add_note(what)
    return r


def work(task):
    """The work of one task: list of results, ["ok", value] or ["exc", error].  Objects that are worked on come last."""
    out, fired = [], []
    if task["t"] == "call":
        for c, args in zip(task["cs"], task["args"]):
            w = K.World([])
            w.cells = {c["s"]: args[0]}
            w.atom = {c["s"]: args[1]}
            if c["sd"] is not None:
                w.stored[(c["s"], tuple(c["sd"]))] = args[2]
            B.S.reset([task["backend"]] if task.get("backend") else ())
            out.append(noted(attempt(lambda: K.invoke(w, c)), f"during {c['f']}"))
            fired.append(len(B.S.fired))
            B.S.reset()
    else:
        e = task["object"]
        for o in task["ops"]:
            if task["t"] == "kp":
                r = attempt(lambda: put(e, o))
                if r[0] == "ok":
                    e = r[1]
                    r = ["ok", None]
            else:
                r = attempt(lambda: draw(e, o))
            out.append(noted(r, f"during {o['op']}"))
        out.append(["ok", e])
    return [out, fired]


def sendable(results):
    """Errors of other packages that cannot travel are replaced by their names."""
    for r in results:
        if r[0] == "exc" and foreign(r[1]) and attempt(lambda: pickle.loads(pickle.dumps(r[1])))[0] != "ok":
            r[0], r[1] = "foreign", type(r[1]).__name__
    return results


def scramble(x, depth=0, done=None):
    """Edits in place whatever can be edited in x."""
    done = set() if done is None else done
    if id(x) in done or depth > 8:
        return
    done.add(id(x))
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.dtype.kind in "iuf":
            x += 1
        return
    if isinstance(x, list):
        for v in x:
            scramble(v, depth + 1, done)
        x.append("scrambled")
    elif isinstance(x, dict):
        for v in list(x.values()):
            scramble(v, depth + 1, done)
        x["scrambled"] = 1
    elif isinstance(x, tuple):
        for v in x:
            scramble(v, depth + 1, done)
    elif type(x).__module__.split(".")[0] == "wulfric" and not isinstance(x, BaseException):
        for v in list(getattr(x, "__dict__", {}).values()):
            scramble(v, depth + 1, done)


def seen(results, via="pickle"):
    out = []
    for r in results:
        if r[0] == "exc":
            e = r[1]
            if via != "pickle":
                c = attempt(lambda: [copy.deepcopy(e), copy.copy(e)])
                if c[0] != "ok":
                    out.append(["uncopied", type(e).__name__, f"{type(c[1]).__name__}: {c[1]}"[:200]])
                    continue
                if portrait(c[1][0]) != portrait(c[1][1]):
                    out.append(["uncopied", type(e).__name__, f"copies {portrait(c[1][0])} and {portrait(c[1][1])}"])
                    continue
                e = c[1][0]
            out.append(["exc", portrait(e)] if not foreign(e) else ["foreign", type(e).__name__])
        elif r[0] == "ok":
            v = r[1]
            if via != "pickle":
                c = attempt(lambda: copy.deepcopy(v))
                if c[0] != "ok":
                    out.append(["uncopied", type(v).__name__, f"{type(c[1]).__name__}: {c[1]}"[:200]])
                    continue
                scramble(copy.deepcopy(v))  # what is done to one copy is not seen in another one, nor in the original
                if image(v) != image(c[1]):
                    out.append(["uncopied", type(v).__name__, "the original and a copy differ after another copy was edited"])
                    continue
                v = c[1]
            out.append(["ok", image(v)])
        else:
            out.append(list(r))
    return out


# ------------------------------------------------------------------------------------------ workers
def put_frame(fd, data):
    view = memoryview(struct.pack("<Q", len(data)) + data)
    while view:
        view = view[os.write(fd, view):]


def get_frame(fd, timeout=None):
    end = None if timeout is None else time.monotonic() + timeout

    def exactly(n):
        buf = b""
        while len(buf) < n:
            if end is not None and not select.select([fd], [], [], max(0, end - time.monotonic()))[0]:
                return "timeout"
            b = os.read(fd, min(n - len(buf), 1 << 20))
            if not b:
                return None
            buf += b
        return buf

    h = exactly(8)
    if not isinstance(h, bytes):
        return h
    return exactly(struct.unpack("<Q", h)[0])


def stub():
    import plotly.graph_objects as go

    go.Figure.show = lambda self, *a, **k: None  # the browser


def serve(rfd, wfd, seed):
    """The loop of a worker: frames in, frames out.  It keeps what it was sent and made, as workers do."""
    random.seed(seed)
    stub()
    kept, made = {}, []
    while True:
        b = get_frame(rfd)
        if b is None:
            return
        req = pickle.loads(b)
        if req["kind"] == "keep?":
            put_frame(wfd, pickle.dumps([i in kept for i in req["which"]]))
            continue
        r = attempt(lambda: pickle.loads(req["body"]))
        if r[0] != "ok":
            put_frame(wfd, pickle.dumps(["unreadable", f"{type(r[1]).__name__}: {r[1]}"[:300]]))
            continue
        task = r[1]
        if task["t"] == "call":
            args = []
            for c, a in zip(task["cs"], task["args"]):
                k = repr([c["s"], c["sd"]])
                if a is None:
                    a = kept[k]
                elif task["keep"]:
                    kept[k] = a
                args.append(a)
            task["args"] = args
        at = req.get("at")
        if at is None:
            out, fired = work(task)
        elif req["end"] == "kill":
            trace.inject(lambda: work(task), at, lambda: os._exit(9))
            os._exit(9)
        else:
            trace.inject(lambda: work(task), at, KeyboardInterrupt("injected"))
            put_frame(wfd, pickle.dumps(["interrupted", ""]))
            continue
        sendable(out)
        made.append(out)
        del made[:-4]
        r = attempt(lambda: pickle.dumps([out, fired], protocol=req["proto"]))
        if r[0] == "ok":
            put_frame(wfd, pickle.dumps(["reply", r[1]]))
        else:
            put_frame(wfd, pickle.dumps(["unsendable", f"{[type(x[1]).__name__ for x in out]}: {type(r[1]).__name__}: {r[1]}"[:300]]))


class Remote:
    n = 0

    def __init__(self, spawn):
        Remote.n += 1
        a, b = os.pipe()
        c, d = os.pipe()
        if spawn:
            for fd in (a, d):
                os.set_inheritable(fd, True)
            env = dict(os.environ, SIMOS_ENTROPY=str(1000 + Remote.n))
            self.pid = subprocess.Popen([sys.executable, "-W", "ignore::SyntaxWarning", "-m", "wsim.remote", str(a), str(d), str(Remote.n)], pass_fds=(a, d), env=env, cwd="/").pid
        else:
            self.pid = os.fork()
            if self.pid == 0:
                try:
                    os.close(b)
                    os.close(c)
                    serve(a, d, 7000 + Remote.n)
                finally:
                    os._exit(0)
        os.close(a)
        os.close(d)
        self.w, self.r = b, c

    def ask(self, req):
        try:
            put_frame(self.w, pickle.dumps(req))
        except BrokenPipeError:
            return None
        b = get_frame(self.r, 50)
        return pickle.loads(b) if isinstance(b, bytes) else b

    def end(self):
        for fd in (self.w, self.r):
            os.close(fd)
        try:
            os.kill(self.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        try:
            os.waitpid(self.pid, 0)
        except ChildProcessError:
            pass


# --------------------------------------------------------------------------------------------- runs
def inplace(step):
    return any("inplace" in K.tags(c["f"]) for c in step["cs"])


def start(plan):
    """The objects at home."""
    import wulfric

    w = K.World(plan["structs"])
    w.prepare([c for s in plan["steps"] if s["t"] == "call" for c in s["cs"]])
    kps = []
    for mk in plan["kps"]:
        r = attempt(lambda: c16.build(mk)[0])
        kps.append(r[1] if r[0] == "ok" else None)
    engs = [wulfric.PlotlyEngine(rows=e["rows"], cols=e["cols"], _sphinx_gallery_fix=e["sphinx"]) for e in plan["engs"]]
    return w, {"kp": kps, "eng": engs}


def task_of(step, w, objs, send=None):
    """The message of a step; None if its object could not be made."""
    if step["t"] != "call":
        e = objs[step["t"]][step["i"]]
        return None if e is None else {"t": step["t"], "ops": step["ops"], "object": e}
    args = [[w.cells[c["s"]], w.atom[c["s"]], w.sd(c)] for c in step["cs"]]
    if send is not None:
        args = [a if s else None for a, s in zip(args, send)]
    return {"t": "call", "cs": step["cs"], "args": args, "backend": step.get("backend"), "keep": step["keep"] and not inplace(step)}


def reference(plan):
    """The same work in one process, nothing is ever packed."""
    random.seed(1)
    stub()
    w, objs = start(plan)
    out = []
    for s in plan["steps"]:
        if s["t"] == "call" and inplace(s):
            w2 = K.World(plan["structs"])
            w2.stored = w.stored
            r, fired = [], []
            for c in s["cs"]:  # every call has its own arguments, as in a message with several calls below
                w2 = K.World(plan["structs"])
                w2.stored = w.stored
                o, f = work(task_of({**s, "cs": [c]}, w2, objs))
                r += o
                fired += f
        else:
            t = task_of(s, w, objs)
            if t is None:
                out.append(None)
                continue
            r, fired = work(t)
            if s["t"] != "call":
                objs[s["t"]][s["i"]] = r[-1][1]
        out.append([seen(r), fired])
    return out


def points(plan):
    """Places for kills and interrupts."""
    stub()
    w, objs = start(plan)
    out = []
    for s in plan["steps"]:
        at = None
        if s["t"] == "call" and inplace(s):
            w2 = K.World(plan["structs"])
            w2.stored = w.stored
            t = task_of(s, w2, objs)
        else:
            t = task_of(s, w, objs)
        if t is not None:
            if s["fate"] in ("kill", "interrupt") and s["w"] >= 0:
                t = pickle.loads(pickle.dumps(t)) if s["t"] == "call" else t
                r, ev = trace.profile(lambda: work(t))
                at = trace.pick(ev, s["u"], s["v"]) if ev else None
                r = r[1]
            else:
                r = work(t)
            if s["t"] != "call" and r:
                objs[s["t"]][s["i"]] = r[0][-1][1]
        out.append(at)
    return out


def home(plan, ats):
    """The process that hands out the work."""
    random.seed(2)
    stub()
    w, objs = start(plan)
    spawn = plan["spawn"]
    pool = [Remote(spawn) for _ in range(plan["workers"])]
    out = [None] * len(plan["steps"])
    pending = []  # (due, step, kind, bytes)
    ask = lambda k, req: pool[k].ask(req)  # noqa: E731

    def deliver(n, msg, twice=None):
        s = plan["steps"][n]
        rec = {"how": msg[0]}
        if msg[0] == "reply":
            r = attempt(lambda: pickle.loads(msg[1]))
            if r[0] != "ok":
                rec = {"how": "unreadable", "text": f"{type(r[1]).__name__}: {r[1]}"[:300]}
            else:
                res, fired = r[1]
                rec["r"] = seen(res, s["via"])
                rec["fired"] = fired
                if s["t"] != "call":
                    e = res[-1][1]
                    objs[s["t"]][s["i"]] = copy.deepcopy(e) if s["via"] == "deepcopy" else e
        elif len(msg) > 1:
            rec["text"] = msg[1]
        if twice is not None and "r" in rec:
            r = attempt(lambda: pickle.loads(twice[1])) if twice[0] == "reply" else ["exc", ValueError(str(twice))]
            rec["again"] = seen(r[1][0]) if r[0] == "ok" else ["unreadable", f"{type(r[1]).__name__}: {r[1]}"[:300]]
        out[n] = rec

    try:
        for n, s in enumerate(plan["steps"]):
            for p in [p for p in pending if p[0] <= n or (s["t"] != "call" and plan["steps"][p[1]]["t"] == s["t"] and plan["steps"][p[1]]["i"] == s["i"])]:
                pending.remove(p)
                deliver(p[1], *p[2:])
            k = s["w"]
            own = w
            if s["t"] == "call" and inplace(s):
                own = K.World(plan["structs"])
                own.stored = w.stored
            if k < 0:
                if task_of(s, own, objs) is None:
                    continue
                if s["t"] == "call":  # every call has its own arguments
                    r, fired = [], []
                    for c in s["cs"]:
                        if inplace(s):
                            own = K.World(plan["structs"])
                            own.stored = w.stored
                        x, f = work(task_of({**s, "cs": [c]}, own, objs))
                        r += x
                        fired += f
                else:
                    r, fired = work(task_of(s, own, objs))
                    objs[s["t"]][s["i"]] = r[-1][1]
                out[n] = {"how": "home", "r": seen(r), "fired": fired}
                continue

            def message(k):
                send = None
                if s["t"] == "call" and not inplace(s):
                    have = ask(k, {"kind": "keep?", "which": [repr([c["s"], c["sd"]]) for c in s["cs"]]})
                    send = [not h for h in have] if s["keep"] else None
                t = task_of(s, own, objs, send)
                if t is None:
                    return None
                if s["t"] == "call" and inplace(s):
                    fresh = []
                    for c in s["cs"]:
                        o = K.World(plan["structs"])
                        fresh.append([o.cells[c["s"]], o.atom[c["s"]], w.sd(c)])
                    t["args"] = fresh
                r = attempt(lambda: pickle.dumps(t, protocol=s["p"][0]))
                return r

            m = message(k)
            if m is None:
                continue
            if m[0] != "ok":
                out[n] = {"how": "unsendable", "text": f"{type(m[1]).__name__}: {m[1]}"[:300]}
                continue
            req = {"kind": "task", "body": m[1], "proto": s["p"][1]}
            if ats[n] is not None:
                a = ask(k, dict(req, at=ats[n], end=s["fate"]))
                if s["fate"] == "kill":
                    pool[k].end()
                    pool[k] = Remote(spawn)
                    k = (k + 1) % len(pool)
                m = message(k)
                req["body"] = m[1]
            elif s["fate"] == "lost":
                ask(k, req)  # the reply never arrives
                k = (k + 1) % len(pool)
                req["body"] = message(k)[1]
            a = ask(k, req)
            b = None
            if s["fate"] == "dup":
                k2 = (k + 1) % len(pool)
                m2 = message(k2)
                b = ask(k2, dict(req, body=m2[1]))
            if a is None or a == "timeout":
                out[n] = {"how": "died" if a is None else "hang"}
                pool[k].end()
                pool[k] = Remote(spawn)
                continue
            pending.append((n + s["delay"], n, a, b))
            if not s["delay"]:
                pending.pop()
                deliver(n, a, b)
        for p in pending:
            deliver(p[1], *p[2:])
    finally:
        for r in pool:
            r.end()
    return out


def execute(plan, ctx):
    ats = plan.get("ats")
    if ats is None:
        if any(s["fate"] in ("kill", "interrupt") and s["w"] >= 0 for s in plan["steps"]):
            r = ctx.fork(points, plan)
            if r[0] != "ok":
                return {"skip": r}
            ats = r[1]
        else:
            ats = [None] * len(plan["steps"])
    ref = ctx.fork(reference, plan)
    if ref[0] != "ok":
        return {"skip": ref}
    got = ctx.fork(home, plan, ats, timeout=120)
    return {"ats": ats, "ref": ref[1], "got": got}


def same(a, b):
    if a[0] != b[0]:
        return f"{brief(a)} instead of {brief(b)}"
    if a[0] == "ok":
        return diff(a[1], b[1], 1e-9)
    if a != b:
        return f"{brief(a)} instead of {brief(b)}"
    return None


def brief(x):
    return (f"value {str(x[1])[:200]}" if x[0] == "ok" else f"{x[0]} {x[1:]}")[:400]


def title(s):
    return " + ".join(K.show(c) for c in s["cs"]) if s["t"] == "call" else f"{OPEN[s['t'] == 'eng']} {s['i']}: {s['ops']}"[:300]


def judge(plan, hist, ctx):
    if "skip" in hist:
        if hist["skip"][0] == "error":
            raise RuntimeError(hist["skip"][1])
        return {"violations": [], "stats": {"skipped": 1}, "log": digest(["skip"])}
    if hist["got"][0] == "error":
        raise RuntimeError(hist["got"][1])
    res = dict(plan, ats=hist["ats"])
    if hist["got"][0] != "ok":
        return {"violations": [{"class": "died", "msg": f"the process that hands out the work ended with {hist['got']}"}], "resolved": res}
    viol, keys, faults, stats = [], [], {}, {"sent": 0, "home": 0, "errors": 0}
    for n, (s, g, r) in enumerate(zip(plan["steps"], hist["got"][1], hist["ref"])):
        if g is None or r is None:
            continue
        where = "at home" if s["w"] < 0 else f"in worker {s['w']} (protocols {s['p']}, {s['fate']}, {s['via']}{', spawned' if plan['spawn'] else ''})"
        what = f"step {n} {title(s)} {where}"
        stats["sent" if s["w"] >= 0 else "home"] += 1
        if s["w"] >= 0 and s["fate"] != "ok":
            faults[s["fate"]] = faults.get(s["fate"], 0) + 1
        if s["w"] >= 0 and s["delay"]:
            faults["delay"] = faults.get("delay", 0) + 1
        if g["how"] not in ("reply", "home"):
            viol.append({"class": g["how"], "msg": f"{what}: {g['how']}: {g.get('text', '')}; locally: {[brief(x) for x in r[0]]}"[:900]})
            break
        if g["fired"] != r[1]:
            continue  # a stored answer needs no backend
        if any(g["fired"]):
            faults["backend " + s["backend"]["how"]] = faults.get("backend " + s["backend"]["how"], 0) + 1
        for i, (x, y) in enumerate(zip(g["r"], r[0])):
            d = same(x, y)
            if d:
                viol.append({"class": "error" if y[0] == "exc" else "object" if i == len(r[0]) - 1 and s["t"] != "call" else "value", "msg": f"{what}, result {i}: {d}"[:900]})
            if "again" in g and not d:
                if g["again"][:1] == ["unreadable"]:
                    viol.append({"class": "again", "msg": f"{what}: second delivery: {g['again']}"})
                    break
                d = same(g["again"][i], y)
                if d:
                    viol.append({"class": "again", "msg": f"{what}, result {i} of the second delivery: {d}"[:900]})
        stats["errors"] += sum(y[0] == "exc" for y in r[0])
        key = [[c["f"], c["sd"] is not None] for c in s["cs"]] if s["t"] == "call" else [o.get("kind", o["op"]) for o in s["ops"]]
        if s["w"] >= 0:
            keys.append(digest([s["t"], key, s["p"], s["fate"], s["via"], [y[0] if y[0] == "ok" else y[1][0] if y[0] == "exc" else y[1] for y in r[0]]]))
        if viol:
            break
    return {"violations": viol, "keys": keys, "nontrivial": keys, "faults": faults, "stats": stats, "resolved": res,
            "sample": {"workers": plan["workers"], "steps": [[s["t"], s["w"], s["fate"]] for s in plan["steps"]]},
            "log": digest([[g and [g["how"], [x[0] for x in g.get("r", [])]] for g in hist["got"][1]]])}


def shrink(plan):
    base = {k: v for k, v in plan.items() if k != "ats"}
    ats = plan.get("ats")
    n = len(plan["steps"])
    cuts = ([list(range(n // 2)), list(range(n // 2, n))] if n > 3 else []) + [[j for j in range(n) if j != i] for i in range(n)]
    for keep in cuts:
        if keep:
            p = dict(base, steps=[plan["steps"][i] for i in keep])
            if ats:
                p["ats"] = [ats[i] for i in keep]
            yield p
    if plan["spawn"]:
        yield dict(plan, spawn=False)
    if plan["workers"] > 1:
        yield dict(plan, workers=1, steps=[dict(s, w=min(s["w"], 0)) for s in plan["steps"]])
    for i, s in enumerate(plan["steps"]):
        for k, v in (("fate", "ok"), ("delay", 0), ("via", "pickle"), ("keep", False), ("backend", None)):
            if s.get(k, v) != v:
                p = dict(base, steps=plan["steps"][:i] + [dict(s, **{k: v})] + plan["steps"][i + 1:])
                if ats:
                    p["ats"] = [None if j == i and k == "fate" else a for j, a in enumerate(ats)]
                yield p
        q = "cs" if s["t"] == "call" else "ops"
        if len(s[q]) > 1:
            for x in P.drop_each(s[q]):
                if x:
                    yield dict(base, steps=plan["steps"][:i] + [dict(s, **{q: x})] + plan["steps"][i + 1:])
