"""A Kpoints object stays consistent under any sequence of edits."""
import copy

import numpy as np

from . import common as P
from .. import calls as K
from .. import crystals as C
from .. import trace
from ..canon import digest

TIMEOUT = 120
NAMES = ["G", "X", "Y", "Z", "GAMMA", "K1", "K2", "M", "S", "SIGMA", "A1", "n", "path", "Q'", "\u0393", "a b", "R_P"]
EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}
FINDING = "C16-remove-used-point"


def vec(rng):
    return [rng.choice([0, 0.5, 1, 0.25, -0.5, round(rng.uniform(-1, 1), 3), 0.0]) for _ in range(3)]


def cell(rng):
    if rng.random() < 0.4:
        return [[1, 0, 0], [0, 1, 0], [0, 0, 1]] if rng.random() < 0.5 else [[2, 0, 0], [0, 1, 0], [0, 0, 3]]
    return [[round(rng.uniform(1, 3) if i == j else rng.uniform(-0.6, 0.6), 3) for j in range(3)] for i in range(3)]


def label(rng):
    return rng.choice([None, None, "L", "$\\Gamma$", "", "|", "x-y"])


def path_of(rng, names):
    """A path over names that exist when the plan is made; by the time it is set some may be gone, which makes it an invalid edit."""
    subs = [[rng.choice(names) for _ in range(rng.choice([2, 2, 3, 4]))] for _ in range(rng.choice([1, 1, 2, 3]))]
    if rng.random() < 0.2 and len(subs) > 1:
        subs[1][0] = subs[0][-1]
    form = rng.choice(["str", "list", "tuple", "gen", "list"])
    if any(("-" in x or "|" in x) for s in subs for x in s):
        form = "list"
    return {"op": "path", "form": form, "path": subs}


def gen(rng, tier, index):
    names = rng.sample(NAMES, rng.choice([2, 3, 4, 5]))
    if rng.random() < 0.25:
        s = C.make(rng, max_atoms=4, plain=True)
        make = {"how": "crystal", "cell": s["cell"], "atoms": s["atoms"], "convention": rng.choice(["HPKOT", "SC"]), "n": rng.choice([0, 1, 3])}
    else:
        make = {"how": "init", "rcell": cell(rng), "form": rng.choice(["list", "nd", "tuple"]), "coords": [vec(rng) for _ in names],
                "names": names if rng.random() < 0.8 else None, "labels": [label(rng) or n for n in names] if rng.random() < 0.5 else None,
                "path": None if rng.random() < 0.4 else 1, "n": rng.choice([0, 1, 2, 5])}
        if make["names"] is None:
            names = [f"K{i + 1}" for i in range(len(names))]
        if make["path"]:
            make["path"] = path_of(rng, names)
    known = list(names)
    ops = []
    for _ in range(rng.choice([3, 6, 10, 16])):
        r = rng.random()
        strike = {"u": rng.random(), "v": rng.random(), "exc": rng.choice(sorted(EXC))} if rng.random() < 0.2 else None
        if r < 0.2:
            n = rng.choice(NAMES)
            o = {"op": "add", "name": n, "coord": vec(rng), "form": rng.choice(["list", "nd", "tuple"]), "label": label(rng), "relative": rng.random() < 0.6}
            known.append(n)
        elif r < 0.32:
            o = {"op": "remove", "name": rng.choice(known + NAMES[:3])}
        elif r < 0.5:
            o = path_of(rng, known)
            if rng.random() < 0.1:
                o["path"] = []
                o["form"] = "list"
        elif r < 0.58:
            o = {"op": "n", "n": rng.choice([0, 1, 2, 4, 7])}
        elif r < 0.65:
            o = {"op": "rcell", "rcell": cell(rng), "form": rng.choice(["list", "nd", "place"])}
        elif r < 0.71:
            o = {"op": "coord", "k": rng.randrange(8), "coord": [float(x) for x in vec(rng)], "place": rng.random() < 0.5}
        elif r < 0.75:
            o = {"op": "label", "k": rng.randrange(8), "label": rng.choice(["new", "$\\Delta$", ""])}
        elif r < 0.8:
            o = {"op": "copy", "how": rng.choice(["copy", "deepcopy"])}
        elif r < 0.85:
            o = rng.choice([{"op": "read"}, {"op": "twin", "what": rng.choice(["path", "path", "inner", "names", "labels", "coords", "rcell", "n", "setpath"]), "from": rng.choice(["text", "text", "lists", "crystal"]), "use": rng.random() < 0.4}])
        else:
            o = {"op": "bad", "what": rng.choice(["dup", "dup", "undef", "undef-last", "single", "nfloat", "nstr", "nnp", "gen-fail", "path-int", "coord-fail", "coord-shape", "name-list", "attr-path-string"]),
                 "k": rng.randrange(8)}
        o["strike"] = strike if o["op"] in ("add", "remove", "path", "n", "copy", "read", "bad") else None
        ops.append(o)
    return {"make": make, "ops": ops}


def form(x, f):
    if f == "nd":
        return np.array(x)
    if f == "tuple":
        return tuple(tuple(r) if isinstance(r, list) else r for r in x)
    return copy.deepcopy(x)


def path_arg(o):
    p = o["path"]
    if o["form"] == "str":
        return "|".join("-".join(s) for s in p)
    if o["form"] == "tuple":
        return tuple(tuple(s) for s in p)
    if o["form"] == "gen":
        return (list(s) for s in p)
    return [list(s) for s in p]


class Bad:
    def __array__(self, *a, **k):
        raise RuntimeError("the caller's data failed")

    def __matmul__(self, o):
        raise RuntimeError("the caller's data failed")

    def __len__(self):
        raise RuntimeError("the caller's data failed")

    def __iter__(self):
        raise RuntimeError("the caller's data failed")


class Model:
    """Executable reference: what the object must show."""

    def __init__(self, names, coords, labels, path, n, rcell):
        self.names, self.coords, self.labels, self.path, self.n = names, coords, labels, path, n
        self.rcell = np.array(rcell, dtype=float)
        self.dirty = set()

    def dangling(self):
        return [x for s in self.path for x in s if x not in self.names]

    def derived(self, relative):
        m = np.eye(3) if relative else self.rcell
        x = {k: np.array(v, dtype=float) @ m for k, v in self.coords.items()}
        pts, flat, ticks, labels = [], [], [], []
        pos = 0.0
        for si, s in enumerate(self.path):
            if si == 0:
                ticks.append(0.0)
                labels.append(self.labels[s[0]])
            else:
                labels[-1] = labels[-1] + "|" + self.labels[s[0]]
            for a, b in zip(s, s[1:]):
                step = np.linalg.norm(x[b] - x[a])
                for i in range(self.n + 2):
                    t = i / (self.n + 1)
                    pts.append(x[a] + t * (x[b] - x[a]))
                    flat.append(pos + t * step)
                pos += step
                ticks.append(pos)
                labels.append(self.labels[b])
        return pts, flat, ticks, labels


def attempt(fn):
    try:
        return ("ok", fn())
    except BaseException as e:  # noqa: BLE001
        return ("exc", e)


def near(a, b):
    a = np.array([] if a is None else a, dtype=float)
    b = np.array([] if b is None else b, dtype=float)
    return a.size == b.size == 0 or (a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-9))


def examine(kp, m):
    """(class, text) of the first disagreement of the object with the model."""
    hide = m.dirty
    names = [x for x in kp.hs_names if x not in hide]
    if names != [x for x in m.names if x not in hide]:
        return "names", f"hs_names is {list(kp.hs_names)}, expected {m.names}"
    for what, d, ref in (("hs_coordinates", kp.hs_coordinates, m.coords), ("hs_labels", kp.hs_labels, m.labels)):
        if set(d) - hide != set(ref) - hide:
            return "names", f"{what} holds {sorted(d)}, hs_names {m.names}"
    for x in names:
        if not near(kp.hs_coordinates[x], m.coords[x]) or np.shape(kp.hs_coordinates[x]) != (3,):
            return "coordinates", f"point {x} is at {kp.hs_coordinates[x]}, expected {m.coords[x]}"
        if kp.hs_labels[x] != m.labels[x]:
            return "label", f"label of {x} is {kp.hs_labels[x]!r}, expected {m.labels[x]!r}"
    if [list(s) for s in kp.path] != m.path:
        return "path", f"path is {kp.path}, expected {m.path}"
    if kp.path_string != "|".join("-".join(s) for s in m.path):
        return "path", f"path_string is {kp.path_string!r}, path {m.path}"
    if kp.n != m.n:
        return "n", f"n is {kp.n}, expected {m.n}"
    if not near(kp.rcell, m.rcell):
        return "rcell", f"rcell is {kp.rcell}, expected {m.rcell}"
    gone = m.dangling()
    if gone:
        r = attempt(lambda: [kp.labels, kp.ticks(), kp.points(), kp.flat_points()])
        return ("dangling", f"the path {m.path} names {sorted(set(gone))}, which is not a point any more; labels, ticks(), points() and flat_points(): {r[1]!r}"[:400])
    for rel in (False, True):
        pts, flat, ticks, labels = m.derived(rel)
        if list(kp.labels) != labels:
            return "labels", f"labels are {kp.labels}, expected {labels}"
        t = kp.ticks(relative=rel)
        if len(t) != len(labels):
            return "ticks", f"{len(t)} ticks for {len(labels)} labels"
        if not near(t, ticks):
            return "ticks", f"ticks(relative={rel}) are {np.array(t).tolist()}, expected {ticks}"
        p = kp.points(relative=rel)
        if not near(p, pts):
            return "points", f"points(relative={rel}) are {None if p is None else np.array(p).tolist()[:6]}, expected {np.array(pts).tolist()[:6]} (path {m.path}, n {m.n})"
        f = kp.flat_points(relative=rel)
        if not near(f, flat):
            return "flat", f"flat_points(relative={rel}) are {None if f is None else np.array(f).tolist()[:8]}, expected {flat[:8]} (path {m.path}, n {m.n})"
    if m.names and not m.dirty:
        rows = kp.hs_table(decimals=6).split("\n")
        if len(rows) != len(m.names) + 1:
            return "table", f"hs_table has {len(rows)} lines for {len(m.names)} points"
        for x, row in zip(m.names, rows[1:]):
            v = np.array([float(y) for y in row[len(x):].split()])
            c = np.array(m.coords[x], dtype=float)
            if not row.startswith(x) or v.shape != (6,) or not np.allclose(v, np.concatenate([c, c @ m.rcell]), atol=2e-6):
                return "table", f"hs_table shows {row!r} for {x} at {c.tolist()}"
    return None


def build(mk):
    import wulfric

    if mk["how"] == "crystal":
        kp = wulfric.Kpoints.from_crystal(mk["cell"], mk["atoms"], convention=mk["convention"], n=mk["n"])
        path, pts = wulfric.kpoints.get_path_and_points(mk["cell"], mk["atoms"], convention=mk["convention"])
        names = list(pts)
        return kp, Model(names, {k: np.array(v) for k, v in pts.items()}, {k: kp.hs_labels[k] for k in names}, [s.split("-") for s in path.split("|")], mk["n"],
                         2 * np.pi * np.linalg.inv(np.array(mk["cell"], dtype=float)).T)
    kw = {}
    if mk["names"] is not None:
        kw["names"] = list(mk["names"])
    if mk["labels"] is not None:
        kw["labels"] = list(mk["labels"])
    if mk["path"]:
        kw["path"] = path_arg(mk["path"])
    kp = wulfric.Kpoints(form(mk["rcell"], mk["form"]), coordinates=form(mk["coords"], mk["form"]), n=mk["n"], **kw)
    names = list(mk["names"] or [f"K{i + 1}" for i in range(len(mk["coords"]))])
    labels = mk["labels"] or (names if mk["names"] else [f"K$_{i + 1}$" for i in range(len(names))])
    return kp, Model(names, dict(zip(names, mk["coords"])), dict(zip(names, labels)), mk["path"]["path"] if mk["path"] else [list(names)], mk["n"], mk["rcell"])


def plan_edit(o, m, kp):
    """(callable on an object, change of the model or None if the edit must be refused)."""
    k = o["op"]
    if k == "add":
        c = form(o["coord"], o["form"])
        go = lambda x: x.add_hs_point(o["name"], c, label=o["label"], relative=o["relative"])  # noqa: E731
        if o["name"] in m.names:
            return go, None

        def ch(m):
            v = np.array(o["coord"], dtype=float)
            m.names.append(o["name"])
            m.coords[o["name"]] = v if o["relative"] else v @ np.linalg.inv(m.rcell)
            m.labels[o["name"]] = o["name"] if o["label"] is None else o["label"]
        return go, ch
    if k == "remove":
        def ch(m):
            if o["name"] in m.names:
                m.names.remove(o["name"])
                del m.coords[o["name"]], m.labels[o["name"]]
        return lambda x: x.remove_hs_point(o["name"]), ch
    if k == "path":
        def go(x):
            x.path = path_arg(o)
        if any(y not in m.names for s in o["path"] for y in s):
            return go, None

        def ch(m):
            m.path = [list(s) for s in o["path"]]
        return go, ch
    if k == "n":
        def go(x):
            x.n = o["n"]

        def ch(m):
            m.n = o["n"]
        return go, ch
    if k == "bad":
        w = o["what"]
        sure = [x for x in m.names if x not in m.dirty]
        a, b = (sure * 2)[:2]
        last = sure[o["k"] % len(sure)]

        def go(x):
            if w == "dup":
                x.add_hs_point(last, [9, 9, 9], label="dup")
            elif w == "undef":
                x.path = [["nowhere", a]]
            elif w == "undef-last":
                x.path = [[a, b], [b, a, "nowhere"]]
            elif w == "single":
                x.path = [[a, b], [a]]
            elif w == "nfloat":
                x.n = 2.5
            elif w == "nstr":
                x.n = "3"
            elif w == "nnp":
                x.n = np.float64(4)
            elif w == "gen-fail":
                def g():
                    yield [a, b]
                    raise RuntimeError("the caller's data failed")
                x.path = g()
            elif w == "path-int":
                x.path = 5
            elif w == "coord-fail":
                x.add_hs_point("fresh", Bad(), relative=bool(o["k"] % 2))
            elif w == "coord-shape":
                x.add_hs_point("fresh", [0.5, 0.5], relative=False)
            elif w == "name-list":
                x.add_hs_point(["fresh"], [0, 0, 0])
            elif w == "attr-path-string":
                x.path_string = f"{a}-{b}"
        return go, None
    if k == "copy":
        return lambda x: x.copy() if o["how"] == "copy" else copy.deepcopy(x), lambda m: None
    return lambda x: [x.path, x.labels, x.ticks(), x.points(), x.flat_points(relative=True), x.hs_names and x.hs_table()], lambda m: None


def twin(mk, o, m, kp):
    """Another object, made from the same data as the one under test and then edited by its owner."""
    import wulfric

    if o["from"] == "crystal" and mk["how"] == "crystal":
        x = wulfric.Kpoints.from_crystal(mk["cell"], mk["atoms"], convention=mk["convention"], n=mk["n"])
        if o["use"]:
            x.path = kp.path_string
    elif o["from"] == "text":
        x = wulfric.Kpoints(form(m.rcell, "nd"), coordinates=[list(m.coords[n]) for n in m.names], names=list(m.names), labels=[m.labels[n] for n in m.names],
                            path="|".join("-".join(s) for s in m.path), n=m.n)
    else:
        x = wulfric.Kpoints(form(m.rcell, "nd"), coordinates=[list(m.coords[n]) for n in m.names], names=list(m.names), path=[list(s) for s in m.path], n=m.n)
    if o["use"]:
        x.points(), x.flat_points(relative=True), x.labels, x.ticks()
    w = o["what"]
    if w == "path":
        x.path.append([m.names[0], m.names[-1]])
    elif w == "inner":
        x.path[0].append(m.names[0])
    elif w == "names":
        x.hs_names.append("nobody")
    elif w == "labels":
        x.hs_labels[m.names[0]] = "changed"
    elif w == "coords":
        x.hs_coordinates[m.names[0]] += 0.375
    elif w == "rcell":
        x.rcell[0] *= 2
    elif w == "n":
        x.n = m.n + 3
    else:
        x.path = [[m.names[-1], m.names[0]]]


def history(plan):
    r = attempt(lambda: build(plan["make"]))
    if r[0] != "ok":
        return {"skip": repr(r[1])[:200]}
    kp, m = r[1]
    out = []
    first = examine(kp, m)
    if first:
        return {"first": first, "steps": []}
    for n, o in enumerate(plan["ops"]):
        step = {"how": "ok", "bad": None, "where": None}
        k = o["op"]
        if k == "rcell":
            if o["form"] == "place" and isinstance(kp.rcell, np.ndarray) and kp.rcell.dtype.kind == "f":
                kp.rcell[:] = o["rcell"]
            else:
                kp.rcell = form(o["rcell"], "list" if o["form"] == "list" else "nd")
            m.rcell = np.array(o["rcell"], dtype=float)
        elif k == "twin":
            e = attempt(lambda: twin(plan["make"], o, m, kp))
            if e[0] == "exc":
                step["how"] = type(e[1]).__name__
        elif k in ("coord", "label"):
            ok = [x for x in m.names if x not in m.dirty]
            if ok:
                x = ok[o["k"] % len(ok)]
                if k == "label":
                    kp.hs_labels[x] = m.labels[x] = o["label"]
                else:
                    if o["place"] and isinstance(kp.hs_coordinates[x], np.ndarray) and kp.hs_coordinates[x].dtype.kind == "f":
                        kp.hs_coordinates[x][:] = o["coord"]
                    else:
                        kp.hs_coordinates[x] = np.array(o["coord"])
                    m.coords[x] = np.array(o["coord"])
        else:
            if k == "bad" and not set(m.names) - m.dirty or k in ("add", "remove") and o["name"] in m.dirty or k == "path" and any(y in m.dirty for s in o["path"] for y in s):
                out.append(dict(step, how="passed over"))
                continue
            go, change = plan_edit(o, m, kp)
            fired = False
            if o["strike"]:
                _, ev = trace.profile(lambda: go(copy.deepcopy(kp)))
                at = trace.pick(ev, o["strike"]["u"], o["strike"]["v"])
                if at is None:
                    res = attempt(lambda: go(kp))
                else:
                    res, st = trace.inject(lambda: go(kp), at, EXC[o["strike"]["exc"]]("injected"))
                    fired = st.fired
                    step["where"] = st.where and [st.where[1], st.where[2]]
            else:
                res = attempt(lambda: go(kp))
            step["how"] = "struck" if fired else res[0] if res[0] == "ok" else type(res[1]).__name__
            used = k == "remove" and o["name"] in [x for s in m.path for x in s]
            if fired and res[0] == "exc":
                if k in ("add", "remove"):
                    m.dirty.add(o["name"])  # half-done for this one point; everything else must be as before
                    if used:
                        out.append(step)
                        break
            elif change is None:
                if res[0] == "ok":
                    step["bad"] = ["accepted", f"{show(o)} was accepted"]
            elif res[0] == "exc":
                if used and isinstance(res[1], ValueError):
                    step["how"] = "refused"
                elif k in ("read", "copy") and m.dangling():
                    step["how"] = "passed over"  # part of the dangling path, which examine() reports
                else:
                    step["bad"] = ["refused", f"{show(o)} raised {res[1]!r}"]
            else:
                change(m)
                if used and [list(s) for s in kp.path] != m.path:
                    m.path = [list(s) for s in kp.path]  # a path that follows the removal is as good as any
                if k == "copy":
                    other, kp = kp, res[1]
                    e = examine(other, m)
                    if e and e[0] != "dangling":
                        step["bad"] = ["copied", f"the copied object: {e[1]}"]
        if not step["bad"]:
            e = attempt(lambda: examine(kp, m))
            if e[0] == "exc":
                step["bad"] = ["read", f"reading the object raised {e[1]!r}"]
            elif e[1]:
                step["bad"] = list(e[1])
        out.append(step)
        if step["bad"] and step["bad"][0] != "dangling":
            break
    return {"first": None, "steps": out}


def show(o):
    return {k: v for k, v in o.items() if k not in ("strike", "u", "v")}


def execute(plan, ctx):
    return ctx.fork(history, plan, timeout=100)


def judge(plan, hist, ctx):
    if hist[0] != "ok":
        raise RuntimeError(str(hist[1]))
    h = hist[1]
    if "skip" in h:
        return {"violations": [], "stats": {"skipped": 1}, "log": "skip"}
    viol, faults, stats = [], {}, {}
    if h["first"]:
        viol.append({"class": h["first"][0], "msg": f"right after its creation: {h['first'][1]}"})
    for n, (o, s) in enumerate(zip(plan["ops"], h["steps"])):
        stats[o["op"]] = stats.get(o["op"], 0) + 1
        if s["how"] == "struck":
            faults["interrupt in " + o["op"]] = faults.get("interrupt in " + o["op"], 0) + 1
        elif s["how"] not in ("ok", "passed over"):
            faults["refused " + (o.get("what") or o["op"])] = faults.get("refused " + (o.get("what") or o["op"]), 0) + 1
        if s["bad"]:
            v = {"class": s["bad"][0], "msg": f"after {[show(x) for x in plan['ops'][max(0, n - 2):n + 1]]} (the last one {s['how']}, {s['where']}): {s['bad'][1]}"}
            if s["bad"][0] == "dangling":
                v["finding"] = FINDING
            viol.append(v)
    seen = set()
    viol = [v for v in viol if not (v["class"] in seen or seen.add(v["class"]))]
    key = digest([[o["op"], o.get("what"), s["how"], s["where"]] for o, s in zip(plan["ops"], h["steps"])])
    return {"violations": viol, "keys": [key], "nontrivial": [key] if faults else [], "faults": faults, "stats": stats,
            "sample": [[o["op"], s["how"]] for o, s in zip(plan["ops"], h["steps"])], "log": digest([[s["how"], s["where"]] for s in h["steps"]])}


def shrink(plan):
    for ops in P.drop_each(plan["ops"]):
        yield dict(plan, ops=ops)
    for i, o in enumerate(plan["ops"]):
        if o.get("strike"):
            yield dict(plan, ops=plan["ops"][:i] + [dict(o, strike=None)] + plan["ops"][i + 1:])
