"""Kpoints objects and their copies share nothing."""
import copy
import pickle

import numpy as np

from . import common as P
from .. import crystals as C
from .. import trace
from ..canon import canon, diff, digest

TIMEOUT = 120
NAMES = ["G", "X", "Y", "Z", "K1", "M", "S"]
READS = ["points", "points_rel", "ticks", "ticks_rel", "labels", "flat", "flat_rel", "string", "table"]
EDITS = ["coord", "coord", "coord-set", "coord-del", "label", "name", "name-append", "rcell", "rcell-set", "path", "path-in", "path-sub", "path-pop", "n", "add", "add-arg", "remove", "attr", "refused", "labels-clear"]
EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}


def vec(rng):
    return [rng.choice([0.0, 0.5, 1.0, 0.25, -0.5, round(rng.uniform(-1, 1), 3)]) for _ in range(3)]


def args(rng):
    n = rng.choice([2, 3, 4])
    names = rng.sample(NAMES, n)
    return {"rcell": [[round(rng.uniform(1, 3) if i == j else rng.uniform(-0.5, 0.5), 3) for j in range(3)] for i in range(3)], "coords": [vec(rng) for _ in names],
            "names": names, "labels": [x.lower() for x in names], "path": [[names[0], names[1]], [names[-1], names[0], names[1]]][: rng.choice([1, 2])],
            "rform": rng.choice(["nd", "nd", "list"]), "cform": rng.choice(["rows", "nd", "list"]), "nform": rng.choice(["list", "nd", "list"])}


def gen(rng, tier, index):
    pool = [args(rng) for _ in range(rng.choice([1, 1, 2]))]
    structs = []
    if rng.random() < 0.4:
        s = C.make(rng, max_atoms=4)
        structs = [{"cell": s["cell"], "atoms": s["atoms"], "cform": rng.choice(["list", "nd"]), "pform": rng.choice(C.POS_FORMS)}]
    ops = []
    for i in range(rng.choice([5, 8, 12, 18])):
        r = rng.random()
        strike = {"u": rng.random(), "v": rng.random(), "exc": rng.choice(sorted(EXC))} if rng.random() < 0.15 else None
        k = rng.randrange(8)
        if i == 0 or r < 0.14:
            o = {"op": "make", "a": rng.randrange(len(pool)), "use": [x for x in ("coords", "names", "labels", "path") if rng.random() < 0.75], "n": rng.choice([0, 1, 3])}
            if "coords" not in o["use"]:
                o["use"] = []
        elif structs and r < 0.26:
            o = {"op": "crystal", "convention": rng.choice(["HPKOT", "SC"]), "n": rng.choice([0, 2]), "sd": rng.random() < 0.4, "tr": rng.random() < 0.7}
        elif r < 0.42:
            o = {"op": "copy", "k": k, "how": rng.choice(["copy", "copy", "deepcopy", "pickle"])}
        elif r < 0.5:
            o = {"op": "read", "k": k, "what": rng.choice(READS)}
        elif r < 0.56:
            o = {"op": "burst", "k": k, "what": rng.choice(READS), "how": rng.choice(EDITS + ["none"]), "u": rng.random(), "v": rng.random(), "x": vec(rng), "name": rng.choice(NAMES), "a": rng.randrange(len(pool))}
        elif r < 0.62:
            o = {"op": "edit_reading", "k": k, "v": rng.random()}
        elif r < 0.71:
            o = {"op": "edit_arg", "a": rng.randrange(len(pool)), "u": rng.random(), "v": rng.random()}
        else:
            o = {"op": "edit", "k": k, "how": rng.choice(EDITS), "u": rng.random(), "v": rng.random(), "x": vec(rng), "name": rng.choice(NAMES), "a": rng.randrange(len(pool))}
        o["strike"] = strike
        ops.append(o)
    return {"pool": pool, "structs": structs, "ops": ops}


def live(a):
    """The caller's live containers for one set of constructor arguments."""
    co = a["coords"]
    return {"rcell": np.array(a["rcell"]) if a["rform"] == "nd" else [list(r) for r in a["rcell"]],
            "coords": np.array(co) if a["cform"] == "nd" else [np.array(r) for r in co] if a["cform"] == "rows" else [list(r) for r in co],
            "names": np.array(a["names"]) if a["nform"] == "nd" else list(a["names"]), "labels": list(a["labels"]), "path": [list(s) for s in a["path"]],
            "extra": np.array([0.1, 0.2, 0.3])}


def read(kp, what):
    if what == "points":
        return kp.points()
    if what == "points_rel":
        return kp.points(relative=True)
    if what == "ticks":
        return kp.ticks()
    if what == "ticks_rel":
        return kp.ticks(relative=True)
    if what == "labels":
        return kp.labels
    if what == "flat":
        return kp.flat_points()
    if what == "flat_rel":
        return kp.flat_points(relative=True)
    if what == "string":
        return kp.path_string
    return kp.hs_table()


def look(kp):
    out = [canon(kp.rcell), canon(kp.hs_names), canon(kp.hs_coordinates), canon(kp.hs_labels), canon(kp.path), canon(kp.n)]
    for w in READS:
        try:
            out.append(canon(read(kp, w)))
        except Exception as e:  # noqa: BLE001
            out.append(["E", type(e).__name__])
    return out


def poke(x, u, v):
    """In-place edit somewhere inside containers."""
    if isinstance(x, dict):
        if x and u < 0.8:
            return poke(x[sorted(x, key=str)[int(u / 0.8 * len(x)) % len(x)]], (u * 7) % 1, v)
        x["edited"] = [1.0, 2.0, 3.0]
    elif isinstance(x, np.ndarray) and x.size:
        if not x.flags.writeable:
            return
        i = int(v * x.size) % x.size
        x.flat[i] = x.flat[i] + 1 if x.dtype.kind in "if" else "ed"
    elif isinstance(x, list):
        if x and isinstance(x[0], (list, dict, np.ndarray)) and u < 0.8:
            return poke(x[int(u / 0.8 * len(x)) % len(x)], (u * 7) % 1, v)
        if x and v < 0.7:
            i = int(v / 0.7 * len(x)) % len(x)
            x[i] = x[i] + 0.5 if isinstance(x[i], float) else "edited"
        else:
            x.append("edited")


def edit(kp, o, pool):
    h, u, v = o["how"], o["u"], o["v"]
    names = list(kp.hs_names)
    nm = names[int(u * len(names)) % len(names)] if names else None
    if h == "coord" and nm in kp.hs_coordinates:
        poke(kp.hs_coordinates[nm], u, v)
    elif h == "coord-set" and nm is not None:
        kp.hs_coordinates[nm] = np.array(o["x"])
    elif h == "coord-del" and nm is not None:
        kp.hs_coordinates.pop(nm, None)
    elif h == "label" and nm is not None:
        kp.hs_labels[nm] = "edited"
    elif h == "labels-clear":
        kp.hs_labels.clear()
    elif h == "name" and nm is not None:
        kp.hs_names.reverse()
    elif h == "name-append":
        kp.hs_names.append("edited")
    elif h == "rcell":
        poke(kp.rcell, 0.3, v)
    elif h == "rcell-set":
        kp.rcell = pool[o["a"]]["extra_cell"]
    elif h == "path" and len(names) > 1:
        kp.path = [[nm, names[0]], [names[0], names[1]]]
    elif h == "path-in" and kp.path:
        kp.path[0][int(v * len(kp.path[0])) % len(kp.path[0])] = nm
    elif h == "path-sub":
        kp.path.append([nm, nm])
    elif h == "path-pop" and len(kp.path) > 1:
        kp.path.pop()
    elif h == "n":
        kp.n = int(v * 5)
    elif h == "add":
        kp.add_hs_point(o["name"], list(o["x"]), relative=u < 0.7)
    elif h == "add-arg":
        kp.add_hs_point(o["name"] + "'", pool[o["a"]]["extra"])
    elif h == "remove" and nm is not None:
        kp.remove_hs_point(nm)
    elif h == "attr":
        kp.note = [1, 2]
    elif h == "refused":
        kp.path = [[nm or "G", "nowhere"]]


def burst(kp, o, pool):
    """Readings and edits right after each other, with no other reading between them."""
    try:
        a = read(kp, o["what"])
    except Exception:  # noqa: BLE001
        return None
    first = canon(a)
    poke(a, 0.3, o["v"])
    b = read(kp, o["what"])
    d = diff(first, canon(b), 0.0)
    if d:
        return f"{o['what']} was read, the reading edited, and {o['what']} read again: {d}"
    if o["how"] != "rcell-set":
        try:
            edit(kp, o, pool)
        except Exception:  # noqa: BLE001
            pass
    d = diff(first, canon(b), 0.0)
    if d:
        return f"a reading of {o['what']} changed with the object: {d}"
    try:
        c = read(kp, o["what"])
    except Exception:  # noqa: BLE001
        return None
    poke(c, 0.3, 1 - o["v"])
    d = diff(first, canon(b), 0.0)
    return f"a reading of {o['what']} changed with a later reading: {d}" if d else None


def history(plan):
    import wulfric

    pool = [live(a) for a in plan["pool"]]
    for p in pool:
        p["extra_cell"] = np.diag([1.0, 2.0, 3.0])
    structs = [[C.build_cell(s["cell"], s["cform"]), C.build_atoms(s["atoms"], s["pform"])] for s in plan["structs"]]
    data = None
    made = {}  # from_crystal: key -> first look
    objs, readings = [], []
    out = []

    def snapshot():
        return {"objs": [look(k) for k in objs], "pool": [canon(p) for p in pool], "readings": [canon(r) for r in readings],
                "structs": [[canon(a), canon(b)] for a, b in structs], "data": canon(data)}

    before = snapshot()
    for o in plan["ops"]:
        k = o.get("k", 0)
        obj = reading = arg = None
        rec = {"how": "ok", "bad": None, "where": None}
        if o["op"] in ("copy", "read", "edit", "burst") and not objs or o["op"] == "edit_reading" and not readings:
            out.append(dict(rec, how="passed over"))
            continue
        if o["op"] == "make":
            p = pool[o["a"]]
            kw = {{"coords": "coordinates"}.get(x, x): p[x] for x in o["use"]}
            go = lambda: wulfric.Kpoints(p["rcell"], n=o["n"], **kw)  # noqa: E731
        elif o["op"] == "crystal":
            if o["sd"] and data is None:
                data = wulfric.get_spglib_data(*structs[0])
                before["data"] = canon(data)
            sd = data if o["sd"] else None
            go = lambda: wulfric.Kpoints.from_crystal(structs[0][0], structs[0][1], convention=o["convention"], with_time_reversal=o["tr"], n=o["n"], spglib_data=sd)  # noqa: E731
        elif o["op"] == "copy":
            src = objs[k % len(objs)]
            go = {"copy": src.copy, "deepcopy": lambda: copy.deepcopy(src), "pickle": lambda: pickle.loads(pickle.dumps(src))}[o["how"]]
        elif o["op"] == "read":
            go = lambda: read(objs[k % len(objs)], o["what"])  # noqa: E731
        elif o["op"] == "burst":
            obj = k % len(objs)
            go = lambda: burst(objs[obj], o, pool)  # noqa: E731
        elif o["op"] == "edit_reading":
            reading = k % len(readings)
            go = lambda: poke(readings[reading], 0.3, o["v"])  # noqa: E731
        elif o["op"] == "edit_arg":
            arg = o["a"]
            q = {x: y for x, y in pool[arg].items() if x != "extra_cell"}
            name = sorted(q)[int(o["u"] * len(q)) % len(q)]
            go = lambda: poke(q[name], (o["u"] * 11) % 1, o["v"])  # noqa: E731
        else:
            obj = k % len(objs)
            if o["how"] == "rcell-set":
                c = pool[o["a"]]["extra_cell"]
                pool[o["a"]]["extra_cell"] = c.copy()  # assigned as it is: it belongs to the object from now on
                go = lambda: setattr(objs[obj], "rcell", c)  # noqa: E731
            else:
                go = lambda: edit(objs[obj], o, pool)  # noqa: E731
        fired = False
        try:
            if o["strike"]:
                at = None
                if o["op"] in ("make", "crystal", "read", "copy"):
                    _, ev = trace.profile(go)
                    at = trace.pick(ev, o["strike"]["u"], o["strike"]["v"])
                elif o["op"] == "edit":
                    twin = copy.deepcopy(objs[obj])
                    _, ev = trace.profile(lambda: edit(twin, o, pool))
                    at = trace.pick(ev, o["strike"]["u"], o["strike"]["v"])
                if at is None:
                    r = go()
                else:
                    res, st = trace.inject(go, at, EXC[o["strike"]["exc"]]("injected"))
                    fired = st.fired
                    rec["where"] = st.where and [st.where[1], st.where[2]]
                    if res[0] == "exc":
                        raise res[1]
                    r = res[1]
            else:
                r = go()
        except BaseException as e:  # noqa: BLE001
            rec["how"] = "struck" if fired else type(e).__name__
            r = None
        after = snapshot()
        # nothing but the target of the step has changed
        for i, (x, y) in enumerate(zip(before["objs"], after["objs"])):
            if i != obj:
                d = diff(x, y, 0.0)
                if d:
                    rec["bad"] = ["object", f"object {i} changed: {d}"]
        for i, (x, y) in enumerate(zip(before["pool"], after["pool"])):
            if i != arg:
                d = diff(x, y, 0.0)
                if d:
                    rec["bad"] = rec["bad"] or ["argument", f"the arguments {i} of the caller changed: {d}"]
        for i, (x, y) in enumerate(zip(before["readings"], after["readings"])):
            if i != reading:
                d = diff(x, y, 0.0)
                if d:
                    rec["bad"] = rec["bad"] or ["reading", f"reading {i}, taken earlier, changed: {d}"]
        d = diff(before["structs"], after["structs"], 0.0) or diff(before["data"], after["data"], 0.0)
        if d:
            rec["bad"] = rec["bad"] or ["argument", f"cell, atoms or spglib_data changed: {d}"]
        if o["op"] == "burst" and r:
            rec["bad"] = rec["bad"] or ["reading", r]
        if r is not None and not rec["bad"]:
            if o["op"] in ("make", "crystal", "copy"):
                new = look(r)
                if o["op"] == "copy":
                    d = diff(after["objs"][k % len(objs)], new, 0.0)
                    if d:
                        rec["bad"] = ["copy", f"the copy differs from its original: {d}"]
                elif o["op"] == "crystal":
                    key = str([o["convention"], o["n"], o["tr"]])
                    if key in made:
                        d = diff(made[key], new, 1e-9)
                        if d:
                            rec["bad"] = ["from_crystal", f"from_crystal returned something else than before: {d}"]
                    made[key] = new
                objs.append(r)
                after["objs"].append(new)
                if len(objs) > 6:
                    objs.pop(0)
                    after["objs"].pop(0)
            elif o["op"] == "read" and not isinstance(r, str):
                readings.append(r)
                after["readings"].append(canon(r))
        out.append(rec)
        if rec["bad"]:
            break
        before = after
    return out


def execute(plan, ctx):
    return ctx.fork(history, plan, timeout=100)


def show(o):
    return {k: v for k, v in o.items() if k not in ("strike", "u", "v")}


def judge(plan, hist, ctx):
    if hist[0] != "ok":
        raise RuntimeError(str(hist[1]))
    viol, stats, faults = [], {}, {}
    for n, (o, s) in enumerate(zip(plan["ops"], hist[1])):
        name = o["op"] + (":" + o["how"] if o["op"] in ("edit", "copy") else "")
        stats[name] = stats.get(name, 0) + 1
        if s["how"] == "struck":
            faults["interrupt in " + o["op"]] = faults.get("interrupt in " + o["op"], 0) + 1
        elif s["how"] not in ("ok", "passed over"):
            faults["refused " + o["op"]] = faults.get("refused " + o["op"], 0) + 1
        if s["bad"]:
            viol.append({"class": s["bad"][0], "msg": f"step {n} {show(o)} ({s['how']}): {s['bad'][1]}"})
    key = digest([[o["op"], o.get("how"), o.get("k"), o.get("a"), o.get("what"), s["how"], s["where"]] for o, s in zip(plan["ops"], hist[1])])
    kinds = {o["op"] for o, s in zip(plan["ops"], hist[1]) if s["how"] != "passed over"}
    return {"violations": viol, "keys": [key], "nontrivial": [key] if kinds & {"edit", "burst", "edit_arg", "edit_reading"} else [], "stats": stats, "faults": faults,
            "sample": [[o["op"], o.get("how"), s["how"]] for o, s in zip(plan["ops"], hist[1])], "log": digest([[s["how"], s["where"]] for s in hist[1]])}


def shrink(plan):
    for ops in P.drop_each(plan["ops"]):
        if ops:
            yield dict(plan, ops=ops)
    for i, o in enumerate(plan["ops"]):
        if o.get("strike"):
            yield dict(plan, ops=plan["ops"][:i] + [dict(o, strike=None)] + plan["ops"][i + 1:])
        if o["op"] == "make" and o["use"]:
            for u in P.drop_each(o["use"]):
                if "coords" in u or not u:
                    yield dict(plan, ops=plan["ops"][:i] + [dict(o, use=u)] + plan["ops"][i + 1:])
