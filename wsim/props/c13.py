"""Stored spglib data is never applied to a different structure."""
import copy
import gc
import pickle

import numpy as np

from . import c09
from . import common as P
from .. import backend as B
from .. import calls as K
from .. import crystals as C
from ..canon import canon, diff, digest

TIMEOUT = 120
CONSUMERS = ["conventional", "primitive", "points", "kpoints", "kvalues", "variation", "symbol", "validate_data"]
EDITS = [e for e in c09.EDITS if e not in ("addkey", "extra")] + ["small", "atom+", "atom-"]
KNOWN = {x for e in C.POOL for x in e["names"]} | set(C.SPECIES) | {"Zn", "Mo"}


def prepare():
    B.install()


def gen(rng, tier, index):
    structs = [K.structure(rng, max_atoms=8)]
    for _ in range(rng.choice([0, 1, 1, 2])):
        structs.append(K.sib(rng, structs[0]) if rng.random() < 0.8 else K.structure(rng, max_atoms=8))
    if rng.random() < 0.06:  # numbers of atoms whose positions broadcast against each other
        structs[0] = K.sib(rng, structs[0], "one")
        structs[1:] = [K.sib(rng, structs[0], "pile")]
    ns = len(structs)
    tol = lambda: rng.choice([[1e-5, -1], [1e-5, -1], [1e-3, -1], [1e-2, 5.0]])  # noqa: E731
    ops = [{"op": "make", "s": 0, "tol": tol()}]
    nd, nu = 1, 0
    for _ in range(rng.choice([2, 4, 7, 10])):
        r = rng.random()
        if r < 0.4:
            d = rng.randrange(nd)
            i = rng.randrange(ns)
            c = K.pick(rng, structs, only=CONSUMERS, i=i)
            c["sd"] = None
            ops.append({"op": "use", "d": d, "c": c, "plain": rng.random() < 0.4})
            nu += 1
        elif r < 0.55:
            ops.append({"op": "make", "s": rng.randrange(ns), "tol": tol()})
            nd += 1
        elif r < 0.75:
            ops.append({"op": "edit", "s": rng.randrange(ns), "how": rng.choice(EDITS), "u": rng.random(), "v": rng.random()})
        elif r < 0.85:
            ops.append({"op": "restore", "s": rng.randrange(ns)})
        elif r < 0.89:
            i = rng.randrange(ns)
            ops.append({"op": "replace", "s": i, "new": K.sib(rng, structs[i])})
        elif r < 0.93 and nu:
            ops.append({"op": "editres", "u": rng.random(), "v": rng.random()})
        elif r < 0.96:
            ops.append({"op": "wait", "ns": rng.choice([10**9, 3600 * 10**9, 86400 * 400 * 10**9, -(10**12)])})
        elif r < 0.98:
            ops.append({"op": "copy", "d": rng.randrange(nd), "how": rng.choice(["pickle", "deepcopy", "copy"])})
            nd += 1
        else:
            ops.append({"op": "churn", "n": rng.choice([5, 40]), "seed": rng.randrange(1 << 30)})
    for _ in range(rng.choice([1, 2])):
        c = K.pick(rng, structs, only=CONSUMERS)
        ops.append({"op": "use", "d": rng.randrange(nd), "c": c, "plain": rng.random() < 0.4})
    for o in ops:
        if o["op"] == "use":
            o["c"]["sd"] = None
    return {"structs": structs, "ops": ops}


def edit(w, s, how, u, v, spec):
    cell, atoms = w.cells[s], w.atom[s]
    if how == "small":
        i = int(u * len(atoms["positions"])) % len(atoms["positions"])
        atoms["positions"][i][int(v * 3) % 3] += 3e-4 if v < 0.5 else -2e-4
        return
    if how in ("atom+", "atom-"):
        n = len(atoms["positions"])
        for q in list(atoms):
            if how == "atom-" and n > 1:
                atoms[q] = atoms[q][:-1]
            elif how == "atom+":
                last = [0.31, 0.17, 0.43] if q == "positions" else copy.deepcopy(atoms[q][-1])
                atoms[q] = np.concatenate([atoms[q], [last]]) if isinstance(atoms[q], np.ndarray) else atoms[q] + [np.array(last) if q == "positions" and isinstance(atoms[q][-1], np.ndarray) else last]
        return
    c09.edit_input(w, s, how, u, v, spec)


def snap(w, i):
    """The present values of a structure as literals."""
    lit = lambda x: np.array(x, dtype=float).tolist()  # noqa: E731
    a = {k: (lit(v) if k == "positions" else P.json.loads(P.json.dumps(v, default=lambda y: y.tolist()))) for k, v in w.atom[i].items()}
    return {"cell": lit(w.cells[i]), "atoms": a}


def types(a):
    """Reference model of the documented rules."""
    if "spglib_types" in a:
        return list(a["spglib_types"])
    if "species" in a:
        ids = a["species"]
    elif "names" in a:
        ids = [C.species_of(x) if C.species_of(x) in KNOWN else x for x in a["names"]]
    else:
        return None
    order = sorted(set(ids))
    return [order.index(x) + 1 for x in ids]


def relation(a, b):
    """same | different | close, for two snapshots."""
    if a == b:
        return "same"
    ta, tb = types(a["atoms"]), types(b["atoms"])
    if len(a["atoms"]["positions"]) != len(b["atoms"]["positions"]) or ta != tb:
        return "different"
    x = np.concatenate([np.ravel(a["cell"]), np.ravel(a["atoms"]["positions"])])
    y = np.concatenate([np.ravel(b["cell"]), np.ravel(b["atoms"]["positions"])])
    if (x == y).all():
        return "same"
    return "different" if (np.abs(x - y) > 1e-4 * np.maximum(np.abs(x), np.abs(y)) + 1e-7).any() else "close"


def churn(n, seed):
    import random

    import wulfric

    rng = random.Random(seed)
    for _ in range(n):
        t = C.make(rng, max_atoms=4)
        P.outcome(lambda: wulfric.get_spglib_data(t["cell"], t["atoms"]))


def use(w, c, data):
    w2 = K.World([])
    w2.cells, w2.atom = w.cells, w.atom
    c = dict(c, sd=["d", 0])
    w2.stored[(c["s"], ("d", 0))] = data
    got = []
    r = K.record(w2, c, None, got)
    return r, got[0]


def history(plan, ctx):
    import wulfric

    ctx.simos.clock(1700000000 * 10**9, [1000])
    now = 1700000000 * 10**9
    spec = [P.json.loads(P.json.dumps(s)) for s in plan["structs"]]
    w = K.World(spec)
    datas, out = [], []
    last = None
    for op in plan["ops"]:
        rec = {}
        k = op["op"]
        if k == "make":
            i = op["s"]
            s0 = snap(w, i)
            r = P.outcome(lambda: wulfric.get_spglib_data(w.cells[i], w.atom[i], spglib_symprec=op["tol"][0], spglib_angle_tolerance=op["tol"][1]))
            datas.append((r[1], s0, op["tol"]) if r[0] == "ok" else None)
        elif k == "copy":
            d = datas[op["d"]] if op["d"] < len(datas) else None
            if d is not None:
                r = P.outcome(lambda: {"pickle": lambda x: pickle.loads(pickle.dumps(x)), "deepcopy": copy.deepcopy, "copy": copy.copy}[op["how"]](d[0]))
                d = (r[1], d[1], d[2]) if r[0] == "ok" else None
            datas.append(d)
        elif k == "edit":
            edit(w, op["s"], op["how"], op["u"], op["v"], spec[op["s"]])
        elif k == "restore":
            c09.restore(w, op["s"], spec[op["s"]])
        elif k == "replace":
            i = op["s"]
            spec[i] = op["new"]
            w.cells[i] = w.atom[i] = None
            gc.collect()
            w.cells[i], w.atom[i] = K.World.make(op["new"])
        elif k == "editres":
            parts = []
            c09.containers(last, parts)
            if parts:
                c09.mutate(parts[int(op["u"] * len(parts)) % len(parts)], op["v"])
        elif k == "wait":
            now += op["ns"]
            ctx.simos.clock(now, [1000])
        elif k == "churn":
            churn(op["n"], op["seed"])
        elif k == "use":
            d = datas[op["d"]] if op["d"] < len(datas) else None
            if d is not None:
                s1 = snap(w, op["c"]["s"])
                arg = [canon(w.cells), canon(w.atom)]
                B.S.reset()
                r, last = use(w, op["c"], d[0])
                rec = {"r": r, "now": s1, "then": d[1], "tol": d[2], "backend": [x for x in B.S.calls if x in B.SEARCH],
                       "arg": diff(arg, [canon(w.cells), canon(w.atom)], 0.0)}
        out.append(rec)
    return out


def alone(snapshot, c, tol):
    import wulfric

    w = K.World([dict(snapshot, cform="list", pform="list")])
    c = dict(c, s=0)
    if tol is None:
        if c["f"] == "validate_data":
            return None
        return K.record(w, dict(c, sd=None))
    d = P.outcome(lambda: wulfric.get_spglib_data(w.cells[0], w.atom[0], spglib_symprec=tol[0], spglib_angle_tolerance=tol[1]))
    return use(w, c, d[1])[0] if d[0] == "ok" else None


def execute(plan, ctx):
    h = ctx.fork(history, plan, ctx, timeout=100)
    if h[0] != "ok":
        return {"skip": h}
    ref = {}
    for n, (op, rec) in enumerate(zip(plan["ops"], h[1])):
        if "r" in rec and relation(rec["now"], rec["then"]) == "same":
            ref[n] = ctx.fork(alone, rec["now"], op["c"], None if op["plain"] and rec["tol"] == [1e-5, -1] else rec["tol"])
    return {"h": h[1], "ref": ref}


def judge(plan, hist, ctx):
    if "skip" in hist:
        if hist["skip"][0] == "error":
            raise RuntimeError(hist["skip"][1])
        return {"violations": [], "stats": {"skipped": 1}, "log": "skip"}
    viol, keys, stats, faults = [], [], {}, {}
    for n, (op, rec) in enumerate(zip(plan["ops"], hist["h"])):
        if op["op"] != "use":
            faults[op["op"]] = faults.get(op["op"], 0) + 1
        if "r" not in rec:
            continue
        rel = relation(rec["now"], rec["then"])
        before = [o["op"] + ":" + o["how"] if "how" in o else o["op"] for o in plan["ops"][:n]]
        what = f"op {n} {K.show(op['c'])} with spglib data of tolerances {rec['tol']} after {before}"
        stats["use:" + rel] = stats.get("use:" + rel, 0) + 1
        if rec["arg"]:
            viol.append({"class": "argument", "msg": f"{what}: an argument changed: {rec['arg']}"})
        if rel == "different" and rec["r"][0] == "ok":
            viol.append({"class": "mixed", "msg": f"{what}: the data belongs to another structure and was accepted; made for {str(rec['then'])[:300]}, used with {str(rec['now'])[:300]}"})
        if rel == "same":
            ref = hist["ref"][n]
            if ref[0] == "error":
                raise RuntimeError(ref[1])
            if ref[0] == "ok" and ref[1] is not None:
                d = K.same(rec["r"], ref[1])
                if d:
                    viol.append({"class": "reuse", "msg": f"{what}: differs from the result with fresh data: {d}"})
            if rec["backend"]:
                viol.append({"class": "search", "msg": f"{what}: another symmetry search was made: {rec['backend']}"})
        keys.append(digest([op["c"]["f"], op["c"]["a"], rel, before]))
    return {"violations": viol, "keys": keys, "nontrivial": keys, "stats": stats, "faults": faults,
            "sample": [o["op"] if o["op"] != "use" else o["c"]["f"] for o in plan["ops"]], "log": digest([r.get("r", [0])[:2] for r in hist["h"]])}


def shrink(plan):
    ops = plan["ops"]
    for i in range(len(ops) - 1, -1, -1):
        rest = [dict(o) for o in ops[:i] + ops[i + 1:]]
        if ops[i]["op"] in ("make", "copy"):
            k = sum(1 for o in ops[:i] if o["op"] in ("make", "copy"))
            rest = [o for o in rest if not (o.get("d") == k)]
            for o in rest:
                if o.get("d", -1) > k:
                    o["d"] -= 1
        if any(o["op"] == "use" for o in rest):
            yield dict(plan, ops=rest)
    for i, s in enumerate(plan["structs"]):
        for a in P.shrink_atoms(s):
            yield dict(plan, structs=plan["structs"][:i] + [a] + plan["structs"][i + 1:])
        for k, v in (("cform", "list"), ("pform", "list"), ("sugar", False)):
            if s.get(k) != v:
                yield dict(plan, structs=plan["structs"][:i] + [dict(s, **{k: v})] + plan["structs"][i + 1:])
