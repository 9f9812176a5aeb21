"""In-place atom edits keep the crystal, even when they are interrupted and repeated."""
import copy

import numpy as np

from . import common as P
from .. import crystals as C
from .. import trace
from ..canon import canon, diff, digest

TIMEOUT = 120
EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}
FORMS = ["list", "nd", "rows", "list", "ints", "f32", "ndF", "view"]


def coordinate(rng):
    if rng.random() < 0.1:  # close to the border of the cell, at any distance
        return rng.choice([0, 0, 1, -1, 2]) + rng.choice([-1, 1]) * 10 ** rng.uniform(-16, -2)
    return rng.choice([0.0, 0.5, 1.0, -1.0, -0.0, 1e-17, -1e-17, -1e-9, -3e-13, 0.9999999999, 1.0000000001, -1.0000000001, 2.0, -3.0, round(rng.uniform(-0.5, 1.5), 4), round(rng.uniform(-4, 4), 3),
                       round(rng.uniform(0, 1), 6), round(rng.uniform(0, 1), 6), -0.25, 41.375, -17.5])


def gen(rng, tier, index):
    if rng.random() < 0.3:
        s = C.make(rng, max_atoms=8)
        cell, atoms = s["cell"], s["atoms"]
    else:
        n = rng.choice([1, 1, 2, 2, 3, 5, 8])
        axis = rng.randrange(4)
        pos = [[coordinate(rng) for _ in range(3)] for _ in range(n)]
        if axis < 3:
            for p in pos:  # one axis without negative coordinates, or with the same one everywhere
                p[axis] = abs(p[axis]) if rng.random() < 0.7 else pos[0][axis]
        cell = [[round(rng.uniform(2, 6) if i == j else rng.uniform(-1.5, 1.5), 3) for j in range(3)] for i in range(3)]
        atoms = {"names": [rng.choice(["Fe", "O", "Cr1"]) for _ in range(n)], "positions": pos}
        if rng.random() < 0.3:
            atoms["charge"] = [float(i) for i in range(n)]
        if rng.random() < 0.2:
            atoms["moment"] = [[0.5, -1.5, -float(i)] for i in range(n)]
    form = rng.choice(FORMS)
    if form == "ints":
        atoms["positions"] = [[int(round(x)) for x in p] for p in atoms["positions"]]
    ops = []
    for _ in range(rng.choice([1, 2, 3, 5, 8])):
        r = rng.random()
        if r < 0.36:
            o = {"op": "shift", "g": rng.choice([None, [0.5, 0.5, 0.5], [0, 0, 0], [round(rng.uniform(-3, 3), 3) for _ in range(3)], [round(rng.uniform(-3, 3), 3) for _ in range(3)], [1, 0, -1]]),
                 "gform": rng.choice(["list", "tuple", "nd"]), "cell": rng.random() < 0.6, "relative": rng.random() < 0.5}
            if not o["relative"]:
                o["cell"] = True
                o["g"] = o["g"] or [1.0, 1.0, 1.0]
        elif r < 0.6:
            o = {"op": "cure"}
        elif r < 0.9:
            o = {"op": "ensure"}
        elif r < 0.94:
            o = {"op": "nocell", "g": [1.0, 1.0, 1.0]}
        else:
            o = {"op": "bad", "what": rng.choice(["string", "none", "text", "singular", "gshape", "nokey"]), "fn": rng.choice(["shift", "cure", "ensure"]), "i": rng.randrange(8), "j": rng.randrange(3)}
        o["strikes"] = [{"u": rng.random(), "v": rng.random(), "exc": rng.choice(sorted(EXC))} for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))] if o["op"] in ("shift", "cure", "ensure") else []
        o["again"] = rng.random() < 0.3
        ops.append(o)
    return {"cell": cell, "atoms": atoms, "form": form, "sugar": rng.random() < 0.2, "ops": ops, "cform": rng.choice(C.CELL_FORMS)}


def live(plan):
    import wulfric

    f = plan["form"]
    a = C.build_atoms(plan["atoms"], {"nd": "nd", "rows": "rows"}.get(f, "list"))
    p = plan["atoms"]["positions"]
    if f == "ints":
        a["positions"] = np.array(p, dtype=int)
    elif f == "f32":
        a["positions"] = np.array(p, dtype=np.float32)
    elif f == "ndF":
        a["positions"] = np.asfortranarray(np.array(p, dtype=float))
    elif f == "view":
        a["positions"] = np.array([list(x) + [9.0] for x in p], dtype=float)[:, :3]
    if plan["sugar"]:
        a = wulfric.add_sugar(a)
    return a


def call(o, atoms, cell, points=None):
    """The call of step o; the caller keeps one object for each gravity point and passes it again and again."""
    import wulfric

    if o["op"] == "shift":
        kw = {}
        if o["g"] is not None:
            made = {"list": list, "tuple": tuple, "nd": np.array}[o["gform"]](o["g"])
            kw["gravity_point"] = made if points is None else points.setdefault(str([o["gform"], o["g"]]), made)
        if o["cell"]:
            kw["cell"] = cell
        return wulfric.crystal.shift_atoms(atoms, gp_is_relative=o["relative"], **kw)
    if o["op"] == "cure":
        return wulfric.crystal.cure_negative(atoms)
    if o["op"] == "ensure":
        return wulfric.crystal.ensure_000(atoms)
    if o["op"] == "nocell":
        return wulfric.crystal.shift_atoms(atoms, gravity_point=tuple(o["g"]), gp_is_relative=False)
    raise ValueError(o["op"])


def array(atoms):
    return np.array([[float(x) for x in p] for p in atoms["positions"]], dtype=float).reshape(-1, 3)


def rest(atoms):
    return [[k, canon(v)] for k, v in atoms.items() if k != "positions"], list(atoms), type(atoms).__name__


def documented(o, old, new, cell, tol):
    """Why `new` is not where the call has to put the atoms that were at `old`."""
    move = new - old
    if o["op"] == "ensure":
        if (new < 0).any() or (new > 1).any():  # exact, as documented
            return f"positions {new.tolist()} are not inside of the cell"
        if np.abs(move - np.round(move)).max() > tol:
            return f"positions {old.tolist()} became {new.tolist()}, which is not a move by whole lattice vectors"
        return None
    if np.abs(move - move[0]).max() > tol:
        return f"positions {old.tolist()} became {new.tolist()}, which is not one common translation"
    if o["op"] == "cure":
        want = np.maximum(0, -old.min(axis=0))
        if np.abs(move[0] - want).max() > tol or new.min() < 0:
            return f"positions {old.tolist()} moved by {move[0].tolist()}, expected {want.tolist()}"
        return None
    g = np.array(o["g"] if o["g"] is not None else [0.5, 0.5, 0.5], dtype=float)
    if not o["relative"]:
        g = g @ np.linalg.inv(np.array(cell, dtype=float))
    mid = (new.min(axis=0) + new.max(axis=0)) / 2
    if np.abs(mid - g).max() > tol:
        return f"the middle of the atoms is at {mid.tolist()}, expected {g.tolist()}"
    return None


def refused(o, atoms, cell):
    """An invalid call; the atoms have to stay what they are."""
    import wulfric

    w = o["what"]
    a = atoms
    pos = a["positions"]
    i, j = o["i"] % len(pos), o["j"]
    undo = None
    if w in ("string", "none") and not isinstance(pos, np.ndarray) and isinstance(pos[i], list):
        old = pos[i][j]
        pos[i][j] = "x" if w == "string" else None

        def undo():
            a["positions"][i][j] = old
    elif w == "nokey":
        a = {k: v for k, v in atoms.items() if k != "positions"}
        a["names"] = list(a.get("names", []))
    fns = {"shift": lambda: wulfric.crystal.shift_atoms(a, cell=cell), "cure": lambda: wulfric.crystal.cure_negative(a), "ensure": lambda: wulfric.crystal.ensure_000(a)}
    if w == "singular":
        go = lambda: wulfric.crystal.shift_atoms(a, gravity_point=(1, 1, 1), cell=[[1, 0, 0], [2, 0, 0], [0, 0, 1]], gp_is_relative=False)  # noqa: E731
    elif w == "gshape":
        go = lambda: wulfric.crystal.shift_atoms(a, gravity_point=(1, 1))  # noqa: E731
    elif w == "text":
        go = lambda: wulfric.crystal.shift_atoms(a, gravity_point="abc")  # noqa: E731
    elif undo or w == "nokey":
        go = fns[o["fn"]]
    else:
        return None
    r = P.outcome(go)
    if undo:
        undo()
    return r


def history(plan):
    cell = C.build_cell(plan["cell"], plan.get("cform", "list"))
    atoms = live(plan)
    scale = 1 + max(abs(x) for p in plan["atoms"]["positions"] for x in p)
    tol = (3e-6 if plan["form"] == "f32" else 1e-9) * max(scale, 1)
    out, points = [], {}
    for o in plan["ops"]:
        rec = {"how": "ok", "bad": None, "where": []}
        old = array(atoms)
        t = max(tol, (3e-7 if plan["form"] == "f32" else 1e-13) * np.abs(old).max())
        others = rest(atoms)
        cellwas = canon(cell)
        if o["op"] in ("nocell", "bad"):
            r = P.outcome(lambda: call(o, atoms, cell)) if o["op"] == "nocell" else refused(o, atoms, cell)
            if r is None:
                rec["how"] = "passed over"
            elif r[0] == "ok":
                if o["op"] == "nocell":
                    rec["bad"] = ["accepted", f"{o} was accepted"]
            else:
                rec["how"] = "refused"
                new = array(atoms)
                move = new - old
                whole = o.get("fn") == "ensure" and o.get("what") in ("string", "none")
                if (np.abs(move - np.round(move)).max() if whole else np.abs(move).max()) > t:
                    rec["bad"] = ["refused", f"{o} raised {r[1]} and moved the atoms from {old.tolist()} to {new.tolist()}"]
        else:
            for s in o["strikes"]:
                twin = copy.deepcopy(atoms)
                _, ev = trace.profile(lambda: call(o, twin, cell, points))
                at = trace.pick(ev, s["u"], s["v"])
                if at is None:
                    continue
                res, st = trace.inject(lambda: call(o, atoms, cell, points), at, EXC[s["exc"]]("injected"))
                if st.fired:
                    rec["where"].append([st.where[1], st.where[2]])
            r = P.outcome(lambda: call(o, atoms, cell, points))
            if r[0] != "ok":
                rec["bad"] = ["failed", f"{o['op']} raised {r[1]}: {r[2]}"]
            else:
                new = array(atoms)
                if new.shape != old.shape:
                    rec["bad"] = ["atoms", f"{len(old)} atoms became {len(new)}"]
                elif not rec["where"]:
                    e = documented(o, old, new, cell, t)
                    if e:
                        rec["bad"] = ["position", f"{o['op']}: {e}"]
                else:
                    # the state an uninterrupted call gives, up to whole lattice vectors; the documented place is reached in any case
                    e = documented(o, old, new, cell, t) if o["op"] != "cure" else None
                    if o["op"] == "cure":
                        want = old + np.maximum(0, -old.min(axis=0))
                        d = new - want
                        if np.abs(d - np.round(d)).max() > t or new.min() < 0:
                            e = f"positions {old.tolist()} became {new.tolist()}, an uninterrupted call gives {want.tolist()}"
                    if e:
                        rec["bad"] = ["retry", f"{o['op']} struck at {rec['where']} and repeated: {e}"]
                if not rec["bad"] and o["again"]:
                    call(o, atoms, cell, points)
                    d = array(atoms) - new
                    if np.abs(d - (np.round(d) if o["op"] == "ensure" else 0)).max() > t:
                        rec["bad"] = ["again", f"a second {o['op']} moved the atoms from {new.tolist()} to {array(atoms).tolist()}"]
        if not rec["bad"] and rest(atoms) != others:
            rec["bad"] = ["other", f"{o['op']} changed something else than positions: {diff(others[0], rest(atoms)[0], 0.0) or rest(atoms)[1:]}"]
        if not rec["bad"] and canon(cell) != cellwas:
            rec["bad"] = ["cell", f"{o['op']} changed the cell"]
        out.append(rec)
        if rec["bad"]:
            break
    return out


def execute(plan, ctx):
    return ctx.fork(history, plan, timeout=100)


def judge(plan, hist, ctx):
    if hist[0] != "ok":
        raise RuntimeError(str(hist[1]))
    viol, faults, stats = [], {}, {}
    for n, (o, s) in enumerate(zip(plan["ops"], hist[1])):
        stats[o["op"]] = stats.get(o["op"], 0) + 1
        for _ in s["where"]:
            faults["interrupt in " + o["op"]] = faults.get("interrupt in " + o["op"], 0) + 1
        if s["how"] == "refused":
            faults["refused " + o.get("what", "no cell")] = faults.get("refused " + o.get("what", "no cell"), 0) + 1
        if s["bad"]:
            viol.append({"class": s["bad"][0], "msg": f"step {n} of {[x['op'] for x in plan['ops'][:n + 1]]}, positions given as {plan['form']}: {s['bad'][1]}"})
    key = digest([plan["form"], len(plan["atoms"]["positions"]), [[o["op"], o.get("what"), s["how"], s["where"]] for o, s in zip(plan["ops"], hist[1])]])
    return {"violations": viol, "keys": [key], "nontrivial": [key] if len(hist[1]) > 1 or faults else [], "faults": faults, "stats": stats,
            "sample": [[o["op"], s["how"], s["where"]] for o, s in zip(plan["ops"], hist[1])], "log": digest([[s["how"], s["where"]] for s in hist[1]])}


def shrink(plan):
    for ops in P.drop_each(plan["ops"]):
        if ops:
            yield dict(plan, ops=ops)
    for i, o in enumerate(plan["ops"]):
        for s in P.drop_each(o["strikes"]):
            yield dict(plan, ops=plan["ops"][:i] + [dict(o, strikes=s)] + plan["ops"][i + 1:])
    for d in P.shrink_atoms(plan):
        yield d
    if plan["sugar"]:
        yield dict(plan, sugar=False)
    if plan["form"] != "list":
        yield dict(plan, form="list")
