"""Everything that is derived from a crystal is the same for every description of it that a history arrives at."""
import itertools
import os
import warnings

import numpy as np

from . import common as P
from .. import backend as B
from .. import crystals as C
from .. import trace
from ..canon import canon, digest

TIMEOUT = 150
EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}
HOWS = ["None", "RuntimeError", "SpglibError", "MemoryError"]
# at the boundary between two variations of their lattice, where the conventions leave the choice open
BOUNDARY = {"scORCF3", "scMCLC2", "scMCLC4", "scTRI2a", "scTRI2b"}
SHEAR = C.UNIMOD + [[[1, 0, 0], [2, 1, 0], [0, 0, 1]], [[1, 0, -1], [0, 1, 0], [0, 0, 1]], [[-1, 0, 0], [0, 1, 0], [0, 0, 1]], [[0, 1, 0], [1, 0, 0], [0, 0, 1]]]
LONG = [[[1, 0, 0], [3, 1, 0], [0, 0, 1]], [[1, 0, 0], [0, 1, 0], [0, -4, 1]], [[1, 0, 5], [0, 1, 0], [0, 0, 1]], [[1, 0, 0], [0, 1, 0], [2, 3, 1]]]
LIMIT = 48
TOL = 1e-5


def prepare():
    B.install()


# --------------------------------------------------------------------------------------- structures
def strained(s, u):
    """The crystal with other lattice parameters of the same lattice type; three versions that differ by a little."""
    import spglib

    names = s["atoms"]["names"]
    kinds = sorted(set(names))
    d = spglib.get_symmetry_dataset((s["cell"], s["atoms"]["positions"], [kinds.index(x) + 1 for x in names]), symprec=1e-5)
    lat, pos, types = np.array(d.std_lattice), np.array(d.std_positions), list(d.std_types)
    n = d.number
    out = []
    for e in (0.0, 1e-3, -1e-3):
        L = lat.copy()
        x = [v + e * (i + 1) for i, v in enumerate(u)]
        if n < 3:
            L = L @ (np.eye(3) + 0.35 * (np.array([[x[0], x[1], x[2]], [x[3], x[4], x[5]], [x[6], x[7], x[8]]]) - 1))
        elif n < 16:
            L[0] *= x[0]
            L[1] *= x[1]
            L[2] = L[2] * x[2] + L[0] * 0.5 * (x[3] - 1)
        elif n < 75:
            L = np.diag(x[:3]) @ L
        elif n < 195:
            L[2] = L[2] * x[0]
        else:
            L = L * x[0]
        out.append({"cell": L.tolist(), "atoms": {"names": [kinds[t - 1] for t in types], "positions": pos.tolist()}})
    return out


def lattice(s):
    """Basis of all translations of the crystal, in its orientation."""
    import spglib

    names = s["atoms"]["names"]
    kinds = sorted(set(names))
    r = spglib.standardize_cell((s["cell"], s["atoms"]["positions"], [kinds.index(x) + 1 for x in names]), to_primitive=True, no_idealize=True, symprec=1e-5)
    return np.array(r[0]).tolist()


def reach(lat, ms, what):
    """Coordinates of the lattice points next to the origin in the basis that results from the steps."""
    c = np.array(lat, float)
    for m in ms:
        c = np.array(m) @ c
    if what == "brillouin":
        c = np.linalg.inv(c).T
    b = short(c)
    return max(np.abs(np.array(i) @ b @ np.linalg.inv(c)).max() for i in itertools.product((-1, 0, 1), repeat=3)) if ms else 0


def gen(rng, tier, index):
    while True:
        s = C.base(rng, max_atoms=10)
        if s["origin"] in BOUNDARY and not s["origin"].startswith(("scORCF", "scMCLC")):
            continue
        w = rng.choice([1, 1, 3, 7]) if not s["origin"].startswith("scTRI") else 1
        u = [round(rng.uniform(0.72, 1.38) ** w, 3) for _ in range(9)]
        if s["origin"] in BOUNDARY or rng.random() < 0.6:
            try:
                variants = strained(s, u)
                lat = lattice(variants[0])
            except Exception:  # noqa: BLE001
                continue
        else:
            variants = [{k: s[k] for k in ("cell", "atoms")}]
            lat = lattice(s)
        break
    f = rng.choice([1, 1, 1, 1, 0.3, 5, 25])
    if f != 1:
        for v in variants:
            v["cell"] = (f * np.array(v["cell"])).tolist()
        lat = (f * np.array(lat)).tolist()
    style = rng.randrange(4)
    for v in variants:
        a = v["atoms"]
        if style == 1:
            a["names"] = [f"{x}{i + 1}" for i, x in enumerate(a["names"])]
        elif style == 2:
            a["species"] = list(a["names"])
        elif style == 3:
            k = sorted(set(a["names"]))
            a["spglib_types"] = [k.index(x) + 1 for x in a["names"]]
    ops = []
    for i in range(rng.choice([3, 5, 8, 12])):
        k = rng.randrange(6) if rng.random() < 0.4 else -1
        if rng.random() < 0.5:
            r = rng.random()
            if r < 0.34:
                o = {"op": rng.choice(["primitive", "conventional"]), "convention": rng.choice(["HPKOT", "SC", "spglib"])}
            elif r < 0.44:
                o = {"op": "form", "cell": rng.choice(C.FORMS), "positions": rng.choice(C.FORMS), "s": rng.randrange(10**6), "wrap": rng.random() < 0.4}
            elif r < 0.56:
                o = {"op": "rebase", "m": rng.choice(SHEAR)}
            elif r < 0.62:
                o = {"op": "rebase", "m": rng.choice(C.SUPER)}
            elif r < 0.70:
                o = {"op": "rotate", "r": C.rotation(rng).tolist()}
            elif r < 0.75:
                o = {"op": "permute", "s": rng.randrange(10**6)}
            elif r < 0.82:
                o = {"op": "niggli", "implementation": rng.choice(["spglib", "wulfric"])}
            elif r < 0.86:
                o = {"op": "params"}
            elif r < 0.89:
                o = {"op": "reciprocal"}
            elif r < 0.95:
                o = {"op": rng.choice(["shift", "cure", "ensure"]), "g": [round(rng.uniform(-1, 2), 3) for _ in range(3)]}
            else:
                o = {"op": "restart", "mode": rng.choice(["Direct", "Cartesian"])}
        else:
            r = rng.random()
            sd = rng.choice([None, None, "fresh", "stored"])
            if r < 0.3:
                o = {"op": "points", "convention": rng.choice(["HPKOT", "SC"]), "tr": rng.random() < 0.6, "rel": rng.random() < 0.6, "sd": sd}
            elif r < 0.5:
                o = {"op": "kp", "convention": rng.choice(["HPKOT", "SC"]), "tr": rng.random() < 0.6, "n": rng.choice([0, 1, 3]), "sd": sd}
            elif r < 0.68:
                o = {"op": "bravais", "sd": sd}
            elif r < 0.85:
                o = {"op": "cells", "what": rng.choice(["primitive", "conventional"]), "convention": rng.choice(["HPKOT", "SC", "spglib"]), "sd": sd}
            elif r < 0.93:
                o = {"op": "reduced", "what": rng.choice(["lepage", "lepage", "spglib", "wulfric", "lepage all"]), "f": rng.choice([1, 1, 0.3, 4, 25, 100]), "ms": [[rng.choice(SHEAR + LONG) for _ in range(rng.choice([0, 1, 2, 2, 3, 4]))] for _ in range(5)]}
            else:
                o = {"op": "zone", "what": rng.choice(["wigner", "brillouin"]), "m": [rng.choice(SHEAR + LONG) for _ in range(rng.choice([0, 1, 2, 3, 3]))]}
        if o["op"] == "zone":
            while reach(lat, o["m"], o["what"]) > 8:  # the library looks ten cells far
                o["m"] = o["m"][:-1]
        o["k"] = k
        o["fault"] = None
        if rng.random() < 0.3 and o["op"] not in ("rebase", "rotate", "permute", "restart", "zone", "form"):
            f = rng.choice(["strike", "strike", "backend"])
            if f == "strike" and not str(o.get("what")).startswith("lepage"):
                o["fault"] = {"kind": f, "u": rng.random(), "v": rng.random(), "exc": rng.choice(sorted(EXC))}
            elif f == "backend" and o["op"] not in ("shift", "cure", "ensure"):
                o["fault"] = {"kind": f, "rules": [{"at": rng.choice([0, 0, 1, 2]), "times": 1, "how": rng.choice(HOWS)}]}
        ops.append(o)
    return {"variants": variants, "lattice": lat, "cform": rng.choice(C.CELL_FORMS), "pform": rng.choice(C.POS_FORMS), "ops": ops, "origin": s["origin"]}


# ------------------------------------------------------------------------------------------ queries
QUERY = ("points", "kp", "bravais", "cells", "reduced", "zone")


def gvecs(lat, rot):
    rec = 2 * np.pi * np.linalg.inv(np.array(lat) @ np.array(rot).T).T
    # short basis first, so that a small range is enough
    rec = short(rec)
    r = range(-3, 4)
    return np.array([np.array(i) @ rec for i in itertools.product(r, r, r)])


def short(b):
    """A short basis of the lattice."""
    b = np.array(b, float)
    for _ in range(200):
        done = True
        b = b[np.argsort(np.linalg.norm(b, axis=1), kind="stable")]
        for i, j, k in ((2, 0, 1), (1, 0, 2), (0, 1, 2)):
            for m, n in itertools.product((-1, 0, 1), repeat=2):
                v = b[i] + m * b[j] + n * b[k]
                if np.linalg.norm(v) < np.linalg.norm(b[i]) - 1e-9:
                    b[i] = v
                    done = False
        if done:
            break
    return b


def print_of(k, G):
    """Distances from a k-point to the reciprocal lattice points around it: the same for every equivalent choice of it."""
    return np.sort(np.linalg.norm(np.array(k) - G, axis=1))[:8].tolist()


def sd_of(o, cell, atoms, stored):
    import wulfric

    if o.get("sd") == "fresh":
        return {"spglib_data": wulfric.get_spglib_data(cell, atoms)}
    if o.get("sd") == "stored":
        key = digest([canon(np.array(cell)), canon(np.array(atoms["positions"])), canon(atoms.get("spglib_types")), canon(atoms.get("species")), canon(atoms.get("names"))])
        if key not in stored:
            stored[key] = wulfric.get_spglib_data(cell, atoms)
        return {"spglib_data": stored[key]}
    return {}


def ask(o, cell, atoms, lat, rot, stored):
    """The answer to one query in a form that does not depend on the description."""
    import wulfric

    kw = sd_of(o, cell, atoms, stored)
    op = o["op"]
    if op == "bravais":
        d = kw["spglib_data"] if kw else wulfric.get_spglib_data(cell, atoms)
        out = {"space group": d.space_group_number, "lattice": d.crystal_family + d.centring_type}
        out["extended symbol"] = wulfric.crystal.hpkot_get_extended_bl_symbol(cell, atoms, **kw)
        r = P.outcome(lambda: wulfric.crystal.sc_get_variation(cell, atoms, **kw))
        out["variation"] = r[1]
        return out
    if op == "points":
        path, pts = wulfric.kpoints.get_path_and_points(cell, atoms, convention=o["convention"], with_time_reversal=o["tr"], relative=o["rel"], **kw)
        G = gvecs(lat, rot)
        xyz = {n: np.array(p) @ (2 * np.pi * np.linalg.inv(np.array(cell, float)).T) if o["rel"] else np.array(p) for n, p in pts.items()}
        names = sorted(xyz)
        return {"path": path, "names": list(xyz), "distances": [float(np.linalg.norm(xyz[a] - xyz[b])) for a, b in itertools.combinations(names, 2)],
                "lengths": [float(np.linalg.norm(xyz[n])) for n in names], "places": [print_of(xyz[n], G) for n in names]}
    if op == "kp":
        kp = wulfric.Kpoints.from_crystal(cell, atoms, convention=o["convention"], with_time_reversal=o["tr"], n=o["n"], **kw)
        G = gvecs(lat, rot)
        p = kp.points()
        return {"path": kp.path_string, "labels": list(kp.labels), "ticks": kp.ticks().tolist(), "flat": kp.flat_points().tolist(),
                "names": list(kp.hs_names), "lengths": np.linalg.norm(p, axis=1).tolist(), "places": [print_of(x, G) for x in p[:: max(1, len(p) // 24)]]}
    if op == "cells":
        c, a = getattr(wulfric.crystal, "get_" + o["what"])(cell, atoms, convention=o["convention"], **kw)
        return {"cell": [float(x) for x in wulfric.cell.get_params(c)], "metric": (np.array(c) @ np.array(c).T).tolist(), "atoms": len(a["positions"])}
    if op == "reduced":
        out = []
        for ms in o["ms"]:
            c = o.get("f", 1) * np.array(lat) @ np.array(rot).T
            for m in ms:
                c = np.array(m) @ c
            if o["what"] == "lepage":
                out.append(wulfric.lepage(c))
            elif o["what"] == "lepage all":
                out.append(wulfric.lepage(c, give_all_results=True)[-1])
            else:
                n = np.array(wulfric.cell.get_niggli(c, implementation=o["what"]))
                u = n @ np.linalg.inv(c)
                if not np.allclose(u, np.round(u), atol=1e-5) or abs(abs(np.linalg.det(u)) - 1) > 1e-5:
                    return {"niggli": f"{np.round(n, 4).tolist()} is not a cell of the lattice of {np.round(c, 4).tolist()}"}
                out.append([float(x) for x in wulfric.cell.get_params(n)])
        return {"reduced": out}
    c = np.array(lat)
    for m in o["m"]:
        c = np.array(m) @ c
    v, e = (wulfric.cell.get_wigner_seitz_cell if o["what"] == "wigner" else wulfric.cell.get_brillouin_zone)(c @ np.array(rot).T)
    v = np.array(v) @ np.array(rot)
    return {"vertices": v.tolist(), "edges": len(e), "lengths": sorted(float(np.linalg.norm(v[i] - v[j])) for i, j in e)}


def close(a, b, tol=TOL):
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return "keys"
        for k in a:
            if k == "vertices":
                x, y = np.array(a[k]), np.array(b[k])
                t = tol * max(1.0, np.abs(x).max())
                if any(np.linalg.norm(y - p, axis=1).min() > t for p in x) or any(np.linalg.norm(x - p, axis=1).min() > t for p in y):
                    return k
            elif k == "names":
                if sorted(a[k]) != sorted(b[k]):
                    return k
            elif close(a[k], b[k], tol):
                return k
        return None
    try:
        x, y = np.array(a, dtype=float), np.array(b, dtype=float)
    except (TypeError, ValueError):
        return None if a == b else "value"
    if x.shape != y.shape:
        return "shape"
    return None if x.size == 0 or np.allclose(x, y, rtol=tol, atol=tol) else "value"


def answer(o, *args):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return P.outcome(lambda: ask(o, *args))


def reference(plan, which):
    """The answers for the description the run begins with, each asked for in a process that did nothing else before."""
    v = plan["variants"][which]
    lat = plan["lattice"] if which == 0 else lattice(dict(v, atoms=dict(v["atoms"], names=[C.species_of(x) for x in v["atoms"]["names"]])))
    out = []
    for o in plan["ops"]:
        if o["op"] in QUERY:
            q = dict(o, sd=None, rel=False)
            if "m" in o:
                q["m"] = []
            if "ms" in o:
                q["ms"] = [[] for _ in o["ms"]]
            if which and o["op"] == "zone":
                out.append(None)
                continue
            out.append(answer(q, v["cell"], v["atoms"], lat, np.eye(3).tolist(), {}))
        else:
            out.append(None)
    return out


# ---------------------------------------------------------------------------------------------- run
def rows(atoms):
    return {k: (np.array(v, dtype=float).tolist() if k == "positions" else [x.item() if hasattr(x, "item") else x for x in v]) for k, v in atoms.items()}


def segment(plan, refs, start, state, disk):
    """One life of the process; ends at a restart or at the end of the plan."""
    import random

    import wulfric

    states, stored, notes = [], {}, []
    if state is None:
        states.append([C.build_cell(plan["variants"][0]["cell"], plan["cform"]), C.build_atoms(plan["variants"][0]["atoms"], plan["pform"]), np.eye(3)])
    else:
        c, a, _ = wulfric.io.load_poscar(os.path.join(disk, "POSCAR"))
        states.append([c, a, np.array(state)])
    for n in range(start, len(plan["ops"])):
        o = plan["ops"][n]
        k = o["k"]
        k = len(states) - 1 if k == -1 else k % len(states)
        cell, atoms, rot = states[k]
        op = o["op"]
        rec = {"n": n, "op": op, "how": "ok", "where": None, "backend": [], "bad": None}
        if op == "restart":
            wulfric.io.dump_poscar(cell, atoms, os.path.join(disk, "POSCAR"), decimals=12, mode=o["mode"])
            notes.append(rec)
            return notes, n + 1, rot.tolist()
        if op == "form":  # other containers, order of keys and images of the atoms, the same crystal
            g = random.Random(o["s"])
            a = rows(atoms)
            if o["wrap"]:
                a["positions"] = [[x + g.choice([0, 0, 1, -1, 2, -3]) for x in r] for r in a["positions"]]
            keys = list(a)
            g.shuffle(keys)
            states.append([C.reform(cell, o["cell"]), {x: C.reform(a[x], o["positions"]) if x == "positions" else a[x] for x in keys}, rot])
        elif op in ("rebase", "permute"):
            s = {"cell": np.array(cell, float).tolist(), "atoms": rows(atoms)}
            if op == "rebase":
                C.rebase(s, o["m"])
            else:
                C.permute(s, random.Random(o["s"]))
            states.append([np.array(s["cell"]), s["atoms"], rot])
        elif op == "rotate":
            r = np.array(o["r"])
            states.append([np.array(cell, float) @ r.T, atoms, r @ rot])
        else:
            if op in QUERY:
                def go():
                    return ask(o, cell, atoms, plan["lattice"], rot, stored)
            elif op in ("primitive", "conventional"):
                def go():
                    return getattr(wulfric.crystal, "get_" + op)(cell, atoms, convention=o["convention"])
            elif op == "niggli":
                def go():
                    return wulfric.cell.get_niggli(cell, implementation=o["implementation"])
            elif op == "params":
                def go():
                    return wulfric.cell.from_params(*wulfric.cell.get_params(cell))
            elif op == "reciprocal":
                def go():
                    return wulfric.cell.get_reciprocal(wulfric.cell.get_reciprocal(cell))
            else:
                atoms = {x: (np.array(y, dtype=float) if x == "positions" else list(y)) for x, y in atoms.items()}

                def go():
                    if op == "shift":
                        return wulfric.crystal.shift_atoms(atoms, gravity_point=o["g"])
                    return (wulfric.crystal.cure_negative if op == "cure" else wulfric.crystal.ensure_000)(atoms)
            f = o["fault"] or {"kind": None}
            if f["kind"] == "strike":
                if op in ("shift", "cure", "ensure"):
                    _, ev = trace.profile(lambda: getattr(wulfric.crystal, {"shift": "shift_atoms", "cure": "cure_negative", "ensure": "ensure_000"}[op])({x: np.array(y) if x == "positions" else list(y) for x, y in atoms.items()}, **({"gravity_point": o["g"]} if op == "shift" else {})))
                else:
                    _, ev = trace.profile(go)
                at = trace.pick(ev, f["u"], f["v"])
                if at is not None:
                    _, st = trace.inject(go, at, EXC[f["exc"]]("injected"))
                    rec["where"] = st.where and [st.where[1], st.where[2]]
            elif f["kind"] == "backend":
                B.S.reset(f["rules"])
                P.outcome(go)
                rec["backend"] = [x[2] for x in B.S.fired]
                B.S.reset()
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                r = P.outcome(go)
            rec["how"] = "ok" if r[0] == "ok" else r[1]
            if op in QUERY:
                ref = refs[n]
                if r[0] != ref[0] or (r[0] == "exc" and r[1] != ref[1]):
                    rec["bad"] = ["answer", f"step {n} {show(o)}: {short_repr(r)} for the description {describe(cell, atoms)} and {short_repr(ref)} for the first one"]
                elif r[0] == "ok":
                    w = close(ref[1], r[1])
                    if w:
                        rec["bad"] = ["answer", f"step {n} {show(o)}: {w} is {short_repr(r[1][w])} for the description {describe(cell, atoms)} and {short_repr(ref[1][w])} for the first one"]
            elif op in ("shift", "cure", "ensure"):
                states.append([cell, atoms, rot])
            elif r[0] == "ok":
                c = np.array(cell, float)
                if op in ("primitive", "conventional"):
                    states.append([r[1][0], r[1][1], rot])
                elif op == "niggli":
                    a = rows(atoms)
                    a["positions"] = (np.array(a["positions"]) @ c @ np.linalg.inv(r[1])).tolist()
                    states.append([r[1], a, rot])
                elif op == "params":
                    # the new orientation is the rotation (and mirror) from the old cell to the new one
                    t = (np.linalg.inv(c) @ np.array(r[1])).T
                    if np.allclose(t @ t.T, np.eye(3), atol=1e-5):
                        states.append([r[1], atoms, t @ rot])
                    else:
                        rec["bad"] = ["params", f"step {n}: from_params(*get_params({np.round(c, 4).tolist()})) gives the cell {np.round(r[1], 4).tolist()} of another shape"]
                else:
                    states.append([r[1], atoms, rot])
        if len(states[-1][1]["positions"]) > LIMIT:
            states.pop()
        if len(states) > 5:
            del states[1]
        notes.append(rec)
        if rec["bad"]:
            break
    return notes, len(plan["ops"]), None


def show(o):
    return {k: v for k, v in o.items() if k not in ("fault", "k")}


def short_repr(x):
    s = repr(x)
    return s if len(s) < 400 else s[:400] + "..."


def describe(cell, atoms):
    return short_repr([np.round(np.array(cell, float), 5).tolist(), {k: (np.round(np.array(v, float), 5).tolist() if k == "positions" else list(map(str, v))) for k, v in atoms.items()}])


def execute(plan, ctx):
    disk = os.path.join(ctx.scratch, "disk")
    os.makedirs(disk)
    refs = []
    for i in range(len(plan["variants"])):
        r = ctx.fork(reference, plan, i, timeout=100)
        if r[0] != "ok":
            return ("passed over", f"reference: {r[0]} {r[1]}") if r[0] != "error" else ("error", r[1])
        refs.append(r[1])
    for other in refs[1:]:
        for a, b in zip(refs[0], other):
            if a is None or b is None:
                continue
            if a[0] != b[0] or (a[0] == "ok" and close(a[1], b[1], 0.06)):
                return ("passed over", "boundary of two variations")
    notes, start, state, lives = [], 0, None, 0
    while start < len(plan["ops"]):
        lives += 1
        r = ctx.fork(segment, plan, refs[0], start, state, disk, timeout=100)
        if r[0] == "error":
            return r
        if r[0] != "ok":
            return ("passed over", f"{r[0]} {r[1]}")
        more, start, state = r[1]
        notes += more
        if notes and notes[-1]["bad"]:
            break
    return ("ok", {"notes": notes, "lives": lives})


def judge(plan, hist, ctx):
    if hist[0] == "error":
        raise RuntimeError(str(hist[1]))
    if hist[0] == "passed over":
        return {"violations": [], "keys": [], "nontrivial": [], "faults": {}, "stats": {"passed over: " + hist[1]: 1}, "sample": hist[1], "log": digest(list(hist))}
    h = hist[1]
    viol, faults, stats, seq = [], {}, {}, []
    for s in h["notes"]:
        o = plan["ops"][s["n"]]
        name = s["op"] + (":" + o["convention"] if "convention" in o else "")
        stats[name] = stats.get(name, 0) + 1
        kinds = []
        if s["where"]:
            kinds.append("interrupt in " + s["op"])
        kinds += [f"backend {x}" for x in s["backend"]]
        if s["op"] == "restart":
            kinds.append("restart from a checkpoint")
        if s["how"] != "ok":
            kinds.append("step failed: " + s["how"])
        for x in kinds:
            faults[x] = faults.get(x, 0) + 1
        seq.append([s["op"], o.get("convention") or o.get("what"), s["how"], s["where"]])
        if s["bad"]:
            viol.append({"class": s["bad"][0], "msg": s["bad"][1][:1800]})
    key = digest([seq, plan["origin"]])
    asked = [x for x in h["notes"] if x["op"] in QUERY]
    return {"violations": viol, "keys": [key], "nontrivial": [key] if asked and len(seq) > 1 else [], "faults": faults, "stats": stats,
            "sample": [x[:3] for x in seq], "log": digest([seq, h["lives"]])}


def shrink(plan):
    for ops in P.drop_each(plan["ops"]):
        if ops:
            yield dict(plan, ops=ops)
    for i, o in enumerate(plan["ops"]):
        if o.get("fault"):
            yield dict(plan, ops=plan["ops"][:i] + [dict(o, fault=None)] + plan["ops"][i + 1:])
    if len(plan["variants"]) > 1:
        yield dict(plan, variants=plan["variants"][:1])
    if plan["cform"] != "list" or plan["pform"] != "list":
        yield dict(plan, cform="list", pform="list")
