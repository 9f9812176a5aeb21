"""Any chain of conversions and checkpoints describes the same crystal."""
import copy
import os
import pickle

import numpy as np

from . import common as P
from .. import backend as B
from .. import crystals as C
from .. import trace
from ..canon import canon, digest

TIMEOUT = 150
EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}
CONV = ["HPKOT", "SC", "spglib"]
TOL = 5e-3
HOWS = ["None", "RuntimeError", "SpglibError", "MemoryError"]
LIMIT = 64  # atoms
ACCIDENTS = ("KeyError", "IndexError", "TypeError", "AttributeError", "UnboundLocalError", "NameError", "ZeroDivisionError", "AssertionError", "RecursionError",
             "OverflowError")  # no refusal of wulfric or spglib has one of these types
LEFT = [[[-1, 0, 0], [0, -1, 0], [0, 0, -1]], [[0, 1, 0], [1, 0, 0], [0, 0, 1]], [[1, 0, 0], [0, 1, 0], [0, 0, -1]], [[-1, 0, 0], [1, 1, 0], [0, 1, 1]]]


def prepare():
    B.install()


def molecules(rng, s, f):
    """Stretches the basis vectors by f and puts a light atom next to some of the atoms."""
    cell = np.array(s["cell"], float) * np.array(f)[:, None]
    s["cell"] = cell.tolist()
    atoms = s["atoms"]
    n = len(atoms["positions"])
    kinds = [C.species_of(x) for x in atoms["names"]]
    which = set(range(n)) if rng.random() < 0.4 or n > 12 else {i for i in range(n) if kinds[i] == kinds[0]}
    d = np.array(rng.choice([[0, 0, 1], [1, 1, 1], [0.3, 0.5, 0.9]]), float) @ np.linalg.inv(cell) if rng.random() < 0.3 else np.array(rng.choice([[0, 0, 1], [1, 0, 0], [1, 1, 1]]), float)
    d *= rng.choice([0.74, 0.96, 1.1]) / np.linalg.norm(d @ cell)
    atoms["positions"] = list(atoms["positions"]) + [(np.array(p, float) + d).tolist() for i, p in enumerate(atoms["positions"]) if i in which]
    for key in list(atoms):
        if key == "names":
            atoms[key] = list(atoms[key]) + [f"H{i + 1}" for i in range(len(which))]
        elif key == "species":
            atoms[key] = list(atoms[key]) + ["H"] * len(which)
        elif key == "spglib_types":
            atoms[key] = list(atoms[key]) + [max(atoms[key]) + 1] * len(which)
        elif key != "positions":
            del atoms[key]


def within(cell, atoms, symprec):
    """Symmetry data with a loose tolerance, when that finds the symmetry that is really there; otherwise with the usual one."""
    import wulfric

    data = wulfric.get_spglib_data(cell, atoms)
    if symprec <= 5e-3:
        return wulfric.get_spglib_data(cell, atoms, spglib_symprec=symprec)
    try:
        x = wulfric.get_spglib_data(cell, atoms, spglib_symprec=symprec)
    except Exception:  # noqa: BLE001
        return data
    return x if x.space_group_number == data.space_group_number and len(x.primitive_positions) == len(data.primitive_positions) else data


def gen(rng, tier, index):
    s = C.make(rng, max_atoms=12)
    if rng.random() < 0.2:  # a left-handed basis of the same crystal
        C.rebase(s, rng.choice(LEFT))
    if rng.random() < 0.2:
        C.rotate(s, C.rotation(rng))
    loose = rng.random() < 0.2
    if loose and rng.random() < 0.7:  # atoms that are close together in a large cell, as molecules in vacuum
        f = [rng.choice([2, 3, 5])] * 3 if rng.random() < 0.6 else [1, 1, rng.choice([4, 6])]
        molecules(rng, s, f)
    noise = 0 if loose else rng.choice([0, 0, 0, 0, 1e-4, 2e-4])
    if noise:  # as from a relaxation: symmetric only within a looser tolerance
        u = np.linalg.inv(np.array(s["cell"], float))
        s["atoms"]["positions"] = [[a + b for a, b in zip(p, (np.array([rng.uniform(-noise, noise) for _ in range(3)]) @ u).tolist())] for p in s["atoms"]["positions"]]
        if rng.random() < 0.5:
            e = np.eye(3) + np.array([[rng.uniform(-1, 1) * noise / 4 for _ in range(3)] for _ in range(3)])
            s["cell"] = (np.array(s["cell"], float) @ e).tolist()
    atoms = s["atoms"]
    names = atoms["names"]
    types = "spglib_types" in atoms
    if rng.random() < 0.2:  # sublattices of one species that differ, as for magnetic moments
        sp = [C.species_of(x) for x in names]
        k = rng.choice(sorted(set(sp)))
        where = [i for i, x in enumerate(sp) if x == k]
        kinds = sorted(set(sp))
        atoms["spglib_types"] = [kinds.index(x) + 1 for x in sp]
        for i in where[::2]:
            atoms["spglib_types"][i] = len(kinds) + 1
        types = True
    if types and rng.random() < 0.4:  # numbers of types need not be consecutive
        numbers = rng.sample(range(1, 120), max(atoms["spglib_types"]) + 1)
        atoms["spglib_types"] = [numbers[t] for t in atoms["spglib_types"]]
    alias = None
    if rng.random() < 0.25:  # names that do not tell the species, or tell another one
        sp = [C.species_of(x) for x in names]
        kinds = sorted(set(sp))
        words = rng.sample(["A", "M", "site", "Fe", "O", "Cu", "x1_", "top", "Gd", "Na"], len(kinds)) if len(kinds) <= 10 else [f"q{i}_" for i in range(len(kinds))]
        each = rng.random() < 0.5
        atoms["species"] = sp
        atoms["names"] = names = [words[kinds.index(x)] + (f"{i}" if each else "") for i, x in enumerate(sp)]
        alias = dict(zip(names, sp))
        if len({words[kinds.index(x)] for x in sp}) != len(kinds) or any(alias[a] != b for a, b in zip(names, sp)):
            raise ValueError("the aliases are not distinct")
    ops = []
    n = rng.choice([2, 3, 5, 8, 11])
    for i in range(n):
        r = rng.random()
        k = rng.randrange(6) if rng.random() < 0.5 else -1
        if r < 0.52:
            o = {"op": rng.choice(["primitive", "conventional"]), "convention": rng.choice(CONV), "k": k, "sd": rng.choice([None, None, "fresh", "stored"]), "symprec": rng.choice([1e-5, 0.02, 0.05, 0.1] if loose else [1e-5, 1e-5, 1e-4, 1e-3] if not noise else [1e-5, 1e-3, 1e-3, 1e-3])}
        elif r < 0.68:
            o = {"op": rng.choice(["shift", "cure", "ensure"]), "k": k, "g": [round(rng.uniform(-1, 2), 3) for _ in range(3)]}
        elif r < 0.84:
            o = {"op": "dump", "k": k, "mode": rng.choice(["Direct", "Cartesian"]), "decimals": rng.choice([5, 6, 8, 8, 10, 12, 16]), "then": rng.random() < 0.6}
        elif r < 0.93:
            o = {"op": "load"}
        else:
            o = {"op": "bad", "k": k, "what": rng.choice(["convention", "mode", "mismatch", "keys", "positions"])}
        o["fault"] = None
        if rng.random() < 0.4:
            u, v = rng.random(), rng.random()
            kind = rng.choice(["strike", "strike", "crash", "backend", "disk"])
            if kind == "disk" and o["op"] == "dump":
                ops_ = rng.choice([["open"], ["write"], ["close"], ["write"]])
                a = rng.choice(["errno", "torn_crash", "crash_before", "crash_after", "errno"])
                if ops_ != ["write"] and a == "torn_crash":
                    a = "crash_after"
                o["fault"] = {"kind": "disk", "ops": ops_, "nth": rng.choice([0, 0, 1]), "action": a, "arg": rng.choice(P.DISK_W) if a == "errno" else rng.choice([1, 100, 700])}
            elif kind == "backend" and o["op"] in ("primitive", "conventional"):
                o["fault"] = {"kind": "backend", "rules": [{"at": rng.choice([0, 0, 1, 2]), "times": 1, "how": rng.choice(HOWS)}]}
            elif kind in ("strike", "crash"):
                o["fault"] = {"kind": kind, "u": u, "v": v, "exc": rng.choice(sorted(EXC)), "again": rng.random() < 0.8}
        ops.append(o)
    return {"cell": s["cell"], "atoms": atoms, "types": types, "cform": rng.choice(C.CELL_FORMS), "pform": rng.choice(C.POS_FORMS), "alias": alias, "noise": noise, "ops": ops, "blk": rng.choice([0, 0, 64])}


def labels(atoms, types, alias=None):
    sp = [str(x) for x in atoms["species"]] if "species" in atoms else None
    if alias and sp:
        nm = [alias[str(x)] for x in atoms["names"]] if "names" in atoms else None
    else:
        nm = [C.species_of(str(x)) for x in atoms["names"]] if "names" in atoms else None
    if sp and nm and sp != nm:
        raise ValueError(f"species {sp} and names {list(atoms['names'])} disagree")
    lab = sp or nm
    if types:
        lab = [f"{x}:{int(t)}" for x, t in zip(lab, atoms["spglib_types"])]
    return lab


def rough(plan):
    """A crystal that was rounded on the way can lie on the tolerance of the symmetry search, which may then refuse it."""
    return plan.get("noise") or any(o["op"] == "dump" and o["decimals"] < 8 for o in plan["ops"])


class Run:
    def __init__(self, plan, disk):
        self.plan, self.disk = plan, disk
        self.ref = (plan["cell"], plan["atoms"]["positions"])
        self.lab = {True: labels(plan["atoms"], True, plan.get("alias")) if plan["types"] else None, False: labels(plan["atoms"], False, plan.get("alias"))}
        self.states = []
        self.seen = []

    def add(self, cell, atoms, types):
        self.states.append([cell, atoms, types])
        self.seen.append(None)
        if len(self.states) > 5:
            del self.states[1], self.seen[1]

    def wrong(self):
        """The first state that is not the crystal the run began with."""
        for i, (cell, atoms, types) in enumerate(self.states):
            d = digest([canon(cell), canon(atoms)])
            if d == self.seen[i]:
                continue
            try:
                e = C.same_crystal(self.ref[0], self.ref[1], self.lab[types], cell, atoms["positions"], labels(atoms, types, self.plan.get("alias")), tol=TOL)
            except Exception as x:  # noqa: BLE001
                e = f"it cannot be read: {x!r}"
            if e:
                return i, e, [np.array(cell).tolist(), canon_short(atoms)]
            for key in atoms:
                if len(atoms[key]) != len(atoms["positions"]):
                    return i, f"{len(atoms[key])} values of {key} for {len(atoms['positions'])} atoms", None
            self.seen[i] = d
        return None


def canon_short(atoms):
    return {k: (np.array(v).tolist() if k == "positions" else list(map(str, v))) for k, v in atoms.items()}


def note(fd, rec):
    b = pickle.dumps(rec)
    os.write(fd, len(b).to_bytes(8, "big") + b)


def notes(path):
    out = []
    with open(path, "rb") as f:
        b = f.read()
    while b:
        n = int.from_bytes(b[:8], "big")
        out.append(pickle.loads(b[8:8 + n]))
        b = b[8 + n:]
    return out


def die():
    os._exit(77)


def segment(plan, disk, progress, start, last, ctx):
    """One life of the process, from step `start` on; `last` is (file, types) of the last complete checkpoint."""
    import wulfric

    fd = os.open(progress, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    run = Run(plan, disk)
    if start == 0:
        run.add(C.build_cell(plan["cell"], plan["cform"]), C.build_atoms(plan["atoms"], plan["pform"]), plan["types"])
    else:
        if last is None:
            run.add(C.build_cell(plan["cell"], plan["cform"]), C.build_atoms(plan["atoms"], plan["pform"]), plan["types"])
        else:
            r = P.outcome(lambda: wulfric.io.load_poscar(os.path.join(disk, last)))
            if r[0] != "ok":
                note(fd, {"op": "restart", "how": r[1], "bad": ["restart", f"the last checkpoint cannot be loaded: {r[1]}: {r[2]}"], "where": None, "n": start})
                return
            run.add(r[1][0], r[1][1], False)
        w = run.wrong()
        note(fd, {"op": "restart", "how": "ok", "bad": w and ["restart", f"after a crash and a restart from {last}: {w[1]}; {w[2]}"], "where": None, "n": start})
        if w:
            return
    stored = {}
    for n in range(start, len(plan["ops"])):
        o = plan["ops"][n]
        f = o["fault"] or {"kind": None}
        rec = {"op": o["op"], "how": "ok", "bad": None, "where": None, "n": n, "last": None, "fault": None, "backend": [], "fired": []}
        k = o.get("k", 0)
        k = len(run.states) - 1 if k == -1 else k % len(run.states)
        cell, atoms, types = run.states[k]
        if o["op"] in ("primitive", "conventional"):
            fn = wulfric.crystal.get_primitive if o["op"] == "primitive" else wulfric.crystal.get_conventional

            def go(cell=cell, atoms=atoms):
                kw = {}
                if o["sd"] == "fresh":
                    kw["spglib_data"] = within(cell, atoms, o["symprec"])
                elif o["sd"] == "stored":
                    key = digest([canon(np.array(cell)), canon(np.array(atoms["positions"])), canon(atoms.get("spglib_types")), canon(atoms.get("species")), canon(atoms.get("names"))])
                    if key not in stored:
                        stored[key] = wulfric.get_spglib_data(cell, atoms)
                    kw["spglib_data"] = stored[key]
                return fn(cell, atoms, convention=o["convention"], **kw)
        elif o["op"] == "shift":
            def go(cell=cell, atoms=atoms):
                return wulfric.crystal.shift_atoms(atoms, gravity_point=o["g"])
        elif o["op"] in ("cure", "ensure"):
            def go(cell=cell, atoms=atoms):
                return (wulfric.crystal.cure_negative if o["op"] == "cure" else wulfric.crystal.ensure_000)(atoms)
        elif o["op"] == "dump":
            target = "B" if last == "A" else "A"

            def go(cell=cell, atoms=atoms):
                return wulfric.io.dump_poscar(cell, atoms, os.path.join(disk, target), comment="checkpoint", decimals=o["decimals"], mode=o["mode"])
        elif o["op"] == "load":
            if last is None:
                note(fd, dict(rec, how="passed over"))
                continue

            def go(cell=cell, atoms=atoms):
                return wulfric.io.load_poscar(os.path.join(disk, last))
        else:
            def go(cell=cell, atoms=atoms):
                w = o["what"]
                if w == "convention":
                    return wulfric.crystal.get_primitive(cell, atoms, convention="none")
                if w == "mode":
                    return wulfric.io.dump_poscar(cell, atoms, os.path.join(disk, last or "A"), mode="none")
                if w == "mismatch":
                    return wulfric.crystal.get_conventional(cell, atoms, spglib_data=wulfric.get_spglib_data(2 * np.array(cell), atoms))
                if w == "keys":
                    return wulfric.crystal.get_conventional(cell, {x: y for x, y in atoms.items() if x != "positions"})
                return wulfric.crystal.get_primitive(cell, dict(atoms, positions=[[0, 0]]))
        # the fault, then the step without it
        if f["kind"] in ("strike", "crash"):
            twin = copy.deepcopy([cell, atoms])
            was = os.path.join(disk, "twin")
            real, disk2 = disk, None
            if o["op"] in ("dump", "bad"):
                disk2 = was
                os.makedirs(was, exist_ok=True)
                if last:
                    with open(os.path.join(real, last), "rb") as a, open(os.path.join(was, last), "wb") as b:
                        b.write(a.read())
                disk = was
            _, ev = trace.profile(lambda: go(*twin))
            disk = real
            at = trace.pick(ev, f["u"], f["v"], include_protected=f["kind"] == "crash")
            if at is not None:
                rec["fault"] = f["kind"]
                if f["kind"] == "crash":
                    note(fd, dict(rec, how="crashed", where=[ev[at][1]]))
                    trace.inject(go, at, die)
                    note(fd, {"op": "stayed alive", "how": "ok", "bad": None, "where": None, "n": n})
                else:
                    _, st = trace.inject(go, at, EXC[f["exc"]]("injected"))
                    rec["where"] = st.where and [st.where[1], st.where[2]]
        elif f["kind"] == "backend":
            B.S.reset(f["rules"])
            P.outcome(go)
            rec["backend"] = [x[2] for x in B.S.fired]
            B.S.reset()
        elif f["kind"] == "disk":
            note(fd, dict(rec, how="disk"))
            P.arm(ctx, [disk], [{x: y for x, y in f.items() if x != "kind"}], plan["blk"])
            P.outcome(go)
            rec["fired"] = ctx.simos.fired()
            P.disarm(ctx)
            ctx.simos.reset()
        w = run.wrong() if rec["where"] or rec["backend"] else None
        if w and o["op"] not in ("shift", "cure", "ensure"):
            rec["bad"] = ["fault", f"step {n} {show(o)} struck by {f['kind']} at {rec['where']} left the structure changed: {w[1]}; {w[2]}"]
        elif not f.get("again", True):
            rec["how"] = "given up"
            if o["op"] in ("shift", "cure"):
                go()
        else:
            r = P.outcome(go)
            rec["how"] = "ok" if r[0] == "ok" else r[1]
            if r[0] == "ok":
                if o["op"] in ("primitive", "conventional"):
                    run.add(r[1][0], r[1][1], types)
                elif o["op"] == "load":
                    run.add(r[1][0], r[1][1], False)
                elif o["op"] == "dump":
                    last = rec["last"] = target
                    if o["then"]:
                        r2 = P.outcome(lambda: wulfric.io.load_poscar(os.path.join(disk, target)))
                        if r2[0] != "ok":
                            rec["bad"] = ["load", f"step {n} {show(o)}: the file that was just written cannot be loaded: {r2[1]}: {r2[2]}"]
                        else:
                            run.add(r2[1][0], r2[1][1], False)
            elif o["op"] != "bad" and not (o["op"] in ("primitive", "conventional") and rough(plan) and r[1] not in ACCIDENTS):
                rec["bad"] = ["failed", f"step {n} {show(o)} raised {r[1]}: {r[2]}"]
        w = None if rec["bad"] else run.wrong()
        if w:
            src = f"state {k}" if w[0] == len(run.states) - 1 else "an earlier structure"
            rec["bad"] = ["crystal", f"after step {n} {show(o)} ({rec['how']}) on {src}: {w[1]}; {w[2]}"]
        if not rec["bad"] and len(run.states[-1][1]["positions"]) > LIMIT:
            run.states.pop()
            run.seen.pop()
        note(fd, rec)
        if rec["bad"]:
            return


def show(o):
    return {k: v for k, v in o.items() if k not in ("fault", "u", "v")}


def execute(plan, ctx):
    disk = os.path.join(ctx.scratch, "disk")
    os.makedirs(disk)
    progress = os.path.join(ctx.scratch, "progress")
    start, last, lives = 0, None, 0
    while True:
        lives += 1
        r = ctx.fork(segment, plan, disk, progress, start, last, ctx, timeout=100)
        rec = notes(progress) if os.path.exists(progress) else []
        for x in rec:
            if x.get("last"):
                last = x["last"]
        if r[0] in ("ok", "timeout") or lives > len(plan["ops"]) + 1:
            break
        if r[0] == "error":
            return r
        ended = r[1]
        n = rec[-1]["n"] if rec else 0
        if ended not in (77, 137) and not (rec and rec[-1]["how"] in ("crashed", "disk")):
            if ended < 0:
                break  # the symmetry library itself died
            return ("error", f"a life of the process ended with {ended} after {rec[-1:]}")
        ctx.simos.reset()
        start = n + 1
    return ("ok", {"notes": rec, "lives": lives, "end": r[0] if r[0] != "exit" else f"exit {r[1]}"})


def judge(plan, hist, ctx):
    if hist[0] != "ok":
        raise RuntimeError(str(hist[1]))
    h = hist[1]
    viol, faults, stats = [], {}, {}
    seq = []
    for s in h["notes"]:
        o = plan["ops"][s["n"]] if s["n"] < len(plan["ops"]) and s["op"] != "restart" else {}
        name = s["op"] + (":" + o["convention"] if "convention" in o else "")
        stats[name] = stats.get(name, 0) + 1
        kinds = []
        if s["where"]:
            kinds.append(("crash in " if s["how"] == "crashed" else "interrupt in ") + s["op"])
        kinds += [f"backend {x}" for x in s.get("backend", [])]
        if s["how"] == "disk":
            f = o["fault"]
            kinds.append(f"disk {f['action']} {f['ops'][0]}")
        if s["op"] == "restart":
            kinds.append("restart")
        if s["op"] == "bad" and s["how"] != "ok":
            kinds.append("refused " + o["what"])
        elif s["how"] not in ("ok", "crashed", "disk", "given up", "passed over", "restart"):
            kinds.append("step failed: " + s["how"])
        for x in kinds:
            faults[x] = faults.get(x, 0) + 1
        seq.append([s["op"], o.get("convention"), s["how"], s["where"]])
        if s["bad"]:
            viol.append({"class": s["bad"][0], "msg": s["bad"][1][:1800]})
    key = digest([seq, plan["types"], len(plan["atoms"]["positions"])])
    return {"violations": viol, "keys": [key], "nontrivial": [key] if len(seq) > 1 else [], "faults": faults, "stats": stats, "sample": [x[:3] for x in seq],
            "log": digest([seq, h["lives"], h["end"]])}


def shrink(plan):
    for ops in P.drop_each(plan["ops"]):
        if ops:
            yield dict(plan, ops=ops)
    for i, o in enumerate(plan["ops"]):
        if o.get("fault"):
            yield dict(plan, ops=plan["ops"][:i] + [dict(o, fault=None)] + plan["ops"][i + 1:])
    for key in ("charge", "moment", "species"):
        if key in plan["atoms"] and not (key == "species" and plan.get("alias")):
            yield dict(plan, atoms={k: v for k, v in plan["atoms"].items() if k != key})
    if plan["cform"] != "list" or plan["pform"] != "list":
        yield dict(plan, cform="list", pform="list")
