"""Timestamps name one real instant inside the call; nothing else reads the clock."""
import io
import os
import re
import time

from . import common as K
from .. import crystals as C
from ..canon import canon, digest

TIMEOUT = 90
S = 10**9
MONTHS = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"]
STAMP = re.compile(r"(\d+) (" + "|".join(MONTHS) + r") (\d+)\s+at\s+(\d+):(\d+):(\d+)")
ZONES = ["UTC", "UTC", "EST5EDT,M3.2.0,M11.1.0", "NPT-5:45", "XXX-13", "CET-1CEST,M3.5.0,M10.5.0/3", "LHST-10:30LHDT-11,M10.1.0,M4.1.0"]
EDGES = [946684800, 1709251200, 1704067200, 1735689600, 1740787200, 951782400, 4102444800, 1711846800, 1729990800, 1000000000, 86400, 68169600, 1772323200]
OTHER = ["dump-comment", "logo-plain", "logo-info", "load", "primitive", "conventional", "points", "niggli", "path", "kpoints", "example", "validate", "unique"]


def warm():
    import calendar  # noqa: F401


def clock(rng):
    base = rng.choice(EDGES) - rng.choice([0, 0, 5 * 3600, 5 * 3600 + 2700, -3600, 13 * 3600])
    t0 = base * S - rng.choice([1, 500, S // 1000, S // 2, S, 59 * S, 60 * S, 3600 * S, 0])
    kind = rng.choice(["tick", "cross", "wild", "back", "stop", "cross", "cross"])
    if kind == "tick":
        d = [rng.choice([1000, 10**6, 10**8])]
    elif kind == "cross":
        d = [rng.choice([1, 600, 10**6, S // 3, S, 2 * S]) for _ in range(5)]
    elif kind == "wild":
        d = [rng.choice([0, 1, S, 60 * S, 3600 * S, 86400 * S, 40 * 86400 * S, -86400 * S, -S]) for _ in range(7)]
    elif kind == "back":
        d = [-rng.choice([1, S, 3600 * S]), S]
    else:
        d = [0]
    return [t0, d]


def comment(rng, now):
    """The first line of a file: often with a date in the past, now or in the future."""
    t = time.gmtime(rng.choice([now, now, now - 86400, now + 86400, now - 400 * 86400, now + 400 * 86400, rng.randrange(1, 2 * 10**9)]))
    date = f"{t.tm_mday} {MONTHS[t.tm_mon - 1]} {t.tm_year}  at  {t.tm_hour}:{t.tm_min}:{t.tm_sec}"
    return rng.choice([f"Written by wulfric (wulfric.org) on {date}", f"Written by wulfric (wulfric.org) on {date}", f"on {date}", time.strftime("%Y-%m-%d", t), time.strftime("%a %b %d %H:%M:%S %Y", t), "c"])


def gen(rng, tier, index):
    ops = []
    for _ in range(rng.choice([2, 3, 5, 8])):
        r = rng.random()
        if r < 0.4:
            ops.append({"op": "dump", "args": dict(K.dump_args(rng, big=rng.random() < 0.2), comment=None), "to": rng.choice(["stream", "path"])})
        elif r < 0.75:
            ops.append({"op": "logo", "kw": {k: v for k, v in {"date_time": True, "flat": rng.random() < 0.3, "line_length": rng.choice([None, 10, 62, 70, 100]),
                                                             "comment": rng.choice([None, True, "#! "])}.items() if v is not None}})
        else:
            s = C.make(rng, max_atoms=6)
            ops.append({"op": "other", "f": rng.choice(OTHER), "cell": s["cell"], "atoms": s["atoms"]})
        ops[-1]["clock"] = clock(rng)
        if ops[-1].get("f") == "load":
            ops[-1]["comment"] = comment(rng, ops[-1]["clock"][0] // S)
        ops[-1]["set"] = rng.random() < 0.7
    return {"ops": ops, "tz": rng.choice(ZONES)}


def other(op, d):
    import wulfric as w

    cell = C.build_cell(op["cell"], "nd")
    atoms = C.build_atoms(op["atoms"], "list")
    f = op["f"]
    if f == "dump-comment":
        s = io.StringIO()
        w.io.dump_poscar(cell, {"names": [C.species_of(n) for n in atoms["names"]], "positions": atoms["positions"]}, s, comment="fixed")
        return s.getvalue()
    if f == "logo-plain":
        return w.logo()
    if f == "logo-info":
        return w.logo(info=["a", "b"], date_time=True)
    if f == "load":
        return w.io.load_poscar(io.StringIO(op.get("comment", "c") + "\n1.0\n1 0 0\n0 1 0\n0 0 2\nFe\n1\nDirect\n0 0 0.5\n"))
    if f == "primitive":
        return w.crystal.get_primitive(cell, atoms)
    if f == "conventional":
        return w.crystal.get_conventional(cell, atoms, convention="SC")
    if f == "points":
        return w.kpoints.get_path_and_points(cell, atoms, convention="HPKOT")
    if f == "niggli":
        return w.cell.get_niggli(cell)
    if f == "path":
        return vars(w.Kpoints.from_crystal(cell, atoms))
    if f == "kpoints":
        kp = w.Kpoints.from_crystal(cell, atoms)
        return [kp.path_string, kp.labels, kp.ticks()]
    if f == "example":
        return w.crystal.hpkot_get_example("cF1")
    if f == "validate":
        return w.crystal.validate_atoms(atoms)
    return w.crystal.get_unique_names(atoms)


def local(t):
    x = time.localtime(t // S)
    return [x.tm_mday, MONTHS[x.tm_mon - 1], x.tm_year, x.tm_hour, x.tm_min, x.tm_sec]


def run(plan, d, ctx, flat=False):
    """The sequence under its clock; with `flat` the clock stands still at another time (only `other` is compared)."""
    import wulfric

    os.environ["TZ"] = plan["tz"] if not flat else "UTC"
    time.tzset()
    out = []
    so = ctx.simos
    first = True
    for op in plan["ops"]:
        t0, deltas = op["clock"] if not flat else [1234567890 * S, [0]]
        if op["set"] or first:
            so.clock(t0, deltas)
        else:
            t0 = so.clock_now()
            so.clock(t0, deltas)
        first = False
        rec = {"t0": t0}
        if op["op"] == "dump":
            if op["to"] == "path":
                p = os.path.join(d, "o")
                rec["r"] = K.outcome(lambda: K.do_dump(op["args"], p))
                text = None
            else:
                f = io.StringIO()
                rec["r"] = K.outcome(lambda: K.do_dump(op["args"], f))
                text = f.getvalue()
        elif op["op"] == "logo":
            rec["r"] = K.outcome(lambda: wulfric.logo(**op["kw"]))
            text = rec["r"][1]
        else:
            rec["r"] = K.outcome(lambda: digest(canon(other(op, d))))
        n = so.clock_reads()
        t1 = so.clock_now()
        so.clock_off()
        if op["op"] == "dump" and op["to"] == "path":
            try:
                text = open(p, encoding="utf-8").read()
            except OSError:
                text = ""
        seen = [t0]
        for i in range(min(n, 400)):
            seen.append(seen[-1] + (deltas[i % len(deltas)] if deltas else 0))
        rec.update(n=n, t1=t1, seen=[local(t) for t in seen])
        if op["op"] != "other":
            rec["text"] = text.split("\n", 1)[0] if op["op"] == "dump" else text
            rec["r"] = rec["r"][:1] if rec["r"][0] == "ok" else rec["r"][:3]
        out.append(rec)
        so.clock(t1, [0])
    so.clock_off()
    return out


def execute(plan, ctx):
    d = os.path.join(ctx.scratch, "d")
    os.makedirs(d)
    a = run(plan, d, ctx)
    b = None
    if any(o["op"] == "other" for o in plan["ops"]):
        b = ctx.fork(run, plan, d, ctx, True)
    return {"a": a, "b": b}


def judge(plan, hist, ctx):
    viol, keys, nontriv, faults, stats = [], [], [], {}, {}
    sim = 0
    for i, (op, rec) in enumerate(zip(plan["ops"], hist["a"])):
        sim += abs(rec["t1"] - rec["t0"])
        what = f"op {i} {op['op']} {op.get('f', op.get('kw', ''))} (zone {plan['tz']}, clock {op['clock']}, {rec['n']} reads)"
        if op["op"] == "other":
            b = hist["b"][1][i] if hist["b"][0] == "ok" else None
            if b is None:
                viol.append({"class": "died", "msg": f"{what}: {hist['b']}"})
            elif rec["r"][:2] != b["r"][:2]:
                viol.append({"class": "clock-dependent", "msg": f"{what}: the result depends on the time: {rec['r'][:3]} or {b['r'][:3]}"})
            stats["other"] = stats.get("other", 0) + 1
        else:
            if rec["r"][0] != "ok":
                viol.append({"class": "raised", "msg": f"{what}: {rec['r']}"})
                continue
            m = STAMP.findall(rec["text"])
            if len(m) != 1:
                viol.append({"class": "no-stamp", "msg": f"{what}: {len(m)} timestamps in {rec['text'][:200]!r}"})
                continue
            v = [int(m[0][0]), m[0][1]] + [int(x) for x in m[0][2:]]
            if v not in rec["seen"]:
                viol.append({"class": "wrong-instant", "msg": f"{what}: the stamp says {m[0]}, the clock passed {rec['seen'][:6]}"})
            stats["stamps"] = stats.get("stamps", 0) + 1
            if len({tuple(x) for x in rec["seen"]}) > 1:
                faults["clock-moved-inside-the-call"] = faults.get("clock-moved-inside-the-call", 0) + 1
            if op["set"] and i:
                faults["clock-jump-between-calls"] = faults.get("clock-jump-between-calls", 0) + 1
        k = digest([op["op"], op.get("f"), op.get("to"), plan["tz"], op["clock"], rec["n"], rec["seen"][:3]])
        keys.append(k)
        nontriv.append(k)
    return {"violations": viol, "keys": keys, "nontrivial": nontriv, "faults": faults, "stats": stats, "sim_ns": sim,
            "sample": [{"op": o["op"], "clock": o["clock"], "seen": r["seen"][:2], "text": (r.get("text") or "")[-90:] if o["op"] == "dump" else o.get("f", "")} for o, r in zip(plan["ops"], hist["a"])][:3],
            "log": digest(hist)}


def shrink(plan):
    for s in K.drop_each(plan["ops"]):
        if s:
            yield dict(plan, ops=s)
    if plan["tz"] != "UTC":
        yield dict(plan, tz="UTC")
    for i, op in enumerate(plan["ops"]):
        if len(op["clock"][1]) > 1:
            for dd in K.drop_each(op["clock"][1]):
                yield dict(plan, ops=plan["ops"][:i] + [dict(op, clock=[op["clock"][0], dd])] + plan["ops"][i + 1:])
        if op["op"] == "dump":
            for a in K.shrink_atoms(op["args"]):
                yield dict(plan, ops=plan["ops"][:i] + [dict(op, args=a)] + plan["ops"][i + 1:])
