"""A failure of the symmetry backend is reported and never turned into a result."""
from . import common as P
from .. import backend as B
from .. import calls as K
from ..canon import canon, diff, digest

TIMEOUT = 120
HOWS = ["None", "None", "None", "RuntimeError", "ValueError", "TypeError", "SpglibError", "MemoryError", "OSError"]
USERS = ["conventional", "primitive", "points", "kpoints", "kvalues", "variation", "symbol", "spglib_data", "niggli", "lepage", "validate_data", "figure"]
DOCUMENTED = {"RuntimeError", "ValueError", "TypeError", "NiggliReductionFailed"}


def prepare():
    B.install()


def gen(rng, tier, index):
    structs = [K.structure(rng, max_atoms=8)]
    if rng.random() < 0.5:
        structs.append(K.sib(rng, structs[0]))
    ops = []
    n = rng.choice([1, 2, 3, 5])
    for _ in range(n):
        r = rng.random()
        if ops and r < 0.35:
            c = P.json.loads(P.json.dumps(rng.choice(ops)["c"]))
        else:
            c = K.pick(rng, structs, only=USERS if rng.random() < 0.85 else None, slow=0.03)
            if "sd" in K.tags(c["f"]) and rng.random() < 0.6:
                c["sd"] = None
        rules = []
        if rng.random() < 0.75:
            rules.append({"at": rng.choice([0, 0, 1, 1, 2, 3]), "times": rng.choice([1, 1, 2, 1000]), "how": rng.choice(HOWS)})
            if rng.random() < 0.15:
                rules.append({"at": rng.choice([0, 1, 2]), "times": 1, "how": rng.choice(HOWS)})
        ops.append({"c": c, "rules": rules})
    return {"structs": structs, "ops": ops}


def history(plan):
    w = K.World(plan["structs"])
    w.prepare([o["c"] for o in plan["ops"]])
    out = []
    for o in plan["ops"]:
        c = o["c"]
        inplace = "inplace" in K.tags(c["f"])
        w2 = w
        if inplace:
            w2 = K.World(plan["structs"])
        before = w2.values()
        B.S.reset(o["rules"])
        keep = []
        r = P.outcome(lambda: K.invoke(w2, c))
        fired, calls = B.S.fired, B.S.calls
        B.S.reset()
        rec = ["ok", canon(r[1]), []] if r[0] == "ok" else ["exc", r[1], r[2], []]
        d = None
        if not inplace:
            for i, (x, y) in enumerate(zip(before, w2.values())):
                d = d or diff(x, y, 0.0, f"object {i}")
        out.append({"r": rec, "mro": r[3] if r[0] == "exc" else [], "fired": fired, "calls": calls, "args": d, "c": c})
        del keep
    return out


def alone(plan, c):
    w = K.World(plan["structs"])
    c = dict(c)
    w.prepare([c])
    return K.record(w, c)


def execute(plan, ctx):
    h = ctx.fork(history, plan, timeout=100)
    if h[0] != "ok":
        return {"skip": h}
    ref = {}
    for rec in h[1]:
        if not rec["fired"]:
            k = digest(rec["c"])
            if k not in ref:
                ref[k] = ctx.fork(alone, plan, rec["c"])
    return {"h": h[1], "ref": ref}


def judge(plan, hist, ctx):
    if "skip" in hist:
        if hist["skip"][0] == "error":
            raise RuntimeError(hist["skip"][1])
        return {"violations": [], "stats": {"skipped": 1}, "log": "skip"}
    viol, keys, stats, faults = [], [], {}, {}
    failed = 0
    for n, (o, rec) in enumerate(zip(plan["ops"], hist["h"])):
        what = f"op {n} {K.show(o['c'], plan['structs'])}"
        r = rec["r"]
        if rec["fired"]:
            f = rec["fired"][-1]
            for _, name, how in rec["fired"]:
                faults[f"{name} {how}"] = faults.get(f"{name} {how}", 0) + 1
            stats["failed"] = stats.get("failed", 0) + 1
            what += f" while call {f[0]} of the backend, {f[1]}, gave {f[2]}"
            lepage = o["c"]["f"] == "lepage" and f[1] == "niggli_reduce" and f[2] == "None"  # documented fall-back to the given cell
            if r[0] == "ok" and not lepage:
                viol.append({"class": "result", "msg": f"{what}: returned {K.brief(r)}"})
            if r[0] == "exc" and not (set(rec["mro"]) & (DOCUMENTED | ({f[2]} - {"None"}))):
                viol.append({"class": "error", "msg": f"{what}: ended with the undocumented {r[1]}: {r[2]}"})
            if rec["args"]:
                viol.append({"class": "argument", "msg": f"{what}: an argument changed: {rec['args']}"})
            failed += 1
        else:
            ref = hist["ref"][digest(rec["c"])]
            if ref[0] == "error":
                raise RuntimeError(ref[1])
            if ref[0] == "ok":
                d = K.same(r, ref[1])
                stats["recovered" if failed else "quiet"] = stats.get("recovered" if failed else "quiet", 0) + 1
                if d:
                    viol.append({"class": "recovery", "msg": f"{what} after {failed} failed calls: {d}"})
        keys.append(digest([o["c"]["f"], o["c"]["a"], o["c"]["sd"] is not None, rec["fired"], r[0], r[1] if r[0] == "exc" else "", failed]))
    return {"violations": viol, "keys": keys, "nontrivial": keys if failed else [], "stats": stats, "faults": faults,
            "sample": [[o["c"]["f"], rec["fired"], rec["r"][0] if rec["r"][0] == "ok" else rec["r"][1]] for o, rec in zip(plan["ops"], hist["h"])],
            "log": digest([[rec["r"][:2], rec["fired"]] for rec in hist["h"]])}


def shrink(plan):
    for ops in P.drop_each(plan["ops"]):
        if ops:
            yield dict(plan, ops=ops)
    for i, o in enumerate(plan["ops"]):
        if len(o["rules"]) > 1:
            for r in P.drop_each(o["rules"]):
                yield dict(plan, ops=plan["ops"][:i] + [dict(o, rules=r)] + plan["ops"][i + 1:])
    for i, s in enumerate(plan["structs"]):
        for a in P.shrink_atoms(s):
            yield dict(plan, structs=plan["structs"][:i] + [a] + plan["structs"][i + 1:])
        for k, v in (("cform", "list"), ("pform", "list"), ("sugar", False)):
            if s.get(k) != v:
                yield dict(plan, structs=plan["structs"][:i] + [dict(s, **{k: v})] + plan["structs"][i + 1:])
