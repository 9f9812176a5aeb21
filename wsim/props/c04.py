"""A torn, damaged or failing POSCAR never turns into an invented structure."""
import io
import os

import numpy as np

from . import common as K
from .. import crystals as C
from .. import poscar_ref as R
from ..canon import digest

TIMEOUT = 90
CH = "0123456789.eE+- \tTFCDSKxX\n\r*,FeO\x00\u00e5"


def gen(rng, tier, index):
    items = []
    for _ in range(6):
        if rng.random() < 0.3:
            s = K.big_structure(rng, rng.choice([1, 3, 30, 200]))
            names = s["atoms"]["names"]
        else:
            s = C.make(rng, max_atoms=10, extras=False)
            names = [C.species_of(x) for x in s["atoms"]["names"]]
        src = rng.choice(["dialect"] * 3 + ["dump"])
        it = {"src": src}
        if src == "dialect":
            it["text"] = R.print_poscar(rng, s["cell"], names, s["atoms"]["positions"], comment=rng.choice(["c", "", "Fe 2 O", "1.0", "a b c", "\u00e5"]))
        else:
            it["args"] = dict(K.dump_args(rng, big=False), decimals=rng.choice([4, 8, 12]), cell=s["cell"], atoms={"names": names, "positions": s["atoms"]["positions"]}, sugar=False)
        ed = []
        for _ in range(rng.choice([0, 1, 1, 1, 1, 2, 3])):
            k = rng.choice(["trunc", "trunc", "trunc-line", "del-line", "del-line", "dup-line", "swap", "byte", "byte", "byte", "ins", "del", "join", "trunc-row", "zero", "count", "names", "extra"])
            ed.append({"k": k, "u": rng.random(), "w": rng.random(), "c": rng.choice(CH), "m": rng.choice([1, 1, 2, 5])})
        it["edits"] = ed
        it["io"] = rng.choice(["path"] * 4 + ["stringio", "readfail"])
        it["blk"] = rng.choice([0, 0, 16, 100, 1000])
        r = rng.random()
        it["rules"] = []
        if r < 0.15:
            it["rules"] = [{"ops": ["read"], "u": rng.random(), "times": rng.choice([1, 1000]), "action": "errno", "arg": rng.choice(K.DISK_R)}]
        elif r < 0.25:
            it["rules"] = [{"ops": ["read"], "u": rng.random(), "times": 1000, "action": "eof"}]
        elif r < 0.45:
            it["rules"] = K.short_rules(rng)
        it["u2"] = rng.random()
        items.append(it)
    return {"items": items}


def damage(text, edits):
    for e in edits:
        lines = text.split("\n")
        n = len(lines)
        # most places are in the first lines, where the structure of the file is described
        i = int(e["u"] * n) if e["w"] < 0.5 else int(e["u"] * min(n, 10))
        i = min(i, n - 1)
        k = e["k"]
        pos = int(e["u"] * (len(text) + 1))
        if k == "trunc":
            text = text[:pos]
            continue
        if k == "byte" and text:
            pos = min(pos, len(text) - 1)
            text = text[:pos] + e["c"] + text[pos + 1:]
            continue
        if k == "ins":
            text = text[:pos] + e["c"] * e["m"] + text[pos:]
            continue
        if k == "del":
            text = text[:pos] + text[pos + e["m"]:]
            continue
        if k == "zero" and text:
            m = 8 * e["m"]
            text = text[:pos] + "\0" * min(m, len(text) - pos) + text[pos + m:]
            continue
        if k == "trunc-line":
            lines = lines[:i]
        elif k == "del-line":
            lines = lines[:i] + lines[i + e["m"]:]
        elif k == "dup-line":
            lines = lines[: i + e["m"]] + lines[i:]
        elif k == "swap":
            j = int(e["w"] * n)
            lines[i], lines[j] = lines[j], lines[i]
        elif k == "join" and i + 1 < n:
            lines[i: i + 2] = [lines[i] + " " + lines[i + 1]]
        elif k == "trunc-row":
            t = lines[i].split()
            lines[i] = " ".join(t[: max(0, len(t) - e["m"])])
        elif k == "count":
            for q in (5, 6):
                if q < n and lines[q].split() and all(x.isdigit() for x in lines[q].split()):
                    t = [int(x) for x in lines[q].split()]
                    t[int(e["w"] * len(t))] += e["m"] if e["u"] < 0.6 else -1
                    lines[q] = " ".join(map(str, t))
                    break
        elif k == "names" and n > 5:
            t = lines[5].split()
            lines[5] = " ".join(t + ["Zr"]) if e["u"] < 0.5 else " ".join(t[:-1])
        elif k == "extra":
            lines.insert(i, "0.1 0.2 0.3")
        text = "\n".join(lines)
    return text


class FailingLines:
    def __init__(self, text, at):
        self.lines = io.StringIO(text, newline=None).readlines()
        self.at = int(at * (len(self.lines) + 1))

    def _gen(self):
        for i, x in enumerate(self.lines):
            if i == self.at:
                raise OSError(5, "Input/output error")
            yield x
        if self.at >= len(self.lines):
            raise OSError(5, "Input/output error")

    def __iter__(self):
        return self._gen()

    def readlines(self):
        return list(self._gen())

    def readline(self):
        for x in self._gen():
            return x
        return ""

    def read(self, n=-1):
        return "".join(self._gen())


def load(src):
    import wulfric

    cell, atoms, comment = wulfric.io.load_poscar(src)
    return [np.array(cell, float).tolist(), list(atoms["names"]), [np.array(p, float).tolist() for p in atoms["positions"]], comment]


def execute(plan, ctx):
    d = os.path.join(ctx.scratch, "d")
    os.makedirs(d)
    os.chdir(d)
    hist = []
    for it in plan["items"]:
        if it["src"] == "dump":
            K.do_dump(it["args"], os.path.join(d, "w"))
            text = open(os.path.join(d, "w"), encoding="utf-8", newline="").read()
        else:
            text = it["text"]
        text = damage(text, it["edits"])
        data = text.encode("utf-8")
        p = os.path.join(d, "in")
        with open(p, "wb") as f:
            f.write(data)
        rec = {"text": text, "rules": it["rules"]}
        rules = it["rules"] if it["io"] == "path" else []
        if any("u" in r for r in rules):
            K.arm(ctx, [d], [], it["blk"])
            K.outcome(lambda: load(p))
            ev = ctx.simos.events()
            K.disarm(ctx)
            rules = [K.place(r, ev) for r in rules]
            rec["rules"] = rules
        if it["io"] == "path":
            K.arm(ctx, [d], rules, it["blk"])
            rec["r"] = K.outcome(lambda: load(p))
            rec["events"] = [(e["op"], e["action"], e["err"], e["ret"]) for e in ctx.simos.events()]
            rec["fired"] = ctx.simos.fired()
            K.disarm(ctx)
        elif it["io"] == "stringio":
            rec["r"] = K.outcome(lambda: load(io.StringIO(text, newline=None)))
        else:
            rec["r"] = K.outcome(lambda: load(FailingLines(text, it["u2"])))
        hist.append(rec)
    return hist


def judge(plan, hist, ctx):
    viol, keys, nontriv, faults, stats = [], [], [], {}, {}
    for i, (it, h) in enumerate(zip(plan["items"], hist)):
        r = h["r"]
        fired = h.get("fired", {})
        for k, v in fired.items():
            faults[k] = faults.get(k, 0) + v
        for e in it["edits"]:
            faults["text:" + e["k"]] = faults.get("text:" + e["k"], 0) + 1
        text = h["text"]
        failed_read = it["io"] == "readfail" or (fired.get("errno") and any(e[0] == "read" and e[1] == "errno" for e in h.get("events", [])))
        if it["io"] == "readfail":
            faults["stream-error"] = faults.get("stream-error", 0) + 1
        if fired.get("eof"):
            got = sum(e[3] for e in h["events"] if e[0] == "read" and e[1] != "eof" and e[3] > 0)
            text = text.encode("utf-8")[:got].decode("utf-8", "replace")
        what = f"item {i} ({it['src']}, {it['io']}, edits {[e['k'] for e in it['edits']]}, rules {h['rules']})"
        if failed_read:
            verdict = ("io", "the read failed")
            if r[0] == "ok":
                viol.append({"class": "read-error-masked", "msg": f"{what}: a read of the file failed and a structure of {len(r[1][2])} atoms was returned"})
        else:
            verdict = R.read(text)
            if "\ufffd" in text and verdict[0] == "ok":
                verdict = ("vague", "broken character")
            if verdict[0] == "bad" and r[0] == "ok":
                viol.append({"class": "invented", "msg": f"{what}: {verdict[1]}, but a structure of {len(r[1][2])} atoms was returned from {text[:300]!r}"})
            elif verdict[0] == "ok":
                if r[0] == "exc":
                    if not it["edits"] and not fired.get("eof"):
                        viol.append({"class": "refused", "msg": f"{what}: {r[1:3]} on a correct file {text[:300]!r}"})
                else:
                    dff = compare(verdict, r[1])
                    if dff:
                        viol.append({"class": "differs", "msg": f"{what}: {dff}; text {text[:400]!r}"})
        stats[verdict[0] + ("-raised" if r[0] == "exc" else "-returned")] = stats.get(verdict[0] + ("-raised" if r[0] == "exc" else "-returned"), 0) + 1
        k = digest([text, h.get("events"), it["io"]])
        keys.append(k)
        if it["edits"] or fired:
            if verdict[0] != "vague":
                nontriv.append(k)
    return {"violations": viol, "keys": keys, "nontrivial": nontriv, "faults": faults, "stats": stats,
            "sample": [{"src": s["src"], "io": s["io"], "edits": [e["k"] for e in s["edits"]], "rules": h["rules"], "outcome": h["r"][:2] if h["r"][0] == "exc" else "structure"}
                       for s, h in zip(plan["items"], hist)],
            "log": digest([(h["r"], h.get("events")) for h in hist])}


def compare(v, r):
    _, cell, names, pos, comment = v
    c, nm, ps, cm = r
    c = np.array(c)
    if c.shape != (3, 3) or np.abs(c - cell).max() > 1e-9 * (1 + np.abs(cell).max()):
        return f"the text states the cell {np.round(cell, 6).tolist()}, got {np.round(c, 6).tolist()}"
    if nm != names:
        return f"the text states the atoms {names[:12]}, got {nm[:12]}"
    if len(ps) != len(pos):
        return f"{len(pos)} positions stated, {len(ps)} returned"
    for i, p in enumerate(ps):
        if len(p) != 3:
            return f"position {i} has {len(p)} components"
    if len(ps):
        d = np.abs(np.array(ps) - pos)
        tol = 1e-9 * (1 + np.abs(pos).max()) * max(1.0, np.linalg.cond(cell))
        if not (d.max() <= tol):
            k = int(d.max(axis=1).argmax())
            return f"the text puts atom {k} at {pos[k].tolist()}, got {ps[k]}"
    if cm.split() != comment.split():
        return f"comment {comment!r} became {cm!r}"
    return None


def shrink(plan):
    for s in K.drop_each(plan["items"]):
        if s:
            yield {"items": s}
    for i, it in enumerate(plan["items"]):
        def put(**kw):
            return {"items": plan["items"][:i] + [dict(it, **kw)] + plan["items"][i + 1:]}
        for e in K.drop_each(it["edits"]):
            yield put(edits=e)
        for r in K.drop_each(it["rules"]):
            yield put(rules=r)
        if it["blk"]:
            yield put(blk=0)
        if it["io"] == "path" and not it["rules"]:
            yield put(io="stringio")
        if it["src"] == "dialect" and it["edits"]:
            yield put(text=damage(it["text"], it["edits"]), edits=[])
        if it["src"] == "dialect":
            ls = it["text"].split("\n")
            for k in range(len(ls) - 1, 7, -1):
                yield put(text="\n".join(ls[:k] + ls[k + 1:]))
        else:
            for a in K.shrink_atoms(it["args"]):
                yield put(args=a)
