"""A dump that is refused leaves the destination exactly as it was."""
import io
import os
import shutil

import numpy as np

from . import common as K
from .. import trace
from ..canon import digest

EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "RuntimeError": RuntimeError, "OSError": OSError,
       "ValueError": ValueError}
BAD_MODE = ["direct", "cartesian", "", "Cart", None, 5, "D", ["Direct"]]
BAD_NAME = ["X", "??", "123", "", None, "Q1", 7]
BAD_ROW = [[0.1, 0.2], [], "abc", None, ["a", "b", "c"], [0.1, None, 0.3], 0.5, [[0.1, 0.2, 0.3]], {"x": 1}]
BAD_DEC = [-1, "8", None, 2.5, "x", [3]]
BAD_COMMENT = ["\ud800", "ok \udfff bad", 5, ["c"], {"a": 1}]
BAD_CELL = [[[1, 0, 0], [0, 1, 0]], [[1, 0], [0, 1], [0, 0]], "abc", None, [[1, 0, "z"], [0, 1, 0], [0, 0, 1]], [[1, 0, 0], [0, 1], [0, 0, 1]], 3.0]


def gen(rng, tier, index):
    steps = []
    for _ in range(rng.choice([1, 1, 2, 4])):
        a = K.dump_args(rng, big=rng.random() < 0.3)
        n = len(a["atoms"]["positions"])
        kind = rng.choice(["mode", "name", "row", "decimals", "comment", "cell", "missing", "short", "species", "flaky", "flaky", "flaky",
                           "interrupt", "interrupt", "interrupt", "encoding", "good"])
        d = {"kind": kind, "i": rng.randrange(n)}
        if kind == "mode":
            d["v"] = rng.choice(BAD_MODE)
        elif kind == "name":
            d["v"] = rng.choice(BAD_NAME)
        elif kind == "row":
            d["v"] = rng.choice(BAD_ROW)
        elif kind == "decimals":
            d["v"] = rng.choice(BAD_DEC)
        elif kind == "comment":
            d["v"] = rng.choice(BAD_COMMENT)
        elif kind == "cell":
            d["v"] = rng.choice(BAD_CELL)
        elif kind == "missing":
            d["v"] = rng.choice(["positions", "names", "species+names"])
        elif kind == "species":
            d["v"] = rng.choice([None, 5, "\udc80", "Fe"])
        elif kind == "flaky":
            d.update(what=rng.choice(["dict", "list", "number", "row"]), u=rng.random(), exc=rng.choice(sorted(EXC)))
        elif kind == "interrupt":
            d.update(u=rng.random(), v=rng.random(), exc=rng.choice(["KeyboardInterrupt", "MemoryError"]))
        target = rng.choice(["path", "path", "path", "path", "default", "link", "nodir", "dir", "stringio", "textio", "ascii"])
        if kind == "encoding":
            target = rng.choice(["ascii", "path"])
            a["comment"] = "\u00e5 comment"
            if target == "path":
                a["comment"] = "x\ud812"
        steps.append({"args": a, "defect": d, "target": target, "fresh": rng.random() < 0.3})
    return {"steps": steps, "prior": rng.choice([None, 0, 1, 300, 40000])}


class FlakyCount:
    def __init__(self, at, exc):
        self.n = 0
        self.at = at
        self.exc = exc

    def hit(self):
        k = self.n
        self.n += 1
        if self.at is not None and k == self.at:
            raise self.exc("fault in the data of the caller")


def flaky_data(what, atoms, cnt):
    class D(dict):
        def __getitem__(self, k):
            cnt.hit()
            return dict.__getitem__(self, k)

        def __contains__(self, k):
            cnt.hit()
            return dict.__contains__(self, k)

        def get(self, k, d=None):
            cnt.hit()
            return dict.get(self, k, d)

    class L(list):
        def __getitem__(self, k):
            cnt.hit()
            return list.__getitem__(self, k)

        def __len__(self):
            cnt.hit()
            return list.__len__(self)

        def __iter__(self):
            for i in range(list.__len__(self)):
                cnt.hit()
                yield list.__getitem__(self, i)

    class F(float):
        def __format__(self, spec):
            cnt.hit()
            return float.__format__(self, spec)

        def __float__(self):
            cnt.hit()
            return float.__add__(self, 0.0)

    if what == "dict":
        return D(atoms)
    if what == "list":
        return {k: L(v) for k, v in atoms.items()}
    if what == "number":
        return {**atoms, "positions": [[F(x) for x in r] for r in atoms["positions"]]}
    return {**atoms, "positions": [L(list(r)) for r in atoms["positions"]]}


def prepared(step, at=None):
    """(callable of the target, access counter)."""
    import wulfric

    a = step["args"]
    d = step["defect"]
    k = d["kind"]
    cell, atoms = K.build(a)
    kw = {"decimals": a["decimals"], "mode": a["mode"], "comment": a["comment"]}
    cnt = None
    i = d["i"]
    if k == "mode":
        kw["mode"] = d["v"]
    elif k == "decimals":
        kw["decimals"] = d["v"]
    elif k == "comment":
        kw["comment"] = d["v"]
    elif k == "cell":
        cell = d["v"]
    elif k == "name":
        atoms = {q: v for q, v in atoms.items() if q != "species"}
        atoms["names"] = list(atoms["names"])
        atoms["names"][i] = d["v"]
    elif k == "row":
        atoms = dict(atoms)
        atoms["positions"] = [x for x in atoms["positions"]]
        atoms["positions"][i] = d["v"]
    elif k == "missing":
        drop = d["v"].split("+")
        atoms = {q: v for q, v in atoms.items() if q not in drop}
    elif k == "short":
        atoms = {q: (v if q == "positions" else list(v)[: max(0, i)]) for q, v in atoms.items()}
    elif k == "species":
        atoms = dict(atoms)
        n = len(atoms["positions"])
        atoms["species"] = ["Fe"] * n
        atoms["species"][i] = d["v"]
    elif k == "flaky":
        atoms = {q: v for q, v in K.build(dict(a, pform="list", sugar=False))[1].items()}
        cnt = FlakyCount(at, EXC[d["exc"]])
        atoms = flaky_data(d["what"], atoms, cnt)
    return (lambda target: wulfric.io.dump_poscar(cell, atoms, target, **kw)), cnt


def run_step(step, d, ctx):
    """In a child: the call, with its fault.  Returns the outcome, what a stream got and where the fault went."""
    os.chdir(d)
    t = step["target"]
    stream = None
    if t == "stringio":
        target = stream = io.StringIO()
        stream.write("kept\n")
    elif t in ("textio", "ascii"):
        raw = io.BytesIO()
        target = stream = io.TextIOWrapper(raw, encoding="ascii" if t == "ascii" else "utf-8")
        stream.write("kept\n")
    else:
        target = {"path": os.path.join(d, "out"), "default": "POSCAR", "link": os.path.join(d, "link"), "nodir": "no/such/POSCAR",
                  "dir": os.path.join(d, "folder")}[t]
    df = step["defect"]
    info = {}
    if df["kind"] == "flaky":
        f, cnt = prepared(step)
        try:
            f(io.StringIO())
        except Exception:  # noqa: BLE001
            pass
        at = df["at"] if "at" in df else (int(df["u"] * cnt.n) if cnt.n else 0)
        info["at"] = at
        f, cnt = prepared(step, at)
        res = K.outcome(lambda: f(target))
        info["fired"] = cnt.n > at
    elif df["kind"] == "interrupt":
        at = df.get("at")
        if at is None:
            f, _ = prepared(step)
            p = os.path.join(ctx.scratch, "probe")
            os.makedirs(p)
            K.arm(ctx, [p], [])
            s2 = io.StringIO()
            _, ev = trace.profile(lambda: f(s2 if stream is not None else os.path.join(p, "out")),
                                  probe=lambda: ctx.simos.shared.total == 0 and not s2.tell())
            K.disarm(ctx)
            n = trace.profile.upto if trace.profile.upto is not None else len(ev)
            at = trace.pick(ev[:n], df["u"], df["v"], include_protected=True)
            shutil.rmtree(p)
        info["at"] = at
        f, _ = prepared(step)
        if at is None:
            res = ["none"]
        else:
            box, st = trace.inject(lambda: f(target), at, EXC[df["exc"]]("injected"))
            res = ["ok", None] if box[0] == "ok" else K.outcome(lambda: (_ for _ in ()).throw(box[1]))
            info["fired"] = st.fired
            info["where"] = st.where and [os.path.basename(st.where[0]), st.where[1], st.where[2]]
    else:
        f, _ = prepared(step)
        res = K.outcome(lambda: f(target))
    got = None
    if stream is not None:
        try:
            stream.flush()
            got = stream.getvalue() if t == "stringio" else raw.getvalue().decode("utf-8", "replace")
        except ValueError as e:
            got = "closed: " + str(e)
    return [res, got, info]


def execute(plan, ctx):
    d = os.path.join(ctx.scratch, "d")
    os.makedirs(d)
    os.makedirs(os.path.join(d, "folder"))
    with open(os.path.join(d, "real"), "wb") as f:
        f.write(b"real file\n" * 3)
    os.symlink("real", os.path.join(d, "link"))
    if plan["prior"] is not None:
        for n in ("out", "POSCAR", "folder/POSCAR"):
            with open(os.path.join(d, n), "wb") as f:
                f.write(b"old\n" * plan["prior"])
    hist = []
    for st in plan["steps"]:
        before = K.tree(d)
        r = ctx.fork(run_step, st, d, ctx)
        after = K.tree(d)
        hist.append({"r": r, "before": before, "after": after})
    return hist


def judge(plan, hist, ctx):
    viol, keys, nontriv, faults, stats = [], [], [], {}, {}
    res = dict(plan, steps=[dict(s) for s in plan["steps"]])
    for i, h in enumerate(hist):
        st = plan["steps"][i]
        df = st["defect"]
        if h["r"][0] != "ok":
            return {"violations": [{"class": "died", "msg": f"step {i}: the process ended with {h['r']}"}]}
        out, got, info = h["r"][1]
        if "at" in info:
            res["steps"][i]["defect"] = dict(df, at=info["at"])
        what = f"step {i}: {df['kind']} {df.get('v', '')!r} {info} to {st['target']} ended with {out[:3]}"
        stats[df["kind"] + (":raised" if out[0] == "exc" else ":returned")] = 1
        if info.get("fired") or (df["kind"] not in ("flaky", "interrupt", "good") and out[0] == "exc"):
            faults[df["kind"]] = faults.get(df["kind"], 0) + 1
        if out[0] == "exc":
            b, a = h["before"], h["after"]
            for n in sorted(set(a) | set(b)):
                if n not in b:
                    viol.append({"class": "new-file", "msg": f"{what}; a new file {n} appeared with {K.clip(a[n])}"})
                elif n not in a:
                    viol.append({"class": "file-gone", "msg": f"{what}; the file {n} is gone"})
                elif a[n] != b[n]:
                    viol.append({"class": "destination-changed", "msg": f"{what}; {n} had {K.clip(b[n])} and has {K.clip(a[n])}"})
            if got is not None and got != "kept\n":
                viol.append({"class": "stream-changed", "msg": f"{what}; the stream received {got[5:80]!r}"})
        k = digest([df["kind"], df.get("v"), df.get("what"), info, st["target"], out[1] if out[0] == "exc" else "ok", plan["prior"]])
        keys.append(k)
        if out[0] == "exc":
            nontriv.append(k)
    return {"violations": viol, "keys": keys, "nontrivial": nontriv, "faults": faults, "stats": stats, "resolved": res,
            "sample": [{"defect": s["defect"], "target": s["target"], "outcome": h["r"][1][0][:3]} for s, h in zip(plan["steps"], hist)],
            "log": digest([repr((h["r"], h["after"])).replace(ctx.scratch, "$") for h in hist])}


def shrink(plan):
    for s in K.drop_each(plan["steps"]):
        if s:
            yield dict(plan, steps=s)
    for i, st in enumerate(plan["steps"]):
        def put(n):
            return dict(plan, steps=plan["steps"][:i] + [n] + plan["steps"][i + 1:])
        for a in K.shrink_atoms(st["args"]):
            if st["defect"]["i"] < len(a["atoms"]["positions"]):
                yield put(dict(st, args=a))
            else:
                yield put(dict(st, args=a, defect=dict(st["defect"], i=0)))
        if st["target"] != "path":
            yield put(dict(st, target="path"))
        if "at" in st["defect"] and st["defect"]["at"]:
            for x in (0, st["defect"]["at"] // 2, st["defect"]["at"] - 1):
                yield put(dict(st, defect=dict(st["defect"], at=x)))
    if plan["prior"] not in (None, 1):
        yield dict(plan, prior=1)
