"""An interrupted or failing call leaves no trace and works when repeated."""
import os

from . import common as P
from .. import calls as K
from .. import trace
from ..canon import diff, digest

TIMEOUT = 150
EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}


def warm():
    K.warm_plotly()


def gen(rng, tier, index):
    structs = [K.structure(rng, max_atoms=6)]
    if rng.random() < 0.4:
        structs.append(K.sib(rng, structs[0]))
    even = rng.random() < 0.4
    pick = lambda only=None: K.pick(rng, structs, only=only, slow=0.015, even=even)  # noqa: E731
    target = pick(["lepage"]) if rng.random() < 0.02 else pick()
    if target["f"] != "lepage" and rng.random() < 0.3:
        for _ in range(5):
            if "sym" in K.tags(target["f"]):
                break
            target = pick()
    pre = [pick() for _ in range(rng.choice([0, 0, 0, 1, 2]))]
    r = rng.random()
    post = pick(only=[target["f"]]) if r < 0.4 else pick()
    more = [c for c in (pick() for _ in range(rng.choice([0, 0, 1, 3]))) if "inplace" not in K.tags(c["f"])]
    if rng.random() < 0.3:
        more.append(K.pick(rng, structs, only=["species_many"]))
    return {"structs": structs, "pre": pre, "target": target, "post": post, "more": more,
            "rounds": [{"u": rng.random(), "v": rng.random(), "exc": rng.choice(sorted(EXC)), "again": rng.choice([0, 0, 0, 0, 1, 2])}
                       for _ in range(rng.choice([1, 2, 4, 8]))]}


def world(plan):
    w = K.World(plan["structs"])
    w.prepare([plan["target"], plan["post"]] + plan["pre"] + plan["more"])
    for c in plan["pre"]:
        if "inplace" not in K.tags(c["f"]):
            P.outcome(lambda: K.invoke(w, c))
    return w


def find(plan):
    w = world(plan)
    _, ev = trace.profile(lambda: K.invoke(w, plan["target"]))
    return [trace.pick(ev, r["u"], r["v"]) for r in plan["rounds"]], len(ev)


def chain(e, x, depth=0):
    if e is x:
        return True
    if e is None or depth > 8:
        return False
    return chain(e.__cause__, x, depth + 1) or chain(e.__context__, x, depth + 1)


def struck(plan, ats):
    w = world(plan)
    c = plan["target"]
    inplace = "inplace" in K.tags(c["f"])
    const = K.constants()
    outs = []
    for rd, at in zip(plan["rounds"], ats):
        if inplace:  # documented to edit its argument: what an interrupted call leaves of that argument is property C18
            w2 = K.World(plan["structs"])
            w2.stored = w.stored
            w = world(plan) if outs else w
        else:
            w2 = w
        before = w.values()
        out = {"hits": []}
        for k in range(1 + rd["again"]):
            exc = EXC[rd["exc"]]("injected")
            r, st = trace.inject(lambda: K.invoke(w, c), max(0, at - k) if k else at, exc)
            ok = not st.fired or (r[0] == "exc" and chain(r[1], exc))
            out["hits"].append([st.fired, ok, st.where and [os.path.basename(st.where[0]), st.where[1], st.where[2]],
                                r[0] if r[0] == "ok" else repr(r[1])[:200]])
            del r
        out["args"] = None
        for i, (x, y) in enumerate(zip(before, w.values())):
            if inplace and i == c["s"]:
                x, y = x[0], y[0]
            out["args"] = out["args"] or diff(x, y, 0.0, f"object {i}")
        if not inplace:
            out["retry"] = K.record(w, c)
        out["const"] = diff(const, K.constants(), 0.0)
        if "inplace" not in K.tags(plan["post"]["f"]) or len(outs) == len(ats) - 1:
            out["post"] = K.record(w2, plan["post"])
        if not inplace and "inplace" not in K.tags(plan["post"]["f"]):
            out["more"] = [K.record(w2, c) for c in plan["more"]]
        outs.append(out)
    return outs


def reference(plan):
    w = K.World(plan["structs"])
    w.prepare([plan["target"], plan["post"]] + plan["pre"] + plan["more"])
    return [K.record(w, c) for c in plan["more"]]


def alone(plan, which):
    w = K.World(plan["structs"])
    w.prepare([plan["target"], plan["post"]] + plan["pre"] + plan["more"])
    return K.record(w, plan[which])


def execute(plan, ctx):
    at = plan.get("at")
    if at is None:
        r = ctx.fork(find, plan)
        if r[0] != "ok" or None in r[1][0]:
            return {"skip": r}
        at = r[1][0]
    s = ctx.fork(struck, plan, at, timeout=100)
    t = ctx.fork(alone, plan, "target")
    p = ctx.fork(alone, plan, "post")
    m = ctx.fork(reference, plan) if plan["more"] else ["ok", []]
    for x in (t, p, m):
        if x[0] != "ok":
            return {"skip": x}
    return {"at": at, "s": s, "t": t[1], "p": p[1], "m": m[1]}


def judge(plan, hist, ctx):
    if "skip" in hist:
        if hist["skip"][0] == "error":
            raise RuntimeError(hist["skip"][1])
        return {"violations": [], "stats": {"skipped": 1}, "log": digest(["skip"])}
    s = hist["s"]
    if s[0] == "error":
        raise RuntimeError(s[1])
    show = K.show(plan["target"], plan["structs"])
    res = dict(plan, at=hist["at"])
    if s[0] != "ok":
        return {"violations": [{"class": "died", "msg": f"{show} interrupted at step {hist['at']}: the process ended with {s}"}], "resolved": res}
    viol, keys, faults, lines = [], [], {}, set()
    for rd, s in zip(plan["rounds"], s[1]):
        what = f"{show} struck by {rd['exc']} at {s['hits'][0][2]}"
        for fired, ok, where, how in s["hits"]:
            if not ok:
                viol.append({"class": "swallowed", "msg": f"{what}: the exception did not reach the caller, the call ended with {how}"})
        if s["args"]:
            viol.append({"class": "arguments", "msg": f"{what}: {s['args']}"})
        if s["const"]:
            viol.append({"class": "constant", "msg": f"{what}: a constant of the package changed: {s['const']}"})
        if "retry" in s:
            d = K.same(s["retry"], hist["t"])
            if d:
                viol.append({"class": "retry", "msg": f"{what}: repeated without the fault: {d}"})
        d = "post" in s and K.same(s["post"], hist["p"])
        if d:
            viol.append({"class": "after", "msg": f"{what}: {K.show(plan['post'], plan['structs'])} afterwards: {d}"})
        for c, x, y in zip(plan["more"], s.get("more", []), hist["m"]):
            d = K.same(x, y)
            if d:
                viol.append({"class": "after", "msg": f"{what}: {K.show(c, plan['structs'])} afterwards: {d}"})
        fired = [h for h in s["hits"] if h[0]]
        faults[rd["exc"]] = faults.get(rd["exc"], 0) + len(fired)
        lines |= {tuple(h[2]) for h in fired}
        keys += [digest([plan["target"]["f"], h[2], rd["exc"], [c["f"] for c in plan["pre"]], plan["post"]["f"]]) for h in fired]
        if viol:
            break
    return {"violations": viol, "keys": keys, "nontrivial": keys, "faults": faults, "resolved": res,
            "stats": {"call:" + plan["target"]["f"]: 1, "lines": len(lines)},
            "sample": {"call": plan["target"]["f"], "where": hist["s"][1][0]["hits"][0][2], "exc": plan["rounds"][0]["exc"], "post": plan["post"]["f"]},
            "log": digest([[x["hits"], x.get("retry", [0])[:2], x.get("post", [0])[:2]] for x in hist["s"][1]])}


def shrink(plan):
    if len(plan["rounds"]) > 1:
        for i in range(len(plan["rounds"])):
            p = dict(plan, rounds=[plan["rounds"][i]])
            if "at" in plan:
                p["at"] = [plan["at"][i]]
            yield p
    for p in P.drop_each(plan["pre"]):
        yield dict(plan, pre=p)
    for p in P.drop_each(plan["more"]):
        yield dict(plan, more=p)
    if any(r["again"] for r in plan["rounds"]):
        yield dict(plan, rounds=[dict(r, again=0) for r in plan["rounds"]])
    for i, s in enumerate(plan["structs"]):
        for a in P.shrink_atoms(s):
            p = dict(plan, structs=plan["structs"][:i] + [a] + plan["structs"][i + 1:])
            p.pop("at", None)
            yield p
