"""Concurrent callers get what they would get alone."""
import os
import random
import shutil

from . import common as P
from .. import calls as K
from .. import trace
from ..canon import canon, diff, digest

TIMEOUT = 120


def warm():
    K.warm_plotly()


def _inside(w, path):
    """The name as another thread would also see it: relative, or absolute."""
    return os.path.join(w.base, path[4:]) if path.startswith("ABS:") else path


@K.call("!dump", 0, "file", K.none)
def _(w, c):
    import wulfric

    a = c["a"]
    wulfric.io.dump_poscar(w.cell(c), w.atoms(c), _inside(w, a["to"]), comment=a["comment"], decimals=a["decimals"], mode=a["mode"])
    return content(os.path.join(w.base, a["to"].replace("ABS:", "")))


@K.call("!load", 0, "file", K.none)
def _(w, c):
    import wulfric

    return wulfric.io.load_poscar(*([] if c["a"]["of"] is None else [_inside(w, c["a"]["of"])]))


def content(path):
    with open(path, "rb") as f:
        return f.read()


def file_call(rng, structs, name):
    i = rng.randrange(len(structs))
    if rng.random() < 0.55:
        return {"f": "!dump", "s": i, "sd": None, "a": {"to": rng.choice(["", "ABS:", "sub/", "ABS:sub/"]) + name, "comment": rng.choice(["one", "two", name]), "decimals": rng.choice([3, 8]),
                                                         "mode": rng.choice(["Direct", "Cartesian"])}}
    return {"f": "!load", "s": i, "sd": None, "a": {"of": rng.choice([None, "POSCAR", "sub", "sub", "ABS:sub", "second", "ABS:second", "none", "sub/second", "broken"])}}


def files(w, ctx, tag):
    """A directory with the same files for every process that is to give the same results."""
    w.base = os.path.join(ctx.scratch, tag)
    shutil.rmtree(w.base, ignore_errors=True)
    os.makedirs(os.path.join(w.base, "sub"))
    for n, k in (("POSCAR", 0), ("second", 1), ("sub/POSCAR", 1), ("sub/second", 0), ("broken", 2)):
        with open(os.path.join(w.base, n), "w") as f:
            f.write(K.POSCAR[k].replace("c", n.replace("/", " "), 1) if k < 2 else K.POSCAR[k])
    os.chdir(w.base)


def gen(rng, tier, index):
    heavy = rng.random() < 0.08
    ns = 2 if heavy else rng.choice([1, 2, 2, 3])
    structs = [K.structure(rng, max_atoms=6)]
    while len(structs) < ns:
        structs.append(K.sib(rng, structs[0]) if rng.random() < 0.7 else K.structure(rng, max_atoms=6))
    nt = rng.choice([2, 2, 2, 3, 4])
    threads = []
    if rng.random() < 0.45:  # the same function everywhere: the neighbours a shared buffer confuses
        f = [K.pick(rng, structs)["f"]]
    else:
        f = None
    if heavy:
        f = [rng.choice(["wigner", "brillouin", "wigner", "lepage", "figure"])]
        nt = 2
    disk = not heavy and rng.random() < 0.2
    for n in range(nt):
        cs = []
        if heavy:
            threads.append([K.pick(rng, structs, only=f, slow=1.0, i=len(threads))])
            continue
        for j in range(rng.choice([1, 1, 2, 3])):
            if disk and rng.random() < 0.8:
                cs.append(file_call(rng, structs, f"out{n}{j}"))
                continue
            c = K.pick(rng, structs, only=f, without=("slow", "inplace") if rng.random() < 0.97 else ("inplace", "scipy"))
            if "inplace" in K.tags(c["f"]):
                c["own"] = True
            cs.append(c)
        threads.append(cs)
    r = rng.random()
    if r < 0.4:
        sched = {"mode": "pct", "k": rng.choice([1, 1, 2, 3, 5, 8, 16]), "by_line": rng.choice([0, 0.7, 1])}
    elif r < 0.55:
        sched = {"mode": "firsts", "p": rng.choice([1, 1, 0.8, 0.4])}
    elif r < 0.75:
        sched = {"mode": "rand", "p": rng.choice([0.01, 0.05, 0.3, 0.8])}
    else:
        sched = {"mode": "rr", "q": rng.choice([1, 1, 2, 3, 7, 20]), "skew": rng.choice([0, 0, 1, 3, 10])}
    if heavy:
        sched = {"mode": "pct", "k": rng.choice([3, 8, 16]), "by_line": 1} if rng.random() < 0.4 else {"mode": "firsts", "p": rng.choice([1, 0.8, 0.4])}
    return {"structs": structs, "threads": threads, "sched": sched, "opcodes": not heavy and rng.random() < 0.3, "first": rng.randrange(nt), "sseed": rng.randrange(1 << 30),
            "warm": not heavy and rng.random() < 0.4}


def alone(plan, c, ctx):
    w = K.World(plan["structs"])
    files(w, ctx, "alone")
    w.prepare([c])
    with K.Warned() as wd:
        wd.take()
        return K.record(w, c, wd)


def steps_alone(plan, ctx):
    """Scheduling points of each thread when it runs alone: where the few preemptions are placed."""
    w = K.World(plan["structs"])
    files(w, ctx, "steps")
    w.prepare([c for t in plan["threads"] for c in t])
    out = []
    for t in plan["threads"]:
        def body(t=t):
            for c in t:
                P.outcome(lambda c=c: K.invoke(w, c))
        s = trace.Sched([body], lambda me, step, r: me, opcodes=plan["opcodes"], record=True)
        s.run()
        out.append([s.steps[0], [v for _, v in sorted(s.sites.items())]])
    return out


def together(plan, nominal, ctx):
    w = K.World(plan["structs"])
    files(w, ctx, "together")
    calls = [c for t in plan["threads"] for c in t]
    w.prepare(calls)
    if plan["warm"]:
        for c in calls:
            if not c.get("own") and c["f"][0] != "!":
                P.outcome(lambda c=c: K.invoke(w, c))
    before = w.values()
    got = [[] for _ in plan["threads"]]
    with K.Warned() as wd:
        def body(k):
            own = K.World(plan["structs"])
            own.base = w.base
            def run():
                for c in plan["threads"][k]:
                    got[k].append(K.record(own if c.get("own") else w, c, wd))
            return run
        # worlds are made before the threads start
        bodies = [body(k) for k in range(len(plan["threads"]))]
        s = trace.Sched(bodies, trace.decider(plan["sched"], random.Random(plan["sseed"]), nominal), opcodes=plan["opcodes"])
        res = s.run(first=plan["first"])
    after = w.values()
    d = None
    for i, (x, y) in enumerate(zip(before, after)):
        d = d or diff(x, y, 0.0, f"object {i}")
    for k, t in enumerate(plan["threads"]):
        for c, r in zip(t, got[k]):
            if c["f"] == "!dump" and r[0] == "ok" and canon(P.outcome(lambda c=c: content(os.path.join(w.base, c["a"]["to"].replace("ABS:", ""))))[1]) != r[1]:
                d = d or f"the file {c['a']['to']} has another content in the end"
    if not d and sorted(os.listdir(".")) != sorted(os.listdir(w.base)):
        d = "the working directory is another one"
    return {"got": got, "ends": [[r[0], repr(r[1])[:300]] for r in res], "switches": s.switches, "deadlock": s.deadlock, "over": s.over,
            "inputs": d, "steps": s.steps}


def execute(plan, ctx):
    nominal = None
    if plan["sched"]["mode"] == "pct":
        r = ctx.fork(steps_alone, plan, ctx, timeout=100)
        if r[0] != "ok":
            return {"skip": str(r)}
        nominal = r[1]
    tog = ctx.fork(together, plan, nominal, ctx, timeout=100)
    ref = {}
    for t in plan["threads"]:
        for c in t:
            k = digest(c)
            if k not in ref:
                ref[k] = ctx.fork(alone, plan, c, ctx)
    if any(r[0] != "ok" for r in ref.values()):
        return {"skip": str([r for r in ref.values() if r[0] != "ok"][0])[:500]}
    if tog[0] != "ok":
        return {"bad": tog}
    return {"t": tog[1], "ref": ref}


def judge(plan, hist, ctx):
    if "skip" in hist:  # a call that kills the process when it runs alone (in native code) says nothing about threads
        if "Traceback" in hist["skip"]:
            raise RuntimeError(hist["skip"])
        return {"violations": [], "stats": {"skipped": 1}, "log": "skip"}
    if "bad" in hist:
        if hist["bad"][0] == "error":
            raise RuntimeError(str(hist["bad"]))
        return {"violations": [{"class": "died", "msg": f"the threads did not end: {str(hist['bad'])[:600]}"}]}
    t = hist["t"]
    viol = []
    if t["deadlock"]:
        viol.append({"class": "deadlock", "msg": "all threads wait for each other"})
    if t["over"]:
        viol.append({"class": "livelock", "msg": "the threads did not end within the step limit"})
    for k, cs in enumerate(plan["threads"]):
        for j, c in enumerate(cs):
            ref = hist["ref"][digest(c)]
            if j >= len(t["got"][k]):
                if not viol:
                    viol.append({"class": "lost", "msg": f"thread {k} ended with {t['ends'][k]} before {K.show(c)}"})
                continue
            d = None if c.get("own") and j else K.same(t["got"][k][j], ref[1])
            if d:
                viol.append({"class": "differs", "msg": f"thread {k}: {K.show(c, plan['structs'])} with {len(t['switches'])} switches: {d}"})
    if t["inputs"]:
        viol.append({"class": "inputs", "msg": f"a shared input changed: {t['inputs']}"})
    res = dict(plan, sched={"mode": "list", "switches": t["switches"]})
    names = sorted(c["f"] for cs in plan["threads"] for c in cs)
    k = digest([names, t["switches"], t["steps"], plan["opcodes"]])
    return {"violations": viol, "keys": [k], "nontrivial": [k] if t["switches"] else [], "faults": {"preemption": len(t["switches"])},
            "stats": {"calls": len(names), "scheduling-points": sum(t["steps"]), "raised": sum(1 for g in t["got"] for r in g if r[0] == "exc")},
            "resolved": res, "sample": {"threads": [[c["f"] for c in cs] for cs in plan["threads"]], "sched": plan["sched"]["mode"], "switches": t["switches"][:5]},
            "log": digest([t["switches"], t["steps"], [[r[:2] for r in g] for g in t["got"]]])}


def shrink(plan):
    if len(plan["threads"]) > 2:
        for i in range(len(plan["threads"])):
            th = plan["threads"][:i] + plan["threads"][i + 1:]
            yield dict(plan, threads=th, first=0, sched={"mode": "rr", "q": 1})
    if plan["sched"]["mode"] == "list":
        for s in P.drop_each(plan["sched"]["switches"]) if len(plan["sched"]["switches"]) < 60 else _halves(plan["sched"]["switches"]):
            yield dict(plan, sched={"mode": "list", "switches": s})
    for i, t in enumerate(plan["threads"]):
        if len(t) > 1:
            for j in range(len(t)):
                yield dict(plan, threads=plan["threads"][:i] + [t[:j] + t[j + 1:]] + plan["threads"][i + 1:])
    if plan["warm"]:
        yield dict(plan, warm=False)
    for i, s in enumerate(plan["structs"]):
        for a in P.shrink_atoms(s):
            yield dict(plan, structs=plan["structs"][:i] + [a] + plan["structs"][i + 1:])


def _halves(sw):
    n = len(sw)
    for parts in (2, 4, 8, 16):
        q = max(1, n // parts)
        for a in range(0, n, q):
            yield sw[:a] + sw[a + q:]
