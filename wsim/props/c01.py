"""A write that returned is complete; a write that failed says so."""
import io
import os

from . import common as K
from ..canon import digest

TIMEOUT = 90


def warm():
    import plotly.graph_objects  # noqa: F401
    import plotly.io  # noqa: F401
    import io as _io

    K.make_figure({"plots": ["points"]}).fig.to_html(include_plotlyjs=False)


def gen(rng, tier, index):
    steps = []
    fig = rng.random() < 0.12
    for _ in range(rng.choice([1, 1, 2, 3])):
        st = {"op": "save", "fig": {"plots": rng.sample(K.FIGS, rng.choice([1, 2])), "js": rng.random() < 0.1}} if fig else {"op": "dump", "args": K.dump_args(rng)}
        st["target"] = rng.choice(["abs", "rel", "default"]) if rng.random() < 0.5 else "abs"
        st["blk"] = rng.choice([0, 0, 64, 512, 8192])
        rules = []
        r = rng.random()
        u = rng.random()
        if r < 0.22:
            rules = [{"ops": ["write"], "u": u, "times": rng.choice([1, 1000]), "action": "errno", "arg": rng.choice(K.DISK_W)}]
            if rng.random() < 0.5:  # the disk takes a part of the data before it fails
                rules.insert(0, {"ops": ["write"], "nth": 0, "times": rng.choice([1, 3]), "action": "short", "arg": rng.choice([1, 100, 4096])})
                rules[1]["u"] = None
                rules[1]["nth"] = rng.choice([1, 1, 2, 3])
                del rules[1]["u"]
        elif r < 0.34:
            rules = [{"ops": ["close"], "u": u, "times": 1, "action": "errno", "arg": rng.choice(K.DISK_C)}]
        elif r < 0.44:
            rules = [{"ops": ["open"], "u": u, "times": rng.choice([1, 1000]), "action": "errno", "arg": rng.choice(K.DISK_O)}]
        elif r < 0.52:
            rules = [{"ops": ["fsync", "rename", "trunc"], "u": u, "times": 1, "action": "errno", "arg": "EIO"}]
        elif r < 0.70:
            rules = [{"ops": rng.choice([["open", "write", "close", "fsync", "rename"], ["write"], ["close"]]), "u": u, "times": 1,
                      "action": rng.choice(["crash_before", "crash_after", "torn_crash"]), "arg": rng.choice([0, 1, 17, 500])}]
        elif r < 0.85:
            rules = K.short_rules(rng)
        st["rules"] = rules
        steps.append(st)
    prior = rng.choice([None, None, 10, 5000, 200000])
    return {"steps": steps, "prior": prior, "same": rng.random() < 0.7}


def _expected(st, ctx):
    """The complete output, produced without any file."""
    if st["op"] == "dump":
        f = io.StringIO()
        K.do_dump(st["args"], f)
        return f.getvalue().encode("utf-8")
    pe = K.make_figure(st["fig"])
    f = io.StringIO()
    pe.save(f, kwargs_write_html={"include_plotlyjs": st["fig"]["js"], "div_id": "figure"})
    return f.getvalue().encode("utf-8")


def _expected_seeded(st, ctx):
    ctx.simos.entropy(7)
    return _expected(st, ctx)


def _name(st, d, i, same):
    return "POSCAR" if st["target"] == "default" and st["op"] == "dump" else ("out" if same else f"out{i}")


def _call(st, ctx, d, name, rules):
    os.chdir(d)
    K.arm(ctx, [d], rules, st["blk"])
    ctx.simos.entropy(7)
    path = os.path.join(d, name) if st["target"] == "abs" else name
    import gc

    gc.disable()
    K.slow_threads()
    try:
        if st["op"] == "dump":
            K.do_dump(st["args"], path)
        else:
            K.do_save(st["fig"], path)
    except BaseException as e:  # noqa: BLE001
        return ["exc", type(e).__name__, str(e)[:200], [k.__name__ for k in type(e).__mro__]]
    ctx.simos.shared.fired[15] = 1  # the call has returned: visible to the parent even though this process dies here
    if st.get("die", True):
        os._exit(99)
    return ["ok"]


def execute(plan, ctx):
    hist = []
    d = ctx.scratch
    if plan["prior"] is not None:
        for n in ("out", "POSCAR"):
            with open(os.path.join(d, n), "wb") as f:
                f.write(b"old\n" * plan["prior"])
    for i, st in enumerate(plan["steps"]):
        kind, exp = ctx.fork(_expected_seeded, st, ctx)
        if kind != "ok":
            hist.append({"expected_failed": [kind, exp]})
            break
        name = _name(st, d, i, plan["same"])
        rules = st["rules"]
        if any("u" in r for r in rules):
            p = os.path.join(d, "ref")
            os.makedirs(p)
            ctx.fork(_call, st, ctx, p, name, [])
            ev = ctx.simos.events()
            import shutil

            shutil.rmtree(p)
            rules = [K.place(r, ev) for r in rules]
        kind, val = ctx.fork(_call, st, ctx, d, name, rules)
        returned = bool(ctx.simos.shared.fired[15])
        events = ctx.simos.events()
        fired = ctx.simos.fired()
        path = os.path.join(d, name)
        data = open(path, "rb").read() if os.path.isfile(path) else None
        hist.append({"kind": kind, "val": val, "returned": returned, "events": [(e["op"], e["action"], e["err"], e["ret"]) for e in events],
                     "fired": fired, "data": data, "exp": exp, "rules": rules, "files": sorted(os.listdir(d))})
        if kind == "timeout":
            break
    return hist


def judge(plan, hist, ctx):
    viol, keys, faults, stats, nontriv = [], [], {}, {}, []
    resolved = dict(plan, steps=[dict(s) for s in plan["steps"]])
    for i, h in enumerate(hist):
        if "expected_failed" in h:
            viol.append({"class": "stream-refused", "msg": f"the same output to a stream failed: {h['expected_failed']}"})
            break
        resolved["steps"][i]["rules"] = h["rules"]
        what = f"step {i} ({plan['steps'][i]['op']}, rules {h['rules']})"
        for k, v in h["fired"].items():
            faults[k] = faults.get(k, 0) + v
        hard = [e for e in h["events"] if e[1] == "errno"]
        if h["kind"] == "timeout":
            viol.append({"class": "hang", "msg": f"{what}: the call did not end"})
            break
        if h["returned"]:
            stats["returned"] = stats.get("returned", 0) + 1
            if h["data"] != h["exp"]:
                viol.append({"class": "incomplete", "msg": f"{what}: returned normally, killed right after; the file has {K.clip(h['data'])} instead of {K.clip(h['exp'])}"})
            elif hard:
                viol.append({"class": "error-swallowed", "msg": f"{what}: {hard[0]} happened and the call returned normally"})
        elif h["kind"] == "ok":
            stats["raised"] = stats.get("raised", 0) + 1
            if not hard:
                viol.append({"class": "spurious-error", "msg": f"{what}: raised {h['val'][1:3]} without an error from the system"})
            elif "OSError" not in h["val"][3]:
                viol.append({"class": "wrong-error", "msg": f"{what}: {hard[0]} reached the caller as {h['val'][1:3]}"})
        else:
            stats["killed"] = stats.get("killed", 0) + 1
            if not any(k in h["fired"] for k in ("crash_before", "crash_after", "torn_crash")):
                viol.append({"class": "died", "msg": f"{what}: the process ended by itself, {h['kind']} {h['val']}"})
        k = digest([[(e[0], e[1], e[2]) for e in h["events"]], len(h["exp"]), h["returned"]])
        keys.append(k)
        if h["fired"]:
            nontriv.append(k)
    sample = {"steps": [{"op": s["op"], "rules": h.get("rules"), "outcome": "returned" if h.get("returned") else h.get("val") and str(h.get("val"))[:100],
                         "calls": [e[0] + (":" + e[2] if e[2] else "") for e in h.get("events", [])][:12]} for s, h in zip(plan["steps"], hist)]}
    return {"violations": viol, "keys": keys, "faults": faults, "stats": stats, "nontrivial": nontriv, "resolved": resolved, "sample": sample,
            "log": digest([(h.get("events"), h.get("returned"), digest(repr(h.get("data")))) for h in hist])}


def shrink(plan):
    for s in K.drop_each(plan["steps"]):
        if s:
            yield dict(plan, steps=s)
    if plan["prior"] is not None:
        yield dict(plan, prior=None)
    for i, st in enumerate(plan["steps"]):
        for r in K.drop_each(st["rules"]):
            yield dict(plan, steps=plan["steps"][:i] + [dict(st, rules=r)] + plan["steps"][i + 1:])
        if st["op"] == "dump":
            for a in K.shrink_atoms(st["args"]):
                yield dict(plan, steps=plan["steps"][:i] + [dict(st, args=a)] + plan["steps"][i + 1:])
            if st["args"]["comment"] != "c":
                yield dict(plan, steps=plan["steps"][:i] + [dict(st, args=dict(st["args"], comment="c"))] + plan["steps"][i + 1:])
        if st["blk"]:
            yield dict(plan, steps=plan["steps"][:i] + [dict(st, blk=0)] + plan["steps"][i + 1:])
