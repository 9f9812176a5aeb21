"""Files opened by the library are closed when the call ends, however it ends."""
import io
import os
import resource
import signal

from . import common as K
from .. import crystals as C
from .. import poscar_ref as R
from ..canon import digest

TIMEOUT = 90
HPKOT = ["cP1", "cF1", "cI1", "tP1", "tI1", "tI2", "oP1", "oF1", "oI1", "oC1", "oA1", "hP1", "hR1", "hR2", "mP1", "mC1", "mC2", "mC3", "aP2", "aP3", "cP", "xx"]


def warm():
    K.make_figure({"plots": ["points"]}).fig.to_html(include_plotlyjs=False)


def one_op(rng):
    kind = rng.choice(["load"] * 4 + ["dump"] * 3 + ["example"] * 2 + ["save"] * (rng.random() < 0.3) + ["sload", "sdump"])
    op = {"kind": kind, "rules": []}
    if kind in ("load", "sload"):
        s = C.make(rng, max_atoms=6, extras=False)
        t = R.print_poscar(rng, s["cell"], [C.species_of(x) for x in s["atoms"]["names"]], s["atoms"]["positions"], comment="c")
        bad = rng.choice(["good", "good", "cut", "word", "empty", "bytes", "missing", "dir", "inner", "noperm", "names"])
        op.update(text=t, bad=bad, cut=rng.random(), form=rng.choice(["path", "default", "dir"]))
    elif kind in ("dump", "sdump"):
        op.update(args=K.dump_args(rng, big=rng.random() < 0.4), bad=rng.choice(["good", "good", "mode", "row", "surrogate", "nodir", "isdir", "decimals"]))
    elif kind == "example":
        op.update(sym=rng.choice(HPKOT), inv=rng.random() < 0.5)
    else:
        op.update(fig={"plots": ["points"], "js": False}, bad=rng.choice(["good", "nodir", "isdir"]))
    r = rng.random()
    if r < 0.55:
        act = rng.choice(["errno", "errno", "signal", "signal", "short", "eintr"])
        ops = rng.choice([["open"], ["read", "write"], ["read", "write"], ["close"], ["open", "read", "write", "close"], ["fsync", "rename", "trunc"]])
        if act == "errno":
            op["rules"] = [{"ops": ops, "u": rng.random(), "times": rng.choice([1, 1000]), "action": "errno", "arg": rng.choice(["EIO", "ENOSPC", "EACCES", "ENOMEM"])}]
        elif act == "signal":
            op["rules"] = [{"ops": [o for o in ops if o != "close"] or ["read", "write"], "u": rng.random(), "times": 1, "action": "signal"}]
        elif act == "eintr":
            op["rules"] = [{"ops": ["read", "write"], "nth": 0, "times": 2, "action": "eintr"}]
        else:
            op["rules"] = [{"ops": ["read", "write"], "nth": 0, "times": 50, "action": "short", "arg": 11}]
    return op


def gen(rng, tier, index):
    return {"ops": [one_op(rng) for _ in range(rng.choice([1, 2, 4, 6]))], "spare": rng.choice([2, 2, 3, 6]), "loops": rng.choice([1, 3, 12]),
            "hold": rng.random() < 0.7}


def prepare_op(op, d):
    """(callable, stream handed in or None)."""
    import wulfric

    k = op["kind"]
    if k == "example":
        return (lambda: wulfric.crystal.hpkot_get_example(op["sym"], with_inversion=op["inv"])), None
    if k == "save":
        out = {"good": os.path.join(d, "fig.html"), "nodir": os.path.join(d, "none", "fig.html"), "isdir": d}[op["bad"]]
        return (lambda: K.do_save(op["fig"], out)), None
    if k in ("load", "sload"):
        t = op["text"]
        data = t.encode()
        bad = op["bad"]
        if bad == "cut":
            data = data[: int(op["cut"] * len(data))]
        elif bad == "word":
            ls = t.split("\n")
            ls[3] = "a b c"
            data = "\n".join(ls).encode()
        elif bad == "names":
            ls = t.split("\n")
            ls[5] = ls[5] + " Zr"
            data = "\n".join(ls).encode()
        elif bad == "empty":
            data = b""
        elif bad == "bytes":
            data = b"\xff\xfe\n" + data
        name = "POSCAR" if op["form"] != "path" else "in"
        p = os.path.join(d, name)
        if k == "sload":
            if bad == "bytes":
                raw = open(p, "wb")
                raw.write(data)
                raw.close()
                stream = open(p, encoding="utf-8")
            else:
                stream = io.StringIO(data.decode("utf-8", "replace"), newline=None)
            return (lambda: wulfric.io.load_poscar(stream)), stream
        with open(p, "wb") as f:
            f.write(data)
        if bad == "missing":
            os.unlink(p)
        elif bad == "dir":
            os.unlink(p)
            os.mkdir(p)
        elif bad == "inner":
            os.unlink(p)
            os.mkdir(p)
            with open(os.path.join(p, "POSCAR"), "wb") as f:
                f.write(data)
        if op["form"] == "default":
            return (lambda: wulfric.io.load_poscar()), None
        if op["form"] == "dir":
            return (lambda: wulfric.io.load_poscar(d)), None
        return (lambda: wulfric.io.load_poscar(p)), None
    a = dict(op["args"])
    bad = op["bad"]
    out = os.path.join(d, "out")
    if bad == "mode":
        a["mode"] = "direct"
    elif bad == "row":
        a["pform"] = "list"
        a["atoms"] = dict(a["atoms"], positions=list(a["atoms"]["positions"]))
        a["atoms"]["positions"][-1] = [0.5]
    elif bad == "surrogate":
        a["comment"] = "\ud800"
    elif bad == "decimals":
        a["decimals"] = -3
    elif bad == "nodir":
        out = os.path.join(d, "none", "out")
    elif bad == "isdir":
        out = d
    if k == "sdump":
        stream = open(os.path.join(d, "st"), "w", encoding="utf-8")
        return (lambda: K.do_dump(a, stream)), stream
    return (lambda: K.do_dump(a, out)), None


def clean(d):
    import shutil

    for n in os.listdir(d):
        p = os.path.join(d, n)
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p)
        else:
            os.unlink(p)


def run_op(op, d, ctx, rules, held):
    import wulfric

    f, stream = prepare_op(op, d)
    before = K.open_fds()
    K.arm(ctx, [d, os.path.dirname(wulfric.__file__)], rules)
    try:
        r = ["ok"]
        try:
            held.append(f())
        except BaseException as e:  # noqa: BLE001
            held.append(e)
            r = ["exc", type(e).__name__, str(e).replace(ctx.scratch, "$")[:120], getattr(e, "errno", None)]
    finally:
        ev = ctx.simos.events()
        fired = ctx.simos.fired()
        K.disarm(ctx)
    after = K.open_fds()
    rec = {"r": r, "fired": fired, "leak": [x for x in after if x not in before], "gone": [x for x in before if x not in after],
           "events": [(e["op"], e["action"], e["err"]) for e in ev][:60]}
    if stream is not None:
        try:
            rec["stream"] = "closed" if stream.closed else "open"
            if not stream.closed:
                stream.seek(0) if op["kind"] == "sload" else stream.write("x")
        except (ValueError, OSError) as e:
            rec["stream"] = f"unusable: {e!r}" if not fired else "open"
        try:
            stream.close()
        except OSError:
            pass
    return rec, ev


def execute(plan, ctx):
    import gc

    d = os.path.join(ctx.scratch, "d")
    os.makedirs(d)
    os.chdir(d)
    signal.signal(signal.SIGINT, signal.default_int_handler)
    hist = []
    held = []
    rules_all = []
    for op in plan["ops"]:
        rules = op["rules"]
        if any("u" in r for r in rules):
            kind, val = ctx.fork(lambda: run_op(dict(op, rules=[]), d, ctx, [], [])[1])
            clean(d)
            rules = [K.place(r, val if kind == "ok" else []) for r in rules]
        rules_all.append(rules)
    gc.disable()
    soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)
    base = max(fd for fd, _ in K.open_fds())
    for loop in range(plan["loops"]):
        for i, op in enumerate(plan["ops"]):
            if not plan["hold"]:
                held.clear()
            # a few descriptors are left, more than one call needs
            resource.setrlimit(resource.RLIMIT_NOFILE, (base + 1 + plan["spare"] + (4 if op["kind"] in ("sload", "sdump") else 2), hard))
            rec, _ = run_op(op, d, ctx, rules_all[i], held)
            resource.setrlimit(resource.RLIMIT_NOFILE, (soft, hard))
            clean(d)
            hist.append((loop, i, rec))
            if rec["leak"]:
                break
        else:
            continue
        break
    return {"hist": hist, "rules": rules_all}


def judge(plan, hist, ctx):
    viol, keys, nontriv, faults, stats = [], [], [], {}, {}
    for loop, i, rec in hist["hist"]:
        op = plan["ops"][i]
        for k, v in rec["fired"].items():
            faults[k] = faults.get(k, 0) + v
        what = f"call {loop}.{i}: {op['kind']} ({op.get('bad', op.get('sym'))}, {op.get('form', '')}) with {hist['rules'][i]} ended with {rec['r']}"
        if rec["leak"]:
            viol.append({"class": "leak", "msg": f"{what}; still open: {[x[1].replace(ctx.scratch, '') for x in rec['leak']]}"})
        if rec["gone"]:
            viol.append({"class": "closed-foreign", "msg": f"{what}; closed descriptors of the caller: {rec['gone']}"})
        if rec.get("stream", "open") != "open":
            viol.append({"class": "stream", "msg": f"{what}; the stream of the caller is {rec['stream']}"})
        if rec["r"][0] == "exc" and rec["r"][3] == 24:
            viol.append({"class": "emfile", "msg": f"{what}; descriptors ran out"})
        stats[op["kind"] + "-" + rec["r"][0]] = stats.get(op["kind"] + "-" + rec["r"][0], 0) + 1
        k = digest([op["kind"], op.get("bad"), op.get("sym"), rec["r"][:2], rec["events"]])
        keys.append(k)
        if rec["r"][0] == "exc" or rec["fired"]:
            nontriv.append(k)
    return {"violations": viol, "keys": keys, "nontrivial": nontriv, "faults": faults, "stats": stats,
            "resolved": dict(plan, ops=[dict(o, rules=r) for o, r in zip(plan["ops"], hist["rules"])]),
            "sample": [{"kind": plan["ops"][i]["kind"], "rules": hist["rules"][i], "outcome": rec["r"][:2], "calls": [e[0] for e in rec["events"]][:10]} for _, i, rec in hist["hist"][:4]],
            "log": digest(hist["hist"])}


def shrink(plan):
    if plan["loops"] > 1:
        yield dict(plan, loops=1)
    for s in K.drop_each(plan["ops"]):
        if s:
            yield dict(plan, ops=s)
    for i, op in enumerate(plan["ops"]):
        if op["rules"]:
            yield dict(plan, ops=plan["ops"][:i] + [dict(op, rules=[])] + plan["ops"][i + 1:])
        if "args" in op:
            for a in K.shrink_atoms(op["args"]):
                yield dict(plan, ops=plan["ops"][:i] + [dict(op, args=a)] + plan["ops"][i + 1:])
