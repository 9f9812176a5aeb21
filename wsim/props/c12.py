"""The same call gives the same result in every process and environment."""
import os
import pickle
import subprocess
import sys

from . import common as P
from .. import calls as K
from ..canon import digest

TIMEOUT = 150
ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
FIRST = ["scipy.spatial", "spglib", "plotly.graph_objects", "numpy.linalg", "wulfric.io", "wulfric.kpoints", "wulfric.constants", "wulfric.geometry", "locale",
         "wulfric.crystal", "wulfric._kpoints_class", "decimal", "unittest", "email", "multiprocessing"]
SET = {"COLUMNS": ["40", "200"], "LINES": ["5"], "TERM": ["dumb", "xterm-256color"], "NO_COLOR": ["1"], "FORCE_COLOR": ["1"], "HOME": ["/nowhere"], "USER": ["other"], "CI": ["true"], "DEBUG": ["1"], "TMPDIR": ["/nowhere"], "DISPLAY": [":0"],
       "OMP_NUM_THREADS": ["1", "3"], "OPENBLAS_NUM_THREADS": ["1", "2"], "SOURCE_DATE_EPOCH": ["0"], "PYTEST_CURRENT_TEST": ["x"], "LANGUAGE": ["de"], "EDITOR": ["vi"], "PYTHONDEVMODE": ["1"], "PYTHONBREAKPOINT": ["0"]}
LOCALES = [{"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, {"LC_ALL": "POSIX", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, {"LC_ALL": "C"},
           {"LC_ALL": "C.utf8"}, {"LC_ALL": "nowhere_NO.utf8"}, {"PYTHONUTF8": "1"}, {"PYTHONIOENCODING": "latin-1", "LC_ALL": "C"}]
ZONES = ["UTC", "Asia/Kathmandu", "America/St_Johns", "Pacific/Kiritimati", "XYZ+26:17", ":broken"]
AUTO = {"f": "!auto", "s": 0, "sd": None, "a": {}}


def warm():
    K.warm_plotly()


def gen(rng, tier, index):
    structs = [K.structure(rng, max_atoms=8) for _ in range(rng.choice([3, 5]))]
    calls = [K.pick(rng, structs, slow=0.02, even=rng.random() < 0.5) for _ in range(rng.choice([25, 40]))]
    if rng.random() < 0.3:
        calls.append(dict(AUTO, s=rng.randrange(len(structs))))
    order = list(range(len(calls)))
    rng.shuffle(order)
    env = {"PYTHONHASHSEED": str(rng.randrange(1, 4294967295))}
    if rng.random() < 0.5:
        env.update(rng.choice(LOCALES))
    if rng.random() < 0.5:
        env["TZ"] = rng.choice(ZONES)
    if rng.random() < 0.5:
        env["SIMOS_CLOCK_NS"] = str(rng.choice([0, 1, 951782399, 1709164799, 2147483647, 4102444800, 32503680000]) * 10**9)
        env["SIMOS_CLOCK_STEP"] = str(rng.choice([0, 1, 10**6, 10**9, -(10**9), 86400 * 10**9]))
    if rng.random() < 0.5:
        env["SIMOS_ENTROPY"] = str(rng.randrange(2, 1 << 30))
    if rng.random() < 0.3:
        env["MALLOC_PERTURB_"] = str(rng.choice([1, 85, 170, 255]))
    if rng.random() < 0.2:
        env["PYTHONMALLOC"] = rng.choice(["malloc", "debug", "malloc_debug"])
    if rng.random() < 0.25:
        env["PYTHONOPTIMIZE"] = rng.choice(["1", "2"])
    for k in rng.sample(sorted(SET), rng.choice([0, 0, 2, 5])):
        env[k] = rng.choice(SET[k])
    return {"structs": structs, "calls": calls, "order": order, "env": env, "cwd": rng.choice(["root", "empty", "decoy", "decoy", "gone"]),
            "ballast": rng.choice([0, 0, 500, 20000]), "first": rng.sample(FIRST, rng.choice([0, 0, 1, 3])), "world": rng.choice([None, rng.randrange(1 << 30), rng.randrange(1 << 30)])}


def auto(w, c):
    """A figure whose legend groups are left to the library, with the random names replaced by their order of appearance."""
    import wulfric

    pe = wulfric.PlotlyEngine()
    pe.plot_cell(w.cell(c), legend_label="cell")
    pe.plot_atoms(w.cell(c), w.atoms(c))
    pe.plot_points([[0, 0, 0], [1, 1, 1]])
    fig = pe.fig.to_plotly_json()
    names = {}
    for t in fig["data"]:
        if "legendgroup" in t:
            t["legendgroup"] = names.setdefault(t["legendgroup"], len(names))
    return fig


K.T["!auto"] = (0.0, frozenset({"plotly", "slow"}), K.none, auto)


def batch(structs, calls, order):
    out = [None] * len(calls)
    for i in order:
        c = dict(calls[i])
        w = K.World(structs)
        w.prepare([c])
        with K.Warned() as wd:
            wd.take()
            out[i] = K.record(w, c, wd)
    return out


def execute(plan, ctx):
    ref = ctx.fork(batch, plan["structs"], plan["calls"], range(len(plan["calls"])), timeout=100)
    if ref[0] != "ok":
        return {"skip": ref}
    d = os.path.join(ctx.scratch, "w")
    os.makedirs(d)
    if plan["cwd"] == "decoy":
        for n in ("POSCAR", "wulfric.txt", "POSCAR-files", "cP1", "constants"):
            with open(os.path.join(d, n), "w") as f:
                f.write(K.POSCAR[0])
    req, res = os.path.join(ctx.scratch, "req"), os.path.join(ctx.scratch, "res")
    with open(req, "wb") as f:
        pickle.dump({k: plan[k] for k in ("structs", "calls", "order", "ballast", "first", "world")}, f)
    env = {k: v for k, v in os.environ.items() if k not in ("LC_ALL", "LANG", "PYTHONUTF8") or k in plan["env"]}
    env.setdefault("LC_ALL", "C.UTF-8")
    env.update(plan["env"])
    env["PYTHONPATH"] = "/repo/src:" + ROOT
    cwd = "/" if plan["cwd"] == "root" else d
    cmd = [sys.executable, "-W", "ignore", os.path.join(ROOT, "wsim", "fresh.py"), req, res]
    if plan["cwd"] == "gone":
        cmd = ["/bin/sh", "-c", 'cd "$0" && rmdir "$0" && exec "$@"', d] + cmd
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
    except subprocess.TimeoutExpired:
        return {"skip": ("timeout", None)}
    if not os.path.exists(res):
        return {"ref": ref[1], "dead": [p.returncode, p.stdout.decode(errors="replace")[-1500:]]}
    with open(res, "rb") as f:
        got, asked = pickle.load(f)
    return {"ref": ref[1], "got": got, "asked": asked}


def judge(plan, hist, ctx):
    if "skip" in hist:
        if hist["skip"][0] == "error":
            raise RuntimeError(hist["skip"][1])
        return {"violations": [], "stats": {"skipped": 1}, "log": "skip"}
    env = {k: v for k, v in plan["env"].items()}
    where = f"in a fresh process with {env}, working directory {plan['cwd']}, {plan['ballast']} objects allocated first, imports {plan['first']}" + (f", answers of the machine with seed {plan['world']} to questions for {sorted(hist.get('asked', []))}" if plan["world"] is not None else "")
    if "dead" in hist:
        return {"violations": [{"class": "died", "msg": f"the batch ended with {hist['dead']} {where}"}]}
    viol = []
    for c, a, b in zip(plan["calls"], hist["got"], hist["ref"]):
        d = K.same(a, b)
        if d:
            viol.append({"class": "differs", "msg": f"{K.show(c, plan['structs'])} {where}: {d}"})
    keys = [digest([c, env]) for c in plan["calls"]]
    faults = {("env:" + k): 1 for k in env}
    faults["cwd:" + plan["cwd"]] = 1
    if plan["ballast"]:
        faults["addresses moved"] = 1
    if plan["first"]:
        faults["import order"] = 1
    if plan["world"] is not None:
        faults["object identities"] = 1
    for k, n in hist["asked"].items():
        faults["answer:" + k] = n
    return {"violations": viol, "keys": keys, "nontrivial": keys, "faults": faults,
            "stats": {"calls": len(plan["calls"]), "raised": sum(1 for r in hist["ref"] if r[0] == "exc")},
            "sample": {"env": env, "cwd": plan["cwd"], "calls": [c["f"] for c in plan["calls"][:6]]},
            "log": digest([[x[0], x[1]] for x in hist["got"]])}


def shrink(plan):
    n = len(plan["calls"])
    if n > 1:
        parts = [range(n // 2), range(n // 2, n)] if n > 3 else []
        parts += [[j for j in range(n) if j != i] for i in range(n)] if n <= 8 else [range(i, min(n, i + n // 4)) for i in range(0, n, n // 4)]
        for keep in parts:
            keep = list(keep)
            order = [keep.index(i) for i in plan["order"] if i in keep]
            yield dict(plan, calls=[plan["calls"][i] for i in keep], order=order)
    for k in list(plan["env"]):
        if k != "PYTHONHASHSEED":
            yield dict(plan, env={q: v for q, v in plan["env"].items() if q != k})
    if plan["env"].get("PYTHONHASHSEED") not in (None, "0"):
        yield dict(plan, env=dict(plan["env"], PYTHONHASHSEED="0"))
    if plan["cwd"] != "root":
        yield dict(plan, cwd="root")
    if plan["world"] is not None:
        yield dict(plan, world=None)
    if plan["ballast"]:
        yield dict(plan, ballast=0)
    if plan["first"]:
        yield dict(plan, first=[])
    for i, s in enumerate(plan["structs"]):
        for a in P.shrink_atoms(s):
            yield dict(plan, structs=plan["structs"][:i] + [a] + plan["structs"][i + 1:])
