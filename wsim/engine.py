"""Runs a property: seeded search over runs, minimisation, replay, known findings, evidence."""
import argparse
import hashlib
import importlib
import json
import os
import select
import subprocess
import sys
import tempfile
import time

from . import build

ROOT = build.ROOT
PY = sys.executable


def worker_env(extra=None):
    env = {
        "PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": "/tmp", "LC_ALL": "C.UTF-8", "LANG": "C.UTF-8", "TZ": "UTC",
        "PYTHONPATH": "/repo/src:" + ROOT, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "PYTHONUTF8": "0",
        "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "LD_PRELOAD": build.SHIM,
        "SIMOS_ENTROPY": "1", "COLUMNS": "80", "PYTHONNOUSERSITE": "1",
    }
    env.update(extra or {})
    return env


_setarch = None


def no_aslr():
    global _setarch
    if _setarch is None:
        try:
            ok = subprocess.run(["setarch", "x86_64", "-R", "true"], capture_output=True).returncode == 0
        except OSError:
            ok = False
        _setarch = ["setarch", "x86_64", "-R"] if ok else []
    return _setarch


class Worker:
    def __init__(self, prop, k, extra=None):
        self.scratch = f"/tmp/wsim.{os.getpid()}.{k}"
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen(
            no_aslr() + [PY, "-W", "ignore::SyntaxWarning", "-m", "wsim.worker", prop, self.scratch],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=worker_env(extra), cwd="/", bufsize=0,
        )
        self.buf = b""
        self.ready = False
        self.busy = None
        self.since = None

    def send(self, cmd):
        self.busy = cmd
        self.since = time.monotonic()
        self.p.stdin.write((json.dumps(cmd) + "\n").encode())

    def drain_err(self):
        try:
            n = self.err.seek(0, 2)
            self.err.seek(max(0, n - 8000))
            return self.err.read().decode(errors="replace")
        except ValueError:
            return ""

    def lines(self):
        b = os.read(self.p.stdout.fileno(), 1 << 20)
        if not b:
            return None
        self.buf += b
        out = []
        while b"\n" in self.buf:
            ln, self.buf = self.buf.split(b"\n", 1)
            out.append(json.loads(ln))
        return out

    def close(self):
        try:
            self.p.stdin.write(b'{"cmd":"quit"}\n')
            self.p.stdin.close()
        except (BrokenPipeError, OSError):
            pass
        try:
            self.p.wait(5)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
        self.err.close()
        if os.path.isdir(self.scratch):
            subprocess.run(["rm", "-rf", "--", os.path.abspath(self.scratch)])


def one(prop, plan, k="r", want_plan=True, extra=None):
    """A single plan in a fresh worker process."""
    w = Worker(prop, k, extra)
    try:
        sent = False
        end = time.monotonic() + 240
        while time.monotonic() < end:
            rl, _, _ = select.select([w.p.stdout], [], [], 1.0)
            if not rl:
                continue
            ls = w.lines()
            if ls is None:
                return {"error": "worker died: " + w.drain_err()[-2000:], "violations": []}
            for m in ls:
                if m.get("ready") and not sent:
                    w.send({"cmd": "run", "plan": plan, "want_plan": want_plan})
                    sent = True
                elif not m.get("ready"):
                    return m
        return {"error": "timeout", "violations": []}
    finally:
        w.close()


class Pool:
    """A few workers used to try candidate plans while minimising."""

    def __init__(self, prop, n):
        self.prop = prop
        self.ws = [Worker(prop, f"m{i}") for i in range(n)]
        for w in self.ws:
            while not w.ready:
                ls = w.lines()
                if ls is None:
                    raise RuntimeError("worker died: " + w.drain_err()[-2000:])
                for m in ls:
                    if m.get("ready"):
                        w.ready = True

    def map(self, plans):
        res = [None] * len(plans)
        todo = list(range(len(plans)))
        free = list(self.ws)
        run = {}
        while todo or run:
            while todo and free:
                w = free.pop()
                i = todo.pop(0)
                w.send({"cmd": "run", "plan": plans[i], "want_plan": True})
                run[w.p.stdout.fileno()] = (w, i)
            rl, _, _ = select.select(list(run), [], [], 120)
            if not rl:
                raise RuntimeError("minimiser worker stalled")
            for fd in rl:
                w, i = run[fd]
                ls = w.lines()
                if ls is None:
                    res[i] = {"violations": [], "error": "worker died"}
                    del run[fd]
                    continue
                for m in ls:
                    res[i] = m
                    del run[fd]
                    free.append(w)
        return res

    def close(self):
        for w in self.ws:
            w.close()


def minimise(prop, mod, plan, vclass, budget=60.0):
    """Greedy: take the first smaller plan that shows the same violation class, until none does."""
    end = time.monotonic() + budget
    tried = 0
    try:
        pool = Pool(prop, 6)
    except RuntimeError:
        return plan, 0
    try:
        best = plan
        seen = set()
        while time.monotonic() < end:
            progress = False
            batch = []
            for cand in mod.shrink(best):
                h = hashlib.sha256(json.dumps(cand, sort_keys=True).encode()).hexdigest()
                if h in seen:
                    continue
                seen.add(h)
                batch.append(cand)
                if len(batch) == 6:
                    r = pool.map(batch)
                    tried += len(batch)
                    hit = [i for i, m in enumerate(r) if any(v["class"] == vclass for v in m.get("violations", []))]
                    if hit:
                        best = r[hit[0]].get("plan") or batch[hit[0]]
                        progress = True
                        batch = []
                        break
                    batch = []
                if time.monotonic() > end:
                    break
            if batch and not progress:
                r = pool.map(batch)
                tried += len(batch)
                hit = [i for i, m in enumerate(r) if any(v["class"] == vclass for v in m.get("violations", []))]
                if hit:
                    best = r[hit[0]].get("plan") or batch[hit[0]]
                    progress = True
            if not progress:
                break
        return best, tried
    except RuntimeError:
        return best, tried
    finally:
        pool.close()


def load_known():
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


def drop_none(d):
    return {k: v for k, v in d.items() if v is not None}


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--index", type=int, help="run one index and print its result")
    ap.add_argument("--no-min", action="store_true")
    ap.add_argument("--keep-going", action="store_true")
    a = ap.parse_args(argv)
    prop = a.prop
    seed = int(os.environ.get("VERIF_SEED", "1"))
    build.ensure()
    sys.path.insert(0, "/repo/src")
    meta = json.load(open(os.path.join(ROOT, "wsim", "props", "meta.json")))[prop]
    print(f"property={prop} tier={a.tier} seed={seed}", flush=True)

    if a.replay:
        rep = json.load(open(a.replay))
        r = one(prop, rep["plan"], extra=rep.get("env"))
        if r.get("error"):
            print("ERROR", r["error"])
            return 2
        for v in r["violations"]:
            print(json.dumps(v, indent=1))
        if rep.get("log"):
            print("history of the run:", "the same as when it was found" if r.get("log") == rep["log"] else "differs from when it was found")
        if r["violations"]:
            print(f"VIOLATION property={prop} replay={a.replay}")
            return 1
        print("replay shows no violation")
        return 0

    tier = meta["tiers"][a.tier]
    n = a.runs or tier["runs"]
    wall_cap = tier.get("wall", 240)
    nw = a.workers or min(8, os.cpu_count() or 8)
    t0 = time.monotonic()

    stats, faults, keys, samples, errors, viols = {}, {}, set(), [], [], []
    known_hits = {}
    known = [k for k in load_known() if k["property"] == prop and k.get("status", "open") == "open"]
    sim_ns = 0
    done = 0
    recheck = {}
    diverged = []
    wall_sum = 0.0
    nontrivial = set()

    ws = [Worker(prop, i) for i in range(nw)]
    by = {w.p.stdout.fileno(): w for w in ws}
    order = [a.index] if a.index is not None else list(range(n))
    # a sample of the runs is executed a second time by another worker: determinism check
    again = [] if a.index is not None else [i for i in order if i % 37 == 5][:60]
    queue = [(i, False) for i in order] + [(i, True) for i in again]
    pos = 0
    stop = False
    hard = None

    def feed(w):
        nonlocal pos
        if stop or pos >= len(queue) or time.monotonic() - t0 > wall_cap:
            w.busy = None
            return
        i, second = queue[pos]
        pos += 1
        w.send({"cmd": "run", "seed": seed, "index": i, "tier": a.tier, "second": second, "want_plan": a.index is not None or i < 3})

    try:
        while True:
            active = [w for w in ws if not w.ready or w.busy]
            if not active:
                break
            rl, _, _ = select.select([w.p.stdout for w in active], [], [], 5.0)
            for w in ws:
                if w.busy and time.monotonic() - w.since > 200:
                    hard = f"worker silent for 200 s on {w.busy}"
            if hard:
                break
            for f in rl:
                w = by[f.fileno()]
                ls = w.lines()
                if ls is None:
                    hard = "worker died: " + w.drain_err()[-3000:]
                    break
                for m in ls:
                    if m.get("ready"):
                        w.ready = True
                        feed(w)
                        continue
                    second = w.busy.get("second")
                    if second:
                        if m.get("error"):
                            errors.append((m["index"], m["error"]))
                        elif recheck.get(m["index"]) not in (None, m.get("log")):
                            diverged.append(m["index"]); print("DIVERGED", m["index"], flush=True)
                        feed(w)
                        continue
                    done += 1
                    wall_sum += m.get("wall", 0)
                    if m["index"] in again:
                        recheck[m["index"]] = m.get("log")
                    if m.get("error"):
                        errors.append((m["index"], m["error"]))
                        if len(errors) > 5:
                            stop = True
                    for k, v in m.get("stats", {}).items():
                        stats[k] = stats.get(k, 0) + v
                    for k, v in m.get("faults", {}).items():
                        faults[k] = faults.get(k, 0) + v
                    for k in m.get("keys", []):
                        keys.add(k)
                    for k in m.get("nontrivial", []):
                        nontrivial.add(k)
                    sim_ns += m.get("sim_ns", 0)
                    if m.get("sample") is not None and len(samples) < 3:
                        samples.append(m["sample"])
                    for v in m["violations"]:
                        kf = next((k for k in known if k["id"] == v.get("finding")), None)
                        if kf:
                            known_hits[kf["id"]] = known_hits.get(kf["id"], 0) + 1
                        else:
                            viols.append((m["index"], v, m.get("plan")))
                            if not a.keep_going:
                                stop = True
                    if a.index is not None:
                        print(json.dumps({k: v for k, v in m.items() if k != "keys"}, indent=1)[:20000])
                    feed(w)
    finally:
        for w in ws:
            w.close()

    rc = 0
    replay = None
    if hard:
        print("HARNESS-ERROR", hard)
        rc = 2
    if viols:
        viols.sort(key=lambda x: x[0])
        idx, v, plan = viols[0]
        print(f"run {idx}: {v['class']}: {v['msg']}")
        best, tried = plan, 0
        sys.path.insert(0, ROOT)
        if not a.no_min:
            try:
                mod = importlib.import_module("wsim.props." + prop.lower())
                best, tried = minimise(prop, mod, plan, v["class"])
            except ModuleNotFoundError as e:
                print("minimiser unavailable:", e)
        shown = None
        for cand in (best, plan):
            r = one(prop, cand)
            hit = [x for x in r.get("violations", []) if x["class"] == v["class"]]
            if hit:
                shown = (cand, hit[0], r.get("log"))
                break
        if shown is None:
            print(f"HARNESS-ERROR the violation of run {idx} did not replay in a fresh process: {r.get('error')}")
            rc = 2
        else:
            os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
            replay = os.path.join(ROOT, "replays", f"{prop}-{seed}-{idx}.json")
            json.dump({"property": prop, "seed": seed, "index": idx, "class": v["class"], "message": shown[1]["msg"],
                       "log": shown[2],
                       "plan": shown[0], "minimiser_candidates": tried, "original_plan_bytes": len(json.dumps(plan)),
                       "plan_bytes": len(json.dumps(shown[0]))}, open(replay, "w"), indent=1)
            print(f"minimised: {len(json.dumps(plan))} -> {len(json.dumps(shown[0]))} bytes, {tried} candidates")
            print(f"  {shown[1]['msg']}")
            print(f"VIOLATION property={prop} replay={replay}")
            rc = 1
    elif errors and rc == 0:
        print("HARNESS-ERROR", len(errors), "runs;", errors[0][0], errors[0][1][-3000:])
        rc = 2
    elif done == 0 and rc == 0:
        print("HARNESS-ERROR no run was executed")
        rc = 2
    for k in known:
        if rc == 0:
            if not known_hits.get(k["id"]):
                print(f"note: known finding {k['id']} did not show in this run")
            print(f"KNOWN-FINDING: property={prop} {k['what']}")

    wall = time.monotonic() - t0
    ev = {
        "property": prop, "tier": a.tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": done,
            "distinct_nontrivial": len(nontrivial),
            "rule": meta["rule"],
            "samples": samples or [{"note": "no sample"}],
            "exhaustive": False,
            "simulated_runs": done,
            "runs_per_hour": int(done / wall * 3600) if wall else 0,
            "seeds_per_hour": int(done / wall * 3600) if wall else 0,
            "simulated_seconds": round(sim_ns / 1e9, 3),
            "faults_injected_and_fired": dict(sorted(faults.items())),
            "distinct_states_or_interleavings": len(keys),
            "distinct_measure": meta["measure"],
            "probes": dict(sorted(stats.items())),
            "real_components": meta["real"],
            "stub_components": meta["stub"],
            "determinism_recheck": {"runs_repeated": len(again) if pos >= len(queue) else max(0, pos - len(order)), "diverged": len(diverged)},
            "known_findings_seen": known_hits,
            "planned_runs": n,
        },
        "assumptions": meta["assumptions"],
        "wall_s": round(wall, 2),
        "violations": len(viols),
    }
    if replay:
        ev["coverage"]["replay"] = replay
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w"), indent=1, default=repr)
    print(f"{done} runs in {wall:.1f} s, {len(nontrivial)} distinct non-trivial, {len(keys)} distinct states, faults {sum(faults.values())}, "
          f"diverged {len(diverged)}, violations {len(viols)}, errors {len(errors)}")
    return rc
