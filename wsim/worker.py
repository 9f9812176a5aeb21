"""A zygote: imports the library once, then executes every run in a freshly forked child.

Reads JSON commands from stdin, writes JSON results to stdout (the real one, kept away from the code under test).
"""
import importlib
import json
import os
import pickle
import random
import select
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def rng_for(seed, prop, index, salt=""):
    return random.Random(f"{seed}/{prop}/{index}/{salt}")


class Ctx:
    """What a property module may use while executing or judging a run."""

    def __init__(self, simos, scratch):
        self.simos = simos
        self.scratch = scratch

    def fork(self, fn, *args, timeout=60.0):
        """fn(*args) in a forked child.  ("ok", value) | ("exit", status) | ("timeout", None) | ("error", traceback)."""
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                os.setpgid(0, 0)
                try:
                    data = pickle.dumps(("ok", fn(*args)))
                except BaseException:  # noqa: BLE001
                    data = pickle.dumps(("error", traceback.format_exc()))
                view = memoryview(data)
                while view:
                    n = os.write(w, view)
                    view = view[n:]
                os.close(w)
            except BaseException:  # noqa: BLE001
                code = 3
            os._exit(code)
        os.close(w)
        chunks = []
        end = time.monotonic() + timeout
        timed_out = False
        while True:
            left = end - time.monotonic()
            if left <= 0:
                timed_out = True
                break
            rl, _, _ = select.select([r], [], [], left)
            if not rl:
                timed_out = True
                break
            b = os.read(r, 1 << 20)
            if not b:
                break
            chunks.append(b)
        os.close(r)
        if timed_out:
            for target in (-pid, pid):
                try:
                    os.kill(target, signal.SIGKILL)
                except (ProcessLookupError, PermissionError):
                    pass
            os.waitpid(pid, 0)
            return ("timeout", None)
        _, st = os.waitpid(pid, 0)
        if chunks:
            try:
                return pickle.loads(b"".join(chunks))
            except Exception:  # noqa: BLE001
                pass
        return ("exit", os.waitstatus_to_exitcode(st))


def run_plan(mod, plan, ctx):
    """One simulated run: execute in a child, judge here."""
    from wsim import trace

    out = {"violations": [], "stats": {}, "faults": {}, "keys": [], "error": None}
    shutil_rm(ctx.scratch)
    os.makedirs(ctx.scratch, exist_ok=True)
    ctx.simos.reset()
    trace.stuck_file = ctx.scratch + ".stuck"
    kind, val = ctx.fork(mod.execute, plan, ctx, timeout=getattr(mod, "TIMEOUT", 60.0))
    if os.path.exists(trace.stuck_file):
        with open(trace.stuck_file) as f:
            where = f.read()
        os.unlink(trace.stuck_file)
        out["violations"].append({"class": "stuck", "msg": "a call never ends, it waits for a lock that the same thread left locked: " + where})
        return out
    if kind == "ok":
        hist = val
    elif kind == "error":
        out["error"] = "execute: " + str(val)
        return out
    else:
        out["error"] = f"execute ended with {kind} {val}"
        return out
    try:
        verdict = mod.judge(plan, hist, ctx)
    except Exception:  # noqa: BLE001
        out["error"] = "judge: " + traceback.format_exc()
        return out
    finally:
        ctx.simos.reset()
    out.update(verdict)
    shutil_rm(ctx.scratch)
    return out


def shutil_rm(path):
    """Removes one scratch directory made by this process."""
    import shutil

    if path and path.startswith(SCRATCH_BASE) and os.path.isdir(path):
        os.chmod(path, 0o700)
        for d, dirs, files in os.walk(path):
            for x in dirs:
                p = os.path.join(d, x)
                if not os.path.islink(p):
                    os.chmod(p, 0o700)
        shutil.rmtree(path, ignore_errors=True)


SCRATCH_BASE = "/tmp/wsim."


def main():
    proto_in = os.fdopen(os.dup(0), "r")
    proto_out = os.fdopen(os.dup(1), "w")
    null = os.open("/dev/null", os.O_RDWR)
    os.dup2(null, 0)
    os.dup2(null, 1)
    prop = sys.argv[1]
    scratch = sys.argv[2]

    from wsim import simos as S, trace

    trace.patch_locks()
    so = S.SimOS()
    mod = importlib.import_module("wsim.props." + prop.lower())
    if hasattr(mod, "prepare"):
        mod.prepare()
    if getattr(mod, "NEEDS_LIBRARY", True):
        import wulfric

        trace.set_root(os.path.dirname(wulfric.__file__))
        if not os.path.realpath(wulfric.__file__).startswith("/repo/"):
            raise SystemExit("wulfric is not imported from /repo")
    if hasattr(mod, "warm"):
        mod.warm()
    import gc

    gc.collect()
    gc.freeze()
    ctx = Ctx(so, scratch)
    print(json.dumps({"ready": True}), file=proto_out, flush=True)
    for line in proto_in:
        cmd = json.loads(line)
        if cmd["cmd"] == "quit":
            break
        t = time.monotonic()
        plan = cmd.get("plan")
        if plan is None:
            plan = mod.gen(rng_for(cmd["seed"], prop, cmd["index"]), cmd["tier"], cmd["index"])
            plan = json.loads(json.dumps(plan))
        res = run_plan(mod, plan, ctx)
        res["index"] = cmd.get("index")
        if res["violations"] or res["error"] or cmd.get("want_plan"):
            res["plan"] = res.pop("resolved", None) or plan
        else:
            res.pop("resolved", None)
        res["wall"] = time.monotonic() - t
        print(json.dumps(res, default=repr), file=proto_out, flush=True)
    shutil_rm(scratch)


if __name__ == "__main__":
    main()
