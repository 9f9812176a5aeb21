"""POSCAR lookup follows the documented order, whatever is on disk."""
import errno
import fcntl
import locale
import os
import signal
import stat
import termios
import time

from . import common as K
from ..canon import digest

TIMEOUT = 60
NAMES = ["POSCAR", "x", "sub", "sub/POSCAR", "sub/x", "x.vasp", "\u00e5", "sub/sub", "sub/sub/POSCAR", "POSCAR/POSCAR", "x/POSCAR", "up/POSCAR", "x ", "$HOME", "~", "*", "%41"]
ARGS = [None, None, "POSCAR", "x", "sub", "sub/", "./sub", "x.vasp", "\u00e5", "sub/sub", "..", ".", "../x", "../sub", "none", "sub/none", "ABS:x", "ABS:sub", "ABS:none", "x/y", "", "x ", " x", "$HOME", "~", "*", "%41", "x*"]
LIKE = ["CONTCAR", "poscar", "Poscar", "POSCAR.vasp", "POSCAR.orig", "POSCAR.bak", "POSCAR~", "POSCAR.txt", "POSCAR.gz", "POSCAR.poscar", "POSCAR1", "POSCAR_1", "POSCAR ", "CHGCAR", "CHG", "XDATCAR", "POSCAR.tmp",
        ".POSCAR", "POSCARS", "structure.vasp", "geometry.in", "none", "none.vasp", "none.poscar", "none.POSCAR", "NONE", "X", "x.POSCAR", "x.poscar", "X.VASP", "POSCAR_none", "none_POSCAR", "POSCAR.none", "POSCAR_x", "x_POSCAR", "POSCAR.x", "x.bak", "x~"]
CWD = [".", ".", "sub", "sub/sub", "up"]


def gen(rng, tier, index):
    steps = []
    ver = [0]

    def fresh():
        ver[0] += 1
        return ver[0]

    def put():
        n = rng.choice(NAMES)
        if rng.random() < 0.3:  # looks like a POSCAR or like a name that is asked for
            n = rng.choice(["", "", "sub/", "sub/", "x/", "up/", "sub/sub/"]) + rng.choice(LIKE)
            if rng.random() < 0.9:
                return {"op": "file", "n": n, "v": fresh(), "keep_mtime": rng.random() < 0.6}
        k = rng.random()
        if k < 0.60:
            return {"op": "file", "n": n, "v": fresh(), "keep_mtime": rng.random() < 0.6}
        if k < 0.66:
            return {"op": "fifo", "n": n, "v": fresh()}
        if k < 0.77:
            return {"op": "dir", "n": n}
        if k < 0.85:
            return {"op": "link", "n": n, "to": rng.choice(["POSCAR", "nowhere", "sub", "../x", "x", "sub/POSCAR", os.path.basename(n)])}
        return {"op": "del", "n": n}

    for _ in range(rng.choice([1, 2, 4, 6])):
        steps.append(put())
    for _ in range(rng.choice([1, 2, 4, 8])):
        for _ in range(rng.choice([0, 0, 1, 2])):
            steps.append(put())
        if rng.random() < 0.35:
            steps.append({"op": "cd", "n": rng.choice(CWD)})
        if rng.random() < 0.25:
            steps.append({"op": "locale", "n": rng.choice(["C", "C.utf8", "POSIX"])})
        st = {"op": "load", "a": rng.choice(ARGS), "rules": []}
        r = rng.random()
        if r < 0.2:
            st["rules"] = [{"ops": ["open"], "nth": rng.choice([0, 0, 0, 1]), "times": 1, "action": "errno", "arg": rng.choice(["EACCES", "EIO", "ELOOP", "EMFILE", "ENOMEM", "EPERM", "ESTALE"])}]
        elif r < 0.27:
            st["rules"] = [{"ops": ["read"], "nth": 0, "times": 1000, "action": "errno", "arg": "EIO"}]
        elif r < 0.33:
            st["rules"] = [{"ops": ["open"], "nth": 0, "times": 2, "action": "eintr"}]
        elif r < 0.5:
            st["race"] = [rng.choice(NAMES), rng.choice(NAMES)]
            st["rules"] = [{"ops": [rng.choice(["open", "open", "read"])], "nth": rng.choice([0, 1]), "times": 1, "action": "rename", "arg": 0}]
        steps.append(st)
    return {"steps": steps, "scale": rng.choice([1, 1, 2000])}


def text_of(v, pad):
    return (f"version {v:04d} \u00e5\u6c34\n1.0\n{v}.5 0 0\n0 {v}.25 0\n0 0 {v}.125\nFe\n1\nDirect\n0.25 0.5 0.125\n" + "# tail\n" * pad).encode("utf-8")


def apply(base, st, pad):
    p = os.path.join(base, st["n"])
    try:
        if st["op"] == "file":
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if os.path.islink(p) and not os.path.exists(p):
                os.unlink(p)
            if is_pipe(p):
                os.unlink(os.path.realpath(p))
            with open(p, "wb") as f:
                f.write(text_of(st["v"], pad))
            if st["keep_mtime"]:
                os.utime(p, ns=(10**18, 10**18))
        elif st["op"] == "fifo":
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if os.path.lexists(p) and not os.path.isdir(p):
                os.unlink(p)
            os.mkfifo(p)
            PIPES[os.stat(p).st_ino] = st["v"]
        elif st["op"] == "dir":
            os.makedirs(p)
        elif st["op"] == "link":
            os.makedirs(os.path.dirname(p), exist_ok=True)
            os.symlink(st["to"], p)
        elif st["op"] == "del":
            if os.path.isdir(p) and not os.path.islink(p):
                os.rmdir(p)
            else:
                os.unlink(p)
        return True
    except OSError:
        return False


PIPES = {}


class Writers:
    """A process at the other end of every named pipe: it sends the whole text and hangs up once that was taken."""

    def __init__(self, base, pad):
        self.kids = []
        paths = {}
        for d, _, names in os.walk(base):
            for n in names:
                p = os.path.join(d, n)
                if stat.S_ISFIFO(os.lstat(p).st_mode):
                    paths[os.lstat(p).st_ino] = p
        for ino, p in paths.items():
            fd = os.open(p, os.O_RDWR)
            os.write(fd, text_of(PIPES[ino], pad))
            pid = os.fork()
            if pid == 0:
                while int.from_bytes(fcntl.ioctl(fd, termios.FIONREAD, b"1234"), "little"):
                    time.sleep(0.0005)
                os._exit(0)
            os.close(fd)
            self.kids.append(pid)

    def end(self):
        for pid in self.kids:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)


def is_pipe(p):
    try:
        return stat.S_ISFIFO(os.stat(p).st_mode)
    except (OSError, ValueError):
        return False


def peek(p):
    """("file", version) | ("dir",) | ("absent",) | ("err", errno): what opening p for reading meets."""
    if is_pipe(p):
        return ("file", PIPES[os.stat(p).st_ino])
    try:
        fd = os.open(p, os.O_RDONLY)
    except OSError as e:
        return ("absent",) if e.errno == errno.ENOENT else ("err", e.errno)
    except ValueError:
        return ("err", -1)
    try:
        if stat.S_ISDIR(os.fstat(fd).st_mode):
            return ("dir",)
        return ("file", int(os.read(fd, 64).decode("utf-8", "replace").split()[1]))
    finally:
        os.close(fd)


def model(a, state):
    """What the documentation promises: ("file", v) | ("absent", names) | ("err", errno)."""
    if a is None:
        s = state["first"]
        if s[0] == "absent":
            return ("absent", state["cwd"])
        return ("err", errno.EISDIR) if s[0] == "dir" else s
    s = state["first"]
    if s[0] in ("absent", "dir"):
        t = state["second"]
        if t[0] == "absent":
            return ("absent", a)
        return ("err", errno.EISDIR) if t[0] == "dir" else t
    return s


def look(a):
    if a is None:
        try:
            cwd = os.getcwd()
        except OSError:  # the working directory was removed
            cwd = ""
        return {"first": peek("POSCAR"), "cwd": cwd}
    return {"first": peek(a), "second": peek(os.path.join(a, "POSCAR"))}


def run(plan, base, ctx):
    import wulfric

    os.chdir(base)
    hist = []
    pad = plan["scale"]
    for st in plan["steps"]:
        if st["op"] == "cd":
            try:
                os.chdir(os.path.join(base, st["n"]))
            except OSError:
                pass
        elif st["op"] == "locale":
            locale.setlocale(locale.LC_ALL, st["n"])
        elif st["op"] == "load":
            a = st["a"]
            if isinstance(a, str) and a.startswith("ABS:"):
                a = os.path.join(base, a[4:])
            s0 = look(a)
            ends = Writers(base, pad)
            K.arm(ctx, [base], st["rules"])
            if "race" in st:
                ctx.simos.rename_pair(0, *[os.path.join(base, x) for x in st["race"]])
            try:
                r = wulfric.io.load_poscar() if a is None else wulfric.io.load_poscar(a)
                out = ["ok", r[2], [list(map(float, x)) for x in r[0]]]
            except BaseException as e:  # noqa: BLE001
                out = ["exc", type(e).__name__, str(e), getattr(e, "errno", None), [k.__name__ for k in type(e).__mro__], getattr(e, "filename", None)]
            ev = [(e["op"], e["action"], e["err"]) for e in ctx.simos.events()]
            fired = ctx.simos.fired()
            K.disarm(ctx)
            ends.end()
            hist.append({"a": a, "s0": s0, "s1": look(a), "out": out, "ev": ev, "fired": fired})
        else:
            apply(base, st, pad)
    return hist


def execute(plan, ctx):
    base = os.path.join(ctx.scratch, "d")
    for n in ("sub/sub", "up"):
        os.makedirs(os.path.join(base, n))
    return run(plan, base, ctx)


def judge(plan, hist, ctx):
    viol, keys, nontriv, faults, stats = [], [], [], {}, {}
    loads = [s for s in plan["steps"] if s["op"] == "load"]
    base = os.path.join(ctx.scratch, "d")
    for i, (st, h) in enumerate(zip(loads, hist)):
        for k, v in h["fired"].items():
            faults[k] = faults.get(k, 0) + v
        out = h["out"]
        a = h["a"]
        sa = a.replace(base, "$") if isinstance(a, str) else a
        what = f"load {i}: load_poscar({'' if a is None else repr(sa)}) with {st['rules']}, on disk {h['s0']}"
        exp = model(a, h["s0"])
        errs = [e for e in h["ev"] if e[1] == "errno"]
        raced = "rename" in h["fired"]
        got = None
        if out[0] == "ok":
            w = out[1].split()
            try:
                got = int(w[1])
            except (IndexError, ValueError):
                viol.append({"class": "wrong-text", "msg": f"{what}: comment {out[1]!r}"})
                continue
            if out[1] != f"version {got:04d} \u00e5\u6c34":
                viol.append({"class": "decoding", "msg": f"{what}: the comment of the file was decoded as {out[1]!r}"})
            if [out[2][k][k] for k in range(3)] != [got + 0.5, got + 0.25, got + 0.125]:
                viol.append({"class": "mixed", "msg": f"{what}: comment of version {got}, cell {out[2]}"})
        if errs:
            # the error of the system reaches the caller as it is
            want = getattr(errno, errs[0][2])
            if out[0] == "ok":
                viol.append({"class": "error-masked", "msg": f"{what}: {errs[0]} happened and version {got} was returned"})
            elif out[3] != want:
                viol.append({"class": "error-changed", "msg": f"{what}: {errs[0]} was raised as {out[1:4]}"})
        elif raced:
            cand = [s[k][1] for s in (h["s0"], h["s1"]) for k in ("first", "second") if k in s and s[k][0] == "file"]
            always = all(s["first"][0] == "file" for s in (h["s0"], h["s1"]))
            if always and out[0] != "ok":
                viol.append({"class": "not-found", "msg": f"{what}: the name was a file all the time (before {h['s0']}, after {h['s1']}), got {out[1:3]}"})
            elif out[0] == "ok" and got not in cand:
                viol.append({"class": "wrong-file", "msg": f"{what}: version {got} returned, never there (before {h['s0']}, after {h['s1']})"})
            elif out[0] == "exc" and "OSError" not in out[4]:
                viol.append({"class": "wrong-error", "msg": f"{what}: {out[1:3]}"})
        elif exp[0] == "file":
            if out[0] != "ok":
                viol.append({"class": "not-found", "msg": f"{what}: the file is there (version {exp[1]}), got {out[1:3]}"})
            elif got != exp[1]:
                viol.append({"class": "wrong-file", "msg": f"{what}: version {exp[1]} expected, version {got} returned"})
        elif exp[0] == "absent":
            place = exp[1].replace(base, "$")
            if out[0] == "ok":
                viol.append({"class": "wrong-file", "msg": f"{what}: nothing is there, version {got} returned"})
            elif "FileNotFoundError" not in out[4]:
                viol.append({"class": "wrong-error", "msg": f"{what}: FileNotFoundError expected, got {out[1:3]}"})
            elif exp[1].rstrip("/") not in out[2] and exp[1].rstrip("/") not in str(out[5] or ""):
                viol.append({"class": "place-not-named", "msg": f"{what}: the message does not name {place!r}: {out[2]!r}"})
        else:
            if out[0] == "ok":
                viol.append({"class": "wrong-file", "msg": f"{what}: error {exp[1]} expected, version {got} returned"})
            elif ("OSError" not in out[4] or out[3] != exp[1]) and exp[1] != -1:
                viol.append({"class": "wrong-error", "msg": f"{what}: {out[1:3]}"})
        stats[exp[0] + "-" + out[0]] = stats.get(exp[0] + "-" + out[0], 0) + 1
        k = digest([sa, {q: (v if q != "cwd" else 0) for q, v in ((q, (v[0] if isinstance(v, tuple) else 0)) for q, v in h["s0"].items())}, h["ev"], out[0]])
        keys.append(k)
        if len(hist) > 1 or h["fired"]:
            nontriv.append(k)
    return {"violations": viol, "keys": keys, "nontrivial": nontriv, "faults": faults, "stats": stats,
            "sample": [{"arg": s["a"], "on_disk": {k: v for k, v in h["s0"].items() if k != "cwd"}, "rules": s["rules"], "outcome": h["out"][:2]} for s, h in zip(loads, hist)][:4],
            "log": digest([(h["out"][0], h["out"][1], h["ev"]) for h in hist])}


def shrink(plan):
    for s in K.drop_each(plan["steps"]):
        if any(x["op"] == "load" for x in s):
            yield dict(plan, steps=s)
    if plan["scale"] > 1:
        yield dict(plan, scale=1)
    for i, st in enumerate(plan["steps"]):
        if st["op"] == "load" and st["rules"]:
            yield dict(plan, steps=plan["steps"][:i] + [{"op": "load", "a": st["a"], "rules": []}] + plan["steps"][i + 1:])
