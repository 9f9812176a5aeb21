"""A fresh interpreter: reads a pickled request from a file, imports the library in the requested way, performs the calls."""
import importlib.util
import os
import pickle
import random
import sys


def ballast(n):
    """Objects of many sizes allocated before anything else: moves everything that follows to other addresses."""
    keep = []
    x = n * 7919 + 1
    for _ in range(n):
        x = (x * 1103515245 + 12345) % (1 << 31)
        keep.append(bytearray(16 + x % 5000) if x & 1 else object())
    del keep[::3]
    return keep


class World:
    """Answers of the environment that nothing in a result may depend on: variables nobody set, names of the machine, identities of objects."""

    VALUES = ["", "0", "1", "7", "150", "true", "no", "/tmp", "dark", "en_US.UTF-8", "C", "DEBUG"]

    def __init__(self, seed):
        self.rng = random.Random(seed)
        self.said = {}
        self.asked = {}

    def by_library(self):
        """Whether the library itself asks (directly or through the standard library)."""
        f = sys._getframe(2)
        while f is not None:
            name = f.f_code.co_filename
            if name.startswith(self.root):
                return True
            if not (name.startswith(self.std) or name.startswith("<frozen") or name == __file__) or "site-packages" in name:
                return False
            f = f.f_back
        return False

    def answer(self, kind, key, values):
        k = (kind, key)
        if k not in self.said:
            self.said[k] = self.rng.choice(values)
        self.asked[kind] = self.asked.get(kind, 0) + 1
        return self.said[k]

    def install(self):
        import getpass
        import platform
        import socket
        import sysconfig

        self.std = sysconfig.get_paths()["stdlib"] + os.sep
        self.root = importlib.util.find_spec("wulfric").submodule_search_locations[0] + os.sep
        world = self
        kind = type(os.environ)

        class Environ(kind):
            def __getitem__(self, key):
                try:
                    return super().__getitem__(key)
                except KeyError:
                    if world.by_library():
                        v = world.answer("variable", key, [None] + world.VALUES)
                        if v is not None:
                            return v
                    raise

            def __contains__(self, key):
                try:
                    self[key]
                except KeyError:
                    return False
                return True

        os.environ.__class__ = Environ

        def replace(module, name, values):
            real = getattr(module, name)

            def fake(*a, **k):
                return world.answer(name, 0, values) if world.by_library() else real(*a, **k)

            setattr(module, name, fake)

        replace(os, "cpu_count", [1, 2, 64, None])
        replace(os, "getpid", [2, 4194303])
        replace(os, "getuid", [0, 1000])
        replace(os, "getloadavg", [(0.0, 0.0, 0.0), (99.0, 99.0, 99.0)])
        replace(os, "isatty", [True, False])
        replace(os, "getlogin", ["root", "a"])
        replace(getpass, "getuser", ["root", "a"])
        replace(socket, "gethostname", ["a", "localhost"])
        replace(platform, "node", ["a", "localhost"])
        replace(platform, "release", ["4.0", "6.1"])

    def identities(self):
        """Other object identities for the modules of the library: still one per object."""
        mask = self.rng.getrandbits(40) << 4
        for name, m in list(sys.modules.items()):
            if name == "wulfric" or name.startswith("wulfric."):
                if "id" not in vars(m):
                    m.id = lambda o: id(o) ^ mask


def main():
    with open(sys.argv[1], "rb") as f:
        req = pickle.load(f)
    keep = ballast(req["ballast"])  # noqa: F841
    world = World(req["world"])
    if req["world"] is not None:
        world.install()

    for m in req["first"]:
        importlib.import_module(m)
    from wsim.props import c12
    import wulfric

    if not os.path.realpath(wulfric.__file__).startswith("/repo/"):
        raise SystemExit("wulfric is not imported from /repo")
    if req["world"] is not None:
        world.identities()
    out = c12.batch(req["structs"], req["calls"], req["order"])
    tmp = sys.argv[2] + ".tmp"
    with open(tmp, "wb") as f:
        pickle.dump((out, world.asked), f)
    os.rename(tmp, sys.argv[2])


if __name__ == "__main__":
    main()
