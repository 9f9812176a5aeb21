"""Builds the system-call shim from source, when it is missing or older than its source."""
import fcntl
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
BUILD = os.path.join(ROOT, "build")
SHIM = os.path.join(BUILD, "simos.so")


def ensure():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(HERE, "simos.c")
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(SHIM) or os.path.getmtime(SHIM) < os.path.getmtime(src):
            tmp = SHIM + ".tmp"
            subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-w", "-o", tmp, src, "-ldl"], check=True)
            os.replace(tmp, SHIM)
    return SHIM


if __name__ == "__main__":
    print(ensure())
    sys.exit(0)
