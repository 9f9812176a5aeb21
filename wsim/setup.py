"""setup_cmd: builds the shim and checks that the interpreter and /repo can be used."""
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build  # noqa: E402

print(build.ensure())
env = dict(os.environ, PYTHONPATH="/repo/src", PYTHONDONTWRITEBYTECODE="1", LD_PRELOAD=build.SHIM)
sys.exit(subprocess.run([sys.executable, "-W", "ignore::SyntaxWarning", "-c", "import wulfric; print(wulfric.__version__)"], env=env).returncode)
