"""Nothing to build: confirms that the solver, the project's interpreter and /repo are where the checks expect them."""
import os
import subprocess
import sys

sys.dont_write_bytecode = True
import z3

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sym import loader, symrun

os.makedirs("evidence", exist_ok=True)
os.makedirs("replays", exist_ok=True)
r = subprocess.run([symrun.REAL_PY, "-c", "import pandas, numpy, sys; print(sys.version.split()[0], pandas.__version__, numpy.__version__)"],
                   stdout=subprocess.PIPE, text=True)
print("z3", z3.get_version_string(), "| real interpreter", r.stdout.strip(), "| modules", sorted(loader.world().mods))
sys.exit(r.returncode)
