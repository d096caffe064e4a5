"""setup: check that the tools the framework needs are there (nothing to build)."""
import subprocess, sys, os
import z3
assert os.path.exists("/opt/vp/env.sh")
print("z3", z3.get_version_string())
print(subprocess.run(["cvc5", "--version"], capture_output=True, text=True).stdout.splitlines()[0])
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import pyvc.interp
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "evidence"), exist_ok=True)
