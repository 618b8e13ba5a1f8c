"""setup_cmd: sanity check of the tools (nothing has to be built)."""
import subprocess, sys
import z3
s = z3.Solver(); x = z3.Int("x"); s.add(x > x); assert s.check() == z3.unsat
subprocess.run(["/opt/venv/bin/python", "-c", "import sys; assert sys.version_info >= (3, 8)"], check=True)
print("setup ok: z3", z3.get_version_string())
