#!/opt/venv/bin/python
"""check.py <property id> [--tier quick|thorough] | --replay <file> | --setup

Runs the check of one property in a child process and turns its ending into the
exit status of the interface (0 held, 1 violated, 2 no verdict)."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable


def main():
    env = dict(os.environ)
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONHASHSEED"] = "0"
    env["PYTHONPATH"] = HERE
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
        env[k] = "1"
    p = subprocess.run([PY, "-m", "harness.run", *sys.argv[1:]], cwd=HERE, env=env)
    rc = p.returncode
    if rc < 0 and len(sys.argv) > 1 and not sys.argv[1].startswith("-"):
        d = os.path.join(HERE, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        fn = os.path.join(d, f"{sys.argv[1]}-crash.txt")
        with open(fn, "w") as f:
            f.write(f"the interpreter running the library was killed by signal {-rc}\n")
        print(f"VIOLATION property={sys.argv[1]} replay={fn}")
        sys.exit(1)
    sys.exit(rc if rc in (0, 1) else 2)


main()
