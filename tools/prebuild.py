"""Builds the test binaries of all checks, several at a time."""
import concurrent.futures, os, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from table import TABLE  # noqa: E402


def one(pid):
    r = subprocess.run([os.path.join(VERIF, "check"), pid, "--build"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return pid, r.returncode, r.stdout


pids = sorted(TABLE)
bad = 0
# the first one alone: it compiles the standard library
todo = [["C24"], [p for p in pids if p != "C24"]]
for group in todo:
    with concurrent.futures.ThreadPoolExecutor(6) as ex:
        for pid, rc, out in ex.map(one, group):
            if rc:
                bad += 1
                print(f"setup: {pid} does not build\n{out}")
print(f"setup: {len(pids)} checks built, {bad} failed")
sys.exit(1 if bad else 0)
