"""Runs the quick checks against the planted bugs, each in a scratch copy of the repository.
  matrix.py [--all] [ID ...]     (default: every bug against its own property's check; --all: against every check)"""
import json
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
SEEDED = os.path.join(VERIF, "seeded")


def main():
    av = sys.argv[1:]
    every = "--all" in av
    ids = [a for a in av if not a.startswith("--")] or sorted(os.listdir(SEEDED))
    work = "/tmp/seedmatrix-%d" % os.getpid()
    subprocess.run(["rm", "-rf", work])
    subprocess.run("git clone -q /repo %s" % work, shell=True, check=True)
    props = ["C%02d" % i for i in range(1, 26)]
    try:
        for i in ids:
            d = os.path.join(SEEDED, i)
            if not os.path.exists(d + "/meta.json"):
                continue
            own = json.load(open(d + "/meta.json"))["property"]
            subprocess.run("git checkout -q -- . && git apply %s/patch.diff" % d, shell=True, cwd=work, check=True)
            for p in (props if every else [own]):
                t = time.time()
                r = subprocess.run(["python3", "check.py", p, "quick"], cwd=VERIF, env=dict(os.environ, CCS_REPO=work, VERIF_SEED="1", VERIF_TIER="quick"),
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                hit = r.returncode == 1 and "VIOLATION property=%s " % p in r.stdout
                print("%-22s %s %s %.0fs %s" % (i, p, "CAUGHT" if hit else "missed rc=%d" % r.returncode, time.time() - t,
                                                "" if hit or r.returncode == 0 else r.stdout[-400:]), flush=True)
    finally:
        shutil.rmtree(work, ignore_errors=True)


main()
