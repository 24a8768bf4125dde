#!/usr/bin/env python3
"""Builds the tool and the stand-in programs, and has every specification module parsed; offline."""
import glob, os, shutil, subprocess, sys
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from mbv import harness, tlc
os.unlink(b := harness.build())
os.rmdir(os.path.dirname(b))
harness.standin()
for m in sorted(glob.glob(os.path.join(here, "spec", "*.tla"))):
    p = subprocess.run(["java", "-Djava.io.tmpdir=" + os.path.join(here, ".build"), "-cp", tlc.JARS, "tla2sany.SANY", os.path.basename(m)], cwd=tlc.SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
    if p.returncode != 0:
        sys.exit("%s does not parse\n%s" % (m, p.stdout[-2000:]))
for d in glob.glob(os.path.join(here, ".build", "tlc-*")):
    shutil.rmtree(d)
print("ready")
