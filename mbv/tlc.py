"""Runs TLC: model checking of a module, and conformance of recorded runs against a trace module."""
import json
import os
import re
import shutil
import subprocess
import tempfile

from .harness import VERIF, ToolError

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(VERIF, "spec")


def scratch(prefix):
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
    return tempfile.mkdtemp(prefix=prefix, dir=base)


def run(module, cfg, env=None, workers=8, timeout=800, extra=(), heap="6g", cwd=None):
    md = scratch("tlc-md-")
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Djava.io.tmpdir=" + md, "-Xmx" + heap, "-cp", JARS, "tlc2.TLC", "-config", cfg,
           "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE", "-lncheck", "final"] + list(extra) + [module]
    try:
        p = subprocess.run(cmd, cwd=cwd or SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on %s" % module)
    finally:
        shutil.rmtree(md, ignore_errors=True)
    return p.returncode, p.stdout.decode("utf-8", "replace")


STATES = re.compile(r"(\d+) states generated(?: \([\d,]+ s/min\))?, (\d+) distinct states found(?: \([\d,]+ ds/min\))?, 0 states left")


def states(out):
    m = STATES.findall(out.replace(",", "") if False else out)
    if not m:
        return None
    return int(m[-1][0]), int(m[-1][1])


def model_check(module, cfg, env=None, **kw):
    """model-check a design-level module; -> (generated, distinct).  An error is a fault of the machinery."""
    rc, out = run(module, cfg, env, **kw)
    if rc != 0:
        raise ToolError("TLC: %s/%s is not satisfied (rc %d)\n%s" % (module, cfg, rc, out[-3000:]))
    st = states(out)
    if st is None:
        raise ToolError("TLC: no state count\n" + out[-2000:])
    return st


def conform(records, module, env=None, cfg=None, workers=8, timeout=800):
    """-> {record id: complaint} for the records the specification refuses; checks that each was judged"""
    if not records:
        return {}, (0, 0)
    d = scratch("tlc-tr-")
    try:
        path = os.path.join(d, "trace.ndjson")
        with open(path, "w") as f:
            for r in records:
                f.write(json.dumps(r) + "\n")
        e = dict(env or {})
        e["TRACE"] = path
        rc, out = run(module, cfg or module.replace(".tla", ".cfg"), e, workers=workers, timeout=timeout)
        if rc != 0:
            raise ToolError("TLC failed on %s (rc %d):\n%s" % (module, rc, out[-4000:]))
        st = states(out)
        if st is None or st[1] != 2 * len(records):
            raise ToolError("TLC judged %s of %d records\n%s" % (st, len(records), out[-2000:]))
        bad = {}
        for m in re.finditer(r'^"REFUSED (\S+) (.*)"$', out, re.M):
            bad[m.group(1)] = m.group(2)
        return bad, st
    finally:
        shutil.rmtree(d, ignore_errors=True)


def emitted(module, cfg, env=None, tag="CASE", **kw):
    """model-check a module that prints its complete behaviours as JSON; -> (list of values, states)"""
    rc, out = run(module, cfg, env, **kw)
    if rc != 0:
        raise ToolError("TLC: %s/%s failed (rc %d)\n%s" % (module, cfg, rc, out[-3000:]))
    st = states(out)
    vals = []
    for line in out.splitlines():
        if line.startswith('"' + tag + " ") and line.endswith('"'):
            s = line[len(tag) + 2:-1]
            vals.append(json.loads(s.encode().decode("unicode_escape") if False else s.replace('\\"', '"').replace("\\\\", "\\")))
    return vals, st
