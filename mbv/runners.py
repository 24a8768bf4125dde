"""How one input becomes one recorded run (or several); items are plain JSON so that a replay file can hold them."""
import os
import re
import shutil
import subprocess

from . import harness
from .harness import TARGETS, normalize


def single(box, rid, case):
    return harness.record(rid, case, box.run_case(case))


def from_start(box, rid, item):
    """item: {case, start}: one run, of the part below a start point"""
    c = item["case"]
    box.install(harness.artifacts(c), c["tgt"])
    return harness.record(rid, c, box.exec(box.args(c) + ["--", item["start"]]))


def started(box, rid, item):
    """item: {case, starts}: the full graph and one run per start point"""
    c = item["case"]
    rec = harness.record(rid, c, box.run_case(c))
    rec["ps"] = []
    for s in item["starts"]:
        rec["ps"].append({"start": s, "o": harness.observe(c, *box.exec(box.args(c) + ["--", s]))})
    return rec


def telling(box, rid, item):
    """item: {case, starts}: like `started`, with what was said on the way"""
    c = item["case"]
    run = box.run_case(c)
    rec = dict(harness.record(rid, c, run), told=harness.told(run[2]), ps=[])
    for s in item["starts"]:
        run = box.exec(box.args(c) + ["--", s])
        rec["ps"].append({"start": s, "o": harness.observe(c, *run), "told": harness.told(run[2])})
    return rec


def variants(box, rid, item):
    """item: {case, others}: the same program again, in other orders"""
    c = item["case"]
    rec = harness.record(rid, c, box.run_case(c))
    rec["ps"] = [{"o": harness.observe(x, *box.run_case(x))} for x in item["others"]]
    return rec


TOPLINE = re.compile(r"^(\d+) (.*)$")


def parse_top(rc, out, err, scale):
    t = {"rc": rc if rc is not None else -99, "ok": False, "first": 0, "lines": [], "note": err.strip()[-300:]}
    if rc != 0:
        return t

    def sc(n):
        return int(n) // scale if int(n) % scale == 0 else -2

    ls = out.split("\n")
    if ls[-1] != "":
        t["note"] = "no final newline"
        return t
    ls.pop()
    if ls and (m := re.match(r"^(\d+) MAX$", ls[0])):
        t["first"] = sc(m.group(1))
        ls = ls[1:]
    if not ls or ls[0] != "Usage Function":
        t["note"] = "header: %r" % out[:60]
        return t
    for l in ls[1:]:
        m = TOPLINE.match(l)
        if not m:
            t["note"] = "line %r" % l
            return t
        t["lines"].append({"n": sc(m.group(1)), "name": m.group(2)})
    t["ok"] = True
    return t


def tops(box, rid, item):
    """item: {case, starts}: both formats, without and with start points"""
    c = item["case"]
    box.install(harness.artifacts(c), c["tgt"])
    rec = {"id": rid, "o": {"rc": 0}, "ps": []}
    for s in [None] + item["starts"]:
        extra = [] if s is None else ["--", s]
        o = harness.observe(c, *box.exec(box.args(c) + extra), raw=True)
        top = parse_top(*box.exec(box.args(c) + ["--format", "top"] + extra), c.get("scale", 1))
        rec["ps"].append({"start": s or "", "o": o, "t": top})
    return rec


def dottext(box, rid, item):
    """item: {case, start}: the text itself, besides what was read from it"""
    c = item["case"]
    box.install(harness.artifacts(c), c["tgt"])
    run = box.exec(box.args(c) + (["--", item["start"]] if item["start"] else []))
    text = run[1].split("\n")
    if text and text[-1] == "":
        text.pop()
    return dict(harness.record(rid, c, run), text=text, part=bool(item["start"]))


# ----------------------------------------------------------------------------------------- the wrapper
def lines(b):
    """bytes -> lines as latin-1; a last line without end is marked"""
    s = b.decode("latin-1")
    ls = s.split("\n")
    if ls[-1] == "":
        ls.pop()
    else:
        ls[-1] += "<no newline>"
    return ls


MARK = "@CARGO_CALL_STACK:"


def wrapped(box, rid, item):
    """item: {argv, plan, in, err, out, env}: the tool as compiler wrapper; texts are latin-1"""
    st = getattr(box, "rustc_standin", None)
    if st is None:
        st = box.rustc_standin = harness.Stand(os.path.join(box.root, "rustc-standin"), "rustc")
    plan = item["plan"]
    perr, pout = item["err"].encode("latin-1"), item["out"].encode("latin-1")
    pin = item["in"].encode("latin-1")
    st.plan("%s %d" % (plan["k"] if plan["k"] != "absent" else "exit", plan["n"]), pout, perr, stdin=True)
    exe = st.exe if plan["k"] != "absent" else os.path.join(st.dir, "no-such-compiler")
    env = {"PATH": "/usr/bin:/bin", "FAKE_DIR": st.dir, "CARGO_CALL_STACK_RUSTC_WRAPPER": "1"}
    env.update(item["env"])
    benv = {k.encode("latin-1"): v.encode("latin-1") for k, v in env.items()}
    try:
        p = subprocess.run([box.binary.encode(), exe.encode()] + [a.encode("latin-1") for a in item["argv"]], cwd=st.dir, env=benv,
                           input=pin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        rc, out, err = p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        rc, out, err = -99, b"", b""
    recs = st.recs()
    ls = lines(err)
    want = sorted("%s=%s" % kv for kv in env.items())
    return {"id": rid, "argv": item["argv"], "plan": plan, "seen": [x["argv"][1:] for x in recs],
            "env": [sorted(x["env"]) == want and os.path.realpath(x["cwd"]) == os.path.realpath(st.dir) for x in recs],
            "stdin": [x["stdin"] == pin for x in recs], "said": [l for l in ls if l.startswith(MARK)], "err": [l for l in ls if not l.startswith(MARK)],
            "perr": lines(perr), "out": lines(out), "pout": lines(pout), "rc": rc, "o": {"rc": rc}}


def find(name):
    from . import driver
    return globals().get(name) or getattr(driver, name)
