"""Programs around the lines that IrText enumerates (C11) and the types that IrTypes enumerates (C12)."""
from .harness import OTHER, normalize
from .prog import Prog, T, VOID, call, icall

DECOY = {"ins": [T("int", n=16)], "out": [T("int", n=16)]}


def skeleton(r, sig=None):
    p = Prog(r.choice(["x64", "x64", "x64"] + OTHER), r)
    for n in ("before", "after"):
        p.fn(n, rec=r.choice([None, 8]))
    p.fn("decoy", sig=DECOY, rec=0)
    if sig is not None:
        p.fn("callee", sig=sig, rec=16)
    return p


def done(p, may):
    c = p.build()
    c["may"] = may
    return normalize(c)


def stmt_of(line):
    """the abstract statement a call line of IrText stands for"""
    s = {"k": line["k"], "tx": line["text"]}
    if line["k"] == "direct":
        s.update(f="callee", g=line["sig"])
    elif line["k"] == "gone":
        s.update(k="direct", f="@3", g=line["sig"])
    elif line["k"] == "indirect":
        s.update(g=line["sig"])
    else:
        s.update(s="nop")
    return s


def call_case(r, line):
    p = skeleton(r, line["sig"])
    p.fn("main", rec=4, st=[call("before"), stmt_of(line), call("after")])
    return done(p, not line["plain"])


def sequence_case(r, lines):
    """lines accepted one by one, behind each other in one function; those of one signature share the callee"""
    p = skeleton(r, lines[0]["sig"])
    st = []
    for l in lines:
        st.append(stmt_of(l))
        if r.random() < 0.3:
            st.append(call(r.choice(["before", "after"])))
    p.fn("main", rec=4, st=st)
    return done(p, False)


def define_case(r, line):
    p = skeleton(r)
    f = p.fn("main", sig=line["sig"], rec=4, st=[call("before"), call("after"), icall(line["sig"])])
    c = p.build()
    for d in c["defApp"]:
        if d["name"] == "main":
            d["tx"], d["ret"] = line["text"], line["ret"]
    c["may"] = not line["plain"]
    return normalize(c)


def noise_case(r, line):
    p = skeleton(r)
    pl = {"k": "asm", "s": "nop", "tx": line["pl"]} if line["asm"] else {"k": "direct", "f": "before", "g": VOID, "tx": line["pl"]}
    p.fn("main", rec=4, st=[{"k": "other", "tx": line["n1"]}, pl, {"k": "other", "tx": line["n2"]}, call("after")])
    return done(p, True)


def item_case(r, line):
    p = skeleton(r)
    p.fn("main", rec=4, st=[call("after")])
    c = p.build()
    c["items"] = [line["it"], line["i2"]]
    c["may"] = True
    return normalize(c)


def shown(t):
    """adds what the specification shows of a named type (labels are compared without blanks)"""
    if isinstance(t, list):
        return [shown(x) for x in t]
    if isinstance(t, dict):
        t = {k: shown(v) for k, v in t.items()}
        if t.get("k") == "alias":
            t["sn"] = t["s"].replace(" ", "")
    return t


POSITIONS = {"first": lambda t: {"ins": [t], "out": []}, "last": lambda t: {"ins": [T("int", n=8), t], "out": [T("int", n=8)]}, "out": lambda t: {"ins": [], "out": [t]}}


def types_case(r, types, pos):
    """one function per type, and calls of some of the signatures: all pairs of the types meet"""
    p = Prog(r.choice(["x64", "x64", "x64"] + OTHER), r)
    st = []
    for i, t in enumerate(types):
        g = POSITIONS[pos](t)
        k = r.random()
        if k < 0.9:
            p.fn("f%d" % i, sig=g, ir=r.choice(["app", "app", "cb", "decl"]), rec=0)
        if k > 0.3:
            st.append(icall(g))
    p.fn("main", rec=0, st=st)
    c = p.build()
    c["style"] = r.randrange(1 << 30)
    return normalize(c)
