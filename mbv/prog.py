"""Random programs: a small builder that assembles the abstract case read by the specification."""
import random

from . import names, thumbasm
from .harness import THUMB

VOID = {"ins": [], "out": []}


# ------------------------------------------------------------------------------------------- types
def T(k, **f):
    return dict(k=k, **f)


I1, I8, I16, I32, I64, PTR = (T("int", n=1), T("int", n=8), T("int", n=16), T("int", n=32), T("int", n=64), T("ptr"))
FLT, DBL = T("float"), T("double")
ALIASES = ["core::fmt::Formatter", "core::fmt::Arguments<'_>", "app::Foo", "alloc::vec::Vec<u8>", "app::Foo.0", "blue_pill::ItmLogger",
           "core::result::Result<(), app::E>", "S"]


def alias(s):
    return T("alias", s=s, sn=s.replace(" ", ""))


def rtype(r, depth=2, typed=True, opaque=True):
    """a random first-class type; `opaque` pointers never occur nested inside aggregates or under typed pointers
    together with typed ones (LLVM modules never mix them there)"""
    k = r.randrange(14)
    if depth == 0 or k < 7:
        c = [I1, I8, I16, I32, I64, FLT, DBL, T("int", n=r.choice([2, 7, 24, 128]))]
        if opaque:
            c += [PTR, PTR, PTR]
        if typed:
            c += [T("ptrto", t=r.choice([I8, I32, T("st", f=[])]))]
        return r.choice(c)
    sub = lambda: rtype(r, depth - 1, typed, False)
    if k == 7:
        return T("st", f=[sub() for _ in range(r.randrange(4))])
    if k == 8:
        return T("pst", f=[sub() for _ in range(r.randrange(3))])
    if k == 9:
        return T("arr", n=r.choice([0, 1, 2, 3, 16]), t=sub())
    if k == 10:
        return T("vec", n=r.choice([2, 4, 8]), t=r.choice([I8, I32, FLT]))
    if k == 11 and typed:
        return T("ptrto", t=sub())
    if k == 12 and typed:
        return T("ptrto", t=T("fn", g=rsig(r, depth - 1, typed, False)))
    if k == 13:
        a = alias(r.choice(ALIASES))
        return T("ptrto", t=a) if typed else a
    return sub()


def rsig(r, depth=2, typed=True, opaque=True, maxargs=3):
    return {"ins": [rtype(r, depth, typed, opaque) for _ in range(r.randrange(maxargs + 1))],
            "out": [] if r.random() < 0.4 else [rtype(r, depth, typed, opaque)]}


# ------------------------------------------------------------------------------------------- names
WORDS = ["app", "core", "foo", "main", "drop_in_place", "h", "hash", "fmt", "run", "x1", "alloc", "Spi", "write_str", "init"]
TYPES = ["<app::Foo as core::fmt::Debug>", "<T as core::convert::Into<U>>", "core::ptr::drop_in_place<app::Foo>", "<&T as core::fmt::Display>",
         "{{closure}}", "<impl core::iter::Iterator for app::It>", "[T; 3]", "<(A,B) as app::Tr>"]


# functions that somebody might be tempted to treat specially
RUNTIME = ["bcmp", "strlen", "abort", "memchr", "memrchr", "__rust_alloc", "__rust_dealloc", "__rust_realloc", "rust_begin_unwind", "rust_eh_personality", "_Unwind_Resume", "__cxa_atexit",
           "__stack_chk_fail", "__aeabi_uidiv", "__aeabi_uldivmod", "__aeabi_unwind_cpp_pr0", "__udivsi3", "__clzsi2", "fmod", "exit", "main", "_start", "HardFault", "DefaultHandler", "__pre_init",
           ".hidden", ".Lfoo", "..x", "llvm_trap", "dbg.value", "memcmp2", "_memcmp", "mem_cpy", "outlined", "__llvm_memcpy", "asm", "call", "panic"]


def hexhash(r):
    return "%016x" % r.getrandbits(64)


def rname(r, pool, share=False):
    """a new name entry, distinct in raw form from those in pool (dict raw -> entry); its path is that of
    another sharable entry only if `share`"""
    while True:
        e = _rname(r, pool, share)
        e["share"] = share
        if e["raw"] in pool:
            continue
        if any(x["path"] == e["path"] and not (share and x["share"]) for x in pool.values()):
            continue
        return e


def _rname(r, pool, share):
        if r.random() < 0.35:
            raw = r.choice(["foo", "bar", "main", "_start", "SysTick", "__aeabi_x", "Reset", "a.b", "g$1", "$f", "$ab", "$xy", "f_v2", "_defmt_write"]) + r.choice(
                ["", str(r.randrange(100)), "_%d" % r.randrange(10)]) if r.random() < 0.75 else r.choice(RUNTIME)
            e = names.plain(raw)
        else:
            if share and r.random() < 0.35:
                hashed = [x for x in pool.values() if x["hash"] and x["share"]]
                segs = r.choice(hashed)["segs"] if hashed else ["app", "f"]
            else:
                segs = [r.choice(WORDS) for _ in range(r.randrange(1, 3))] + [r.choice(WORDS + TYPES)] * (r.random() < 0.5) + [
                    r.choice(WORDS) + r.choice(["", str(r.randrange(9))])]
            x = r.random()
            if r.random() < 0.01:
                segs = segs + [r.choice(["a_rather_long_name_", "core::iter::Map<"]) * r.choice([7, 15, 40])]
            if x < 0.06 and all(y.replace("_", "a").isalnum() for y in segs):
                return names.v0(r, segs)
            e = names.entry(segs, hexhash(r))
            e["segs"] = segs
            if x > 0.95:
                e = names.suffixed(r, e)
        return e


# ----------------------------------------------------------------------------------------- builder
class Prog:
    def __init__(self, tgt, r):
        self.tgt, self.r = tgt, r
        self.thumb = tgt in THUMB
        self.v7 = tgt in thumbasm.V7
        self.fns = []      # dicts: name, aliases [(name, kind)], ...
        self.byname = {}
        self.names = {}
        self.undef = []
        self.extra_defs = []   # definitions GC-ed by the linker
        self.szCbExtra = []
        self.case = {"tgt": tgt}

    def newname(self, share=False):
        e = rname(self.r, self.names, share)
        self.names[e["raw"]] = e
        return e["raw"]

    def fn(self, name=None, sig=None, ir="app", rec=None, recin="app", aliases=(), local=False, sizeless=False, st=None):
        """ir: app | cb | decl | none;  rec: recorded stack size or None"""
        name = name or self.newname(share=not aliases)
        self.names.setdefault(name, dict(names.plain(name), share=False))
        f = {"name": name, "sig": sig or VOID, "ir": ir, "rec": rec, "recin": recin, "aliases": list(aliases), "local": local,
             "sizeless": sizeless, "st": list(st or []), "asm": thumbasm.Fn(name), "recname": name, "irname": name}
        for a, _ in f["aliases"]:
            self.names.setdefault(a, dict(names.plain(a), share=False))
        self.fns.append(f)
        self.byname[name] = f
        return f

    def undefined(self, name, ver=""):
        self.names.setdefault(name, dict(names.plain(name), share=False))
        self.undef.append({"name": name, "ver": ver})

    def build(self, base=None, gap=None, sections=None):
        """sections: list of (section name, base address, [fn, ...]); default: everything in .text"""
        r = self.r
        c = self.case
        if base is None:
            base = r.choice([0x100, 0x400, 0x8000, 0x08000100, 0x00020000]) if self.thumb else 0x201000
        if sections is None:
            sections = [(".text", base, self.fns)]
        addr, tags, code, syms, secs = {}, [], [], [], []
        lay = {}
        for sname, sbase, fl in sections:
            a = sbase
            for f in fl:
                sz = max(2, f["asm"].size()) if self.thumb else r.choice([1, 16, 37])
                lay[f["name"]] = (a, sz)
                addr[f["name"]] = a
                for al, _ in f["aliases"]:
                    addr[al] = a
                a += sz
                if self.thumb:
                    a += r.choice([0, 0, 2, 4, 10]) if gap is None else gap
                    if any(o[0] == "pool" for o in f["asm"].ops) or a % 2:
                        a = (a + 3) & ~3
                else:
                    a = (a + 15) & ~15
            if fl:
                secs.append({"name": sname, "lo": sbase & ~3, "hi": a})
        for f in self.fns:
            a, sz = lay[f["name"]]
            f["a"] = a
            if self.thumb:
                hw, tg = f["asm"].encode(a, addr, r)
                hw = hw or [0x4770]
                code.append({"a": a, "hw": hw})
                tags += tg
            first = [(f["name"], "F")] + [(al, k) for al, k in f["aliases"]]
            if len(first) > 1 and r.random() < 0.5:
                fs = [x for x in first if x[1] == "F"]
                r.shuffle(fs)
                first = fs + [x for x in first if x[1] != "F"]
            for n, k in first:
                syms.append({"name": n, "a": a, "t": k, "sz": 0 if (f["sizeless"] or k == "N") else sz, "local": f["local"]})
        if self.thumb:
            # mapping symbols of one region are only printed when the kind changes
            ded = []
            starts = {s["lo"] for s in secs} | {x["a"] for x in code if any(t["a"] == x["a"] and t["k"] == "d" for t in tags)}
            for t in sorted(tags, key=lambda t: t["a"]):
                if r.random() < 0.5 or not ded or ded[-1]["k"] != t["k"] or t["a"] in starts:
                    ded.append(t)
            c["tags"] = ded
            c["code"] = code
        c["secs"] = secs
        c["syms"] = syms
        c["undef"] = self.undef
        c["nm"] = [{"raw": e["raw"], "path": e["path"], "hash": e["hash"]} for e in self.names.values() if e["hash"] or e["path"] != e["raw"]]
        for k in ("defApp", "defCb", "decl", "declCb", "szApp", "szCb"):
            c.setdefault(k, [])
        for f in self.fns:
            if f["rec"] is not None:
                c["szApp" if f["recin"] == "app" else "szCb"].append({"name": f["recname"], "n": f["rec"]})
            if f["ir"] in ("app", "cb"):
                c["defApp" if f["ir"] == "app" else "defCb"].append({"name": f["irname"], "sig": f["sig"], "st": f["st"]})
            elif f["ir"] == "decl":
                c["decl"].append({"name": f["irname"], "sig": f["sig"]})
            for x in f.get("merged", []):     # what was merged with it is known to the IR, too
                if x["ir"] == "decl":
                    c["decl"].append({"name": x["name"], "sig": x["sig"]})
                else:
                    c["defApp" if x["ir"] == "app" else "defCb"].append({"name": x["name"], "sig": x["sig"], "st": x["st"]})
        c["defApp"] += self.extra_defs
        return c


# -------------------------------------------------------------------------------------- statements
def call(f, g=None):
    return {"k": "direct", "f": f, "g": g or VOID}


def icall(g):
    return {"k": "indirect", "g": g}


ASM = {"k": "asm"}


def body(p, f, n, targets=(), inner=0, push=0, bad=0.0):
    """fills f's machine code: allocates n bytes of stack, some padding, calls `targets` [(name, kind)]"""
    r, a, v7 = p.r, f["asm"], p.v7
    left = n
    while left > 0:
        for _ in range(r.randrange(2)):
            a.hw(thumbasm.narrow(r, v7))
        part = left if r.random() < 0.5 or left <= 8 else 4 * r.randrange(1, left // 4)
        op = thumbasm.sp_op(r, part, v7)
        if op is None:
            part = min(left, 508)
            op = thumbasm.sp_op(r, part, v7)
            if op is None:
                raise ValueError(n)
        a.hw(*op)
        left -= part
    ts = list(targets)
    for _ in range(inner):
        ts.append((("self", None), r.choice(["b1", "b2"] + (["b3", "b4", "cbz", "cbz"] if v7 else []))))
    r.shuffle(ts)
    if inner and v7 and r.random() < 0.15:
        a.hw(0xE8D0 | r.choice([0, 15, 3]), 0xF000 | r.choice([0, 16]) | r.randrange(13))  # TBB, TBH
    for t, kind in ts:
        for _ in range(r.randrange(3)):
            if r.random() < 0.25:
                a.hw(*thumbasm.wide(r, v7))
            else:
                a.hw(thumbasm.narrow(r, v7))
        cond = r.randrange(14)
        if isinstance(t, tuple):
            a.br(kind, ("self", r.randrange(max(1, len(a.ops)))), cond)
        else:
            a.br(kind, t, cond)
    if r.random() < 0.3:
        a.hw(thumbasm.narrow(r, v7))
    if r.random() < 0.8:
        a.hw(r.choice([0x4770, 0xBD80, 0xBD10]))
    if r.random() < 0.25:
        if a.size() % 4:
            a.hw(0xBF00)
        junk = [0xF000, 0xD001, 0xB5F0, 0xE92D, 0x4FF0, 0xF7FF, 0xFFFE, 0x4780, 0xB081, 0xE003, 0xD0FE, 0xF84D, 0xBD04, 0xF5AD, 0x7D02]
        a.pool([r.choice(junk) for _ in range(2 * r.randrange(1, 4))])
        if r.random() < 0.4:
            a.hw(0x4770)
