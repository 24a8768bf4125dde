"""Machine-code programs: inputs for C06, C08 and C23."""
import os

from . import gen, thumbasm
from .harness import VERIF, normalize
from .prog import ASM, I32, PTR, VOID, Prog, body, call, icall

PACK = 48
THUMBS = ["v6m", "v7m", "v7em", "v7emhf"]


def pick(r, v7=None):
    return r.choice(THUMBS if v7 is None else THUMBS[1:] if v7 else THUMBS[:1])


def finish(r, p, sections=None, shuffle=True, base=None, gap=None):
    c = p.build(sections=sections, base=base, gap=gap)
    if shuffle:
        gen.shuffled(r, c)
    if r.random() < 0.3:
        c["style"] = r.randrange(1 << 30)
    return normalize(c)


def packed(r, tgt, bodies, out=True):
    """bodies: one list of ops per function"""
    p = Prog(tgt, r)
    if out:
        p.fn(name="out", ir="app", rec=0)["asm"].hw(0x4770)
    for i, ops in enumerate(bodies):
        f = p.fn(name="s%d" % i, ir=r.choice(["app", "app", "decl"]), rec=None)
        f["asm"].ops = list(ops)
    return finish(r, p, shuffle=False)


# ------------------------------------------------------------------------- streams of letters (ThumbStream.tla)
LETTER = {"nop": [0xBF00], "bkpt": [0xBE00], "udf": [0xDEFE], "svc": [0xDF00], "push1": [0xB410], "pushlr": [0xB5F0], "subsp": [0xB081],
          "addsp": [0xB001], "pop": [0xBD80], "addspr": [0x44A5], "blx": [0x4780], "bxlr": [0x4770], "movpc": [0x4687], "dmb": [0xF3BF, 0x8F5F],
          "msr": [0xF380, 0x8808], "it": [0xBF08], "movw": [0xF240, 0x4780], "ldrw": [0xF8D1, 0xB081], "strw": [0xF8C1, 0xE92D],
          "vmrs": [0xEEF1, 0xFA10], "stmdb": [0xE92D, 0x41F0], "stmdb0": [0xE90D, 0x41F0], "subwsp": [0xF2AD, 0x0D08], "subspc": [0xF5AD, 0x7D02],
          "subspr": [0xEBAD, 0x0D04], "vpush": [0xED2D, 0x8B02], "strpre": [0xF84D, 0xBD04], "strdpre": [0xE96D, 0x4502], "tbb": [0xE8DF, 0xF001]}
POOL = {"pool1": [0xF000, 0xD001], "pool2": [0xE92D, 0xB081], "pool3": [0xBF00, 0xF7FF]}


def letter_op(n):
    if n in LETTER:
        return ("hw", LETTER[n])
    if n in POOL:
        return ("pool", POOL[n])
    if n == "bback":
        return ("br", "b1", 0, ("self", 0))
    return {"bl": ("br", "bl", 0, "out"), "b2": ("br", "b2", 0, "out"), "b4": ("br", "b4", 0, "out"), "b3": ("br", "b3", 1, "out"),
            "cbz": ("br", "cbz", 0, ("next",))}[n]


def stream_ops(letters):
    ops = []
    for i, n in enumerate(letters):
        op = letter_op(n)
        if op[0] == "br" and isinstance(op[3], tuple):
            # `b .` and `cbz r0, <two instructions on>` have fixed offsets
            op = ("hw", [0xE7FE]) if n == "bback" else ("hw", [0xB100])
        ops.append(op)
    return ops


def stream_programs(ctx, seqs, v7, focus):
    out = []
    for i in range(0, len(seqs), PACK):
        r = ctx.rng(focus, i)
        out.append(packed(r, pick(r, v7), [stream_ops(s) for s in seqs[i:i + PACK]]))
    return out


# --------------------------------------------------------------------------------- the corpus of valid code
def valid16(arch):
    out = []
    for l in open(os.path.join(VERIF, "data", "thumb16-%s.txt" % arch)):
        a, b = l.strip().split("-")
        out += range(int(a, 16), int(b, 16) + 1)
    return [[h] for h in out]


def valid32(arch):
    return [[int(l[:4], 16), int(l[4:8], 16)] for l in open(os.path.join(VERIF, "data", "thumb32-%s.txt" % arch))]


def corpus_programs(ctx, tgt, instrs, focus, pack=PACK):
    """one function per instruction: the instruction, an adjustment of SP, a call"""
    out = []
    arch = {"v7emhf": "v7em"}.get(tgt, tgt)
    for i in range(0, len(instrs), pack):
        r = ctx.rng(focus, arch, i)
        bodies = []
        for k, w in enumerate(instrs[i:i + pack]):
            ops = [("hw", w), ("hw", [0xB081 + k % 7])]
            if is_cbz(w):
                ops += [("hw", [0xBF00])] * 66   # its target is inside
            ops += [("br", "bl", 0, "out")]
            if r.random() < 0.2:
                ops.insert(0, ("hw", r.choice(instrs)))
                if is_cbz(ops[0][1]):
                    ops.pop(0)
            bodies.append(ops)
        out.append(packed(r, tgt, bodies))
    return out


def is_cbz(w):
    return len(w) == 1 and w[0] & 0xF500 == 0xB100


def stream_case(r):
    """random functions: all kinds of instructions, pools and branches, in any order"""
    tgt = pick(r)
    v7 = tgt in thumbasm.V7
    arch = {"v7emhf": "v7em"}.get(tgt, tgt)
    p = Prog(tgt, r)
    n = r.randrange(1, 7)
    fs = [p.fn(ir=r.choice(["app", "decl", "none"]), rec=None) for _ in range(n)]
    fs.append(p.fn(name="anchor", ir="app", rec=0))
    for f in fs[:-1]:
        a = f["asm"]
        sizeless = r.random() < 0.15
        f["sizeless"] = sizeless
        for _ in range(r.randrange(14)):
            k = r.random()
            if k < 0.35:
                a.hw(thumbasm.narrow(r, v7))
            elif k < 0.6:
                a.hw(*(thumbasm.wide(r, v7) if r.random() < 0.5 else r.choice(corpus(arch))))
            elif k < 0.7:
                a.hw(*(thumbasm.sp_op(r, 4 * r.randrange(1, 30), v7) or [0xB081]))
            elif k < 0.85:
                kind = r.choice(["bl", "bl", "b2", "b1"] + (["b3", "b4", "cbz"] if v7 else []))
                if r.random() < (0.98 if kind == "bl" else 0.7):
                    a.br(kind, r.choice(fs)["name"], r.randrange(14))
                else:
                    a.br(kind, ("self", r.randrange(20)), r.randrange(14))
            elif k < 0.88:
                a.hw(r.choice([0x4770, 0x46F7, thumbasm.through(r), thumbasm.through(r)]))
            elif k < 0.97 and (a.ops or not sizeless):
                if a.size() % 4 and r.random() < 0.8:
                    a.hw(0xBF00)
                a.pool([r.choice(JUNK) for _ in range(2 * r.choice([1, 2, 3, 1, 2, 3, 9]))])
        if not a.ops or r.random() < 0.7:
            a.hw(0x4770)
    fs[-1]["asm"].hw(0x4770)
    c = p.build()
    gen.shuffled(r, c)
    return normalize(c)


JUNK = [0xF000, 0xD001, 0xB5F0, 0xE92D, 0x4FF0, 0xF7FF, 0xFFFE, 0x4780, 0xB081, 0xE003, 0xD0FE, 0xF84D, 0xBD04, 0xF5AD, 0x7D02, 0xB1FF, 0, 0xFFFF, 0xBD, 0xE7FE]
_CORPUS = {}


def corpus(arch):
    if arch not in _CORPUS:
        _CORPUS[arch] = [w for w in valid32(arch)]
    return _CORPUS[arch]


# -------------------------------------------------------------------------------------- branches (C06)
BASE = 0x0A000000


def offset_case(r, kind, off, cond=None):
    """one branch of exactly this offset to a function of its own, wherever that is"""
    tgt = pick(r, True) if thumbasm.BRANCH[kind][2] else pick(r)
    v7 = tgt in thumbasm.V7
    p = Prog(tgt, r)
    cond = r.randrange(14) if cond is None else cond
    src = p.fn(name="src", ir=r.choice(["app", "decl"]), rec=None)
    n = thumbasm.BRANCH[kind][0]
    pre = r.choice([0, 0, 1, 2, 5])
    post = r.choice([0, 1, 3])
    lead = []
    while len(lead) < pre:
        w = [thumbasm.narrow(r, v7)] if r.random() < 0.6 or len(lead) + 2 > pre else thumbasm.wide(r, v7)
        lead += w
    s = r.choice([BASE, BASE, 0x20000000, 0x01800000]) + 4 * r.randrange(64)
    pc = s + 2 * len(lead)
    dst = pc + 4 + off
    hw = lead + thumbasm.enc_branch(kind, cond, off) + [0xBF00] * post
    end = s + 2 * len(hw)
    if s - 2 <= dst < end + 2 and not (dst == end):
        # inside the function (or just before it, where a function has no room): no edge, or nothing to branch to
        if dst < s:
            return None
        p.fn(name="dst", ir="app", rec=0)["asm"].hw(0x4770)
        src["asm"].hw(*hw)
        return finish(r, p, sections=[(".text", s, [src]), (".text.dst", s + 0x1000, [p.byname["dst"]])], gap=0)
    src["asm"].hw(*hw)
    d = p.fn(name="dst", ir="app", rec=0, aliases=[("dst_alias", r.choice("FN"))] if r.random() < 0.3 else [])
    d["asm"].hw(0x4770)
    # two bytes past the end of both, another function (which nothing calls)
    secs = [(".text", s, [src]), (r.choice([".text.far", ".ramfunc", ".data"]), dst, [d])]
    if dst == end:
        secs = [(".text", s, [src, d])]
    elif 0 <= dst - end < 64 or 0 <= s - dst < 64:
        return None if dst < s and s - dst < 4 else finish(r, p, sections=close(s, src, dst, d), gap=0)
    if r.random() < 0.4 and dst != end:
        o = p.fn(name="other", ir="app", rec=0)
        o["asm"].hw(0x4770)
        secs.append((".text.other", max(s, dst) + 0x100, [o]))
    if r.random() < 0.5:
        secs = secs[::-1]
    return finish(r, p, sections=secs, gap=0)


def close(s, src, dst, d):
    """both in one section, with padding between them"""
    if dst > s:
        pad = (dst - s - src["asm"].size()) // 2
        src["pad"] = pad
        return [(".text", s, [src]), (".text2", dst, [d])]
    return [(".text2", dst, [d]), (".text", s, [src])]


def calls_case(r):
    """many functions in several sections calling each other"""
    if r.random() < 0.06:
        return gen.locals_case(r)
    tgt = pick(r)
    v7 = tgt in thumbasm.V7
    p = Prog(tgt, r)
    n = r.randrange(2, 9)
    for i in range(n):
        al = [(p.newname(), r.choice("FFN")) for _ in range(r.choice([0, 0, 0, 1, 2]))]
        p.fn(ir=r.choice(["app", "cb", "decl", "none"]), rec=None, aliases=al, local=r.random() < 0.3)
    p.fn(name="anchor", ir="app", rec=0)["asm"].hw(0x4770)
    everyone = [f["name"] for f in p.fns] + [a for f in p.fns for a, _ in f["aliases"]]
    for f in p.fns[:-1]:
        f["sizeless"] = r.random() < 0.12
        body(p, f, r.choice([0, 0, 8, 24]), [(r.choice(everyone), r.choice(["bl", "bl", "b2", "b1"] + (["b3", "b4"] if v7 else []))) for _ in range(r.randrange(5))],
             inner=r.choice([0, 0, 1, 2]))
        if r.random() < 0.3 and f["ir"] == "app":
            f["st"].append(call(r.choice(everyone)))
    sections = None
    if r.random() < 0.6:
        k = r.randrange(1, n)
        fl = list(p.fns)
        r.shuffle(fl)
        sections = [(".text", r.choice([0x8000100, 0x100]), fl[:k]), (r.choice([".ramfunc", ".data", ".text_itcm"]), r.choice([0x20000000, 0x8000, 0x8010000, 0x1000]) + r.choice([0, 4, 16]), fl[k:])]
        if sections[0][1] + 0x1000 > sections[1][1] > sections[0][1] - 0x1000:
            sections = None
        elif r.random() < 0.97:
            # (skipping a pool that ends a section takes the tool a while)
            for _, _, fl in sections:
                fl[-1]["asm"].hw(0x4770)
    return finish(r, p, sections=sections)


def long_case(r):
    """functions that are hundreds or thousands of halfwords long, by code or by literal pools"""
    tgt = pick(r)
    v7 = tgt in thumbasm.V7
    p = Prog(tgt, r)
    fs = [p.fn(ir=r.choice(["app", "decl", "none"]), rec=None) for _ in range(r.randrange(1, 4))]
    out = p.fn(name="out", ir="app", rec=0)
    for f in fs:
        a = f["asm"]
        f["sizeless"] = r.random() < 0.4
        a.hw(0xB500 | r.randrange(256))
        n = r.choice([120, 126, 127, 128, 129, 130, 250, 255, 256, 257, 300, 510, 512, 513, 600, 900, 1030])
        w = r.random()
        if w < 0.4 and not f["sizeless"]:
            a.br("b2", ("self", 3))
            if a.size() % 4:
                a.hw(0xBF00)
            a.pool([r.choice(JUNK) for _ in range(n & ~1)])
        else:
            if w < 0.6:
                a.br(r.choice(["b2", "b4"] if v7 else ["b2"]), out["name"])
            for _ in range(n):
                a.hw(thumbasm.narrow(r, v7))
        a.br("bl", r.choice(fs)["name"] if r.random() < 0.5 else "out")
        if r.random() < 0.5:
            a.br("b2", r.choice(fs)["name"] if r.random() < 0.5 else "out")
        if r.random() < 0.3:
            a.hw(*(thumbasm.sp_op(r, 8, v7)))
        a.hw(r.choice([0x4770, thumbasm.through(r)]))
        if r.random() < 0.3:
            if a.size() % 4:
                a.hw(0xBF00)
            a.pool([r.choice(JUNK) for _ in range(2 * r.randrange(1, 200))])
            a.hw(0x4770)
    out["asm"].hw(0x4770)
    return finish(r, p, gap=r.choice([None, 0]))


# ----------------------------------------------------------------------------------- local usage (C08)
def sp_table(v7):
    """every immediate of every instruction that moves SP down"""
    t = [[0xB080 | i] for i in range(1, 128)] + [[0xB400 | i] for i in range(1, 512)]
    if v7:
        t += [[0xF2AD | (i >> 11) << 10, ((i >> 8) & 7) << 12 | 0xD00 | i & 255] for i in range(1, 4096)]
        t += [[0xF1AD | (i >> 11) << 10 | (i & 1) << 4, ((i >> 8) & 7) << 12 | 0xD00 | i & 255] for i in range(1, 4096) if thumbasm.expand(i) < 1 << 31 and ((i >> 8) == 0 or i >> 10 or i & 255)]
        t += [[0xED2D | d, v << 12 | 0xB00 | 2 * n] for n in range(1, 17) for d, v in ((0, 8), (0x40, 0), (0, 15))]
        t += [[0xED2D | d, v << 12 | 0xA00 | n] for n in range(1, 33) for d, v in ((0, 0), (0x40, 3))]
        t += [[0xF84D, rt << 12 | 0xD00 | i] for i in range(4, 256, 4) for rt in (0, 7, 11, 14)]
        t += [[0xF84D, rt << 12 | 0x900 | i] for i in range(4, 256, 4) for rt in (0, 7, 12, 14)]
        t += [[0xE96D, 0x4500 | i] for i in range(1, 256)]
        t += [[0xE86D, 0xB600 | i] for i in range(1, 256)]
        t += [[0xE92D, 1 << a | 1 << b] for a in range(15) for b in range(a) if a != 13 and b != 13]
        t += [[0xE92D, 0x5FFF], [0xE92D, 0x1FFF], [0xE92D, 0x4FF0]]
    return t


def sp_programs(ctx, v7, instrs, focus):
    out = []
    for i in range(0, len(instrs), PACK):
        r = ctx.rng(focus, v7, i)
        bodies = []
        for w in instrs[i:i + PACK]:
            b = [("hw", w)]
            big = len(w) == 2 and w[0] & 0xFBEF == 0xF1AD
            for _ in range(r.randrange(3)):
                x = r.choice(instrs) if not big and r.random() < 0.5 else [thumbasm.narrow(r, v7)]
                if len(x) == 2 and x[0] & 0xFBEF == 0xF1AD:
                    continue
                b.insert(r.randrange(len(b) + 1), ("hw", x))
            bodies.append(b)
        out.append(packed(r, pick(r, v7), bodies, out=False))
        # something has a record, so that there is an analysis
    return out


def local_case(r, fail=None):
    """machine code and the compiler's record, agreeing or not, with and without asm, outlined or not"""
    tgt = pick(r)
    v7 = tgt in thumbasm.V7
    p = Prog(tgt, r)
    fail = r.random() < 0.15 if fail is None else fail
    n = r.randrange(1, 7)
    for i in range(n):
        out = r.random() < 0.3
        asm = r.random() < 0.4
        st = r.choice([0, 0, 4, 8, 16, 24, 64, 512, 1032, 4 * r.randrange(300)])
        inner = r.choice([0, 0, 0, 1, 2])
        al = [(p.newname(), r.choice("FN"))] if r.random() < 0.2 and not out else []
        name = "OUTLINED_FUNCTION_%d" % i if out else None
        f = p.fn(name=name, ir=r.choice(["app", "cb"]) if asm else r.choice(["app", "decl", "none", "cb"]), aliases=al, recin=r.choice(["app", "cb"]))
        names_ = [f["name"]] + [a for a, _ in al]
        f["recname"] = r.choice(names_)
        f["irname"] = r.choice(names_)
        body(p, f, st, [], inner)
        if asm:
            f["st"].append(dict(ASM))
            if r.random() < 0.5:
                f["st"].insert(0, {"k": "other", "s": "  %x = add i32 1, 2"})
        anysp = r.random() < 0.12
        if anysp:
            f["asm"].ops.insert(0, ("hw", [0x44A5]) if not v7 or r.random() < 0.5 else ("hw", [0xEBAD, 0x0D04]))
        mod = st > 0 or anysp
        known = not inner and not anysp
        k = r.random()
        if k < 0.25:
            f["rec"] = None
        elif k < 0.55 or not (asm or out or fail):
            f["rec"] = st if known or st or not mod else 8
            if not known and mod:
                f["rec"] = max(4, f["rec"])
        elif asm:
            f["rec"] = r.choice([0, st + 8, max(0, st - 4), 4])
        elif out:
            f["rec"] = r.choice([0, 0, st, st + 8]) if mod else 0
        else:
            f["rec"] = r.choice([0, st + 8, max(0, st - 4), 4])
    if r.random() < 0.5:
        p.fn(name="anchor", ir="app", rec=0)["asm"].hw(0x4770)
    return finish(r, p)
