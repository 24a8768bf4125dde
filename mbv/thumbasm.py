"""A tiny Thumb assembler for the drivers: functions as lists of operations with fixed sizes, laid out
first and encoded second.  It knows encodings; what the encodings mean is Thumb.tla's business."""
import random

V7 = ("v7m", "v7em", "v7emhf")


def reaches(kind, off):
    if kind == "cbz":
        return 0 <= off <= 126 and off % 2 == 0
    return sext_ok(off, BRANCH[kind][1])


def sext_ok(off, bits):
    return -(1 << (bits - 1)) <= off < (1 << (bits - 1)) and off % 2 == 0


def enc_b1(cond, off):
    return [0xD000 | cond << 8 | ((off >> 1) & 0xFF)]


def enc_b2(off):
    return [0xE000 | ((off >> 1) & 0x7FF)]


def _far(off):
    s = (off >> 24) & 1
    i1, i2 = (off >> 23) & 1, (off >> 22) & 1
    j1, j2 = (i1 ^ 1) ^ s, (i2 ^ 1) ^ s
    return s, j1, j2, (off >> 12) & 0x3FF, (off >> 1) & 0x7FF


def enc_bl(off):
    s, j1, j2, hi, lo = _far(off)
    return [0xF000 | s << 10 | hi, 0xD000 | j1 << 13 | j2 << 11 | lo]


def enc_b4(off):
    s, j1, j2, hi, lo = _far(off)
    return [0xF000 | s << 10 | hi, 0x9000 | j1 << 13 | j2 << 11 | lo]


def enc_b3(cond, off):
    s = (off >> 20) & 1
    j2, j1 = (off >> 19) & 1, (off >> 18) & 1
    return [0xF000 | s << 10 | cond << 6 | ((off >> 12) & 0x3F), 0x8000 | j1 << 13 | j2 << 11 | ((off >> 1) & 0x7FF)]


def enc_cbz(cond, off):
    return [0xB100 | (cond & 1) << 11 | ((off >> 6) & 1) << 9 | ((off >> 1) & 31) << 3 | cond % 8]


# kind -> (size in halfwords, offset bits, v7 only)
BRANCH = {"bl": (2, 25, False), "b2": (1, 12, False), "b1": (1, 9, False), "b3": (2, 21, True), "b4": (2, 25, True), "cbz": (1, 7, True)}


def enc_branch(kind, cond, off):
    return {"bl": lambda: enc_bl(off), "b2": lambda: enc_b2(off), "b1": lambda: enc_b1(cond, off),
            "b3": lambda: enc_b3(cond, off), "b4": lambda: enc_b4(off),
            "cbz": lambda: enc_cbz(cond, off)}[kind]()


def dp(op, rm, rdn):
    return 0x4000 | op << 6 | rm << 3 | rdn


# 16-bit instructions that neither branch nor touch SP (given a random generator)
def narrow(r, v7):
    lo = lambda: r.randrange(8)
    ch = r.randrange(33 if v7 else 32)
    imm8 = r.randrange(256)
    i5 = r.randrange(32)
    t = [
        lambda: 0x0000 | i5 << 6 | lo() << 3 | lo(), lambda: 0x0800 | i5 << 6 | lo() << 3 | lo(),
        lambda: 0x1000 | i5 << 6 | lo() << 3 | lo(), lambda: 0x1800 | r.randrange(0x800),
        lambda: 0x2000 | r.randrange(0x2000), lambda: dp(r.randrange(16), lo(), lo()),
        lambda: 0x4400 | lo() << 3 | lo(), lambda: 0x4500 | (8 + r.randrange(5)) << 3 | lo(),
        lambda: 0x4600 | r.randrange(13) << 3 | lo(), lambda: 0x4800 | lo() << 8 | imm8,
        lambda: 0x5000 | r.randrange(0x1000), lambda: 0x6000 | r.randrange(0x1000),
        lambda: 0x7000 | r.randrange(0x1000), lambda: 0x8000 | r.randrange(0x1000),
        lambda: 0x9000 | r.randrange(0x1000), lambda: 0xA000 | r.randrange(0x800),
        lambda: 0xA800 | r.randrange(0x800), lambda: 0xB000 | r.randrange(0x80),
        lambda: 0xB200 | r.randrange(0x100), lambda: 0xBA00 | r.randrange(0x80),
        lambda: 0xBAC0 | r.randrange(0x40), lambda: 0xBC00 | r.randrange(1, 0x100), lambda: 0xBD00 | r.randrange(0x100),
        lambda: 0xBE00 | imm8, lambda: r.choice([0xBF00, 0xBF10, 0xBF20, 0xBF30, 0xBF40]),
        lambda: r.choice([0xB662, 0xB672, 0xB661, 0xB671]), lambda: 0xC000 | lo() << 8 | max(1, imm8),
        lambda: 0xC800 | lo() << 8 | max(1, imm8), lambda: 0xDE00 | imm8, lambda: 0xDF00 | imm8,
        lambda: 0x4770, lambda: 0xBA40 | r.randrange(0x40),
        lambda: 0xBF00 | r.randrange(1, 16) << 4 | r.choice([4, 8, 12, 6, 10, 2, 14, 1, 3, 5, 7, 9, 11, 13, 15]),
    ]
    return t[ch]()


# 32-bit instructions that neither branch nor touch SP: (first, second) with random fields
def wide(r, v7):
    reg = lambda: r.choice([0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 11, 12])
    if not v7:
        return r.choice([[0xF3BF, 0x8F50], [0xF3BF, 0x8F4F], [0xF3BF, 0x8F6F], [0xF3EF, 0x8000 | reg() << 8 | r.choice([0, 5, 16])],
                         [0xF380 | reg(), 0x8800 | r.choice([8, 9, 16, 20])]])
    k = r.randrange(19)
    if k == 0:   # MOVW / MOVT
        return [0xF240 | r.choice([0, 0x80]) | r.choice([0, 0x400]) | r.randrange(16), r.randrange(8) << 12 | reg() << 8 | r.randrange(256)]
    if k == 1:   # data processing, modified immediate, Rd and Rn general
        return [0xF000 | r.choice([0, 0x400]) | r.choice([0, 1, 2, 3, 4, 8, 10, 11, 13, 14]) << 5 | r.randrange(2) << 4 | reg(),
                r.randrange(8) << 12 | reg() << 8 | r.randrange(256)]
    if k == 2:   # data processing, shifted register
        return [0xEA00 | r.choice([0, 1, 2, 3, 4, 8, 10, 11, 13, 14]) << 5 | r.randrange(2) << 4 | reg(),
                r.randrange(8) << 12 | reg() << 8 | r.randrange(4) << 6 | r.randrange(4) << 4 | reg()]
    if k == 3:   # LDR/STR imm12
        return [r.choice([0xF8C0, 0xF8D0, 0xF880, 0xF890, 0xF8A0, 0xF8B0, 0xF990, 0xF9B0]) | reg(), reg() << 12 | r.randrange(0x1000)]
    if k == 4:   # LDR/STR imm8 with base register
        return [r.choice([0xF840, 0xF850, 0xF800, 0xF810]) | reg(), reg() << 12 | 0x800 | r.choice([0x400, 0x500, 0x700, 0x300, 0x100]) | r.randrange(256)]
    if k == 5:   # STR imm8 SP, no writeback / positive writeback (deallocates)
        return [0xF84D, reg() << 12 | 0x800 | r.choice([0x400, 0x700, 0x300]) | r.randrange(256)]
    if k == 6:   # LDR post-indexed from SP: pops
        return [0xF85D, r.choice([reg(), 15, 14]) << 12 | 0xB04]
    if k == 7:   # LDM / POP.W
        return [0xE8BD, r.choice([0x8000, 0x4000, 0]) | r.randrange(2, 0x2000)]
    if k == 8:   # STMDB / STMIA to another base; STMDB SP without writeback
        return [r.choice([0xE920 | reg(), 0xE8A0 | reg(), 0xE90D]), r.randrange(3, 0x1FFF)]
    if k == 9:   # MUL, MLA, SMULL, UDIV...
        return [r.choice([0xFB00, 0xFB80, 0xFBA0, 0xFB90, 0xFBB0]) | reg(), r.choice([0xF000, reg() << 12]) | reg() << 8 | r.choice([0, 0xF0, 0x10]) | reg()]
    if k == 10:  # ADD.W SP / ADDW SP (deallocate)
        return [r.choice([0xF10D, 0xF50D, 0xF20D, 0xF60D]), r.randrange(8) << 12 | 0xD00 | r.randrange(256)]
    if k == 11:  # SUB.W Rd, SP, #const : does not modify SP
        return [r.choice([0xF1AD, 0xF5AD, 0xF2AD, 0xF6AD]), r.randrange(8) << 12 | reg() << 8 | r.randrange(256)]
    if k == 12:  # barriers, hints, MRS/MSR
        return r.choice([[0xF3BF, 0x8F50], [0xF3BF, 0x8F4F], [0xF3BF, 0x8F6F], [0xF3AF, 0x8000], [0xF3EF, 0x8000 | reg() << 8 | r.choice([0, 5, 16])],
                         [0xF380 | reg(), 0x8800 | r.choice([8, 9, 16, 17, 20])]])
    if k == 13:  # TBB/TBH, LDREX/STREX, LDRD/STRD
        return r.choice([[0xE850 | reg(), reg() << 12 | 0xF00 | r.randrange(256)], [0xE840 | reg(), reg() << 12 | reg() << 8 | r.randrange(256)],
                         [0xE9C0 | reg(), reg() << 12 | reg() << 8 | r.randrange(256)], [0xE9D0 | reg(), reg() << 12 | reg() << 8 | r.randrange(256)],
                         [0xE9CD, reg() << 12 | reg() << 8 | r.randrange(256)]])
    if k == 14:  # VFP: VPOP, VLDR, VSTR, VADD, VMOV
        return r.choice([[0xECBD, r.randrange(16) << 12 | 0xB00 | 2 * r.randrange(1, 16)], [0xECBD, r.randrange(16) << 12 | 0xA00 | r.randrange(1, 16)],
                         [0xED90 | reg(), r.randrange(16) << 12 | 0xA00 | r.randrange(256)], [0xED80 | reg(), r.randrange(16) << 12 | 0xA00 | r.randrange(256)],
                         [0xED2D & 0xFFF0 | reg(), r.randrange(16) << 12 | 0xA00 | r.randrange(1, 16)],
                         [0xEE30 | r.randrange(8), r.randrange(16) << 12 | 0xA00 | r.randrange(8)], [0xEE00 | reg(), reg() << 12 | 0xA10]])
    if k == 15:  # bit field, saturate, shifts
        return r.choice([[0xF360 | reg(), r.randrange(8) << 12 | reg() << 8 | r.randrange(4) << 6 | r.randrange(32)],
                         [0xF3C0 | reg(), r.randrange(8) << 12 | reg() << 8 | r.randrange(4) << 6 | r.randrange(32)],
                         [0xFA00 | r.randrange(8) << 4 | reg(), 0xF000 | reg() << 8 | reg()],
                         [0xFAB0 | reg(), 0xF080 | reg() << 8 | reg()]])
    if k == 16:  # LDR literal, LDR register
        return r.choice([[0xF8DF, reg() << 12 | r.randrange(0x1000)], [0xF85F, reg() << 12 | r.randrange(0x1000)],
                         [0xF850 | reg(), reg() << 12 | r.randrange(4) << 4 | reg()], [0xF840 | reg(), reg() << 12 | r.randrange(4) << 4 | reg()]])
    if k == 17:  # UDF.W, coprocessor
        return r.choice([[0xF7F0 | r.randrange(16), 0xA000 | r.randrange(0x1000)], [0xEE00 | r.randrange(16), 0xF010 | reg() << 12 & 0xFFFF]])
    return [0xF1A0 | r.choice([0, 0x400]) | r.randrange(2) << 4 | reg(), r.randrange(8) << 12 | reg() << 8 | r.randrange(256)]  # SUB.W Rd, Rn


def through(r):
    """a branch through a register: blx, bx, mov pc"""
    return r.choice([0x4780, 0x4700, 0x4687]) | r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12]) << 3


def sp_op(r, n, v7):
    """an instruction that decrements SP by exactly n (a positive multiple of 4), or None"""
    opts = []
    if n % 4 == 0 and 0 < n <= 508:
        opts.append([0xB080 | n // 4])
    k = n // 4
    if n % 4 == 0 and 1 <= k <= 9:
        regs = r.sample(range(9), k)
        opts.append([0xB400 | sum(1 << x for x in regs)])
    if v7:
        if n % 4 == 0 and 2 <= k <= 14:
            regs = r.sample([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14], k)
            opts.append([0xE92D, sum(1 << x for x in regs)])
        if n % 4 == 0 and n <= 1020:
            opts.append([r.choice([0xE96D, 0xE96D, 0xE86D]), r.randrange(13) << 12 | r.randrange(13) << 8 | n // 4])
        if n % 8 == 0 and n <= 128:
            opts.append([0xED2D | r.choice([0, 0x40]), r.randrange(16) << 12 | 0xB00 | n // 4])
        if n % 4 == 0 and n <= 128:
            opts.append([0xED2D | r.choice([0, 0x40]), r.randrange(16) << 12 | 0xA00 | n // 4])
        if n < 256 and n > 0:
            opts.append([0xF84D, r.choice([0, 4, 7, 11, 14]) << 12 | r.choice([0xD00, 0x900]) | n])
        if n < 4096:
            opts.append([0xF2AD | (n >> 11) << 10, ((n >> 8) & 7) << 12 | 0xD00 | (n & 255)])
        for i12 in expand_inverse(n):
            opts.append([0xF1AD | (i12 >> 11) << 10 | r.choice([0, 0, 0x10]), ((i12 >> 8) & 7) << 12 | 0xD00 | (i12 & 255)])
    return r.choice(opts) if opts else None


_INV = {}


def expand(i12):
    b = i12 & 255
    t = i12 >> 10
    if t == 0:
        return [b, b << 16 | b, b << 24 | b << 8, b * 0x01010101][(i12 >> 8) & 3]
    rot = i12 >> 7
    v = 0x80 | i12 & 0x7F
    return ((v >> rot) | (v << (32 - rot))) & 0xFFFFFFFF


def expand_inverse(n):
    if not _INV:
        for i in range(4096):
            if (i >> 10) == 0 and (i >> 8) & 3 and i & 255 == 0:
                continue
            _INV.setdefault(expand(i), []).append(i)
    return _INV.get(n, [])


class Fn:
    """ops: ("hw", [halfwords]) | ("br", kind, cond, target name or ("self", op index)) | ("pool", [halfwords])"""

    def __init__(self, name):
        self.name = name
        self.ops = []

    def hw(self, *h):
        self.ops.append(("hw", list(h)))

    def br(self, kind, target, cond=0):
        self.ops.append(("br", kind, cond, target))

    def pool(self, halfwords):
        self.ops.append(("pool", list(halfwords)))

    def sizes(self):
        out = []
        for o in self.ops:
            out.append(BRANCH[o[1]][0] if o[0] == "br" else len(o[1]))
        return out

    def size(self):
        return 2 * sum(self.sizes())

    def encode(self, addr, addr_of, r=None):
        """-> (halfwords, tags)"""
        hw, tags, offs, a = [], [], [], addr
        for s in self.sizes():
            offs.append(a)
            a += 2 * s
        indata = False
        if not (self.ops and self.ops[0][0] == "pool"):
            tags.append({"a": addr, "k": "t"})
        for i, o in enumerate(self.ops):
            if o[0] == "pool":
                if not indata:
                    tags.append({"a": offs[i], "k": "d"})
                    indata = True
                if r and r.random() < 0.15:
                    # one region may be marked any number of times
                    tags += [{"a": offs[i] + 2 * j, "k": "d"} for j in range(2, len(o[1]), r.choice([2, 2, 4, 6]))]
                hw += o[1]
                continue
            if indata:
                tags.append({"a": offs[i], "k": "t"})
                indata = False
            if o[0] == "hw":
                hw += o[1]
            else:
                _, kind, cond, tgt = o
                ta = offs[tgt[1] % len(offs)] if isinstance(tgt, tuple) else addr_of.get(tgt)
                n, bits, _v7 = BRANCH[kind]
                off = None if ta is None else ta - offs[i] - 4
                if off is None or not reaches(kind, off):
                    hw += [0xBF00] * n
                else:
                    hw += enc_branch(kind, cond, off)
        return hw, tags
