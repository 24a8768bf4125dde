"""Synthesizes the binary artifacts `cargo rustc` would leave behind: ELF executables, relocatable
objects with a `.stack_sizes` section, and rlib archives.  Pure byte writers; no toolchain needed."""
import struct

SHT_PROGBITS, SHT_SYMTAB, SHT_STRTAB, SHT_RELA, SHT_REL, SHT_NOBITS = 1, 2, 3, 4, 9, 8
ET_REL, ET_EXEC = 1, 2
EM = {"arm": 40, "x86_64": 62, "aarch64": 183, "riscv": 243}
STT_NOTYPE, STT_OBJECT, STT_FUNC, STT_SECTION, STT_FILE = 0, 1, 2, 3, 4
STB_LOCAL, STB_GLOBAL, STB_WEAK = 0, 1, 2


class StrTab:
    def __init__(self):
        self.buf = bytearray(b"\0")
        self.idx = {"": 0}

    def add(self, s):
        if s not in self.idx:
            self.idx[s] = len(self.buf)
            self.buf += s.encode("utf-8") + b"\0"
        return self.idx[s]


class Elf:
    def __init__(self, bits, machine, etype):
        self.bits, self.machine, self.etype = bits, machine, etype
        self.sections = []  # (name, type, flags, addr, data, link, info, entsize, align)
        self.symbols = []  # (name, value, size, type, bind, shndx)

    def section(self, name, typ, flags=0, addr=0, data=b"", link=0, info=0, entsize=0, align=1):
        self.sections.append([name, typ, flags, addr, bytes(data), link, info, entsize, align])
        return len(self.sections)  # index (0 is the null section)

    def symbol(self, name, value, size, typ, bind, shndx):
        self.symbols.append((name, value, size, typ, bind, shndx))

    def _sym(self, strtab, s):
        name, value, size, typ, bind, shndx = s
        info = (bind << 4) | typ
        if self.bits == 32:
            return struct.pack("<IIIBBH", strtab.add(name), value, size, info, 0, shndx)
        return struct.pack("<IBBHQQ", strtab.add(name), info, 0, shndx, value, size)

    def emit(self):
        b32 = self.bits == 32
        strtab = StrTab()
        symsz = 16 if b32 else 24
        symdata = bytearray(b"\0" * symsz)
        for s in self.symbols:
            symdata += self._sym(strtab, s)
        secs = [list(s) for s in self.sections]
        symtab_idx = len(secs) + 1
        secs.append([".symtab", SHT_SYMTAB, 0, 0, bytes(symdata), symtab_idx + 1, 1, symsz, 4])
        secs.append([".strtab", SHT_STRTAB, 0, 0, bytes(strtab.buf), 0, 0, 0, 1])
        for s in secs:
            if s[1] in (SHT_REL, SHT_RELA):
                s[5] = symtab_idx
        shstr = StrTab()
        for s in secs:
            shstr.add(s[0])
        shstr.add(".shstrtab")
        secs.append([".shstrtab", SHT_STRTAB, 0, 0, bytes(shstr.buf), 0, 0, 0, 1])
        ehsize = 52 if b32 else 64
        shentsize = 40 if b32 else 64
        out = bytearray(b"\0" * ehsize)
        headers = [b"\0" * shentsize]
        for name, typ, flags, addr, data, link, info, entsize, align in secs:
            while len(out) % 8:
                out.append(0)
            off = len(out)
            out += data
            size = len(data)
            f = "<IIIIIIIIII" if b32 else "<IIQQQQIIQQ"
            headers.append(struct.pack(f, shstr.idx[name], typ, flags, addr, off, size, link, info, align, entsize))
        while len(out) % 8:
            out.append(0)
        shoff = len(out)
        for h in headers:
            out += h
        ident = b"\x7fELF" + bytes([1 if b32 else 2, 1, 1]) + b"\0" * 9
        flags = 0x5000200 if self.machine == "arm" else 0
        shnum = len(headers)
        if b32:
            eh = ident + struct.pack("<HHIIIIIHHHHHH", self.etype, EM[self.machine], 1, 0, 0, shoff, flags,
                                     ehsize, 0, 0, shentsize, shnum, shnum - 1)
        else:
            eh = ident + struct.pack("<HHIQQQIHHHHHH", self.etype, EM[self.machine], 1, 0, 0, shoff, flags,
                                     ehsize, 0, 0, shentsize, shnum, shnum - 1)
        out[:ehsize] = eh
        return bytes(out)


def uleb(n):
    out = bytearray()
    while True:
        b = n & 0x7F
        n >>= 7
        if n:
            out.append(b | 0x80)
        else:
            out.append(b)
            return bytes(out)


def stack_object(bits, machine, sizes, aliases=None):
    """Relocatable object with one function section per entry of `sizes` ([(name, bytes)]) and a
    `.stack_sizes` section describing them, as LLVM's -emit-stack-sizes does."""
    e = Elf(bits, machine, ET_REL)
    syms = []
    for name, n in sizes:
        idx = e.section(".text." + name, SHT_PROGBITS, 6, 0, b"\0\0", align=2)
        e.symbol(name, 0, 2, STT_FUNC, STB_GLOBAL, idx)
        syms.append((len(e.symbols), n))
        for al in (aliases or {}).get(name, []):
            e.symbol(al, 0, 2, STT_FUNC, STB_GLOBAL, idx)
    data, rel = bytearray(), bytearray()
    for i, (sym, n) in enumerate(syms):
        off = len(data)
        data += struct.pack("<I" if bits == 32 else "<Q", 0) + uleb(n)
        if machine == "riscv":
            rel += struct.pack("<IIi", off, (sym << 8) | 1, 0)
        elif bits == 32:
            rel += struct.pack("<II", off, (sym << 8) | 2)
        else:
            rel += struct.pack("<QQq", off, (sym << 32) | 1, 0)
    if syms:
        e.section(".stack_sizes", SHT_PROGBITS, 0, 0, bytes(data))
        if machine == "riscv":
            e.section(".rela.stack_sizes", SHT_RELA, 0, 0, bytes(rel), entsize=12, align=4)
        elif bits == 32:
            e.section(".rel.stack_sizes", SHT_REL, 0, 0, bytes(rel), entsize=8, align=4)
        else:
            e.section(".rela.stack_sizes", SHT_RELA, 0, 0, bytes(rel), entsize=24, align=8)
    return e.emit()


def ar_archive(members):
    """GNU ar archive. members: [(name, bytes)]"""
    out = bytearray(b"!<arch>\n")
    longnames = bytearray()
    hdrs = []
    for name, data in members:
        if len(name) <= 15:
            hdrs.append(name + "/")
        else:
            hdrs.append("/%d" % len(longnames))
            longnames += name.encode() + b"/\n"

    def hdr(name, size):
        return ("%-16s%-12d%-6d%-6d%-8s%-10d`\n" % (name, 0, 0, 0, "644", size)).encode()

    if longnames:
        out += hdr("//", len(longnames)) + longnames
        if len(longnames) % 2:
            out += b"\n"
    for h, (name, data) in zip(hdrs, members):
        out += hdr(h, len(data)) + data
        if len(data) % 2:
            out += b"\n"
    return bytes(out)
