"""What the demonstrations share: binary artifacts are synthesized, `cargo` and `rustc` are stand-ins that leave
them behind, and the tool -- built from the repository the demonstration is run in -- is started in a scratch project
that is removed afterwards."""
import atexit
import os
import re
import shutil
import stat
import struct
import subprocess
import sys
import tempfile

TOOL = os.environ.get("CCS_TOOL") or os.path.join(os.getcwd(), "target", "debug", "cargo-call-stack")
TMP = tempfile.mkdtemp(prefix="ccs-demo-")
atexit.register(shutil.rmtree, TMP, ignore_errors=True)
SHT_PROGBITS, SHT_SYMTAB, SHT_STRTAB, SHT_RELA, SHT_REL, SHT_NOBITS = 1, 2, 3, 4, 9, 8
ET_REL, ET_EXEC = 1, 2
EM = {"arm": 40, "x86_64": 62, "aarch64": 183}
STT_NOTYPE, STT_OBJECT, STT_FUNC, STT_SECTION, STT_FILE = 0, 1, 2, 3, 4
STB_LOCAL, STB_GLOBAL, STB_WEAK = 0, 1, 2


class StrTab:
    def __init__(self):
        self.buf = bytearray(b"\0")
        self.idx = {"": 0}

    def add(self, s):
        if s not in self.idx:
            self.idx[s] = len(self.buf)
            self.buf += s.encode("utf-8") + b"\0"
        return self.idx[s]


class Elf:
    def __init__(self, bits, machine, etype):
        self.bits, self.machine, self.etype = bits, machine, etype
        self.sections = []  # (name, type, flags, addr, data, link, info, entsize, align)
        self.symbols = []  # (name, value, size, type, bind, shndx)

    def section(self, name, typ, flags=0, addr=0, data=b"", link=0, info=0, entsize=0, align=1):
        self.sections.append([name, typ, flags, addr, bytes(data), link, info, entsize, align])
        return len(self.sections)  # index (0 is the null section)

    def symbol(self, name, value, size, typ, bind, shndx):
        self.symbols.append((name, value, size, typ, bind, shndx))

    def _sym(self, strtab, s):
        name, value, size, typ, bind, shndx = s
        info = (bind << 4) | typ
        if self.bits == 32:
            return struct.pack("<IIIBBH", strtab.add(name), value, size, info, 0, shndx)
        return struct.pack("<IBBHQQ", strtab.add(name), info, 0, shndx, value, size)

    def emit(self):
        b32 = self.bits == 32
        strtab = StrTab()
        symsz = 16 if b32 else 24
        symdata = bytearray(b"\0" * symsz)
        for s in self.symbols:
            symdata += self._sym(strtab, s)
        secs = [list(s) for s in self.sections]
        symtab_idx = len(secs) + 1
        secs.append([".symtab", SHT_SYMTAB, 0, 0, bytes(symdata), symtab_idx + 1, 1, symsz, 4])
        secs.append([".strtab", SHT_STRTAB, 0, 0, bytes(strtab.buf), 0, 0, 0, 1])
        for s in secs:
            if s[1] in (SHT_REL, SHT_RELA):
                s[5] = symtab_idx
        shstr = StrTab()
        for s in secs:
            shstr.add(s[0])
        shstr.add(".shstrtab")
        secs.append([".shstrtab", SHT_STRTAB, 0, 0, bytes(shstr.buf), 0, 0, 0, 1])
        ehsize = 52 if b32 else 64
        shentsize = 40 if b32 else 64
        out = bytearray(b"\0" * ehsize)
        headers = [b"\0" * shentsize]
        for name, typ, flags, addr, data, link, info, entsize, align in secs:
            while len(out) % 8:
                out.append(0)
            off = len(out)
            out += data
            size = len(data)
            f = "<IIIIIIIIII" if b32 else "<IIQQQQIIQQ"
            headers.append(struct.pack(f, shstr.idx[name], typ, flags, addr, off, size, link, info, align, entsize))
        while len(out) % 8:
            out.append(0)
        shoff = len(out)
        for h in headers:
            out += h
        ident = b"\x7fELF" + bytes([1 if b32 else 2, 1, 1]) + b"\0" * 9
        flags = 0x5000200 if self.machine == "arm" else 0
        shnum = len(headers)
        if b32:
            eh = ident + struct.pack("<HHIIIIIHHHHHH", self.etype, EM[self.machine], 1, 0, 0, shoff, flags,
                                     ehsize, 0, 0, shentsize, shnum, shnum - 1)
        else:
            eh = ident + struct.pack("<HHIQQQIHHHHHH", self.etype, EM[self.machine], 1, 0, 0, shoff, flags,
                                     ehsize, 0, 0, shentsize, shnum, shnum - 1)
        out[:ehsize] = eh
        return bytes(out)


def uleb(n):
    out = bytearray()
    while True:
        b = n & 0x7F
        n >>= 7
        if n:
            out.append(b | 0x80)
        else:
            out.append(b)
            return bytes(out)


def stack_object(bits, machine, sizes, aliases=None):
    """Relocatable object with one function section per entry of `sizes` ([(name, bytes)]) and a
    `.stack_sizes` section describing them, as LLVM's -emit-stack-sizes does."""
    e = Elf(bits, machine, ET_REL)
    syms = []
    for name, n in sizes:
        idx = e.section(".text." + name, SHT_PROGBITS, 6, 0, b"\0\0", align=2)
        e.symbol(name, 0, 2, STT_FUNC, STB_GLOBAL, idx)
        syms.append((len(e.symbols), n))
        for al in (aliases or {}).get(name, []):
            e.symbol(al, 0, 2, STT_FUNC, STB_GLOBAL, idx)
    data, rel = bytearray(), bytearray()
    for i, (sym, n) in enumerate(syms):
        off = len(data)
        data += struct.pack("<I" if bits == 32 else "<Q", 0) + uleb(n)
        if bits == 32:
            rel += struct.pack("<II", off, (sym << 8) | 2)
        else:
            rel += struct.pack("<QQq", off, (sym << 32) | 1, 0)
    if syms:
        e.section(".stack_sizes", SHT_PROGBITS, 0, 0, bytes(data))
        if bits == 32:
            e.section(".rel.stack_sizes", SHT_REL, 0, 0, bytes(rel), entsize=8, align=4)
        else:
            e.section(".rela.stack_sizes", SHT_RELA, 0, 0, bytes(rel), entsize=24, align=8)
    return e.emit()


def ar_archive(members):
    """GNU ar archive. members: [(name, bytes)]"""
    out = bytearray(b"!<arch>\n")
    longnames = bytearray()
    hdrs = []
    for name, data in members:
        if len(name) <= 15:
            hdrs.append(name + "/")
        else:
            hdrs.append("/%d" % len(longnames))
            longnames += name.encode() + b"/\n"

    def hdr(name, size):
        return ("%-16s%-12d%-6d%-6d%-8s%-10d`\n" % (name, 0, 0, 0, "644", size)).encode()

    if longnames:
        out += hdr("//", len(longnames)) + longnames
        if len(longnames) % 2:
            out += b"\n"
    for h, (name, data) in zip(hdrs, members):
        out += hdr(h, len(data)) + data
        if len(data) % 2:
            out += b"\n"
    return bytes(out)


# ---------------------------------------------------------------------------------------------- the project
TRIPLE = {"v6m": ("thumbv6m-none-eabi", 32, "arm"), "v7m": ("thumbv7m-none-eabi", 32, "arm"), "v7em": ("thumbv7em-none-eabi", 32, "arm"),
          "x64": ("x86_64-unknown-linux-gnu", 64, "x86_64"), "v7r": ("armv7r-none-eabi", 32, "arm")}
RUSTC = """#!/bin/sh
case "$1" in
 -vV) printf 'rustc 1.76.0-nightly (2b603f95a 2023-11-12)\\nbinary: rustc\\ncommit-hash: %s\\ncommit-date: 2023-11-12\\nhost: x86_64-unknown-linux-gnu\\nrelease: 1.76.0-nightly\\nLLVM version: 17.0.4\\n' "${FAKE_HASH:-2b603f95a48f10f931a61dd208fe3e5ffd64e491}";;
 *) os=none; case "$*" in *linux*) os=linux;; esac
    printf 'panic="abort"\\ntarget_abi="eabi"\\ntarget_arch="arm"\\ntarget_endian="little"\\ntarget_env=""\\ntarget_os="%s"\\ntarget_pointer_width="32"\\ntarget_vendor="unknown"\\n' $os;;
esac
"""
CARGO = """#!/bin/sh
: > "$FAKE_DIR/argv"
for a in "$@"; do printf '%s\\n' "$a" >> "$FAKE_DIR/argv"; done
if [ -f "$FAKE_DIR/hook" ]; then . "$FAKE_DIR/hook"; fi
echo "   Compiling app v0.1.0" >&2
echo "@CARGO_CALL_STACK:compiler_builtins_ll_path@$FAKE_DIR/cb.ll" >&2
echo "@CARGO_CALL_STACK:compiler_builtins_rlib_path@$FAKE_DIR/libcompiler_builtins-0.rlib" >&2
"""
NOP, BXLR = 0xBF00, 0x4770


def put(path, data, mode=None):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data.encode() if isinstance(data, str) else data)
    if mode:
        os.chmod(path, mode)


def bl(src, dst):
    off = dst - src - 4
    s, i1, i2 = (off >> 24) & 1, (off >> 23) & 1, (off >> 22) & 1
    return [0xF000 | s << 10 | (off >> 12) & 0x3FF, 0xD000 | (i1 ^ 1 ^ s) << 13 | (i2 ^ 1 ^ s) << 11 | (off >> 1) & 0x7FF]


def ll(*items):
    return "; ModuleID = 'app'\n\n" + "\n\n".join(items) + "\n\nattributes #0 = { nounwind }\n"


def define(name, *body, sig="void", args=""):
    q = name if re.match(r"^[\w.$-]+$", name) else '"%s"' % name
    return "define %s @%s(%s) unnamed_addr #0 {\nstart:\n%s\n}" % (sig, q, args, "\n".join(list("  " + b for b in body) + ["  ret void"]))


class Graph:
    def __init__(self, text):
        self.nodes, self.edges, self.clusters = [], set(), []
        cur = None
        for ln in text.split("\n"):
            m = re.match(r'^    (\d+) \[label="(.*?)(?:\\nmax (=|>=) (\d+))?\\nlocal = (\d+|\?)"( style=dashed)?\]$', ln)
            if m:
                self.nodes.append({"name": m.group(2), "max": m.group(3) and (m.group(3), int(m.group(4))),
                                   "local": None if m.group(5) == "?" else int(m.group(5)), "dashed": bool(m.group(6))})
                continue
            m = re.match(r"^    (\d+) -> (\d+)$", ln)
            if m:
                self.edges.add((int(m.group(1)), int(m.group(2))))
            if ln.strip().startswith("subgraph"):
                self.clusters.append(set())
            elif re.match(r"^        (\d+)$", ln):
                self.clusters[-1].add(int(ln))

    def node(self, name):
        hits = [n for n in self.nodes if n["name"] == name]
        check(len(hits) == 1, "one node called %r, there are %d in %r" % (name, len(hits), [n["name"] for n in self.nodes]))
        return hits[0]

    def callees(self, name):
        i = self.nodes.index(self.node(name))
        return sorted(self.nodes[b]["name"] for a, b in self.edges if a == i)


class Project:
    def __init__(self, name="app", tgt="v7m", kind="example", sources=None):
        self.dir = tempfile.mkdtemp(dir=TMP)
        self.proj, self.fake, self.name, self.tgt, self.kind = self.dir + "/proj", self.dir + "/fake", name, tgt, kind
        put(self.proj + "/Cargo.toml", '[package]\nname = "app"\nversion = "0.1.0"\nedition = "2018"\n')
        for s in sources or ["src/main.rs"]:
            put(self.proj + "/" + s, "fn main() {}\n")
        put(self.fake + "/rustc", RUSTC, 0o755)
        put(self.fake + "/cargo", CARGO, 0o755)
        self.rel = "%s/target/%s/release" % (self.proj, TRIPLE[tgt][0])
        self.args = ["--" + kind, name, "--target", TRIPLE[tgt][0]]
        self.arts = "/examples" if kind == "example" else "/deps"
        self.put(elf([], tgt), ll(), {})

    def put(self, elf_, ir, sizes, cbir="", cbsizes=None, hash="0123456789abcdef", members=None):
        """sizes, cbsizes: {name: bytes}; members: [(name, {name: bytes})] of the compiler_builtins archive"""
        _, bits, mach = TRIPLE[self.tgt]
        put(self.rel + ("/examples/" if self.kind == "example" else "/") + self.name, elf_)
        stem = "%s%s/%s-%s" % (self.rel, self.arts, self.name.replace("-", "_"), hash)
        put(stem + ".ll", ir)
        put(stem + ".o", stack_object(bits, mach, list(sizes.items())))
        put(self.fake + "/cb.ll", cbir or ll())
        members = members or [("compiler_builtins-0.compiler_builtins.0-cgu.0.rcgu.o", cbsizes or {})]
        put(self.fake + "/libcompiler_builtins-0.rlib",
            ar_archive([("lib.rmeta", b"rust")] + [(n, stack_object(bits, mach, list(s.items()))) for n, s in members]))
        return stem

    def run(self, *more, env=None, stdout=subprocess.PIPE, timeout=120):
        e = {"PATH": self.fake + ":/usr/bin:/bin", "HOME": self.dir, "FAKE_DIR": self.fake, "LC_ALL": "C"}
        e.update(env or {})
        p = subprocess.run([TOOL] + self.args + list(more), cwd=self.proj, env=e, stdin=subprocess.DEVNULL,
                           stdout=stdout, stderr=subprocess.PIPE, timeout=timeout)
        self.rc, self.out, self.err = p.returncode, (p.stdout or b"").decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
        return self

    def argv(self):
        return open(self.fake + "/argv").read().split("\n")[:-1]

    def graph(self):
        check(self.rc == 0, "the tool succeeds; it ended with %s and said %s" % (self.rc, self.err[-600:]))
        return Graph(self.out)


def elf(fns, tgt="v7m", base=0x1000, tags=(), undef=(), sections=None, extra=()):
    """fns: [(name or [names], address, [halfwords], size or None)]; extra: raw symbols (name, value, size, type)"""
    _, bits, mach = TRIPLE[tgt]
    thumb = tgt[:2] in ("v6", "v7") and tgt != "v7r"
    e = Elf(bits, mach, ET_EXEC)
    secs = sections or [(".text", base, max([base + 64] + [a + 2 * len(h) for _, a, h, _ in fns]))]
    idx = []
    for name, lo, hi in secs:
        img = bytearray((b"\0\xbf" if thumb else b"\x90\x90") * ((hi - lo + 1) // 2))
        for _, a, h, _ in fns:
            if lo <= a < hi:
                img[a - lo:a - lo + 2 * len(h)] = struct.pack("<%dH" % len(h), *h)
        idx.append((lo, hi, e.section(name, SHT_PROGBITS, 6, lo, bytes(img[:hi - lo]), align=4)))
    at = lambda a: ([i for lo, hi, i in idx if lo <= a < hi] or [idx[0][2]])[0]
    if thumb:
        for a, k in tags or [(lo, "t") for _, lo, _ in secs]:
            e.symbol("$" + k, a, 0, STT_NOTYPE, STB_LOCAL, at(a))
    for names, a, h, size in fns:
        for n in [names] if isinstance(names, str) else names:
            e.symbol(n, a | thumb, 2 * len(h) if size is None else size, STT_FUNC, STB_GLOBAL, at(a))
    for n, v, s, t in extra:
        e.symbol(n, v, s, t, STB_GLOBAL, at(v))
    for n in undef:
        e.symbol(n, 0, 0, STT_FUNC, STB_GLOBAL, 0)
    return e.emit()


def code(n=0, tail=()):
    """thumb code that allocates n bytes of stack"""
    return ([0xB080 | n // 4] if n else []) + list(tail) + [BXLR]


def program(tgt, fns, ir, cbir="", cbsizes=None, **kw):
    """fns: {name: stack}: a program whose machine code does nothing but allocate; -> Project"""
    p = Project(tgt=tgt)
    t, a = [], 0x1000
    for n, s in fns.items():
        t.append((n, a, code(s or 0) if tgt in ("v6m", "v7m", "v7em") else [0x9090] * 4, None))
        a += 16
    p.put(elf(t, tgt, **kw), ir, {n: s for n, s in fns.items() if s is not None and n not in (cbsizes or {})}, cbir, cbsizes)
    return p


def wrapper(argv, env=None, plan="exit 0", compiler=None, timeout=60):
    """runs the tool as rustc's wrapper around a stand-in compiler; -> (rc, out, err, what the compiler was started with or None)"""
    d = tempfile.mkdtemp(dir=TMP)
    put(d + "/rustc", "#!/bin/sh\n: > %s/argv\nfor a in \"$@\"; do printf '%%s\\n' \"$a\" >> %s/argv; done\n%s\n" % (d, d, plan), 0o755)
    e = {"PATH": "/usr/bin:/bin", "CARGO_CALL_STACK_RUSTC_WRAPPER": "1"}
    e.update(env or {})
    p = subprocess.run([TOOL, compiler or d + "/rustc"] + argv, cwd=d, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    got = open(d + "/argv", "rb").read().split(b"\n")[:-1] if os.path.exists(d + "/argv") else None
    return p.returncode, p.stdout, p.stderr, got


def check(cond, what):
    if not cond:
        print("NOT SO: " + what)
        sys.exit(1)
