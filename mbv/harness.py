"""Runs the real `cargo-call-stack` binary, built from /repo's working tree, inside a scratch project
whose `cargo` and `rustc` are stand-ins: the stand-in `cargo` leaves behind exactly the artifacts the
driver synthesized, so the whole tool -- argument handling, artifact selection, IR parsing, symbol and
machine-code analysis, graph, output -- is exercised through its real command line."""
import glob
import hashlib
import os
import re
import shutil
import struct
import subprocess
import sys
import tempfile
import threading
import concurrent.futures as cf
import random
import zlib

from . import elfgen, irgen

REPO = os.environ.get("CCS_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, ".build")
GOOD_HASH = "2b603f95a48f10f931a61dd208fe3e5ffd64e491"
UNSUP_KEY = "CARGO_CALL_STACK_UNSPPORTED_NIGHTLY"
UNSUP_VAL = "I won't open issues about unsupported toolchains"


class ToolError(Exception):
    """the machinery (not the code under test) failed: exit 2"""


MEMBER = ["compiler_builtins-e5098d86.compiler_builtins.e5098d86-cgu.%d.rcgu.o", "compiler_builtins-e5098d86.%d.o", "compiler_builtins%d.o", "compiler_builtins-%d.compiler_builtins.0123456789abcdef-cgu.0.rcgu.o", "%d.compiler_builtins.rcgu.o"]


def tree_digest():
    """what the tool is built from"""
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "target"))
        for n in sorted(files):
            p = os.path.join(root, n)
            h.update(os.path.relpath(p, REPO).encode() + b"\0")
            if os.path.isfile(p):
                with open(p, "rb") as f:
                    h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()


def build(log=sys.stderr):
    env = dict(os.environ)
    env.update(HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", RUSTUP_AUTO_INSTALL="0",
               CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_CACHE_AUTO_CLEAN_FREQUENCY="never",
               CARGO_TARGET_DIR=os.path.join(BUILD, "target"), CARGO_PROFILE_DEV_DEBUG="line-tables-only")
    env["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    for k in ("CARGO_INCREMENTAL", "RUSTFLAGS", "CARGO_BUILD_TARGET"):
        env.pop(k, None)
    os.makedirs(BUILD, exist_ok=True)
    import fcntl
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp, now = os.path.join(BUILD, "built-from"), tree_digest()
        if not os.path.exists(stamp) or open(stamp).read() != now:
            # cargo goes by modification times, and takes two copies of the repository for the same package
            for d in glob.glob(os.path.join(BUILD, "target", "debug", ".fingerprint", "cargo-call-stack-*")):
                shutil.rmtree(d)
            if os.path.exists(stamp):
                os.unlink(stamp)
        p = subprocess.run(["cargo", "build", "--offline", "--locked", "--bin", "cargo-call-stack"], cwd=REPO, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise ToolError("cargo build of %s failed:\n%s" % (REPO, p.stdout[-4000:]))
        with open(stamp, "w") as f:
            f.write(now)
        src = os.path.join(BUILD, "target", "debug", "cargo-call-stack")
        d = tempfile.mkdtemp(prefix="ccs-bin-")
        dst = os.path.join(d, "cargo-call-stack")
        subprocess.run(["cp", src, dst], check=True)
    return dst


# ---------------------------------------------------------------------------------------------- targets
TARGETS = {
    "v6m": ("thumbv6m-none-eabi", 32, "arm"),
    "v7m": ("thumbv7m-none-eabi", 32, "arm"),
    "v7em": ("thumbv7em-none-eabi", 32, "arm"),
    "v7emhf": ("thumbv7em-none-eabihf", 32, "arm"),
    "x64": ("x86_64-unknown-linux-gnu", 64, "x86_64"),
    "a64": ("aarch64-unknown-none", 64, "aarch64"),
    "v7r": ("armv7r-none-eabi", 32, "arm"),
    # machine code of these isn't analyzed, although functions of the first have the thumb bit set in their values
    "v8m": ("thumbv8m.main-none-eabi", 32, "arm"),
    "rv32": ("riscv32imac-unknown-none-elf", 32, "riscv"),
}
OTHER = ["x64", "a64", "v7r", "v8m", "rv32"]
THUMB = {"v6m", "v7m", "v7em", "v7emhf"}

RUSTC_SH = r"""#!/bin/sh
case "$1" in
 -vV) echo "rustc 1.76.0-nightly (2b603f95a 2023-11-12)
binary: rustc
commit-hash: ${FAKE_HASH:-2b603f95a48f10f931a61dd208fe3e5ffd64e491}
commit-date: 2023-11-12
host: x86_64-unknown-linux-gnu
release: 1.76.0-nightly
LLVM version: 17.0.4";;
 *) os=none; arch=arm
    case "$*" in *linux*) os=linux;; esac
    case "$*" in *windows*) os=windows; echo 'target_family="windows"';; esac
    case "$*" in *x86_64*) arch=x86_64;; *aarch64*) arch=aarch64;; *wasm32*) arch=wasm32;; esac
    echo "panic=\"abort\"
target_abi=\"eabi\"
target_arch=\"$arch\"
target_endian=\"little\"
target_env=\"\"
target_os=\"$os\"
target_pointer_width=\"32\"
target_vendor=\"unknown\"";;
esac
"""
CARGO_SH = r"""#!/bin/sh
if [ -f "$FAKE_DIR/cargo.hook" ]; then . "$FAKE_DIR/cargo.hook"; exit $?; fi
echo "   Compiling app v0.1.0" >&2
echo "@CARGO_CALL_STACK:compiler_builtins_ll_path@$FAKE_DIR/cb.ll" >&2
echo "@CARGO_CALL_STACK:compiler_builtins_rlib_path@$FAKE_DIR/libcompiler_builtins-0.rlib" >&2
exit 0
"""


def write(path, data):
    with open(path, "wb") as f:
        f.write(data.encode("utf-8") if isinstance(data, str) else data)


def executable(path, text=None, src=None):
    """written by a process of its own: were it open for writing here, a process that another thread starts meanwhile would
    inherit the open file, and the kernel starts no file that is open for writing anywhere ("text file busy")"""
    subprocess.run(["sh", "-c", 'cat >"$1" && chmod 755 "$1"', "sh", path] if text is not None else ["cp", src, path],
                   input=text.encode() if text is not None else b"", check=True)


class Box:
    """one scratch project; not shared between threads"""

    def __init__(self, root, binary):
        self.root = root
        self.binary = binary
        self.proj = os.path.join(root, "proj")
        self.fake = os.path.join(root, "fake")
        os.makedirs(os.path.join(self.proj, "src"))
        os.makedirs(self.fake)
        write(os.path.join(self.proj, "Cargo.toml"), '[package]\nname = "app"\nversion = "0.1.0"\nedition = "2018"\n')
        write(os.path.join(self.proj, "src", "main.rs"), "fn main() {}\n")
        for n, s in (("rustc", RUSTC_SH), ("cargo", CARGO_SH)):
            executable(os.path.join(self.fake, n), s)
        self.env = {"PATH": self.fake + ":/usr/bin:/bin", "HOME": root, "FAKE_DIR": self.fake, "LC_ALL": "C",
                    "RUST_BACKTRACE": "0"}

    def exdir(self, tgt):
        d = os.path.join(self.proj, "target", TARGETS[tgt][0], "release", "examples")
        os.makedirs(d, exist_ok=True)
        return d

    def install(self, art, tgt):
        d = self.exdir(tgt)
        write(os.path.join(d, "app"), art["elf"])
        write(os.path.join(d, "app-0123456789abcdef.ll"), art["ll"])
        write(os.path.join(d, "app-0123456789abcdef.o"), art["o"])
        write(os.path.join(self.fake, "cb.ll"), art["cbll"])
        write(os.path.join(self.fake, "libcompiler_builtins-0.rlib"), art["rlib"])

    def exec(self, args, env=None, cwd=None, timeout=120, binary=None):
        e = dict(self.env)
        if env:
            e.update(env)
        try:
            p = subprocess.run([binary or self.binary] + args, cwd=cwd or self.proj, env=e, stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        except subprocess.TimeoutExpired:
            return None, "", "timeout"
        return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")

    def run_case(self, case):
        """case: normalized; -> the raw run"""
        art = artifacts(case)
        self.install(art, case["tgt"])
        return self.exec(self.args(case))

    def args(self, case):
        return ["--example", "app", "--target", TARGETS[case["tgt"]][0]]


def standin():
    """builds the stand-in compiler/cargo; -> its path"""
    src = os.path.join(VERIF, "tools", "standin.c")
    dst = os.path.join(BUILD, "standin")
    import fcntl
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(dst) or os.path.getmtime(dst) < os.path.getmtime(src):
            p = subprocess.run(["gcc", "-O1", "-o", dst + ".new", src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0:
                raise ToolError("gcc: " + p.stdout)
            os.rename(dst + ".new", dst)
    return dst


class Stand:
    """a scratch directory with a stand-in executable in it; everything is bytes, shown as latin-1"""

    def __init__(self, root, name="standin"):
        self.dir = root
        os.makedirs(root, exist_ok=True)
        self.exe = os.path.join(root, name)
        executable(self.exe, src=standin())

    def plan(self, exit="exit 0", out=b"", err=b"", stat=(), copy=(), stdin=False):
        for f in os.listdir(self.dir):
            if f.startswith(("rec.", "plan.", "in.")):
                os.unlink(os.path.join(self.dir, f))
        put = lambda n, b: write(os.path.join(self.dir, n), b)
        put("plan.exit", exit + "\n")
        if stdin:
            put("plan.stdin", b"")
        if out:
            put("plan.out", out)
        if err:
            put("plan.err", err)
        if stat:
            put("plan.stat", "".join(p + "\n" for p in stat))
        if copy:
            put("plan.copy", "".join(a + "\n" + b + "\n" for a, b in copy))

    def recs(self):
        """[{argv, cwd, env, stat}], in the order of the starts"""
        out = []
        while os.path.exists(p := os.path.join(self.dir, "rec.%d" % len(out))):
            w = open(p, "rb").read().decode("latin-1").split("\0")
            n = int(w[0])
            e = w.index("", n + 2) if "" in w[n + 2:] else len(w)
            out.append({"argv": w[1:n + 1], "cwd": w[n + 1], "env": w[n + 2:e], "stat": w[e + 1:-1],
                        "stdin": open(q, "rb").read() if os.path.exists(q := p.replace("/rec.", "/in.")) else None})
        return out


class Pool:
    def __init__(self, binary, n=None):
        self.binary = binary
        self.n = n or min(8, os.cpu_count() or 4)
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
        self.root = tempfile.mkdtemp(prefix="ccs-box-", dir=base)
        standin()
        self.local = threading.local()
        self.cnt = 0
        self.lock = threading.Lock()

    def box(self):
        b = getattr(self.local, "box", None)
        if b is None:
            with self.lock:
                self.cnt += 1
                i = self.cnt
            b = Box(os.path.join(self.root, "b%d" % i), self.binary)
            self.local.box = b
        return b

    def map(self, fn, items):
        """fn(box, item) over items, in order of items"""
        with cf.ThreadPoolExecutor(self.n) as ex:
            return list(ex.map(lambda it: fn(self.box(), it), items))

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)
        shutil.rmtree(os.path.dirname(self.binary), ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


# ---------------------------------------------------------------------------------------------- concretize
NOP = 0xBF00


def normalize(case):
    """fills in every field the specification reads; idempotent"""
    c = dict(case)
    thumb = c["tgt"] in THUMB
    for k in ("tags", "undef", "szApp", "szCb", "defApp", "defCb", "decl", "declCb", "code", "secs", "nm"):
        c.setdefault(k, [])
    c["tags"] = sorted(c["tags"], key=lambda t: t["a"])
    c["syms"] = [dict({"sz": 2, "local": False}, **s) for s in c["syms"]]
    c.setdefault("start", "")
    c.setdefault("may", False)
    fa = sorted({s["a"] for s in c["syms"] if s["t"] == "F"})
    if thumb:
        have = {x["a"]: list(x["hw"]) for x in c["code"]}
        sz = {}
        for s in c["syms"]:
            if s["t"] == "F":
                sz.setdefault(s["a"], s["sz"])
        for a in fa:
            n = sz[a] // 2
            hw = have.setdefault(a, [])
            hw += [NOP] * (n - len(hw))
        if not c["secs"]:
            lo = min(have)
            hi = max(a + 2 * len(h) for a, h in have.items())
            c["secs"] = [{"name": ".text", "lo": lo & ~3, "hi": max(hi, lo + 4)}]
        # code of size-less symbols: up to the next function or the end of the section
        image = {}
        for a, h in have.items():
            for i, w in enumerate(h):
                image[a + 2 * i] = w
        for a in fa:
            if sz[a] == 0:
                sec = [s for s in c["secs"] if s["lo"] <= a < s["hi"]][0]
                nxt = min([b for b in fa if b > a] + [sec["hi"]])
                lim = min(nxt, sec["hi"])
                have[a] = [image.get(x, NOP) for x in range(a, lim, 2)]
        c["code"] = [{"a": a, "hw": have[a]} for a in sorted(have)]
    elif not c["secs"] and fa:
        c["secs"] = [{"name": ".text", "lo": fa[0] & ~15, "hi": fa[-1] + 64}]
    for k in ("defApp", "defCb"):
        c[k] = [dict(d, st=[dict(s) for s in d["st"]]) for d in c[k]]
        for d in c[k]:
            for s in d["st"]:
                s.setdefault("f", "")
                s.setdefault("g", {"ins": [], "out": []})
    return c


def artifacts(case):
    """abstract (normalized) case -> bytes of the five artifacts"""
    tgt = case["tgt"]
    triple, bits, machine = TARGETS[tgt]
    thumb = tgt in THUMB
    bit = 1 if thumb or tgt == "v8m" else 0
    e = elfgen.Elf(bits, machine, elfgen.ET_EXEC)
    secidx = []
    if case.get("fillsec"):
        e.section(".rodata", elfgen.SHT_PROGBITS, 2, 0x200, b"\xff" * 16, align=4)
    for s in case["secs"]:
        if thumb:
            n = (s["hi"] - s["lo"]) // 2
            img = bytearray(b"\x00\xbf" * n)
            for x in case["code"]:
                if s["lo"] <= x["a"] < s["hi"]:
                    o = x["a"] - s["lo"]
                    b = struct.pack("<%dH" % len(x["hw"]), *x["hw"])
                    img[o:o + len(b)] = b
            data = bytes(img)
        else:
            data = b"\x90" * min(64, s["hi"] - s["lo"])
        idx = e.section(s["name"], elfgen.SHT_PROGBITS, 6 if s["name"] != ".data" else 7, s["lo"], data, align=2)
        secidx.append((s["lo"], s["hi"], idx))

    def shndx(a):
        for lo, hi, i in secidx:
            if lo <= a < hi:
                return i
        return secidx[0][2]

    e.symbol("app.e7riqz8u-cgu.0", 0, 0, elfgen.STT_FILE, elfgen.STB_LOCAL, 0xFFF1)
    tags = list(case["tags"])
    mix = zlib.crc32(repr(tags).encode())
    if mix % 3 == 0:
        random.Random(mix).shuffle(tags)   # objects are not linked in the order of anything
    for i, t in enumerate(tags):
        nm = "$" + t["k"] + ("" if i % 3 == 0 else ".%d" % i)
        e.symbol(nm, t["a"], 0, elfgen.STT_NOTYPE, elfgen.STB_LOCAL, shndx(t["a"]))
    for s in case["syms"]:
        a = s["a"]
        if s["t"] == "F":
            e.symbol(s["name"], a | bit, s["sz"], elfgen.STT_FUNC,
                     elfgen.STB_LOCAL if s.get("local") else elfgen.STB_GLOBAL, shndx(a))
        elif s["t"] == "O":
            e.symbol(s["name"], a, s["sz"], elfgen.STT_OBJECT, elfgen.STB_GLOBAL, shndx(a))
        else:
            e.symbol(s["name"], a, 0, elfgen.STT_NOTYPE, elfgen.STB_GLOBAL, shndx(a))
    for u in case["undef"]:
        e.symbol(u["name"] + u.get("ver", ""), 0, 0, elfgen.STT_FUNC, elfgen.STB_GLOBAL, 0)
    rng = random.Random(case["style"]) if case.get("style") is not None else None
    sc = case.get("scale", 1)
    o = elfgen.stack_object(bits, machine, [(x["name"], x["n"] * sc) for x in case["szApp"]],
                            {x["name"]: x["al"] for x in case["szApp"] if x.get("al")})
    members = [("lib.rmeta", b"rust\0meta")]
    cbn = case.get("cbMembers", 1)
    szcb = case["szCb"]
    for i in range(cbn):
        part = [(x["name"], x["n"] * sc) for j, x in enumerate(szcb) if j % cbn == i]
        members.append((MEMBER[case.get("cbName", 0)] % i,
                        elfgen.stack_object(bits, machine, part)))
    for nm in case.get("arNoise", []):
        bogus = elfgen.stack_object(bits, machine, [(x["name"], x["n"] * sc + 4) for x in szcb] or [("noise", 4)])
        members.append((nm, bogus if nm.endswith(".o") else b"not an object"))
    rlib = elfgen.ar_archive(members)
    ll = case.get("ll")
    if ll is None:
        ll = irgen.module(case["defApp"], case["decl"], rng, case.get("items", ()))
    cbll = irgen.module(case["defCb"], case["declCb"], rng)
    return {"elf": e.emit(), "ll": ll, "o": o, "cbll": cbll, "rlib": rlib}


# ---------------------------------------------------------------------------------------------- observe
NODE = re.compile(r"^    (\d+) \[label=\"(.*)\"( style=dashed)?\]$")
EDGE = re.compile(r"^    (\d+) -> (\d+)$")
LABEL = re.compile(r"^(.*?)(?:\\nmax (=|>=) (\d+))?\\nlocal = (\d+|\?)$", re.S)


def unescape(s):
    out, i = [], 0
    while i < len(s):
        if s[i] == "\\" and i + 1 < len(s) and s[i + 1] in '"\\':
            out.append(s[i + 1])
            i += 2
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


def parse_dot(text, scale=1, raw=False):
    """the DOT graph the tool printed -> {nodes, edges, clusters}; raises ValueError when it is not one"""
    lines = text.split("\n")
    if lines[0] != "digraph {" or lines[-1] != "" or lines[-2] != "}":
        raise ValueError("not a digraph: %r" % text[:80])
    nodes, edges, clusters = [], [], []
    cur = None
    for ln in lines[1:-2]:
        if cur is not None:
            t = ln.strip()
            if t == "}":
                clusters.append(cur)
                cur = None
            elif t.isdigit():
                cur.append(int(t))
            elif "=" not in t:
                raise ValueError("cluster line %r" % ln)
            continue
        m = NODE.match(ln)
        if m:
            if int(m.group(1)) != len(nodes):
                raise ValueError("node ids are not consecutive")
            lm = LABEL.match(m.group(2))
            if not lm:
                raise ValueError("label %r" % ln)
            loc = lm.group(4)

            def sc(n):
                n = int(n)
                if n % scale:
                    return -2  # not a multiple of the scale: cannot be right
                return n // scale

            lab = unescape(lm.group(1))
            if m.group(3) is not None:
                lab = lab.replace(" ", "")  # blanks in a signature carry no meaning
            nodes.append({"label": lab,
                          "mk": {"=": "eq", ">=": "ge", None: "none"}[lm.group(2)],
                          "mn": sc(lm.group(3)) if lm.group(2) else 0,
                          "lx": loc != "?", "ln": sc(loc) if loc != "?" else 0,
                          "dashed": m.group(3) is not None})
            if raw:
                nodes[-1]["raw"] = lm.group(1)
            continue
        m = EDGE.match(ln)
        if m:
            edges.append([int(m.group(1)), int(m.group(2))])
            continue
        if ln.strip().startswith("subgraph"):
            cur = []
            continue
        if ln.strip() == "" or ln.strip().startswith("node ["):
            continue
        raise ValueError("line %r" % ln)
    n = len(nodes)
    for a, b in edges:
        if a >= n or b >= n:
            raise ValueError("dangling edge %d -> %d" % (a, b))
    # 1-based for TLA+
    return {"nodes": nodes, "edges": [[a + 1, b + 1] for a, b in edges], "clusters": [[x + 1 for x in c] for c in clusters]}


# what the tool says about the program: kind, pattern (what it is about)
NOTICES = [(k, re.compile(p, re.S)) for k, p in [
    ("asm", r"^assuming that asm!\(\".*\"\) does \*not\* use the stack in `(.*)`$"),
    ("untyped", r"^no type information for `(.*)`$"),
    ("nostack", r"^no stack (?:usage )?information for `(.*)`$"),
    ("lowers", r"^assuming that `(.*)` directly lowers to machine code$"),
    ("overridden", r"^LLVM reported that `(.*)` uses \d+ bytes of stack but .* overriding LLVM's result"),
    ("blind", r"^`(.*)` performs an indirect function call and there's no type information"),
    ("nobody", r"^BUG\? no callees for `(.*)`$"),
    ("unbounded", r"indirect function calls can not be bounded()$"),
    ("nomax", r"zero stack usage information()"),
    ("nostart", r"^start point not found()")]]
LOGGED = re.compile(r"^\[[-0-9T:Z]+ (?:WARN|ERROR) +cargo_call_stack[^\]]*\] (.*)$")


def told(err):
    """the notices in what the tool wrote to stderr"""
    out = []
    for l in err.split("\n"):
        m = LOGGED.match(l)
        if not m:
            continue
        for k, p in NOTICES:
            h = p.search(m.group(1))
            if h:
                n = h.group(1)
                x = {"k": k, "n": n.replace(" ", "") if k == "nobody" else n}
                if x not in out:
                    out.append(x)
                break
    return out


def record(rid, case, run):
    return {"id": rid, "c": case, "o": observe(case, *run)}


def missing(line, case):
    """whether the line is about the missing stack usage of an undefined symbol: it is only there if the symbol is
    met in a bitcast first, which is by chance"""
    m = LOGGED.match(line)
    h = m and dict(NOTICES)["nostack"].search(m.group(1))
    return bool(h) and any(u["name"] == h.group(1) for u in case["undef"])


def observe(case, rc, out, err, raw=False):
    """what one run showed, as the record the trace specification reads"""
    o = {"rc": rc if rc is not None else -99, "ok": False, "nodes": [], "edges": [], "clusters": [], "note": "",
         "graph": False, "errn": err.count("\n") - sum(missing(l, case) for l in err.split("\n"))}
    if "digraph" in out:
        o["graph"] = True
    if rc == 0:
        try:
            g = parse_dot(out, case.get("scale", 1), raw)
            o.update(g)
            o["ok"] = True
        except ValueError as ex:
            o["note"] = "unreadable output: %s" % ex
    else:
        o["note"] = err.strip()[-400:]
    return o
