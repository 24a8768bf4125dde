"""Scenes for the whole tool: a scratch project with sources, artifacts of earlier builds, a configuration, a toolchain
and a planned build; one run of the tool in it; the record of everything that could be seen."""
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import time

from . import harness, irgen
from .harness import GOOD_HASH, THUMB, UNSUP_KEY, UNSUP_VAL, normalize
from .runners import MARK

HOST = "x86_64-unknown-linux-gnu"
OS = {HOST: "linux", "thumbv6m-none-eabi": "none", "thumbv7m-none-eabi": "none", "thumbv7em-none-eabi": "none", "thumbv7em-none-eabihf": "none",
      "aarch64-unknown-none": "none", "armv7r-none-eabi": "none", "armv7-unknown-linux-gnueabihf": "linux", "x86_64-unknown-uefi": "uefi",
      "thumbv7neon-unknown-linux-gnueabihf": "linux", "x86_64-unknown-none": "none", "aarch64-apple-darwin": "macos", "x86_64-unknown-nonesuch": "nonesuch",
      "thumbv8m.main-none-eabi": "none", "riscv32imac-unknown-none-elf": "none"}
TGT = {HOST: "x64", "thumbv6m-none-eabi": "v6m", "thumbv7m-none-eabi": "v7m", "thumbv7em-none-eabi": "v7em", "thumbv7em-none-eabihf": "v7emhf",
       "aarch64-unknown-none": "a64", "armv7r-none-eabi": "v7r", "thumbv8m.main-none-eabi": "v8m", "riscv32imac-unknown-none-elf": "rv32"}
RUSTC = """#!/bin/sh
case "$1" in -vV) cat "$FAKE_DIR/vv"; exit $(cat "$FAKE_DIR/vvrc");; esac
t=
while [ $# -gt 0 ]; do case "$1" in --target) t="$2";; --target=*) t="${1#--target=}";; esac; shift; done
cat "$FAKE_DIR/cfg.${t:-host}"
"""


def cfgtext(t):
    os_ = OS[t]
    return "".join(x + "\n" for x in ['debug_assertions', 'panic="abort"', 'target_abi="none"', 'target_arch="%s"' % t.split("-")[0], 'target_endian="little"',
                                      'target_env="none"', 'target_has_atomic="8"', 'target_os="%s"' % os_, 'target_pointer_width="32"', 'target_vendor="none"']
                   + (["unix"] if os_ in ("linux", "macos") else []))


def sig(n):
    return {"ins": [{"k": "int", "n": n}], "out": []}


_ART = {}


def artifact(tgt, b, what):
    """the bytes of one artifact of build b; what is in it names the build"""
    k = (tgt, b, what)
    if k not in _ART:
        thumb = tgt in THUMB
        cb = b >= 100
        syms = [{"name": "main", "a": 0x1000, "t": "F", "sz": 8}, {"name": "elf_%d" % b, "a": 0x1008, "t": "F", "sz": 8},
                {"name": "cbf", "a": 0x1010, "t": "F", "sz": 8}]
        st = lambda n: [{"k": "indirect", "g": sig(n)}]
        case = {"tgt": tgt, "syms": syms,
                "defApp": [{"name": "main", "sig": {"ins": [], "out": []}, "st": st(b)}] if not cb else [],
                "defCb": [{"name": "cbf", "sig": {"ins": [], "out": []}, "st": st(b)}] if cb else [],
                "szApp": [{"name": "main", "n": 8 * b}] if not cb else [], "szCb": [{"name": "cbf", "n": 8 * b}] if cb else []}
        if thumb:
            # main: bl elf_b; add sp, r0; bx lr    (offset: 0x1008 - (0x1000 + 4) = 4); the stack usage is not in the code
            case["code"] = [{"a": 0x1000, "hw": [0xF000, 0xF802, 0x4485, 0x4770]}, {"a": 0x1008, "hw": [0x4770, 0xBF00, 0xBF00, 0xBF00]},
                            {"a": 0x1010, "hw": [0x4485, 0x4770, 0xBF00, 0xBF00]}]
        art = harness.artifacts(normalize(case))
        for n, v in art.items():
            _ART[(tgt, b, {"elf": "elf", "ll": "ll", "o": "o", "cbll": "cbll", "rlib": "rlib"}[n])] = v.encode() if isinstance(v, str) else v
    return _ART[k]


BAD = {"elf": b"#!/bin/sh\nexit 0\n", "ll": b"this is not IR at all (\n)) {{ <html>\n", "o": b"not an object\n" * 20, "cbll": b"this is not IR at all (\n)) {{ <html>\n",
       "rlib": b"not an archive, just some text that goes on and on\n" * 8}
LAYOUTS = {
    "main": ("bin", ["src/main.rs"], "app"), "main+lib": ("bin", ["src/main.rs", "src/lib.rs"], "app"),
    "lib+ex": ("example", ["src/lib.rs", "examples/F.rs"], None), "main+ex": ("example", ["src/main.rs", "examples/F.rs"], None),
    "exdir": ("example", ["src/lib.rs", "examples/F/main.rs"], None), "exdir+main": ("example", ["src/main.rs", "examples/F/main.rs"], None),
    "ex": ("example", ["examples/F.rs"], None), "exonlydir": ("example", ["examples/F/main.rs"], None),
    "srcbin": ("bin", ["src/bin/F.rs"], None), "srcbin+main": ("bin", ["src/main.rs", "src/bin/F.rs"], None),
    "srcbindir": ("bin", ["src/bin/F/main.rs"], None), "srcbindir+lib": ("bin", ["src/lib.rs", "src/bin/F/main.rs"], None),
    "srcbindir+main": ("bin", ["src/main.rs", "src/bin/F/main.rs"], None), "bin-ex": ("bin", ["src/main.rs", "src/bin/F.rs", "examples/F.rs"], None),
    "ex-bin": ("example", ["src/main.rs", "src/bin/F.rs", "examples/F.rs"], None),
    "custom": ("example", ["demo/F.rs"], None), "custom-bin": ("bin", ["app/start.rs"], None), "custom+main": ("example", ["src/main.rs", "demo/F.rs"], None),
    "custom-bin+main": ("bin", ["src/main.rs", "tools/F.rs"], None), "customsrc": ("bin", ["src/weird/F.rs", "src/other.rs"], None),
    "custom+lib": ("example", ["src/lib.rs", "demo/F.rs"], None), "renamed": ("bin", ["src/main.rs"], None), "deep": ("bin", ["src/a/b/c/d/F.rs"], None),
}
NOISE = ["src/util.rs", "examples/other.rs", "build.rs", "tests/t.rs", "README.md", "memory.x", "src/main.rs.bak", "src/bin/other.rs", "benches/b.rs", "src/data.bin"]


def scene(r, kind=None, file=None, layout=None, builds=None, tc="supported", ar=None, out=("exit", 0), an="both", fa="none", flag=None, conf=None,
          feats=None, allf=None, verbose=None, said=None, simple=False):
    """a random scene with the given parts fixed; plain JSON"""
    if layout is None:
        layout = r.choice([k for k, v in LAYOUTS.items() if kind in (None, v[0]) and (file is None or v[2] in (None, file))])
    k0, srcs, pkg = LAYOUTS[layout]
    kind = kind or k0
    file = file or pkg or r.choice(["app", "my-app", "x", "a-b-c", "my_app", "start-me-9"])
    if builds is not None:
        flag = builds[-1]["triple"]
    if flag is None:
        flag = r.choice(["", r.choice(sorted(TGT)), r.choice(sorted(TGT))])
    if conf is None:
        conf = r.choice(["", "", r.choice(sorted(TGT))]) if builds is None or flag else ""
    triple = flag or conf or HOST
    tenv = tconf = ""
    ws = r.random() < 0.25
    if not simple:
        k = r.random()
        if k < 0.2:
            tenv = r.choice(["elsewhere", "ws/app/target2", "my.llvm/x.ll", "rel.o/release/examples", "deps"])
        if 0.1 < k < 0.35:
            tconf = r.choice(["by-config", "by.ll", "release"])
    s = {"tc": tc, "ar": ar or kind, "kind": kind, "file": file, "flag": flag, "conf": conf, "host": HOST, "os": OS[triple], "tenv": tenv, "tconf": tconf, "ws": ws,
         "cwd": r.choice(["", "", "sub", "src"]) if not simple else "", "out": {"k": out[0], "n": out[1]}, "full": fa == "full", "an": an, "fa": fa,
         "feats": feats if feats is not None else r.choice([[], [], ["a"], ["a b,c"], [""], ["--odd"]]), "allf": allf if allf is not None else r.random() < 0.25,
         "verbose": verbose if verbose is not None else r.random() < 0.25, "layout": layout, "pkg": pkg or r.choice(["pkg", "the-pkg"]),
         "format": r.choice(["", "", "dot"]), "seed": r.randrange(1 << 30), "during": r.random() < 0.3, "sub": r.random() < 0.3}
    s["srcs"] = [p.replace("F", file) for p in srcs]
    root = {"bin": [p for p in s["srcs"] if p not in ("src/main.rs", "src/lib.rs", "examples/%s.rs" % file)], "example": [p for p in s["srcs"] if not p.startswith("src/")]}[kind]
    if layout in ("renamed", "main", "main+lib"):
        root = ["src/main.rs"]
    s["root"] = root[0]
    s["noise"] = sorted(r.sample(NOISE, r.randrange(5)))
    s["noise"] = [x for x in s["noise"] if x not in s["srcs"]]
    base = tenv or tconf or ("ws/target" if ws else "ws/app/target")
    tgt = TGT.get(triple)
    files = {}

    def put(p, k, b, t):
        files[p] = {"p": p, "k": k, "b": b, "t": t, "ok": True}

    def left(bd, b, t):
        rel = base + ("/" + bd["triple"] if bd["triple"] else "") + "/release"
        put(rel + ("/examples/" if bd["kind"] == "example" else "/") + bd["name"], "elf", b, t)
        if bd["emits"]:
            stem = rel + ("/examples/" if bd["kind"] == "example" else "/deps/") + bd["name"].replace("-", "_") + "-" + bd["hash"]
            put(stem + ".ll", "ll", b, t)
            put(stem + ".o", "o", b, t)
            put(stem + ".d", "junk", b, t)
            return stem

    hx = lambda: "%016x" % r.getrandbits(64)
    mine = {"name": file, "triple": flag or conf, "kind": kind, "hash": hx(), "emits": True}
    if builds is not None:
        hashes = {}
        for i, bd in enumerate(builds):
            bd = dict(bd, hash=hashes.setdefault(bd["hash"], hx()))
            stem = left(bd, i + 1, i + 1)
        nb = len(builds)
    else:
        nb = 0
        names_ = [file, file.replace("-", "_"), file + "_x", file + "-x", "x" + file, file[:-1] or "q", "other", file + "2", file + "-" + hx()[:4], "lib" + file]
        for _ in range(r.randrange(6)):
            nb += 1
            bd = {"name": r.choice(names_), "kind": r.choice(["bin", "example", kind]), "hash": hx(), "emits": r.random() < 0.8,
                  "triple": r.choice([flag or conf, flag or conf, flag, conf, "thumbv7m-none-eabi", ""])}
            left(bd, nb, r.randrange(1, 50) * 10 + nb)
        nb += 1
        stem = left(mine, nb, r.choice([999, 999, r.randrange(1, 50) * 10 + nb]))
        # IR and objects that do not belong together, or to anybody
        for _ in range(r.randrange(3)):
            nb += 1
            d = os.path.dirname(stem)
            c = file.replace("-", "_")
            p = d + "/" + r.choice([c + "_x-" + hx() + ".ll", c + "-" + hx() + ".ll.bak", c + "-" + hx() + ".bc", c + hx() + ".ll", "x" + c + "-" + hx() + ".ll", c + "-" + hx() + ".o", c + ".ll",
                                    "lib" + c + "-" + hx() + ".ll", c + "-" + hx() + r.choice([".llo", ".ll2", ".ll~", ".l", ".LL", ".ll.o"])])
            if p not in files:
                put(p, "o" if p.endswith(".o") else "ll", nb, 2000 + nb)
        if r.random() < 0.2:
            nb += 1
            left(dict(mine, hash=hx(), triple=mine["triple"] + "-x" if mine["triple"] else "debug-like"), nb, 3000)
    # compiler_builtins
    ch = hx()
    cl = base + "/" + (flag or conf or "release") + "/release/deps/compiler_builtins-%s.ll" % ch
    cr = base + "/" + (flag or conf or "release") + "/release/deps/libcompiler_builtins-%s.rlib" % r.choice([ch, hx()])
    put(cl, "cbll", 101, 5)
    put(cr, "rlib", 102, 5)
    if r.random() < 0.4:
        put(cl.replace("compiler_builtins-", "compiler_builtins-0"), "cbll", 103, 900)
        put(cr.replace("compiler_builtins-", "compiler_builtins-0"), "rlib", 104, 900)
    if r.random() < 0.4:
        # the same stems with the other endings; nobody announced those
        put(cr[:-5] + ".ll", "cbll", 105, 900)
        put(cl[:-3] + ".rlib", "rlib", 106, 900)
        put(os.path.dirname(cl) + "/lib" + os.path.basename(cl)[:-3] + ".rlib", "rlib", 107, 900)
    # faults
    sel = {"elf": base + ("/" + mine["triple"] if mine["triple"] else "") + "/release" + ("/examples/" if kind == "example" else "/") + file, "cbll": cl, "rlib": cr}
    if fa != "none" and fa != "full":
        how, what = fa.split("-")
        if what in sel:
            victims = [sel[what]]
        else:
            victims = [p for p in files if p.endswith("." + what) and p.startswith(os.path.dirname(stem) + "/" + file.replace("-", "_") + "-")]
        for p in victims:
            if how == "no":
                del files[p]
            else:
                files[p]["ok"] = False
                files[p]["how"] = how
    s["disk"] = list(files.values())
    # what the build writes to stderr
    if said is None:
        said = [r.choice(["   Compiling app v0.1.0", "", "\x1b[1m\x1b[32m   Compiling\x1b[0m core", "warning: unused", " " + MARK + "compiler_builtins_ll_path@/nowhere", "@CARGO_CALL_STACK", "note: " + MARK + "compiler_builtins_rlib_path@/nowhere",
                          "\xff\xfe", "caf\xc3\xa9", "error: bad\r", "\t^^^", "a" * 300, "\x1b[31m" + MARK + "x"]) for _ in range(r.randrange(6))]
    said = list(said)
    rl, llm = MARK + "compiler_builtins_rlib_path@", MARK + "compiler_builtins_ll_path@"
    if an in ("both", "no-rlib"):
        said.insert(r.randrange(len(said) + 1), llm + "@ROOT@/" + cl)
    if an in ("both", "no-ll"):
        for _ in range(r.choice([1, 1, 2, 3])):
            said.insert(r.randrange(len(said) + 1), rl + "@ROOT@/" + cr)
    s["said"] = said
    s["endl"] = r.random() < 0.85
    return s


def argv(s):
    r = random.Random(s["seed"])
    a = []
    eq = lambda o, v: r.choice([[o, v], [o + "=" + v]]) if v and not v.startswith("-") else [o + "=" + v]
    if s["flag"]:
        a.append(eq("--target", s["flag"]))
    if s["ar"] in ("example", "both") or (s["ar"] not in ("bin", "neither") and s["kind"] == "example"):
        a.append(eq("--example", s["file"]))
    if s["ar"] in ("bin", "both") or (s["ar"] not in ("example", "neither") and s["kind"] == "bin"):
        a.append(eq("--bin", s["file"]))
    if s["feats"]:
        a.append(eq("--features", s["feats"][0]))
    if s["allf"]:
        a.append(["--all-features"])
    if s["verbose"]:
        a.append([r.choice(["-v", "--verbose"])])
    if s["format"]:
        a.append(eq("--format", s["format"]))
    if s["ar"] == "unknown-option":
        a.append(["--nonsense"])
    if s["ar"] == "unknown-format":
        a.append(["--format=svg"]) if not s["format"] else a.append(["--formt=dot"])
    r.shuffle(a)
    return (["call-stack"] if s["sub"] else []) + [x for g in a for x in g]


NODE = re.compile(r'^    \d+ \[label="(.*?)(?:\\nmax[^\\]*)?\\nlocal = (\d+|\?)"')


def see(out):
    """which builds show in the graph"""
    o = {"graph": "digraph" in out or "Usage" in out, "e": [], "l": [], "ob": -1, "cl": [], "cr": -1, "m": False}
    ids = {}
    for l in out.split("\n"):
        m = NODE.match(l)
        if m:
            lab, loc = m.group(1), m.group(2)
            ids[int(l.split()[0])] = lab
            if lab.startswith("elf_"):
                o["e"].append(int(lab[4:]))
            elif (x := re.match(r"^void \(i(\d+)\)\*$", lab)):
                o["cl" if int(x.group(1)) >= 100 else "l"].append(int(x.group(1)))
            elif lab == "main" and loc != "?":
                o["ob"] = int(loc) // 8
            elif lab == "cbf" and loc != "?":
                o["cr"] = int(loc) // 8
        m = re.match(r"^    (\d+) -> (\d+)$", l)
        if m and ids.get(int(m.group(1))) == "main" and ids.get(int(m.group(2)), "").startswith("elf_"):
            o["m"] = True
    return o


def driven(box, rid, s):
    root = os.path.join(box.root, "scene")
    shutil.rmtree(root, ignore_errors=True)
    app = os.path.join(root, "ws", "app")
    os.makedirs(app)
    st = getattr(box, "cargo_standin", None)
    if st is None:
        st = box.cargo_standin = harness.Stand(os.path.join(box.root, "cargo-standin"), "cargo")
        harness.executable(os.path.join(st.dir, "rustc"), RUSTC)
        for t in OS:
            harness.write(os.path.join(st.dir, "cfg." + t), cfgtext(t))
        harness.write(os.path.join(st.dir, "cfg.host"), cfgtext(HOST))
        harness.write(os.path.join(st.dir, "vvrc"), "0\n")
    h = {"supported": GOOD_HASH, "unknown": "unknown"}.get(s["tc"], "%040x" % s["seed"])
    harness.write(os.path.join(st.dir, "vv"), "rustc 1.76.0-nightly (2b603f95a 2023-11-12)\nbinary: rustc\ncommit-hash: %s\ncommit-date: 2023-11-12\nhost: %s\nrelease: 1.76.0-nightly\nLLVM version: 17.0.4\n" % (h, HOST))

    def wr(p, data):
        p = os.path.join(root, p)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        harness.write(p, data)
        return p
    manifest = '[package]\nname = "%s"\nversion = "0.1.0"\nedition = "2018"\n' % s["pkg"]
    if s["root"] not in ("src/main.rs",) and (s["root"].startswith(("demo", "tools", "app/", "src/weird", "src/a/"))) or s["layout"] == "renamed":
        manifest += '\n[[%s]]\nname = "%s"\npath = "%s"\n' % (s["kind"], s["file"], s["root"])
    wr("ws/app/Cargo.toml", manifest)
    if s["ws"]:
        wr("ws/Cargo.toml", '[workspace]\nmembers = ["other", "app"]\n')
    if s["conf"] or s["tconf"]:
        rr = random.Random(s["seed"])
        wr("ws/app/.cargo/" + rr.choice(["config", "config.toml"]), "[build]\n" + ('target = "%s"\n' % s["conf"] if s["conf"] else "")
           + ('target-dir = "%s"\n' % os.path.join(root, s["tconf"]) if s["tconf"] else ""))
    os.makedirs(os.path.join(app, "sub"), exist_ok=True)
    os.makedirs(os.path.join(app, "src"), exist_ok=True) if s["cwd"] == "src" else None
    now = time.time()
    project = {}
    for p in s["srcs"] + s["noise"]:
        data = ("// %s\nfn f() {}\n" % p).encode()
        project[p] = data
        f = wr("ws/app/" + p, data)
        os.utime(f, (now - 5000, now - 5000))
    # artifacts; the disk is written in any order, directories list in any order
    unit = random.Random(s["seed"]).choice([1e-6, 1e-3, 0.25])
    copies = []
    triple = s["flag"] or s["conf"] or s["host"]
    tgt = TGT.get(triple, "x64")
    order = list(s["disk"])
    random.Random(s["seed"] + 1).shuffle(order)
    for f in order:
        data = b"junk\n"
        if f["k"] != "junk":
            data = artifact(tgt, f["b"], f["k"])
            if not f["ok"]:
                data = BAD[f["k"]] if f["how"] == "bad" else data[:len(data) * 2 // 5]
        dst = os.path.join(root, f["p"])
        if s["during"] and s["out"] == {"k": "exit", "n": 0}:
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            src = wr("stage/%d" % len(copies), data)
            copies.append((src, dst))
        else:
            src = wr(f["p"], data)
        ns = int((now - 4000) * 1e9) + int(f["t"] * unit * 1e9)
        os.utime(src, ns=(ns, ns))
    for d in {"ws/app/target", os.path.dirname(s["disk"][0]["p"]) if s["disk"] else "ws/app/target"}:
        os.makedirs(os.path.join(root, d), exist_ok=True)
    said = [l.replace("@ROOT@", root) for l in s["said"]]
    err = "\n".join(said) + ("\n" if s["endl"] and said else "")
    srcs = [p for p in s["srcs"] + s["noise"] if p.endswith(".rs")]
    plan = s["out"]
    st.plan("%s %d" % (plan["k"] if plan["k"] != "absent" else "exit", plan["n"]), b"", err.encode("latin-1"), [os.path.join(app, p) for p in srcs], copies)
    path = st.dir
    if plan["k"] == "absent":
        path = os.path.join(box.root, "no-cargo")
        os.makedirs(path, exist_ok=True)
        if not os.path.exists(path + "/rustc"):
            harness.executable(path + "/rustc", src=st.dir + "/rustc")
    env = {"PATH": path + ":/usr/bin:/bin", "HOME": box.root, "FAKE_DIR": st.dir, "LC_ALL": "C", "RUST_BACKTRACE": "0"}
    if s["tc"] == "overridden":
        env[UNSUP_KEY] = UNSUP_VAL
    elif s["tc"] == "misspelled":
        env[UNSUP_KEY] = random.Random(s["seed"]).choice(["1", "", UNSUP_VAL + ".", UNSUP_VAL.lower(), " " + UNSUP_VAL])
    if s["tenv"]:
        env["CARGO_TARGET_DIR"] = os.path.join(root, s["tenv"])
    before = tree(app, root)
    cwd = os.path.join(app, s["cwd"])
    t0 = time.time()
    full = open("/dev/full", "wb") if s["full"] else None
    try:
        p = subprocess.run([box.binary] + argv(s), cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=full or subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        rc, out, er = p.returncode, (p.stdout or b"").decode("latin-1"), p.stderr.decode("latin-1")
    except subprocess.TimeoutExpired:
        rc, out, er = -99, "", "timeout"
    finally:
        if full:
            full.close()
    after = tree(app, root)
    recs = st.recs()
    rec = {x: s[x] for x in ("tc", "ar", "kind", "file", "flag", "conf", "host", "os", "tenv", "tconf", "ws", "out", "full", "an", "fa", "feats", "allf", "verbose", "endl", "root")}
    rec["id"] = rid
    rec["disk"] = [{"p": f["p"], "b": f["b"], "t": f["t"], "ok": f["ok"]} for f in s["disk"]]
    rec["said"] = [l.replace("@ROOT@/", "") for l in s["said"]]
    rel = er.replace(root + "/", "") if MARK in er else er
    rec["err"] = rel[:20000]
    rec["err1"] = rel.split("\n", 1)[1][:20000] if "\n" in rel else ""
    o = see(out)
    o["graph"] = out.strip() != ""
    o["rc"] = rc
    o["note"] = er[-300:]
    rec["o"] = o
    rec["calls"] = [{"argv": x["argv"][1:], "cwd": os.path.realpath(x["cwd"]) == os.path.realpath(cwd),
                     "wrapper": any(e.startswith("RUSTC_WRAPPER=") and os.path.realpath(e[14:]) == os.path.realpath(box.binary) for e in x["env"]),
                     "marker": any(e.startswith("CARGO_CALL_STACK_RUSTC_WRAPPER=") for e in x["env"])} for x in recs]
    stat = recs[0]["stat"] if recs else ["-1"] * len(srcs)
    rec["srcs"] = [{"p": p, "d": max(-10**8, min(10**8, int((float(t) - t0) * 1000))), "same": after.get(p) == hashlib.sha1(project[p]).hexdigest()} for p, t in zip(srcs, stat)]
    rec["srcs"] += [{"p": p, "d": 0, "same": after.get(p) == v} for p, v in before.items() if p not in srcs]
    rec["added"] = sorted(p for p in after if p not in before)[:5]
    return rec


def tree(app, root):
    """contents of the project's own files, outside target directories"""
    out = {}
    for d, ds, fs in os.walk(app):
        ds[:] = [x for x in ds if x not in ("target", "target2")]
        for f in fs:
            p = os.path.join(d, f)
            out[os.path.relpath(p, app)] = hashlib.sha1(open(p, "rb").read()).hexdigest()
    return out
