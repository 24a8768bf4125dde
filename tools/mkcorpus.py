#!/usr/bin/env python3
"""Regenerates data/thumb-*.txt: instructions LLVM's disassembler accepts, so that the decoder checks only ever
contain valid code.  Left out: what the specification puts out of scope (writes of SP other than the
adjustments it lists, PC-relative direct branches, which need a target)."""
import os
import random
import re
import subprocess
import sys
import tempfile
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
from mbv import elfgen

ARCH = {"v6m": ("thumbv6m-none-eabi", "cortex-m0plus", ""), "v7m": ("thumbv7m-none-eabi", "cortex-m3", ""),
        "v7em": ("thumbv7em-none-eabihf", "cortex-m7", "+vfp4d16,+dsp")}


def disasm(arch, words):
    """[(h,) | (h, g)] -> [text or None]"""
    triple, cpu, attr = ARCH[arch]
    code, at = bytearray(), []
    for w in words:
        at.append(len(code))
        for h in w:
            code += h.to_bytes(2, "little")
        code += b"\x00\xbf" * (6 - len(w))
    e = elfgen.Elf(32, "arm", elfgen.ET_REL)
    i = e.section(".text", elfgen.SHT_PROGBITS, 6, 0, bytes(code), align=4)
    e.symbol("$t", 0, 0, 0, 0, i)
    e.symbol("f", 1, len(code), elfgen.STT_FUNC, 1, i)
    with tempfile.NamedTemporaryFile(suffix=".o") as f:
        f.write(e.emit())
        f.flush()
        out = subprocess.run(["llvm-objdump", "-d", "--triple=" + triple, "--mcpu=" + cpu, "--mattr=" + attr, "--no-show-raw-insn", f.name],
                             stdout=subprocess.PIPE, text=True, check=True).stdout
    txt = {}
    for l in out.splitlines():
        m = re.match(r"^\s*([0-9a-f]+):\s+(.*)$", l)
        if m:
            txt[int(m.group(1), 16)] = " ".join(m.group(2).split())
    res = []
    for a, w in zip(at, words):
        t = txt.get(a)
        ok = t is not None and "unknown" not in t and all(a + 2 * k not in txt for k in range(1, len(w))) and a + 2 * len(w) in txt
        res.append(t if ok else None)
    return res


def proper(arch, h):
    """not UNPREDICTABLE, not an unallocated hint (LLVM decodes those, too)"""
    if h & 0xFF00 == 0x4700 and h & 7:
        return False
    if arch == "v6m" and h & 0xFF00 == 0xBF00 and h not in (0xBF00, 0xBF10, 0xBF20, 0xBF30, 0xBF40):
        return False
    return True


def in_scope(t):
    m, _, ops = t.partition(" ")
    m = m.split(".")[0]
    if re.match(r"^(b|bl|blx)(eq|ne|hs|lo|mi|pl|vs|vc|hi|ls|ge|lt|gt|le|cs|cc|al)?$", m) and "0x" in ops:
        return False
    if m == "mov" and re.match(r"^(pc|sp),", ops) or m.startswith("mov") and re.match(r"^(pc|sp),", ops):
        return False
    if m in ("add", "adds", "addw") and ops.startswith("pc"):
        return False
    dst = ops.split(",")[0].strip()
    listed = m in ("push", "sub", "subw", "subs", "vpush", "add", "addw", "adds", "pop", "vpop") or t.startswith("str") and "[sp, #-" in t and "!" in t and not t.startswith(("strb", "strh", "strd", "strex"))
    if dst == "sp" and m not in ("sub", "subw", "subs", "add", "addw", "adds"):
        return False
    if dst == "sp" and m in ("add", "adds", "addw", "sub", "subs") and "#" not in t:
        return bool(re.match(r"^(add|sub) sp, r\d+$|^(add|sub)(\.w)? sp, (sp, )?r\d+$", t))
    if re.search(r"\bsp!", t) and not m.startswith(("push", "pop", "vpush", "vpop", "stmdb", "ldm")):
        return False
    if re.search(r"\[sp[^\]]*\]!|\[sp\], ", t) and not listed and not t.startswith("ldr"):
        return False
    return True


def main():
    r = random.Random(20231112)
    for arch in ARCH:
        h16 = [h for h in range(0x10000) if h >> 11 not in (29, 30, 31)]
        d = disasm(arch, [(h,) for h in h16])
        ok = [h for h, t in zip(h16, d) if t and in_scope(t) and proper(arch, h)]
        # as ranges
        rng, lo = [], None
        for h in ok:
            if lo is None:
                lo = hi = h
            elif h == hi + 1:
                hi = h
            else:
                rng.append((lo, hi))
                lo = hi = h
        rng.append((lo, hi))
        with open(os.path.join(os.path.dirname(HERE), "data", "thumb16-%s.txt" % arch), "w") as f:
            f.writelines("%04x-%04x\n" % x for x in rng)
        print(arch, "16-bit:", len(ok), "in", len(rng), "ranges")
        words = []
        for h in range(0xE800, 0x10000):
            seen = set()
            for _ in range(60):
                g = r.getrandbits(16)
                if r.random() < 0.4:
                    g = (g & r.choice([0x0FFF, 0xF0FF, 0x00FF, 0x7FFF])) | r.choice([0, 0, 0xF000, 0xF00, 0xD00, 0x8000, 0xB00, 0xA00])
                seen.add(g)
            words += [(h, g) for g in sorted(seen)]
        per = {}
        for lo in range(0, len(words), 30000):
            part = words[lo:lo + 30000]
            for w, t in zip(part, disasm(arch, part)):
                if t and in_scope(t):
                    per.setdefault(w[0], []).append((w, t))
        out = []
        for h in sorted(per):
            k = {}
            for w, t in per[h]:
                k.setdefault(t.split()[0], []).append((w, t))
            # a few of every mnemonic
            for m in sorted(k):
                out += r.sample(k[m], min(len(k[m]), 2))
        with open(os.path.join(os.path.dirname(HERE), "data", "thumb32-%s.txt" % arch), "w") as f:
            f.writelines("%04x%04x\n" % w for w, _ in sorted(out))
        print(arch, "32-bit:", len(out), "with", len({t.split()[0] for _, t in out}), "mnemonics")


main()
