#!/usr/bin/env python3
"""Development aid: has llvm-as (18) read every line of IrText with one deviation, to keep the grammar honest.
usage: validate_ir.py call|define [DEV] [SAMPLE]"""
import os, random, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mbv import tlc, irgen

form, dev = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "1"
cases, _ = tlc.emitted("IrText.tla", "IrText.cfg", {"FORM": form, "DEV": dev})
if len(sys.argv) > 3:
    cases = random.Random(1).sample(cases, min(len(cases), int(sys.argv[3])))
COMMON = """
%%S = type { i8 }
%%"core::option::Option<(i32, u8)>" = type { i32, i8 }
%%"core::fmt::Arguments<'_>" = type { i32 }
@G = global { [4 x i8] } zeroinitializer
@G.call = global i8 0
@0 = global i8 0
@"x y(" = global i8 0
$main = comdat any
%s
attributes #7 = { nounwind }
attributes #0 = { nounwind }
!5 = !{i32 1}
!9 = !{i32 0, i32 5}
!12 = !{}
!13 = !{}
!4512 = !{}
"""


def module(c):
    if form == "define":
        t = re.sub(r"%0, i32 %1|%p, i32 %x", lambda m: m.group(0), c["text"])
        return (COMMON % "declare void @before()") + t + "\n" + c["ret"] + "\n}\n"
    t = re.sub(r"%(\d)", r"%n\1", c["text"])
    g = c["sig"]
    ty0 = irgen.ty(g["ins"][0]) if g["ins"] and g["ins"][0]["k"] != "va" else "i32"
    ab = "i32"
    params = ["ptr %p", "ptr %n7", "ptr %_3.i-x", 'ptr %"q q"', "i32 %x", "i1 %b", "float %f", "double %d", ty0 + " %agg", "<4 x i32> %vec", "[2 x i8] %arr", 'ptr %"call (x"']
    if not t.startswith('  %"a b" ='):
        params.append('i32 %"a b"')
    inv = "invoke " in t
    body = "define void @main(%s) personality ptr @before {\nstart:\n" % ", ".join(params)
    body += t + "\n"
    if not inv:
        body += "  br label %bb1\n"
    body += "bb1:\n  ret void\n"
    if '"a call"' in t:
        body += '"a call":\n  ret void\n'
    if inv:
        body += "bb2:\n  %lp = landingpad { ptr, i32 } cleanup\n  ret void\n"
    body += "}\n"
    decl = "declare void @before()\n"
    ins = ", ".join(irgen.ty(x) for x in g["ins"])
    decl += "declare %s @callee(%s)\n" % (irgen.ret(g), ins)
    return COMMON % decl + body


def run(c):
    p = subprocess.run(["llvm-as-18" if os.path.exists("/usr/bin/llvm-as-18") else "llvm-as", "-disable-verify", "-o", "/dev/null"], input=module(c), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
    return p.returncode, p.stdout


with ThreadPoolExecutor(8) as ex:
    res = list(ex.map(run, cases))
seen = set()
bad = 0
for c, (rc, out) in zip(cases, res):
    if rc:
        bad += 1
        key = out.split("error:")[-1].split("\n")[0]
        if key not in seen and len(seen) < 40:
            seen.add(key)
            print(c["text"], "=>", out.split("error:")[-1][:150].replace("\n", " | "))
print(len(cases), "lines,", bad, "refused by llvm-as")
