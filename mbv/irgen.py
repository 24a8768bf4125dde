"""Renders abstract modules (the `defApp`/`defCb`/`decl` parts of a case) as textual LLVM IR.

Only the rendering lives here; what a rendered line *means* is fixed by the abstract statement it was
rendered from, and what the tool must make of it is decided by the TLA+ specification."""
import random
import re

IDENT = re.compile(r"^[-a-zA-Z$._][-a-zA-Z$._0-9]*$")


def quoted(n):
    """LLVM prints bytes other than printable ASCII, quotes and backslashes as \\XX"""
    return '"' + "".join(chr(b) if 32 <= b < 127 and b not in b'"\\' else "\\%02X" % b for b in n.encode("utf-8")) + '"'


def gname(n):
    return "@" + n if IDENT.match(n) else "@" + quoted(n)


def ty(t):
    k = t["k"]
    if k == "int":
        return "i%d" % t["n"]
    if k in ("ptr", "float", "double"):
        return k
    if k == "va":
        return "..."
    if k == "ptrto":
        return ty(t["t"]) + "*"
    if k == "alias":
        return "%" + (t["s"] if IDENT.match(t["s"]) or t["s"].isdigit() else quoted(t["s"]))
    if k == "arr":
        return "[%d x %s]" % (t["n"], ty(t["t"]))
    if k == "vec":
        return "<%d x %s>" % (t["n"], ty(t["t"]))
    if k == "st":
        return "{ " + ", ".join(map(ty, t["f"])) + " }" if t["f"] else "{}"
    if k == "pst":
        return "<{ " + ", ".join(map(ty, t["f"])) + " }>" if t["f"] else "<{}>"
    if k == "fn":
        return sig_ty(t["g"])
    raise ValueError(k)


def ret(g):
    return ty(g["out"][0]) if g["out"] else "void"


def sig_ty(g):
    return ret(g) + " (" + ", ".join(map(ty, g["ins"])) + ")"


# attributes legal in front of / after a type, as rustc prints them
RETATTRS = ["", "", "noundef ", "zeroext ", "signext ", "noundef zeroext ", "nonnull ", "noalias noundef nonnull align 4 ",
            "align 1 dereferenceable(8) ", "fastcc ", "fastcc noundef ", "nonnull align 4 dereferenceable_or_null(12) "]
ARGATTRS = ["", "", "noundef", "zeroext", "noalias nocapture noundef readonly", "nonnull align 1", "align 4 dereferenceable(24)",
            "noundef nonnull readonly align 1", "sret({ i32, i8 }) noalias dereferenceable(8)", "byval([4 x i32]) align 4",
            "nocapture noundef writeonly sret(%\"core::fmt::Arguments<'_>\") align 4 dereferenceable(24)",
            "swiftself", "inreg noundef", "returned"]
SUFFIXES = ["", " #7", ", !dbg !1200", " #10, !dbg !30714, !noalias !30727", " #4, !range !9", ", !srcloc !5"]


class Style:
    """Random but valid decorations; plain when rng is None."""

    def __init__(self, rng=None):
        self.r = rng
        self.n = 0

    def pick(self, xs):
        return xs[0] if self.r is None else self.r.choice(xs)

    def chance(self, p):
        return self.r is not None and self.r.random() < p

    def fresh(self):
        self.n += 1
        if self.r is None:
            return "%%%d" % self.n
        return self.r.choice(["%%%d", "%%_%d.i.i", "%%x%d", "%%.sroa.%d.0", "%%bb%d.i-1"]) % self.n


def value(t, st):
    k = t["k"]
    if k == "int":
        if t["n"] == 1:
            return st.pick(["%a", "true", "false", "%1", "undef"])
        return st.pick(["0", "%a", "-126", "undef", "4294967295", "%_5.0"])
    if k in ("ptr", "ptrto"):
        return st.pick(["null", "%p", "undef", "@anon.f0.1", "%_3.i"])
    return st.pick(["undef", "%agg", "%7"])


def arg(t, st):
    a = st.pick(ARGATTRS)
    return ty(t) + " " + (a + " " if a else "") + value(t, st)


def call_tail(st):
    return st.pick(["call", "tail call", "call", "tail call"])


def direct(f, g, st):
    """a direct call of `f` with signature `g`"""
    lhs = ""
    if g["out"]:
        lhs = st.fresh() + " = "
    op = call_tail(st)
    inv = False
    if st.chance(0.15):
        op, inv = "invoke", True
    rty = ret(g)
    if st.chance(0.1) or g["ins"] and g["ins"][-1]["k"] == "va":
        rty = sig_ty(g)  # the long form, used for variadic callees
    if st.chance(0.03) and g["out"]:
        rty = sig_ty(g) + "*"
    args = ", ".join(arg(t, st) for t in g["ins"])
    line = "  %s%s %s%s %s(%s)%s" % (lhs, op, st.pick(RETATTRS), rty, gname(f), args, st.pick(SUFFIXES))
    if inv:
        line += "\n          to label %bb1 unwind label %cleanup"
    return line


def indirect(g, st):
    lhs = ""
    if g["out"]:
        lhs = st.fresh() + " = "
    args = ", ".join(arg(t, st) for t in g["ins"])
    op = call_tail(st)
    inv = st.chance(0.1)
    if inv:
        op = "invoke"
    rty = ret(g)
    if g["ins"] and g["ins"][-1]["k"] == "va":     # variadic: the long form, any further arguments
        rty = sig_ty(g)
        more = [T for T in ({"k": "int", "n": 32}, {"k": "int", "n": 64}) if st.chance(0.4)]
        args = ", ".join(arg(t, st) for t in g["ins"][:-1] + more)
    line = "  %s%s %s%s %s(%s)%s" % (lhs, op, st.pick(RETATTRS), rty, st.fresh(), args, st.pick(SUFFIXES))
    if inv:
        line += "\n          to label %bb1 unwind label %cleanup"
    return line


NOISE = [
    "  %v = load i32, ptr %p, align 4, !dbg !12",
    "  store volatile i8 %x, ptr %call, align 1",
    "  br i1 %c, label %bb1, label %bb2",
    "  switch i8 %x, label %bb2 [\n    i8 0, label %bb1\n    i8 1, label %bb3\n  ]",
    "  %q = getelementptr inbounds { i32, i8 }, ptr %p, i32 0, i32 1",
    "; a comment mentioning call void @nothing()",
    "bb7: ; preds = %bb3, %start",
    '"payload mut.exit": ; preds = %bb3',
    "42:",
    "  %sum = add nuw nsw i32 %a, %b",
    "  fence seq_cst",
    "  %cmp = icmp eq ptr %callee, null",
    "  %o = insertvalue { ptr, i32 } poison, ptr %p, 0",
    "  unreachable",
    "  %phi = phi i32 [ 0, %start ], [ %sum, %bb7 ]",
    "",
]


# an empty template is a barrier for the compiler
ASMS = ["nop", "nop", "", "wfi", "mrs $0, PRIMASK", "bkpt 0xab\\0A\\09nop", "; call void @f()"]


def stmt(s, st):
    k = s["k"]
    if s.get("tx") is not None:      # already rendered, by IrText
        return s["tx"]
    if k == "direct":
        return direct(s["f"], s.get("g") or {"ins": [], "out": []}, st)
    if k == "indirect":
        return indirect(s["g"], st)
    if k == "asm":
        return '  tail call void asm sideeffect "%s", "~{memory}"() #5, !srcloc !7' % s.get("s", st.pick(ASMS))
    if k == "bitcast":
        return "  tail call void bitcast (i8* %s to void ()*)()" % gname(s["f"])
    if k == "other":
        return s.get("s", "  ret void")
    raise ValueError(k)


LINKAGE = ["", "internal ", "dso_local ", "internal fastcc ", "hidden ", "linkonce_odr hidden ", "dso_local fastcc ", "weak "]
PARAMNAMES = [" %0", " %x.0", " %self", ""]
DEFSUFFIX = [" unnamed_addr #0", "", " local_unnamed_addr #3 !dbg !4512", " unnamed_addr #2 personality ptr @rust_eh_personality !dbg !7",
             ' section ".text.startup" #1', " align 2 #4"]


def define(d, st):
    g = d["sig"]
    ps = []
    for i, t in enumerate(g["ins"]):
        a = st.pick(ARGATTRS)
        if t["k"] == "va":
            ps.append("...")
        else:
            ps.append(ty(t) + (" " + a if a else "") + st.pick(PARAMNAMES))
    retattr = st.pick(["", "", "zeroext ", "noundef ", "noundef zeroext ", "align 4 "])
    if not g["out"]:
        retattr = ""
    out = []
    if st.chance(0.3):
        out += ["; core::ptr::drop_in_place", "; Function Attrs: nounwind optsize"]
    out.append(d["tx"] if d.get("tx") else "define %s%s%s %s(%s)%s {" % (st.pick(LINKAGE), retattr, ret(g), gname(d["name"]), ", ".join(ps), st.pick(DEFSUFFIX)))
    named = not st.chance(0.2)
    if named:
        out.append("start:")
    for i, s in enumerate(d["st"]):
        if st.chance(0.3) and (i or named):
            out.append(st.pick(NOISE))
        out.append(stmt(s, st))
    out.append(d.get("ret") or "  ret void")
    out.append("}")
    return "\n".join(out)


def declare(d, st):
    a = st.pick(["", "", "noundef ", "noalias ", "zeroext "])
    if d.get("sig") is None:
        return "declare void %s(metadata, metadata, metadata) #4" % gname(d["name"])
    g = d["sig"]
    if not g["out"]:
        a = ""
    ps = ", ".join(ty(t) + (" " + x if x and t["k"] != "va" else "") for t in g["ins"] for x in [st.pick(ARGATTRS)])
    return "declare %s%s %s(%s)%s" % (a, ret(g), gname(d["name"]), ps, st.pick(["", " unnamed_addr #3", " local_unnamed_addr #1"]))


HEADER = [
    "; ModuleID = 'app.e7riqz8u-cgu.0'",
    'source_filename = "app.e7riqz8u-cgu.0"',
    'target datalayout = "e-m:e-p:32:32-Fi8-i64:64-v128:64:128-a:0:32-n32-S64"',
    'target triple = "thumbv7m-none-unknown-eabi"',
]
TOPNOISE = [
    '%"core::fmt::Formatter" = type { i32, i32, { i32, i32 } }',
    "@anon.f0.1 = private unnamed_addr constant <{ [14 x i8] }> <{ [14 x i8] c\"hello (call) \\0A\" }>, align 1",
    "@STATE = internal global <{ [4 x i8] }> zeroinitializer, align 4, !dbg !0",
    "@__sbss = external global i32",
    '@0 = private constant <{ [0 x i8] }> zeroinitializer, align 4',
    'module asm ".section .text.x"',
    "; just a comment",
]
FOOTER = ["attributes #0 = { nounwind optsize \"target-cpu\"=\"generic\" }", "!llvm.module.flags = !{!0}",
          "!0 = !DIGlobalVariableExpression(var: !1, expr: !DIExpression())"]


def module(defines, declares, rng=None, extra=()):
    st = Style(rng)
    parts = [HEADER[0]] + (HEADER[1:] if rng is None or rng.random() < 0.8 else [])
    items = [define(d, st) for d in defines] + [declare(d, st) for d in declares]
    if rng is not None:
        items += [n for n in TOPNOISE if rng.random() < 0.3]
        rng.shuffle(items)
    items = list(extra[:1]) + items[:2] + list(extra[1:]) + items[2:]
    text = "\n".join(parts) + "\n\n" + "\n\n".join(items) + "\n\n" + "\n".join(FOOTER) + "\n"
    return text
