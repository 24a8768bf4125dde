"""Generators of abstract programs, one focus per property.  They only *choose* inputs; what the tool must
make of them is decided by the TLA+ specification."""
import random

from . import irgen, names, thumbasm
from .harness import OTHER, THUMB, normalize
from .prog import (ALIASES, ASM, RUNTIME, DBL, FLT, I1, I16, I32, I64, I8, PTR, T, VOID, Prog, alias, body, call, hexhash, icall, rname, rsig, rtype)

MEM = ["memcpy", "__aeabi_memcpy", "__aeabi_memcpy4", "memmove", "__aeabi_memmove", "__aeabi_memmove4", "memset", "__aeabi_memset",
       "__aeabi_memset4", "memclr", "__aeabi_memclr", "__aeabi_memclr4", "__aeabi_memcpy8", "__aeabi_memmove8", "__aeabi_memset8", "__aeabi_memclr8"]
NEAR_MEM = ["__aeabi_memcpy16", "memcmp", "__aeabi_memcmp8", "bcopy", "memcpy2", "memclr4", "memcpy8"]
SILENT = ["llvm.dbg.value", "llvm.dbg.declare", "llvm.assume", "llvm.trap", "llvm.experimental.noalias.scope.decl", "llvm.x86.sse2.pause",
          "llvm.lifetime.start.p0", "llvm.lifetime.end.p0i8", "llvm.abs.i32", "llvm.bswap.i16", "llvm.ctlz.i64", "llvm.cttz.i8",
          "llvm.sadd.with.overflow.i32", "llvm.smul.with.overflow.i64", "llvm.ssub.with.overflow.i16", "llvm.uadd.sat.i8",
          "llvm.uadd.with.overflow.i32", "llvm.umax.i32", "llvm.umin.v4i32", "llvm.umul.with.overflow.i32", "llvm.usub.sat.i64",
          "llvm.usub.with.overflow.i8", "llvm.vector.reduce.add.v4i32", "llvm.vector.reduce.or.v16i8", "llvm.vector.reduce.umax.v2i64", "llvm.vector.reduce.fmul.v4f32", "llvm.x86.sse2.pmovmskb.128"]
MEMINTR = ["llvm.memcpy.p0.p0.i32", "llvm.memcpy.p0i8.p0i8.i64", "llvm.memmove.p0.p0.i32", "llvm.memmove.p0i8.p0i8.i64",
           "llvm.memset.p0.i32", "llvm.memset.p0i8.i64", "llvm.memcpy.p1i8.p0i8.i32", "llvm.memmove.p1.p0.i64", "llvm.memset.p5.i64"]
UNKNOWN_INTR = ["llvm.fshl.i32", "llvm.sqrt.f64", "llvm.memcpy", "llvm.memset_x", "llvm.coro.begin", "llvm.powi.f32.i32", "llvm.memcpyx.i32",
                "llvm.dbg.values", "llvm.trapx", "llvm.umul.fix.sat.i32", "llvm.umul.fix.i64", "llvm.sadd.sat.i32", "llvm.ssub.sat.i8", "llvm.smax.i32", "llvm.smin.i64", "llvm.sshl.sat.i32",
                "llvm.ctpop.i64", "llvm.bitreverse.i32", "llvm.x86.sse2.psad.bw", "llvm.x86.sse2.pausex", "llvm.x86.avx2.pmovmskb", "llvm.x86.sse2.lfence", "llvm.vector.insert.v4i32.v2i32",
                "llvm.vector.reducex", "llvm.experimental.noalias.scope.declx", "llvm.experimental.vector.reverse.v4i32", "llvm.dbg.label", "llvm.dbg.assign", "llvm.dbg.addr", "llvm.assume.x",
                "llvm.lifetime.end", "llvm.lifetime", "llvm.debugtrap", "llvm.ubsantrap", "llvm.usub", "llvm.uadd.x", "llvm.absx.i32", "llvm.usub.with.overflow", "llvm.memmove", "llvm.memmov.p0.p0.i32",
                "llvm.memcpyi32", "llvm.stacksave", "llvm.va_start", "llvm.prefetch.p0", "llvm.fabs.f64", "llvm.floor.f32", "llvm.fma.f64", "llvm.is.constant.i32", "llvm.launder.invariant.group.p0",
                "llvm.threadlocal.address.p0", "llvm.eh.typeid.for", "llvm.", "llvm.x", "llvm.readcyclecounter", "llvm.returnaddress", "llvm.fptosi.sat.i32.f32", "llvm.masked.load.v4i32.p0", "llvm.bswapx", "llvm.memcpy.element.unordered.atomic.p0.p0.i32"[:11] + "2.p0", "llvm.expect.i1"]
UNKNOWN_INTR += [x.replace(p, p[:-1] + "x.") for x in SILENT + MEMINTR for p in ["overflow.", "sat.", "max.", "min.", "abs.", "swap.", "ctlz.", "cttz.", "memcpy.", "memmove.", "memset.", "pmovmskb.", "reduce."] if p in x]


def silent(r, pool=SILENT):
    """one of them, of any width"""
    x, w = r.choice(pool).rsplit(".", 1)
    if w[:1] in "iv" and "pmovmskb" not in x and "scope" not in x and r.random() < 0.7:
        w = r.choice(["i8", "i16", "i32", "i64", "i128", "v4i32", "v2i64"])
    return x + "." + w


ALLT = ["v6m", "v7m", "v7em", "v7emhf"] + OTHER


def pick_tgt(r, thumb=None):
    if thumb is True:
        return r.choice(["v6m", "v7m", "v7em", "v7emhf"])
    if thumb is False:
        return r.choice(OTHER)
    return r.choice(ALLT)


def subset(r, xs, p=0.5):
    return [x for x in xs if r.random() < p]


def general(r, tgt=None, nmax=6, typed=None, p_untyped=0.2, p_alias=0.3, p_mem=0.3, p_fail=0.0, p_ind=0.5, p_undef=0.3, p_asm=0.2, p_norec=0.2,
            p_branchy=0.25, p_mc=0.6, start=0.0, shuffle=True):
    """a bit of everything"""
    tgt = tgt or r.choice(ALLT)
    p = Prog(tgt, r)
    thumb = p.thumb
    typed = (r.random() < 0.5) if typed is None else typed
    nsig = r.randrange(1, 4)
    sigs = [VOID] + [rsig(r, r.choice([0, 1, 2]), typed=typed, opaque=not typed or r.random() < 0.3) for _ in range(nsig)]
    n = r.randrange(1, nmax + 1)
    untyped_ok = r.random() < p_untyped
    for i in range(n):
        irk = r.choice(["app"] * 6 + ["cb", "cb", "decl"] + (["none"] if untyped_ok else []))
        stack = r.choice([0, 0, 4, 8, 8, 16, 24, 64, 512, 4 * r.randrange(200)])
        al = []
        while r.random() < p_alias and len(al) < 3:
            al.append((p.newname(), r.choice("FFN")))
        f = p.fn(sig=r.choice(sigs), ir=irk, aliases=al, rec=stack, recin=r.choice(["app", "app", "cb"]), local=r.random() < 0.15)
        f["stack"] = stack
        allnames = [f["name"]] + [a for a, _ in al]
        f["all"] = allnames
        f["recname"] = r.choice(allnames)
        f["irname"] = r.choice(allnames)
        merge(r, f, sigs)
        if r.random() < p_norec:
            f["rec"] = None
        if r.random() < 0.2:
            f["sizeless"] = thumb and irk == "none"
    if r.random() < p_mem:
        for m in subset(r, MEM + NEAR_MEM, 0.25):
            st = r.choice([0, 8, 16])
            f = p.fn(name=m, sig=VOID, ir=r.choice(["cb", "decl", "app"]), rec=st, recin="cb")
            f["stack"] = st
            f["all"] = [m]
    if r.random() < p_undef:
        u = p.newname(share=True) if r.random() < 0.8 else r.choice([m for m in MEM + ["memcmp"] if m not in p.names])
        p.undefined(u, "@@GLIBC_2.2.5" if r.random() < 0.3 else "")
    everyone = [x for f in p.fns for x in f["all"]]
    mems = [f["name"] for f in p.fns if f["name"] in MEM]
    for f in p.fns + [x for f in p.fns for x in f.get("merged", [])]:
        if f["ir"] not in ("app", "cb"):
            continue
        st = []
        for _ in range(r.randrange(4)):
            k = r.random()
            if k < 0.5:
                g = r.choice(everyone)
                st.append(call(g, r.choice(sigs)))
            elif k < 0.55 and p.undef:
                st.append(call(r.choice(p.undef)["name"], r.choice(sigs)))
            elif k < 0.6:
                st.append({"k": "bitcast", "f": r.choice(everyone + [u["name"] for u in p.undef])})
            elif k < 0.6 + 0.25 * p_ind:
                st.append(icall(r.choice(sigs) if r.random() < 0.8 else rsig(r, 2, typed, not typed)))
            elif k < 0.8:
                st.append(call(r.choice(SILENT + MEMINTR), VOID))
            elif k < 0.85:
                st.append(call("memcmp", VOID))
            elif k < 0.9 and r.random() < p_asm:
                st.append(dict(ASM))
            elif r.random() < p_fail:
                st.append(call(r.choice(UNKNOWN_INTR + ["no_such_function"])))
        f["st"] = st
    p.sigs = sigs
    if thumb:
        for f in p.fns:
            mode = r.random()
            inner = r.randrange(1, 3) if mode < p_branchy else 0
            tg = []
            if r.random() < p_mc:
                for _ in range(r.randrange(3)):
                    g = r.choice(p.fns)
                    if f["sizeless"]:
                        continue
                    kind = r.choice(["bl", "bl", "b2", "b1"] + (["b3", "b4"] if p.v7 else []))
                    tg.append((g["name"], kind))
            body(p, f, f["stack"], [], inner)
            # calls go in at random places
            for t, kind in tg:
                f["asm"].ops.insert(0, ("br", kind, r.randrange(14), t))
            if r.random() < 0.15:
                f["asm"].ops.insert(0, ("hw", [thumbasm.through(r)]))
            if r.random() < 0.03 and f["rec"] is not None:
                f["rec"] += 8  # a contradiction, unless there is asm
    c = p.build()
    for u in p.undef:       # what is recorded of a function that was linked from elsewhere in the end
        if r.random() < 0.3 and not any(x["name"] == u["name"] for x in c["szApp"] + c["szCb"]):
            c[r.choice(["szApp", "szCb"])].append({"name": u["name"], "n": r.choice([0, 8, 400])})
    if shuffle:
        shuffled(r, c)
    if r.random() < 0.5:
        c["style"] = r.randrange(1 << 30)
    c["cbMembers"] = r.choice([0 if not c["szCb"] else 1, 1, 2, 3])
    if r.random() < 0.3:
        c["arNoise"] = subset(r, ["foo.o", "compiler_builtins.ll", "core-123.o", "compiler_builtins-1.o.txt"])
    return normalize(c)


def merge(r, f, sigs, p=0.3):
    """functions that were merged with this one, under its other names: of any type"""
    f["merged"] = [{"name": a, "ir": r.choice(["app", "cb", "decl"]), "sig": r.choice(sigs), "st": []}
                   for a in [f["name"]] + [a for a, _ in f["aliases"]] if a != f["irname"] and r.random() < p] if f["ir"] != "none" or r.random() < 0.5 else []


ABSENT = ["nowhere", "no_such_function", "memchr", "core_panic", "_ZN4core9panicking5panic17h0123456789abcdefE", "Reset", "main", "__aeabi_uldivmod", "memcm", "memcmp2", "memcmp_", "xmemcmp", "llvm",
          "llvm_memcpy", "lllvm.x", "core::fmt::write", "anchor", "n0", "OUTLINED_FUNCTION_7"]


def absent_case(r, name):
    """one function calls what is nowhere to be found, others do what is fine"""
    p = Prog(r.choice(ALLT), r)
    p.names[name] = dict(names.plain(name), share=False)
    fs = [p.fn(sig=r.choice([VOID, {"ins": [PTR, PTR, I32], "out": [I32]}]), ir=r.choice(["app", "app", "cb"]), rec=None if p.thumb else 8) for _ in range(r.randrange(1, 5))]
    for f in fs:
        f["st"] = [call(r.choice(fs)["name"]) for _ in range(r.randrange(3))] + [call("memcmp")] * r.randrange(2)
        if p.thumb:
            f["asm"].hw(0x4770)
    st = r.choice(fs)["st"]
    st.insert(r.randrange(len(st) + 1), call(name, r.choice([VOID, {"ins": [PTR, PTR, I32], "out": [I32]}])))
    if r.random() < 0.5:
        p.case["decl"] = [{"name": name, "sig": VOID}]
    c = shuffled(r, p.build())
    c["style"] = r.randrange(1 << 30)
    return normalize(c)


def shuffled(r, c):
    for k in ("defApp", "defCb", "decl", "declCb", "szApp", "szCb"):
        r.shuffle(c[k])
    # symbols: those of one address keep their relative order only by chance, too; the record says which
    r.shuffle(c["syms"])
    return c


# ------------------------------------------------------------------------------ graphs (C01 C02 C03)
def graph_case(r, succ, local, tgt="x64", scale=1, anchor=True, perm=True):
    """succ: list of sets (0-based); local: list of None | n.  Calls are IR calls, so any target will do."""
    n = len(succ)
    p = Prog(tgt, r)
    order = list(range(n))
    if perm:
        r.shuffle(order)
    for i in order:
        p.fn(name="n%d" % i, ir="app", rec=local[i], recin=r.choice(["app", "cb"]) if perm else "app",
             st=[call("n%d" % j) for j in (r.sample(sorted(succ[i]), len(succ[i])) if perm else sorted(succ[i]))])
    if anchor:
        p.fn(name="anchor", ir="app", rec=0)
    c = p.build()
    if perm:
        shuffled(r, c)
    c["scale"] = scale
    return normalize(c)


SCALES = [1, 1, 8, 4096, 1 << 20, 1 << 31, (1 << 31) + 4, 1 << 33, 1 << 40]


def random_graph(r, nmin=4, nmax=14):
    n = r.randrange(nmin, nmax + 1)
    kind = r.randrange(8)
    succ = [set() for _ in range(n)]
    if kind == 0:      # DAG
        p = r.choice([0.15, 0.3, 0.6])
        for i in range(n):
            for j in range(i + 1, n):
                if r.random() < p:
                    succ[i].add(j)
    elif kind == 1:    # sparse anything
        for _ in range(r.randrange(n, 2 * n + 1)):
            succ[r.randrange(n)].add(r.randrange(n))
    elif kind == 2:    # ladder of diamonds
        for i in range(0, n - 3, 3):
            succ[i] |= {i + 1, i + 2}
            succ[i + 1].add(i + 3)
            succ[i + 2].add(i + 3)
    elif kind == 3:    # cycles chained by bridges
        i = 0
        while i < n:
            k = r.randrange(1, 5)
            ring = list(range(i, min(n, i + k)))
            if len(ring) > 1 or r.random() < 0.5:
                for a, b in zip(ring, ring[1:] + ring[:1]):
                    succ[a].add(b)
            i += k
        for _ in range(n // 2):
            a, b = sorted((r.randrange(n), r.randrange(n)))
            if a != b:
                succ[a].add(b)
    elif kind == 4:    # long chain with shortcuts
        for i in range(n - 1):
            succ[i].add(i + 1)
            if r.random() < 0.4:
                succ[i].add(r.randrange(i + 1, n))
        if r.random() < 0.3:
            succ[n - 1].add(r.randrange(n))
    elif kind >= 6:    # one long cycle that is left in many places
        k = r.randrange(4, max(5, n - 1)) if n > 5 else max(1, n - 1)
        ring = list(range(k))
        for a, b in zip(ring, ring[1:] + ring[:1]):
            succ[a].add(b)
        for i in ring:
            if k < n:
                succ[i] |= set(r.sample(range(k, n), r.randrange(0, min(4, n - k + 1))))
            if r.random() < 0.2:
                succ[i].add(r.choice(ring))
        for i in range(k, n - 1):
            if r.random() < 0.4:
                succ[i].add(r.randrange(i + 1, n))
        if kind == 7 and k + 1 < n:      # and entered
            for i in subset(r, list(range(k, n)), 0.3):
                succ[i] = {r.choice(ring)} if r.random() < 0.6 else set()
    else:              # disconnected parts, dense
        h = n // 2
        for i in range(n):
            for j in (range(h) if i < h else range(h, n)):
                if r.random() < 0.35 and (r.random() < 0.3 or i < j):
                    succ[i].add(j)
    pu = r.choice([0, 0, 0.1, 0.4])
    pz = r.choice([0, 0.2, 0.7, 1.0])
    small = r.random() < 0.5
    local = [None if r.random() < pu else 0 if r.random() < pz else r.randrange(1, 8 if small else 2000) for _ in range(n)]
    perm = list(range(n))
    r.shuffle(perm)
    succ2 = [set() for _ in range(n)]
    for i in range(n):
        succ2[perm[i]] = {perm[j] for j in succ[i]}
    return graph_case(r, succ2, local, r.choice(["x64", "x64", "a64"]), r.choice(SCALES))


def big_graph(r):
    return random_graph(r, 30, 90)


def from_start_item(r):
    c = random_graph(r, 3, 16) if r.random() < 0.6 else mixed_max(r)
    ns = [s["name"] for s in c["syms"]]
    return {"case": c, "start": r.choice(ns)}


def mixed_max(r):
    """everything that can make a maximum inexact: missing data, undefined symbols, untyped code, `?`"""
    return general(r, nmax=9, p_untyped=0.3, p_ind=1.0, p_undef=0.4, p_norec=0.25, p_branchy=0.4)


# --------------------------------------------------------------------------------- start points (C04)
def start_item(r):
    c = general(r, nmax=10, p_alias=0.4, p_undef=0.4, p_ind=0.8)
    names_ = [s["name"] for s in c["syms"]] + [u["name"] for u in c["undef"]]
    nm = {x["raw"]: x for x in c["nm"]}
    starts = []
    for _ in range(5):
        k = r.random()
        n = r.choice(names_)
        if k < 0.35:
            starts.append(n)
        elif k < 0.75:
            hashed = [nm[x] for x in names_ if x in nm]
            starts.append(r.choice(hashed)["path"] if hashed else n)
        else:
            e = nm.get(n, {"path": n, "hash": ""})
            p = e["path"]
            starts.append(r.choice([p[:max(1, len(p) // 2)], p + "::h" + (e["hash"] or "0123456789abcdef"), p + "x", "nothing", p.split("::")[0], "?", p + "::", n[:-1] or "z",
                                    p.split("::")[-1], n + "0", "memcpy"]))
    return {"case": c, "starts": starts}


def named_start_item(r):
    c = names_case(r)
    names_ = [s["name"] for s in c["syms"]]
    return {"case": c, "starts": r.sample(names_, min(len(names_), 4))}


def path_start_item(r):
    """few paths, many functions and aliases: what does a path name?"""
    c = names_case(r)
    names_ = [s["name"] for s in c["syms"]] + [u["name"] for u in c["undef"]]
    paths = sorted({x["path"] for x in c["nm"] if x["raw"] in names_ and x["hash"]})
    return {"case": c, "starts": r.sample(paths, min(len(paths), 3)) + r.sample(names_, 1)}


# ------------------------------------------------------------------------------------ IR edges (C05)
ODD = ["with space", "q\"uote", "back\\slash", "a<b>", "{closure}", "f(x)", "a,b", "semi;colon", "@at", "%pct", "naïve", "日本", "tab", "1digit", "-dash", "a b(c", "!bang", "x#y", "$dollar", "dot.x.y",
       "\\5C", "\\22", "ends\\", "a\\\\b", "call", "asm", "bitcast", "null"]


def irgraph(r, tgt=None):
    tgt = tgt or r.choice(OTHER + ["x64", "v7m"])
    p = Prog(tgt, r)
    n = r.randrange(1, 8)
    odd = r.sample(ODD, 3) if r.random() < 0.4 else []
    sigs = [VOID, rsig(r, 2), rsig(r, 1), {"ins": [T("va")], "out": [I32]}]
    for i in range(n):
        al = [(p.newname(), r.choice("FN"))] if r.random() < 0.2 else []
        nme = odd.pop() if odd else None
        f = p.fn(name=nme, sig=r.choice(sigs[:3]), ir=r.choice(["app", "app", "app", "cb", "decl"]), aliases=al, rec=8 * r.randrange(5) if not p.thumb else None)
        f["all"] = [f["name"]] + [a for a, _ in al]
        f["irname"] = r.choice(f["all"])
    gone = []
    for _ in range(r.choice([0, 0, 1, 2, 3])):
        gone.append(p.newname())
    for _ in range(r.choice([0, 0, 1, 2])):
        p.undefined(r.choice([x for x in ODD if "@" not in x]) + "u" if r.random() < 0.15 else p.newname(share=True), r.choice(["", "@@GLIBC_2.2.5", "@GLIBC_2.34"]))
    if r.random() < 0.35:
        # a dependency outside of the program, called from several places and in several ways
        p.undefined(r.choice(["ext", "ext_a", "read"]), r.choice(["", "", "@@GLIBC_2.2.5"]))
    if r.random() < 0.12:
        f = p.fn(name="memcmp", sig=VOID, ir=r.choice(["cb", "decl", "decl", "app"]), rec=r.choice([None, None, 16]) if not p.thumb else None)
        f["all"], f["irname"] = ["memcmp"], "memcmp"
    everyone = [x for f in p.fns for x in f["all"]]
    und = [u["name"] for u in p.undef if u["name"] not in p.byname]
    p.undef[:] = [u for u in p.undef if u["name"] in und]

    def stmts(k, may_fail):
        st = []
        for _ in range(r.randrange(k)):
            x = r.random()
            if x < 0.55:
                st.append(call(r.choice(everyone), r.choice(sigs)))
                if r.random() < 0.3:
                    st.append(dict(st[-1]))
            elif x < 0.68 and und:
                st.append(call(r.choice(und), r.choice(sigs)))
            elif x < 0.77:
                st.append({"k": "bitcast", "f": r.choice(und if und and r.random() < 0.5 else everyone + und)})
            elif x < 0.82:
                st.append(call(r.choice(SILENT), VOID))
            elif x < 0.86:
                st.append(call("memcmp", VOID))
            elif x < 0.9:
                st.append(dict(ASM))
            elif may_fail and x < 0.94:
                st.append(call(r.choice(gone + ["nowhere"]), VOID))
        return st
    fail = r.random() < 0.15
    for f in p.fns:
        if f["ir"] in ("app", "cb"):
            f["st"] = stmts(6, fail)
        if p.thumb:
            f["asm"].hw(0x4770)
    # definitions that did not make it into the program; what they call does not matter
    for g in gone:
        if r.random() < 0.8:
            p.extra_defs.append({"name": g, "sig": r.choice(sigs[:3]), "st": stmts(4, False) + ([call("nowhere")] if r.random() < 0.3 else []) + ([icall(rsig(r))] if r.random() < 0.3 else [])})
    c = p.build()
    if gone and r.random() < 0.3:
        # compiler_builtins has its own, different copy of a function of the application
        d = r.choice([x for x in c["defApp"]] or [None])
        if d:
            c["defCb"].append({"name": d["name"], "sig": d["sig"], "st": [call(r.choice(everyone))]})
    # functions with two names were one function only after linking: each name has its own definition, and both count
    for f in p.fns:
        if len(f["all"]) > 1 and r.random() < 0.5:
            other = r.choice([a for a in f["all"] if a != f["irname"]])
            sect = c[r.choice(["defApp", "defApp", "defCb"])]
            if not any(x["name"] == other for k in ("defApp", "defCb", "decl", "declCb") for x in c[k]):
                sect.append({"name": other, "sig": f["sig"], "st": stmts(4, False)})
    shuffled(r, c)
    c["style"] = r.randrange(1 << 30)
    return normalize(c)


# --------------------------------------------------------------------------- indirect calls (C07 C12)
def mutate_type(r, t):
    k = t["k"]
    c = [lambda: T("ptrto", t=t) if k not in ("ptr", "va") else I8, lambda: T("st", f=[t]) if k not in ("ptr", "va") else FLT, lambda: T("arr", n=2, t=t) if k not in ("ptr", "va") else DBL]
    if k == "int":
        c += [lambda: T("int", n=t["n"] + 1), lambda: T("int", n=t["n"] * 2)] * 2
    if k in ("arr", "vec"):
        c += [lambda: T(k, n=t["n"] + 1, t=t["t"]), lambda: T("vec" if k == "arr" and t["t"]["k"] in ("int", "float") and t["n"] else "arr", n=t["n"], t=t["t"])] * 2
    if k in ("arr", "vec", "ptrto"):
        c += [lambda: dict(t, t=mutate_type(r, t["t"])) if k != "vec" else dict(t, t=r.choice([I8, I64, DBL]))]
    if k == "ptrto":
        c += [lambda: PTR, lambda: t["t"] if t["t"]["k"] not in ("fn",) else PTR] * 2
    if k in ("st", "pst"):
        c += [lambda: T("pst" if k == "st" else "st", f=t["f"]), lambda: T(k, f=t["f"][1:]), lambda: T(k, f=t["f"] + [I8]), lambda: T(k, f=t["f"][::-1])] * 2
    if k == "alias":
        c += [lambda: alias(t["s"] + "2"), lambda: alias(t["s"][:-1])] * 2
    if k in ("float", "double"):
        c += [lambda: FLT, lambda: DBL]
    if k == "ptr":
        c += [lambda: T("ptrto", t=r.choice([I8, I32, T("arr", n=0, t=I8), T("ptrto", t=I8), T("fn", g=VOID)]))] * 3
    if k == "fn":
        return dict(t, g=mutate_sig(r, t["g"]))
    return r.choice(c)()


def mutate_sig(r, g):
    ins, out = list(g["ins"]), list(g["out"])
    k = r.randrange(6)
    if k == 0 and ins:
        i = r.randrange(len(ins))
        ins[i] = mutate_type(r, ins[i])
    elif k == 1:
        ins.insert(r.randrange(len(ins) + 1), r.choice([I8, I32, PTR]))
    elif k == 2 and ins:
        ins.pop(r.randrange(len(ins)))
    elif k == 3 and len(ins) > 1:
        r.shuffle(ins)
    elif k == 4:
        out = [] if out else [r.choice([I1, I32, PTR])]
    elif out:
        out = [mutate_type(r, out[0])]
    elif ins:
        ins[0] = mutate_type(r, ins[0])
    return {"ins": ins, "out": out}


def legal(t, top=True):
    """no opaque pointer inside an aggregate or behind a typed pointer (LLVM modules do not mix those)"""
    k = t["k"]
    if k == "ptr":
        return top
    if k in ("arr", "vec", "ptrto"):
        return legal(t["t"], False) and not (k == "vec" and t["t"]["k"] not in ("int", "float", "double")) and not (k != "ptrto" and t["t"]["k"] == "fn")
    if k in ("st", "pst"):
        return all(legal(x, False) and x["k"] != "fn" for x in t["f"])
    if k == "fn":
        return all(legal(x, False) and x["k"] != "fn" for x in t["g"]["ins"] + t["g"]["out"])
    return True


def legal_sig(g):
    return all(legal(t) and t["k"] != "fn" for t in g["ins"] + g["out"]) and all(t["k"] != "va" for t in g["ins"][:-1] + g["out"])


def sigs_case(r, tgt=None, n=None, opaque_nested=None):
    tgt = tgt or r.choice(ALLT)
    p = Prog(tgt, r)
    if opaque_nested is None:
        opaque_nested = r.random() < 0.4
    base = rsig(r, r.choice([1, 2, 2]), typed=not opaque_nested, opaque=True, maxargs=4)
    sigs = [base]
    while len(sigs) < r.randrange(2, 7):
        m = mutate_sig(r, r.choice(sigs))
        if legal_sig(m):
            sigs.append(m)
    if r.random() < 0.15:
        sigs.append({"ins": base["ins"] + [T("va")], "out": base["out"]})
    for i in range(n or r.randrange(2, 9)):
        al = [(p.newname(), r.choice("FN"))] if r.random() < 0.15 else []
        f = p.fn(sig=r.choice(sigs), ir=r.choice(["app", "app", "cb", "decl"]), aliases=al, rec=0)
        f["irname"] = r.choice([f["name"]] + [a for a, _ in al])
    for f in p.fns:
        if f["ir"] in ("app", "cb"):
            for _ in range(r.choice([0, 0, 1, 1, 2])):
                g = r.choice(sigs)
                f["st"].append(icall(g))
                if r.random() < 0.2:
                    f["st"].append(icall(g))
        if p.thumb:
            f["asm"].hw(0x4770)
    if r.random() < 0.2:
        p.extra_defs.append({"name": p.newname(), "sig": r.choice(sigs), "st": [icall(r.choice(sigs))]})
    if r.random() < 0.1:
        p.fn(ir="none", rec=0)["asm"].hw(0x4770)
    c = shuffled(r, p.build())
    c["style"] = r.randrange(1 << 30)
    return normalize(c)


FORMATTER = T("ptrto", t=alias("core::fmt::Formatter"))


def fmt_case(r):
    """formatting with typed pointers: calls of a pseudo trait object"""
    void = r.choice([["fmt::Void"], ["core::fmt::Void"], ["core::fmt::Void.12"], ["fmt::Void", "core::fmt::Void"], ["core::fmt::Void", "core::fmt::Void.12"], [], ["app::Voided"], ["core::fmt::Voi"]])
    sig = lambda t, f=FORMATTER, o=I1: {"ins": [t, f], "out": [o]}
    named = [T("ptrto", t=alias(x)) for x in void + r.sample(["app::Foo", "app::Bar", "fmt::Void2", "SomeRandomType", "Void", "T.0"], r.randrange(4))]
    sigs = [sig(t) for t in named] + [sig(T("ptrto", t=t)) for t in r.sample([I8, I32, T("st", f=[I8]), T("arr", n=2, t=I8), T("ptrto", t=I8)], r.randrange(3))]
    # what looks similar
    odd = [sig(r.choice(named or [PTR]), o=I8), sig(r.choice(named or [PTR]), T("ptrto", t=alias("core::fmt::Formatter.3"))), sig(I32), sig(r.choice(named or [PTR]), T("ptrto", t=FORMATTER)),
           {"ins": [FORMATTER], "out": [I1]}, {"ins": [FORMATTER, FORMATTER], "out": []}, sig(T("ptrto", t=I8))["ins"] and {"ins": [r.choice(named or [PTR]), FORMATTER, I8], "out": [I1]}]
    sigs += r.sample(odd, r.randrange(3))
    sigs = sigs or odd[:1]
    p = Prog(r.choice(ALLT), r)
    for i in range(r.randrange(1, 9)):
        al = [(p.newname(), r.choice("FFN"))] if r.random() < 0.15 else []
        f = p.fn(sig=r.choice(sigs), ir=r.choice(["app", "app", "cb", "decl"]), rec=r.choice([0, 8]) if not p.thumb else None, aliases=al)
        f["irname"] = r.choice([f["name"]] + [a for a, _ in al])
        merge(r, f, sigs, 0.5)
        if f["ir"] in ("app", "cb"):
            f["st"] = [icall(r.choice(sigs)) for _ in range(r.choice([0, 0, 1, 2]))]
        if p.thumb:
            f["asm"].hw(0x4770)
    if r.random() < 0.1:
        p.fn(ir="none", rec=0)["asm"].hw(0x4770)
    c = shuffled(r, p.build())
    c["style"] = r.randrange(1 << 30)
    return normalize(c)


# ----------------------------------------------------------------------------------- stack sizes (C09)
def sizes_case(r):
    tgt = r.choice(OTHER + ["x64"])
    p = Prog(tgt, r)
    scale = r.choice(SCALES)
    n = r.randrange(1, 12)
    extra_app, extra_cb = [], []
    for i in range(n):
        al = [(p.newname(), r.choice("FFN")) for _ in range(r.choice([0, 0, 0, 1, 2]))]
        f = p.fn(ir=r.choice(["app", "app", "cb", "decl", "none"]), rec=r.choice([None, 0, 1, 4, 8, 24, 127, 128, 129, 255, 16383, 16384, r.randrange(1 << 20)]), recin=r.choice(["app", "cb"]), aliases=al,
                 local=r.random() < 0.2)
        names_ = [f["name"]] + [a for a, _ in al]
        f["recname"] = r.choice(names_)
        f["irname"] = r.choice(names_)
        if f["rec"] is not None:
            k = r.random()
            others = [x for x in names_ if x != f["recname"]]
            if k < 0.15 and f["recin"] == "app":     # an own copy in compiler_builtins, not linked
                extra_cb.append({"name": f["recname"], "n": f["rec"] + r.choice([4, 8, 100])})
            elif k < 0.3 and others:                    # merged functions: the same code, recorded under both names
                (extra_app if r.random() < 0.5 else extra_cb).append({"name": r.choice(others), "n": f["rec"]})
    for _ in range(r.randrange(4)):                     # functions the linker dropped
        (extra_app if r.random() < 0.5 else extra_cb).append({"name": p.newname(), "n": r.randrange(1000)})
    everyone = [f["name"] for f in p.fns]
    for f in p.fns:
        if f["ir"] in ("app", "cb"):
            f["st"] = [call(r.choice(everyone)) for _ in range(r.randrange(3))]
    if r.random() < 0.4:
        u = p.newname()
        p.undefined(u)
        (extra_app if r.random() < 0.5 else extra_cb).append({"name": u, "n": 16})   # the size of a symbol that is not here
        next((f for f in p.fns if f["ir"] == "app"), {"st": []})["st"].append(call(u))
    c = p.build()
    c["szApp"] += extra_app
    c["szCb"] += extra_cb
    shuffled(r, c)
    c["scale"] = scale
    c["cbMembers"] = r.choice([1, 1, 2, 3, 5])
    c["cbName"] = r.choice([0, 0, 1, 2, 3, 4])
    c["arNoise"] = subset(r, ["foo.o", "compiler_builtins.ll", "core-123.core.o", "compiler_builtins-1.o.txt", "lib.rmeta2", "compiler_builtins-e5098d86.compiler_builtins.rcgu.bc"], 0.3)
    return normalize(c)


# -------------------------------------------------------------------------------------- aliases (C10)
def alias_case(r):
    k = r.random()
    if k < 0.75:
        return general(r, nmax=6, p_alias=0.75, p_undef=0.15, p_ind=0.7, p_norec=0.2)
    return locals_case(r)


def locals_case(r):
    """locals of one name: only the address tells them apart"""
    p = Prog(r.choice(["v6m", "v7m", "v7em"]), r)
    n = r.randrange(2, 5)
    st = r.sample(range(1, 40), n + 3)
    fs = []
    for i in range(n):
        f = p.fn(name="loc", ir="none", rec=None, local=True)
        f["key"] = i
        f["stack"] = 4 * st[i]
        fs.append(f)
    for i in range(r.randrange(1, 4)):
        f = p.fn(ir=r.choice(["app", "none"]), rec=None)
        f["stack"] = 4 * st[n + i]
        fs.append(f)
    return dup_locals(r, p, fs)


def dup_locals(r, p, fs):
    """lays the functions out by hand: they are called by address, as names do not tell them apart"""
    a = 0x1000
    addr, code, syms, tags = [], [], [], []
    sizes = []
    plans = []
    for f in fs:
        plan = []
        for w in [[0xB080 | f["stack"] // 4]] + [["call", r.randrange(len(fs))] for _ in range(r.randrange(4))] + [[0x4770]]:
            plan.append(w)
        plans.append(plan)
        sizes.append(2 * sum(2 if w[0] == "call" else 1 for w in plan))
    for s in sizes:
        addr.append(a)
        a += s + r.choice([0, 2, 4])
    for f, plan, at in zip(fs, plans, addr):
        pc, hw = at, []
        for w in plan:
            if w[0] == "call":
                hw += thumbasm.enc_bl(addr[w[1]] - pc - 4)
                pc += 4
            else:
                hw += w
                pc += 2
        code.append({"a": at, "hw": hw})
        syms.append({"name": f["name"], "a": at, "t": "F", "sz": 2 * len(hw), "local": f["local"]})
    c = {"tgt": p.tgt, "code": code, "syms": syms, "tags": [{"a": 0x1000, "k": "t"}], "undef": [],
         "nm": [{"raw": e["raw"], "path": e["path"], "hash": e["hash"]} for e in p.names.values() if e["hash"] or e["path"] != e["raw"]],
         "defApp": [{"name": f["name"], "sig": VOID, "st": []} for f in fs if f["ir"] == "app"], "defCb": [], "decl": [], "declCb": [], "szApp": [], "szCb": []}
    r.shuffle(c["syms"])
    return normalize(c)


# ------------------------------------------------------------------------------------ intrinsics (C13)
def mem_case(r):
    tgt = r.choice(OTHER + ["x64", "v7r", "v8m", "v7m", "v6m"])
    p = Prog(tgt, r)
    have = subset(r, MEM, r.choice([0.2, 0.5, 0.9, 1.0])) + subset(r, NEAR_MEM, 0.3)
    r.shuffle(have)
    left = list(have)
    while left:
        m = left.pop()
        al = []
        while left and r.random() < 0.25:
            al.append((left.pop(), r.choice("FFN")))
        if r.random() < 0.15:        # provided dynamically
            p.undefined(m, r.choice(["", "@@GLIBC_2.14"]))
            continue
        p.fn(name=m, ir=r.choice(["cb", "cb", "decl", "app", "none"]), rec=r.choice([None, 0, 8]) if not p.thumb else None, aliases=al)
    n = r.randrange(1, 5)
    users = [p.fn(ir="app" if i == 0 else r.choice(["app", "cb"]), rec=None if p.thumb else 16) for i in range(n)]
    fail = r.random() < 0.12
    if "memcmp" not in p.names and r.random() < 0.15:
        p.undefined("memcmp")
    everyone = [f["name"] for f in p.fns] + [u["name"] for u in p.undef]
    pool = r.sample(SILENT, r.choice([1, 2, 4]))
    for f in p.fns:
        if f["ir"] not in ("app", "cb"):
            continue
        for _ in range(r.randrange(5)):
            k = r.random()
            if k < 0.5:
                f["st"].append(call(r.choice(MEMINTR), r.choice([VOID, {"ins": [PTR, PTR, I32, I1], "out": []}])))
            elif k < 0.75:
                f["st"].append(call(silent(r, pool)))
            elif k < 0.9:
                f["st"].append(call(r.choice(everyone)))
            elif k < 0.95:
                f["st"].append(call("memcmp"))
            elif fail:
                f["st"].append(call(r.choice(UNKNOWN_INTR)))
    for f in p.fns:
        if p.thumb:
            f["asm"].hw(0x4770)
    if r.random() < 0.3:
        # unknown intrinsics in code that is not linked do not matter
        p.extra_defs.append({"name": p.newname(), "sig": VOID, "st": [call(r.choice(UNKNOWN_INTR))]})
    c = shuffled(r, p.build())
    c["style"] = r.randrange(1 << 30)
    return normalize(c)


def unknown_intrinsic(r, name):
    """one call of an intrinsic that nothing is known about, among others"""
    p = Prog(r.choice(OTHER), r)
    for m in subset(r, MEM, 0.5):
        p.fn(name=m, ir=r.choice(["cb", "decl"]), rec=0)
    st = [call(r.choice(SILENT + MEMINTR)) for _ in range(r.randrange(4))] + [call(name)]
    r.shuffle(st)
    p.fn(rec=8, st=st)
    return normalize(shuffled(r, p.build()))


# ----------------------------------------------------------------------------------------- names (C19)
def names_case(r):
    """few paths, many functions"""
    tgt = r.choice(OTHER + ["v7m"])
    p = Prog(tgt, r)
    paths = [[r.choice(["app", "core", "h"]), r.choice(["foo", "h", "h0123456789abcdef", "hash", "hx", "{{closure}}", "h000000000000000g", "handle_interrupt_", "h0123456789abcdeg", "hg123456789abcdef", "h0123456789abcde", "h0123456789abcdef0"])] for _ in range(r.randrange(1, 4))]
    if r.random() < 0.3:
        paths.append([r.choice(["<app::Foo as core::fmt::Debug>", "core::ptr::drop_in_place<app::Foo>", "<impl app::Foo>"]), "fmt"])
    n = r.randrange(1, 9)
    used = set()

    def fresh(path):
        while True:
            h = r.choice([hexhash(r), "%016x" % r.randrange(4), "h" * 0 + "%016x" % (0xDEADBEEF + r.randrange(3))])
            e = dict(names.entry(path, h), share=True)
            x = r.random()
            if x < 0.08 and all(y.replace("_", "a").isalnum() for y in path):
                e = dict(names.v0(r, path), share=True)
            elif x < 0.16:
                e = dict(names.suffixed(r, e), share=True)
            if e["hash"] and any(y["path"] == e["path"] and y["hash"] == e["hash"] for y in p.names.values()):
                continue
            if e["raw"] not in used:
                used.add(e["raw"])
                p.names[e["raw"]] = e
                return e["raw"]

    def plain():
        nm = r.choice(["main", "handle_interrupt_", "foo::hello_wide_world", "app::foo", "app", "h0123456789abcdef", "foo::h0123456789abcdef"[5:], "a::h12", "core::h", "_ZN3app3fooE", "_ZN3app", "_R", "h"]) + r.choice(["", "", str(r.randrange(3))])
        if r.random() < 0.7:
            nm = nm.replace("::", "_")
        elif r.random() < 0.3:
            nm = "::".join(r.choice(paths))
        return nm if nm not in p.names and not nm.startswith("_ZN3app3fooE") else p.newname()
    for _ in range(n):
        nm = fresh(r.choice(paths)) if r.random() < 0.75 else plain()
        al = []
        while r.random() < 0.25 and len(al) < 2:
            # an alias of the same or another path: it only shows if it represents the node
            al.append((fresh(r.choice(paths)), r.choice("FN")))
        f = p.fn(name=nm, ir=r.choice(["app", "app", "cb", "decl", "none"]), rec=None if p.thumb else r.choice([None, 8]), aliases=al)
        names_ = [f["name"]] + [a for a, _ in al]
        f["recname"] = nm if not al else r.choice(names_)
        f["irname"] = r.choice(names_)
        if al and f["rec"] is None and not p.thumb:
            f["rec"] = 16      # which name represents the node is determined by the record
    if p.thumb:
        for f in p.fns:
            f["asm"].hw(0x4770)
            if f["aliases"]:
                f["rec"] = 0
    und = []
    for _ in range(r.choice([0, 0, 1, 2, 3])):
        u = fresh(r.choice(paths)) if r.random() < 0.7 else plain()
        if u not in p.byname and u not in und:
            und.append(u)
            p.undefined(u)
    for f in p.fns:
        if f["ir"] in ("app", "cb"):
            f["st"] = [call(r.choice([x["name"] for x in p.fns] + und)) if r.random() < 0.8 else {"k": "bitcast", "f": r.choice([f["name"]] + und)} for _ in range(r.randrange(4))]
    c = shuffled(r, p.build())
    return normalize(c)


# --------------------------------------------------------------------------------------------- ? (C22)
# names that only look like those of the outliner
OUTLINED_LIKE = ["OUTLINED_FUNCTION_%da", "OUTLINED_FUNCTION_x%d", "OUTLINED_FUNCTION%d", "MY_OUTLINED_FUNCTION_%d", "outlined_function_%d", "OUTLINED_FUNCTION_%d.llvm", "OUTLINED_FUNCTION_%d_", "OUTLINED_FUNCTIONS_%d",
                 "OUTLINED_FUNCTION_-%d", "OUTLINED_%d", "OUTLINED_FUNCTION_0x%d"]


def ask_case(r):
    if r.random() < 0.5:
        return general(r, nmax=7, p_untyped=0.6, p_ind=2.5, p_undef=0.2)
    tgt = r.choice(ALLT)
    p = Prog(tgt, r)
    g = [rsig(r, 1) for _ in range(3)]
    for i in range(r.randrange(1, 7)):
        nm = r.choice(["OUTLINED_FUNCTION_%d"] * 5 + OUTLINED_LIKE) % i if r.random() < 0.25 else None
        # the linker folds functions of one content, whoever made them
        al = [(r.choice(["OUTLINED_FUNCTION_%d" % (10 + i), p.newname()]), r.choice("FFN"))] if r.random() < (0.5 if nm else 0.15) else []
        f = p.fn(name=nm, sig=r.choice(g), ir=r.choice(["app", "app", "decl", "cb", "none"] if not nm else ["none", "none", "decl"]), rec=None if p.thumb else 8, aliases=al)
        if al:
            f["irname"] = r.choice([x for x in [f["name"], al[0][0]] if not x.startswith("OUTLINED_FUNCTION")] or [f["name"]])
            if not any(x.startswith("OUTLINED_FUNCTION") for x in [f["name"], al[0][0]]):
                merge(r, f, g)
            f["recname"] = r.choice([f["name"], al[0][0]])
        if f["ir"] in ("app", "cb"):
            f["st"] = [icall(r.choice(g)) for _ in range(r.choice([0, 0, 1, 2]))]
        if p.thumb:
            for _ in range(r.randrange(3)):
                f["asm"].hw(r.choice([0x4770, 0x46F7, 0xBD80, 0xBF00, 0x4670, thumbasm.through(r), thumbasm.through(r), thumbasm.through(r)]))
            if not f["asm"].ops:
                f["asm"].hw(0x4770)
    if r.random() < 0.3:
        u = p.newname()
        p.undefined(u)
        p.fn(ir="app", st=[call(u)], rec=None if p.thumb else 0)["asm"].hw(0x4770)
    c = shuffled(r, p.build())
    c["style"] = r.randrange(1 << 30)
    return normalize(c)


# --------------------------------------------------------------------------------------- odd names (C18)
ODDTYPES = ["app::\"q\"", "[T; 3]", "<{{closure}}>", "(A, B)", "'a", "~const"]


def dot_case(r):
    k = r.random()
    if k < 0.35:
        return general(r, nmax=5)
    p = Prog(r.choice(OTHER), r)
    chars = ["😀", "𝒳", '"', "\\", "{", "}", "<", ">", "|", " ", "ü", "日", "n", "l", "r", "a", "]", "[", "=", ";", "\\n", "\\\"", "->", "label", "\\\\", "\\l", "\\N", "&", "#"]
    for i in range(r.randrange(1, r.choice([6, 6, 6, 14]))):
        x = r.random()
        if x < 0.5:
            while True:
                nm = "".join(r.choice(chars) for _ in range(r.randrange(1, r.choice([7] * 20 + [500]))))
                if nm not in p.names and nm != "?" and not nm.startswith("@") and nm.strip() == nm:
                    break
        elif x < 0.65:
            nm = r.choice(ODD)
            if nm in p.names:
                nm = None
        else:
            nm = None
        f = p.fn(name=nm, ir=r.choice(["app", "app", "decl", "none"]), rec=r.choice([None, 0, 8, 8]), sig=rsig(r, 2))
    everyone = [f["name"] for f in p.fns]
    for f in p.fns:
        if f["ir"] == "app":
            f["st"] = [call(r.choice(everyone)) for _ in range(r.randrange(3))] + [icall(rsig(r, 2)) for _ in range(r.choice([0, 0, 1]))] + [icall(r.choice(p.fns)["sig"]) for _ in range(r.choice([0, 0, 1]))]
    c = shuffled(r, p.build())
    c["scale"] = r.choice(SCALES)
    return normalize(c)


def large_item(r):
    """hundreds of nodes, sparsely connected, with a cycle or two"""
    p = Prog(r.choice(OTHER), r)
    n = r.choice([130, 262])
    for i in range(n):
        p.fn(name="f%d" % i, ir="app", rec=r.choice([0, 8, 8 * i, 4 * i + 16]))
    for i, f in enumerate(p.fns):
        f["st"] = [call("f%d" % j) for j in {r.randrange(n) for _ in range(r.choice([0, 1, 1, 2]))}] if r.random() < 0.5 else [call("f%d" % ((i + 1) % n))]
    if r.random() < 0.5:
        for f in p.fns:
            f["st"] = [s for s in f["st"] if int(s["f"][1:]) > int(f["name"][1:])]
        p.fns[r.randrange(100, n)]["st"].append(call("f3"))
    c = shuffled(r, p.build())
    return {"case": normalize(c), "start": ""}


def dot_item(r):
    c = dot_case(r) if r.random() < 0.9 else names_case(r)
    return {"case": c, "start": r.choice(c["syms"])["name"] if r.random() < 0.3 else ""}


# ------------------------------------------------------------------------------- formats, orders (C20 C21)
def tops_item(r):
    c = r.choice([lambda: general(r, nmax=8), lambda: random_graph(r, 2, 10), lambda: sizes_case(r), lambda: names_case(r)])()
    ns = [s["name"] for s in c["syms"]]
    return {"case": c, "starts": [r.choice(ns)] if r.random() < 0.4 else []}


def permuted(r, c):
    """the same program; what order its parts come in is all that differs"""
    d = dict(c)
    for k in ("defApp", "defCb", "decl", "declCb", "szApp", "szCb"):
        d[k] = list(c[k])
        r.shuffle(d[k])
    for k in ("defApp", "defCb"):
        d[k] = [dict(x, st=r.sample(x["st"], len(x["st"]))) for x in d[k]]
    # symbols: those at one address stay in order
    by = {}
    for s in c["syms"]:
        by.setdefault(s["a"], []).append(s)
    deck = [a for a, v in by.items() for _ in v]
    r.shuffle(deck)
    its = {a: iter(v) for a, v in by.items()}
    d["syms"] = [next(its[a]) for a in deck]
    d["undef"] = r.sample(c["undef"], len(c["undef"]))
    d["cbMembers"] = r.choice([1, 2, 3])
    return normalize(d)


def loaded(r, tgt=None):
    """many functions with long bodies of every kind of statement: what is remembered from one must not change another"""
    tgt = tgt or r.choice(ALLT)
    p = Prog(tgt, r)
    typed = r.random() < 0.5
    sigs = [VOID] + [rsig(r, 1, typed=typed, opaque=not typed) for _ in range(r.randrange(1, 5))]
    n = r.randrange(5, 18)
    for i in range(n):
        al = [(p.newname(), r.choice("FN"))] if r.random() < 0.2 else []
        f = p.fn(sig=r.choice(sigs), ir=r.choice(["app"] * 5 + ["cb", "cb", "decl"]), aliases=al, rec=None if p.thumb else r.choice([None, 0, 8, 8, 24]))
        f["all"] = [f["name"]] + [a for a, _ in al]
        f["irname"] = r.choice(f["all"])
        merge(r, f, sigs)
    for m in subset(r, MEM + ["memcmp"], r.choice([0, 0.3, 0.8])):
        f = p.fn(name=m, ir=r.choice(["cb", "decl"]), rec=None if p.thumb else r.choice([None, 0, 8]))
        f["all"] = [m]
    for _ in range(r.choice([0, 1, 3])):
        p.undefined(p.newname(share=True))
    for m in MEM + ["memcmp"]:
        if m not in p.names and r.random() < 0.04:
            p.undefined(m)
    everyone = [x for f in p.fns for x in f["all"]]
    und = [u["name"] for u in p.undef]
    w = [r.random() for _ in range(7)]
    for f in p.fns:
        if p.thumb:
            f["asm"].hw(0x4770)
        if f["ir"] not in ("app", "cb"):
            continue
        for _ in range(r.choice([0, 1, 3, 6, 12])):
            k = r.choices(range(7), w)[0]
            if k == 0 or (k == 2 and not und):
                f["st"].append(call(r.choice(everyone), r.choice(sigs)))
            elif k == 1:
                f["st"].append(icall(r.choice(sigs)))
            elif k == 2:
                f["st"].append(call(r.choice(und), r.choice(sigs)))
            elif k == 3:
                f["st"].append(dict(ASM))
            elif k == 4:
                f["st"].append(call(r.choice(SILENT + MEMINTR * 2)))
            elif k == 5:
                f["st"].append({"k": "bitcast", "f": r.choice(everyone + und)})
            else:
                f["st"].append(call("memcmp"))
    c = shuffled(r, p.build())
    c["style"] = r.randrange(1 << 30)
    return normalize(c)


def order_item(r):
    c = r.choice([lambda: loaded(r), lambda: loaded(r), lambda: general(r, nmax=9, p_ind=1.0, p_untyped=0.3), lambda: random_graph(r, 4, 12), lambda: names_case(r), lambda: sigs_case(r), lambda: mem_case(r), lambda: fmt_case(r)])()
    return {"case": c, "others": [c, permuted(r, c), permuted(r, c)]}
