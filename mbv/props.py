"""One function per property: which models are checked, and which runs of the real tool are judged."""
import json
import re

from . import genir, driver, gen, genthumb, runners, thumbasm, tlc
from .runners import single

CHECKS = {}


def check(f):
    CHECKS[f.__name__.upper()] = f
    return f


def random_items(ctx, focus, fn, n):
    return [fn(ctx.rng(focus, i)) for i in range(n)]


# ---------------------------------------------------------------- corruptions (each must be refused)
def completed(rec):
    if rec["o"]["rc"] != 0:
        raise ValueError
    return rec


def corrupt_max(r, rec):
    n = r.choice([x for x in completed(rec)["o"]["nodes"] if x["mk"] != "none"])
    if r.random() < 0.5:
        n["mn"] += r.choice([1, 4])
    else:
        n["mk"] = {"eq": "ge", "ge": "eq"}[n["mk"]]
    return rec


def corrupt_edges(r, rec):
    e = completed(rec)["o"]["edges"]
    e.pop(r.randrange(len(e)))
    return rec


def corrupt_local(r, rec):
    n = r.choice([x for x in completed(rec)["o"]["nodes"] if x["lx"] and not x["dashed"]])
    n["ln"] += 4
    return rec


def corrupt_label(r, rec):
    n = r.choice([x for x in completed(rec)["o"]["nodes"] if not x["dashed"] and x["label"] != "?"])
    n["label"] += "x"
    return rec


def corrupt_part(r, rec):
    o = r.choice([q for q in rec["ps"] if q["o"]["rc"] == 0])["o"]
    n = r.choice(o["nodes"])
    n["ln"] += 1
    n["lx"] = not n["lx"]
    return rec


def bounds(ctx, n3, nrand, nmixed):
    """the shared part of C01-C03: every three-node graph, then bigger ones, then whole programs"""
    ctx.model("MCStackMax.tla", "StackMax2.cfg")
    vals = ctx.emitted("MCStackEmit.tla", "StackEmit.cfg")
    vals.sort(key=lambda v: (v["s"], str(v["l"])))
    if n3 < len(vals):
        r = ctx.rng("n3")
        vals = r.sample(vals, n3)
    else:
        ctx.exhaustive.append("all %d call graphs of 3 functions with local usage zero, non-zero or unknown" % len(vals))
    items = []
    for i, v in enumerate(vals):
        r = ctx.rng("n3", i)
        succ = [{j - 1 for j in s} for s in v["s"]]
        local = [x["n"] if x["x"] else None for x in v["l"]]
        items.append(gen.graph_case(r, succ, local, "x64", r.choice(gen.SCALES)))
    ctx.conform("all-graphs-of-3", items, single, corrupt=corrupt_max)
    ctx.conform("random-graphs", random_items(ctx, "random-graphs", gen.random_graph, nrand), single, corrupt=corrupt_max)
    ctx.conform("programs", random_items(ctx, "programs", gen.mixed_max, nmixed), single, corrupt=corrupt_max)
    ctx.conform("big-graphs", random_items(ctx, "big-graphs", gen.big_graph, ctx.n(25, 1000)), single, corrupt=corrupt_max)
    ctx.conform("below-start", random_items(ctx, "below-start", gen.from_start_item, ctx.n(500, 8000)), runners.from_start, corrupt=corrupt_max)
    if not ctx.quick:
        ctx.model("MCStackMax.tla", "StackMax3.cfg")


@check
def c01(ctx):
    bounds(ctx, ctx.n(5000, 10**9), ctx.n(4000, 60000), ctx.n(1000, 20000))


@check
def c02(ctx):
    bounds(ctx, ctx.n(5000, 10**9), ctx.n(4000, 60000), ctx.n(1000, 20000))


@check
def c03(ctx):
    bounds(ctx, ctx.n(5000, 10**9), ctx.n(2500, 60000), ctx.n(2500, 40000))


@check
def c04(ctx):
    ctx.conform("starts", random_items(ctx, "starts", gen.start_item, ctx.n(1500, 20000)), runners.started, corrupt=corrupt_part)
    ctx.conform("paths", random_items(ctx, "paths", gen.path_start_item, ctx.n(1200, 20000)), runners.started)


@check
def c05(ctx):
    ctx.conform("ir", random_items(ctx, "ir", gen.irgraph, ctx.n(4000, 60000)), single, corrupt=corrupt_edges)
    ctx.conform("loaded", random_items(ctx, "loaded", gen.loaded, ctx.n(800, 12000)), single, corrupt=corrupt_edges)
    ctx.conform("programs", random_items(ctx, "programs", gen.general, ctx.n(1000, 20000)), single, corrupt=corrupt_edges)
    ctx.conform("absent", [gen.absent_case(ctx.rng("absent", m, i), m) for m in sorted(set(gen.RUNTIME + gen.MEM + gen.NEAR_MEM + gen.ABSENT) - {"memcmp"}) for i in range(ctx.n(1, 10))], single)


@check
def c07(ctx):
    ctx.conform("signatures", random_items(ctx, "signatures", gen.sigs_case, ctx.n(4000, 60000)), single)
    ctx.conform("loaded", random_items(ctx, "loaded", gen.loaded, ctx.n(600, 12000)), single)
    ctx.conform("formatters", random_items(ctx, "formatters", gen.fmt_case, ctx.n(1200, 20000)), single)
    ctx.conform("programs", random_items(ctx, "programs", lambda r: gen.general(r, p_ind=2.0), ctx.n(1500, 20000)), single)


# ------------------------------------------------------------------------------------ machine code
def streams(ctx, v7, letters, limit, focus):
    """every function of `letters` letters the compiler model can emit (a sample of them if there are too many)"""
    vals = ctx.emitted("ThumbStream.tla", "ThumbStream.cfg", {"LETTERS": str(letters), "V7": "1" if v7 else "0"}, label="%s letters, %s" % (letters, "ARMv7-M" if v7 else "ARMv6-M"))
    vals.sort()
    if len(vals) > limit:
        vals = ctx.rng(focus, v7, letters).sample(vals, limit)
    else:
        ctx.exhaustive.append("all %d functions of %d instructions of the %s letters" % (len(vals), letters, "ARMv7-M" if v7 else "ARMv6-M"))
    return genthumb.stream_programs(ctx, vals, v7, focus)


def offsets(ctx):
    return ctx.emitted("ThumbStream.tla", "ThumbStream.cfg", {"LETTERS": "0", "V7": "1"}, tag="OFFS", label="branch encodings")[0]


def corrupt_call(r, rec):
    o = completed(rec)["o"]
    e = r.choice(o["edges"])
    e[1] = r.choice([i + 1 for i in range(len(o["nodes"])) if i + 1 != e[1] and [e[0], i + 1] not in o["edges"]])
    return rec


def some(ctx, focus, xs, n):
    return xs if len(xs) <= n else ctx.rng(focus, "some").sample(xs, n)


@check
def c06(ctx):
    items = []
    for kind, offs in sorted(offsets(ctx).items()):
        r = ctx.rng("offsets", kind)
        conds = range(14) if kind in ("b1", "b3") else [0]
        offs = [o for o in sorted(offs)]
        if ctx.quick:
            lim = 1 << (thumbasm.BRANCH[kind][1] - 1)
            edge = [o for o in offs if o in (-lim, lim - 2, -lim + 2, lim - 4) or o & (o - 1) == 0 or -o & (-o - 1) == 0]
            offs = edge + r.sample(offs, min(len(offs), 150))
        items += [genthumb.offset_case(ctx.rng("offsets", kind, o), kind, o, r.choice(conds)) for o in offs]
        lim = 1 << (thumbasm.BRANCH[kind][1] - 1)
        if kind != "cbz":
            items += [genthumb.offset_case(r, kind, 2 * r.randrange(-lim // 2, lim // 2), c) for c in conds for _ in range(ctx.n(200, 8000) // len(conds))]
    items = [x for x in items if x is not None]
    ctx.conform("offsets", items, single, corrupt=corrupt_edges)
    ctx.conform("programs", random_items(ctx, "programs", genthumb.calls_case, ctx.n(2500, 40000)), single, corrupt=corrupt_call)
    ctx.conform("streams", streams(ctx, True, 3, ctx.n(2400, 10**9), "streams"), single, corrupt=corrupt_call)
    ctx.conform("random-streams", random_items(ctx, "random-streams", genthumb.stream_case, ctx.n(1500, 30000)), single, corrupt=corrupt_edges)
    ctx.conform("long", random_items(ctx, "long", genthumb.long_case, ctx.n(40, 1500)), single)


@check
def c08(ctx):
    for v7 in (False, True):
        t = genthumb.sp_table(v7)
        if not ctx.quick:
            ctx.exhaustive.append("every immediate/register list of %d stack adjustments (%s)" % (len(t), "ARMv7-M" if v7 else "ARMv6-M"))
        ctx.conform("adjustments-%s" % ("v7" if v7 else "v6"), genthumb.sp_programs(ctx, v7, some(ctx, "adj%d" % v7, t, ctx.n(2500, 10**9)), "adjustments"), single, corrupt=corrupt_local)
    ctx.conform("records", random_items(ctx, "records", genthumb.local_case, ctx.n(5000, 80000)), single, corrupt=corrupt_local)
    ctx.conform("random-streams", random_items(ctx, "random-streams", genthumb.stream_case, ctx.n(1000, 20000)), single, corrupt=corrupt_local)
    ctx.conform("long", random_items(ctx, "long", genthumb.long_case, ctx.n(30, 1000)), single)


@check
def c23(ctx):
    for v7 in (False, True):
        ctx.conform("streams-%s" % ("v7" if v7 else "v6"), streams(ctx, v7, 3, ctx.n(4000, 10**9), "streams"), single, corrupt=corrupt_local)
    if not ctx.quick:
        ctx.conform("streams-4", streams(ctx, True, 4, 60000, "streams-4"), single)
    for tgt in ["v6m", "v7em"]:
        t = genthumb.valid16(tgt)
        if not ctx.quick:
            ctx.exhaustive.append("all %d valid 16-bit instructions of %s" % (len(t), tgt))
        ctx.conform("narrow-" + tgt, genthumb.corpus_programs(ctx, tgt, some(ctx, "n" + tgt, t, ctx.n(3000, 10**9)), "narrow"), single, corrupt=corrupt_local)
    for tgt in ["v6m", "v7m", "v7em"]:
        t = genthumb.valid32(tgt)
        ctx.conform("wide-" + tgt, genthumb.corpus_programs(ctx, tgt, some(ctx, "w" + tgt, t, ctx.n(3000, 10**9)), "wide"), single, corrupt=corrupt_local)
    ctx.conform("random-streams", random_items(ctx, "random-streams", genthumb.stream_case, ctx.n(1500, 30000)), single, corrupt=corrupt_local)
    ctx.conform("long", random_items(ctx, "long", genthumb.long_case, ctx.n(40, 1500)), single)


# ------------------------------------------------------------------------------- symbols, sizes, names
@check
def c09(ctx):
    ctx.conform("sizes", random_items(ctx, "sizes", gen.sizes_case, ctx.n(5000, 80000)), single, corrupt=corrupt_local)
    ctx.conform("programs", random_items(ctx, "programs", gen.general, ctx.n(1500, 20000)), single, corrupt=corrupt_local)


@check
def c10(ctx):
    ctx.conform("aliases", random_items(ctx, "aliases", gen.alias_case, ctx.n(6000, 80000)), single, corrupt=corrupt_edges)


def irlines(ctx, form, dev, limit):
    vals = ctx.emitted("IrText.tla", "IrText.cfg", {"FORM": form, "DEV": str(dev)}, label="%s, %d deviations" % (form, dev))
    vals.sort(key=lambda v: json.dumps(v, sort_keys=True))
    if len(vals) > limit:
        return ctx.rng("irlines", form, dev).sample(vals, limit)
    ctx.exhaustive.append("all %d %s lines of IrText with up to %d deviations" % (len(vals), form, dev))
    return vals


@check
def c11(ctx):
    '''every call line: alone, then behind others; function headers; text that is no call'''
    fine = []
    for dev, lim in ((1, 10**9), (2, ctx.n(4500, 10**9))) if ctx.quick else ((1, 10**9), (2, 10**9), (3, 60000)):
        lines = irlines(ctx, "call", dev, lim)
        recs = ctx.conform("lines-%d" % dev, [genir.call_case(ctx.rng("line", dev, i), l) for i, l in enumerate(lines)], single, corrupt=corrupt_edges)
        fine += [l for l, x in zip(lines, recs) if x["o"]["rc"] == 0]
    by = {}
    for l in fine:
        by.setdefault(json.dumps(l["sig"]), []).append(l)
    groups = [by[k] for k in sorted(by)]
    seqs = []
    for i in range(ctx.n(1500, 20000)):
        r = ctx.rng("seq", i)
        g = r.choice(groups)
        seqs.append(genir.sequence_case(r, [r.choice(g) for _ in range(r.randrange(2, 6))]))
    ctx.conform("sequences", seqs, single, corrupt=corrupt_edges)
    for form, mk, dev, lim in (("define", genir.define_case, ctx.n(2, 3), ctx.n(1300, 10**9)), ("noise", genir.noise_case, 1, ctx.n(2000, 10**9)), ("item", genir.item_case, 1, 10**9)):
        ctx.conform(form, [mk(ctx.rng(form, i), l) for i, l in enumerate(irlines(ctx, form, dev, lim))], single, corrupt=corrupt_edges)


def type_blocks(ctx, typed, depth, size, limit):
    vals = ctx.emitted("IrTypes.tla", "IrTypes.cfg", {"TYPED": str(typed), "DEPTH": str(depth)}, label="%s pointers, depth %d" % ("typed" if typed else "opaque", depth))
    uniq = sorted({json.dumps(v, sort_keys=True) for v in vals})
    r = ctx.rng("types", typed, depth)
    mixed = list(uniq)
    r.shuffle(mixed)
    cut = lambda xs: [xs[i:i + size] for i in range(0, len(xs), size)]
    near = [(b, ()) for b in cut(uniq)]                # neighbours: types that differ in one place
    bs = cut(mixed)
    full = len(near) + len(bs) * (len(bs) + 1) // 2 <= limit
    if full:
        pairs = near + [(a, b) for i, a in enumerate(bs) for b in bs[i:]]
        ctx.exhaustive.append("all pairs of the %d types of depth %d (%s pointers), as first parameter, last parameter and return type" % (len(uniq), depth, "typed" if typed else "opaque"))
    else:
        pairs = near if len(near) <= limit // 2 else r.sample(near, limit // 2)
        pairs = pairs + [(r.choice(bs), r.choice(bs)) for _ in range(limit - len(pairs))]
    items = []
    for i, (a, b) in enumerate(pairs):
        for pos in sorted(genir.POSITIONS) if full else [r.choice(sorted(genir.POSITIONS))]:
            ts = genir.shown([json.loads(x) for x in a] + [json.loads(x) for x in b if x not in a])
            items.append(genir.types_case(ctx.rng("types", typed, depth, i, pos), ts, pos))
    return items


@check
def c12(ctx):
    for typed in (0, 1):
        name = "typed" if typed else "opaque"
        ctx.conform(name + "-1", type_blocks(ctx, typed, 1, 16, 10**9), single, corrupt=corrupt_edges)
        ctx.conform(name + "-2", type_blocks(ctx, typed, 2, 16, ctx.n(500, 20000)), single, corrupt=corrupt_edges)
    ctx.conform("signatures", random_items(ctx, "signatures", gen.sigs_case, ctx.n(1500, 40000)), single)


@check
def c13(ctx):
    ctx.conform("intrinsics", random_items(ctx, "intrinsics", gen.mem_case, ctx.n(6000, 80000)), single, corrupt=corrupt_edges)
    ctx.conform("unknown-intrinsics", [gen.unknown_intrinsic(ctx.rng("ui", i), x) for i, x in enumerate(gen.UNKNOWN_INTR)], single)
    ctx.conform("loaded", random_items(ctx, "loaded", lambda r: gen.loaded(r, r.choice(gen.OTHER)), ctx.n(600, 12000)), single, corrupt=corrupt_edges)


@check
def c18(ctx):
    ctx.conform("large", random_items(ctx, "large", gen.large_item, ctx.n(4, 60)), runners.dottext, corrupt=corrupt_text)
    ctx.conform("text", random_items(ctx, "text", gen.dot_item, ctx.n(2500, 30000)), runners.dottext, corrupt=corrupt_text)


def corrupt_text(r, rec):
    if rec["o"]["rc"] != 0:
        raise ValueError
    i = r.choice([i for i, l in enumerate(rec["text"]) if "label=" in l])
    l = rec["text"][i]
    rec["text"][i] = r.choice([l.replace('"]', ']'), l.replace("label=\"", "label=\"\\\""), l.replace("local = ", "local ="), l.replace("    ", "    7", 1)])
    return rec


@check
def c19(ctx):
    ctx.conform("starts", random_items(ctx, "starts", gen.named_start_item, ctx.n(1000, 15000)), runners.started, corrupt=corrupt_label)
    ctx.conform("names", random_items(ctx, "names", gen.names_case, ctx.n(5000, 80000)), single, corrupt=corrupt_label)
    ctx.conform("programs", random_items(ctx, "programs", gen.general, ctx.n(1500, 20000)), single, corrupt=corrupt_label)


def corrupt_top(r, rec):
    q = r.choice([q for q in rec["ps"] if q["o"]["rc"] == 0 and q["t"]["lines"]])
    k = r.randrange(3)
    if k == 0:
        q["t"]["first"] += 1
    elif k == 1:
        r.choice(q["t"]["lines"])["n"] += 1
    else:
        q["t"]["lines"].pop(r.randrange(len(q["t"]["lines"])))
    return rec


@check
def c20(ctx):
    ctx.conform("formats", random_items(ctx, "formats", gen.tops_item, ctx.n(2500, 30000)), runners.tops, corrupt=corrupt_top)


def corrupt_other(r, rec):
    o = r.choice([q for q in rec["ps"] if q["o"]["rc"] == 0])["o"]
    r.choice(o["nodes"])["ln"] += 1
    return rec


@check
def c21(ctx):
    ctx.conform("orders", random_items(ctx, "orders", gen.order_item, ctx.n(2000, 25000)), runners.variants, corrupt=corrupt_other)


@check
def c22(ctx):
    ctx.conform("unknown", random_items(ctx, "unknown", gen.ask_case, ctx.n(6000, 80000)), single)
    ctx.conform("formatters", random_items(ctx, "formatters", gen.fmt_case, ctx.n(600, 8000)), single)


# ------------------------------------------------------------------------------------------ the wrapper
OUTCOMES = [("exit", 0), ("exit", 1), ("exit", 101), ("kill", 9), ("kill", 6), ("absent", 0), ("exit", 255)]


def wrapper_items(ctx):
    vocab = ctx.emitted("Wrapper.tla", "WrapperVocab.cfg", tag="VOCAB", label="vocabulary")[0]
    items = []
    for cfg, lim in (("Wrapper.cfg", ctx.n(2500, 10**9)), ("Wrapper3.cfg", ctx.n(3000, 40000))):
        if ctx.quick and cfg == "Wrapper3.cfg":
            r = ctx.rng("w3")
            cases = []
            while len(cases) < lim:
                g = [1 + r.randrange(len(vocab)) for _ in range(3)]
                cases.append((g, 1))
        else:
            cases = sorted(ctx.emitted("Wrapper.tla", cfg))
            if len(cases) <= lim:
                ctx.exhaustive.append("all %d argument lists and outcomes of %s" % (len(cases), cfg))
            cases = some(ctx, cfg, cases, lim)
        items += [wrapper_item(ctx.rng("wi", cfg, i), [vocab[x - 1] for x in g], OUTCOMES[o - 1]) for i, (g, o) in enumerate(cases)]
    for i in range(ctx.n(2500, 40000)):
        r = ctx.rng("wrand", i)
        n = r.randrange(2, 14) if r.random() < 0.85 else r.randrange(14, 80)
        g = [r.choice(vocab) for _ in range(n)]
        if n >= 14:
            # a crate with many dependencies
            g = [x if r.random() < 0.3 else ["--extern", "dep%d=/d/deps/libdep%d-%x.rlib" % (j, j, r.randrange(1 << 32))] for j, x in enumerate(g)]
        items.append(wrapper_item(r, g, r.choice(OUTCOMES), odd=True))
    return [x for x in items if x is not None]


ODD = ["--remap-path-prefix", "/h\xe4=\xff", "src/\xe9.rs", "", "a b", "*", "$HOME", "-Ctarget-cpu=x\ny", "\u00c3\u00a9"]


def wrapper_item(r, groups, outcome, odd=False):
    seen, gs = set(), []
    for g in groups:
        if g[0] in ("--crate-name", "--out-dir"):
            if g[0] in seen:
                continue
            seen.add(g[0])
        gs.append(list(g))
    env = {}
    if odd:
        for _ in range(r.randrange(3)):
            gs.insert(r.randrange(len(gs) + 1), r.choice([[ODD[0], ODD[1]], [r.choice(ODD[2:])]]))
        env = {k: v for k, v in [("RUSTFLAGS", "-C a"), ("CARGO_ENCODED_RUSTFLAGS", "a\x1fb"), ("X", "\xff"), ("EMPTY", ""), ("RUSTC_WRAPPER", "/x/y")] if r.random() < 0.3}
    err = "".join(r.choice(["error: x\n", "\n", "\x1b[31mwarn\x1b[0m\n", "\xff\xfe\n", " @CARGO\n", "x\r\n", "{\"json\":1}\n"]) for _ in range(r.randrange(4))) + r.choice(["", "", "tail"])
    out = "".join(r.choice(["a=\"b\"\n", "\n", "\xff\n"]) for _ in range(r.randrange(3)))
    given = r.choice(["", "", "fn main() {}\n", "\xff\n\n", "x" * r.choice([1, 5000, 100000])])
    return {"argv": [x for g in gs for x in g], "plan": {"k": outcome[0], "n": outcome[1]}, "in": given, "err": err, "out": out, "env": env}


def corrupt_argv(r, rec):
    a = rec["seen"][0]
    k = r.randrange(4)
    if k == 0:
        a.pop(r.randrange(len(a)))
    elif k == 1:
        a.append("--verbose")
    elif k == 2:
        rec["seen"].append(list(a))
    else:
        rec["rc"] = (rec["rc"] + 1) % 256 if rec["plan"]["k"] == "exit" else 0
    return rec


def corrupt_said(r, rec):
    if rec["plan"]["k"] == "absent":
        raise ValueError
    if rec["said"] and r.random() < 0.5:
        rec["said"].pop()
    else:
        rec["said"].append(runners.MARK + "compiler_builtins_ll_path@/x.ll")
    return rec


@check
def c14(ctx):
    ctx.conform("arguments", wrapper_items(ctx), runners.wrapped, module="TraceWrapper.tla", corrupt=corrupt_argv)


@check
def c15(ctx):
    ctx.conform("arguments", wrapper_items(ctx), runners.wrapped, module="TraceWrapper.tla", corrupt=corrupt_said)


# ------------------------------------------------------------------------------------------- the driver
def fault_items(ctx, n):
    cases = sorted(set(map(tuple, ctx.emitted("Driver.tla", "Driver.cfg"))))
    if n < len(cases):
        r = ctx.rng("faults")
        # every single fault, then a sample of the combinations
        wrong = lambda c: (c[0] not in ("supported", "overridden")) + (c[1] not in ("example", "bin")) + ((c[2], c[3]) != ("exit", 0)) + (c[4] != "both") + (c[5] != "none")
        one = [c for c in cases if wrong(c) <= 1 for _ in range(12)]
        cases = one + r.sample([c for c in cases if wrong(c) > 1], max(0, n - len(one)))
    else:
        ctx.exhaustive.append("all %d combinations of toolchain, arguments, build outcome, announcements and artifact fault" % len(cases))
    items = []
    for i, (tc, ar, k, n_, an, fa) in enumerate(cases):
        r = ctx.rng("fault", i)
        items.append(driver.scene(r, kind=ar if ar in ("example", "bin") else None, tc=tc, ar=ar, out=(k, n_), an=an, fa=fa))
    return items


def history_items(ctx, n):
    items = []
    for cfg in ["Builds1.cfg"] if ctx.quick else ["Builds1.cfg", "Builds.cfg"]:
        hs = sorted(ctx.emitted("Builds.tla", cfg), key=str)
        lim = n if cfg == "Builds1.cfg" else 12000
        if len(hs) <= lim:
            ctx.exhaustive.append("all %d histories of builds of %s" % (len(hs), cfg))
        hs = some(ctx, cfg, hs, lim)
        for i, h in enumerate(hs):
            r = ctx.rng("history", cfg, i)
            t = {"": "", "t": r.choice(["thumbv7m-none-eabi", "aarch64-unknown-none", "armv7r-none-eabi", driver.HOST])}
            b = [dict(x, triple=t[x["triple"]]) for x in h]
            items.append(driver.scene(r, kind=b[-1]["kind"], file=b[-1]["name"], builds=b))
    return items


def random_scenes(ctx, focus, n):
    return [driver.scene(ctx.rng(focus, i)) for i in range(n)]


def request_items(ctx, n):
    items = []
    for t in sorted(driver.OS):
        for lay in sorted(driver.LAYOUTS):
            r = ctx.rng("request", t, lay)
            conf = r.choice(["", r.choice(sorted(driver.OS))])
            flag = t
            if r.random() < 0.25:
                flag, conf = "", t
            items.append(driver.scene(r, layout=lay, flag=flag, conf=conf, out=r.choice([("exit", 0), ("exit", 0), ("exit", 3)])))
    return items + random_scenes(ctx, "requests", n)


def corrupt_scene(r, rec):
    o = rec["o"]
    if ctx_prop(rec) == "C16":
        if o["rc"] != 0:
            raise ValueError
        k = r.choice(["e", "l", "ob", "cl", "cr", "m"])
        o[k] = (not o[k]) if k == "m" else o[k] + 1 if isinstance(o[k], int) else [x + 1 for x in o[k]]
    return rec


def ctx_prop(rec):
    return "C16"


def corrupt_outcome(r, rec):
    o = rec["o"]
    if o["rc"] == 0:
        o["rc"] = 1
    else:
        k = r.randrange(3)
        if k == 0:
            o["rc"] = 0
        elif k == 1 and not rec["full"]:
            o["graph"] = True
        else:
            rec["err"] = "x" + rec["err"]
            rec["err1"] = "x" + rec["err1"]
            if not rec["calls"] or not rec["said"]:
                raise ValueError
    return rec


def corrupt_request(r, rec):
    if not rec["calls"]:
        raise ValueError
    a = rec["calls"][0]["argv"]
    k = r.randrange(5)
    if k == 0:
        rec["calls"].append(rec["calls"][0])
    elif k == 1:
        a.insert(1, "--no-default-features")
    elif k == 2:
        rec["calls"][0]["wrapper"] = False
    elif k == 3:
        for s in rec["srcs"]:
            s["d"] = -100000
    else:
        a.remove("--release")
    return rec


@check
def c16(ctx):
    ctx.conform("histories", history_items(ctx, ctx.n(2500, 10**9)), driver.driven, module="TraceDriver.tla", corrupt=corrupt_scene)
    ctx.conform("directories", random_scenes(ctx, "directories", ctx.n(2500, 20000)), driver.driven, module="TraceDriver.tla", corrupt=corrupt_scene)


@check
def c17(ctx):
    ctx.conform("faults", fault_items(ctx, ctx.n(3000, 10**9)), driver.driven, module="TraceDriver.tla", corrupt=corrupt_outcome)
    ctx.conform("output", [driver.scene(ctx.rng("output", i), out=ctx.rng("oo", i).choice([("exit", 0), ("exit", 42), ("exit", 255)])) for i in range(ctx.n(1000, 10000))],
                driver.driven, module="TraceDriver.tla", corrupt=corrupt_outcome)


@check
def c24(ctx):
    ctx.conform("requests", request_items(ctx, ctx.n(2500, 20000)), driver.driven, module="TraceDriver.tla", corrupt=corrupt_request)


def corrupt_told(r, rec):
    completed(rec)
    t = r.choice([rec["told"]] + [q["told"] for q in rec["ps"] if q["o"]["rc"] == 0])
    if t and r.random() < 0.7:
        k = r.choice(t)
        if k["k"] == "nostack" and sum(x["k"] == "nostack" for x in t) > 0:
            raise ValueError        # also said of undefined symbols, where it is optional
        t.remove(k)
        if any(x["n"] != k["n"] and x["k"] == k["k"] for x in t):
            raise ValueError        # another name of the same function may have been named as well
    else:
        t.append({"k": r.choice(["asm", "untyped", "overridden", "blind", "lowers"]), "n": "nobody"})
    return rec


@check
def c25(ctx):
    alone = lambda f: lambda r: {"case": f(r), "starts": []}
    for name, f, n in (("programs", gen.general, 1500), ("ir", gen.irgraph, 1200), ("formatters", gen.fmt_case, 600), ("intrinsics", gen.mem_case, 800), ("unknown", gen.ask_case, 1500), ("sizes", gen.sizes_case, 800),
                       ("aliases", gen.alias_case, 1200), ("records", genthumb.local_case, 1500)):
        ctx.conform(name, random_items(ctx, name, alone(f), ctx.n(n, 12 * n)), runners.telling, corrupt=corrupt_told)
    ctx.conform("starts", random_items(ctx, "starts", gen.start_item, ctx.n(500, 6000)), runners.telling, corrupt=corrupt_told)
