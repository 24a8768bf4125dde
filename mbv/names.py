"""Symbol names: abstract (path, hash) <-> raw linkage names, in rustc's legacy mangling."""
import re

ESC = {"<": "$LT$", ">": "$GT$", "&": "$RF$", "(": "$LP$", ")": "$RP$", ",": "$C$", "*": "$BP$", "@": "$SP$",
       " ": "$u20$", "{": "$u7b$", "}": "$u7d$", "[": "$u5b$", "]": "$u5d$", "'": "$u27$", ";": "$u3b$", "+": "$u2b$",
       '"': "$u22$", "~": "$u7e$"}


def mangle_seg(seg):
    s = seg.replace("::", "..")
    s = "".join(ESC.get(c, c) for c in s)
    if s.startswith("$"):
        s = "_" + s
    return "%d%s" % (len(s), s)


def mangle(segs, h):
    """segs: path segments (a segment may itself contain `::`, as in `<a::T as b::U>`); h: 16 hex digits"""
    return "_ZN" + "".join(mangle_seg(s) for s in segs) + "17h" + h + "E"


def entry(segs, h):
    return {"raw": mangle(segs, h), "path": "::".join(segs), "hash": h}


def plain(raw):
    return {"raw": raw, "path": raw, "hash": ""}


def ident(s):
    return "%d%s%s" % (len(s), "_" if s[0].isdigit() or s[0] == "_" else "", s)


def v0(r, segs):
    """rustc's newer mangling; such names carry no hash. Segments: plain identifiers, the last one possibly a closure"""
    n = r.choice([0, 0, 1, 2, r.randrange(1 << 60)])     # tells crates of one name apart
    d, m = "", n - 2
    while n > 1 and (m or not d):
        d, m = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"[m % 62] + d, m // 62
    s = "C" + ("" if n == 0 else "s" + d + "_") + ident(segs[0])
    for k, x in enumerate(segs[1:]):
        last = k == len(segs) - 2
        s = "N" + ("v" if last or sum(map(ord, x)) % 3 == 0 else "t") + s + ident(x)
    path = "::".join(["%s[%x]" % (segs[0], n)] + segs[1:])
    if len(segs) > 1 and r.random() < 0.3:
        n = r.randrange(3)
        s = "NC" + s + ["", "s_", "s0_"][n] + "0"
        path += "::{closure#%d}" % n
    return {"raw": "_R" + s, "path": path, "hash": ""}


def suffixed(r, e):
    """what LLVM appends to names: promoted symbols keep their name, clones get another one"""
    if r.random() < 0.5:
        return dict(e, raw=e["raw"] + ".llvm." + str(r.randrange(1, 1 << 60)))
    x = r.choice([".1", ".cold", ".part.0", ".isra.0.17"])
    return dict(e, raw=e["raw"] + x, path=e["path"] + ("::h" + e["hash"] if e["hash"] else "") + x, hash="")
