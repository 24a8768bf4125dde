"""Mutation survey: small random changes of the source, each in a scratch copy; which checks notice?
  mutate.py OUT.jsonl N SEED [FILE-REGEX]       results are appended; mutants already in OUT are skipped"""
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.environ.get("MUT_VERIF") or os.path.dirname(os.path.dirname(HERE))
ENV = ("export HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never PATH=/root/.cargo/bin:$PATH CARGO_PROFILE_DEV_DEBUG=0; "
       "unset RUSTFLAGS; ")
SWAPS = [(" == ", [" != "]), (" != ", [" == "]), (" < ", [" <= ", " > "]), (" > ", [" >= ", " < "]), (" <= ", [" < "]), (" >= ", [" > "]), (" && ", [" || "]), (" || ", [" && "]),
         (" + ", [" - "]), (" - ", [" + "]), (" | ", [" & ", " ^ "]), (" & ", [" | "]), ("<< ", [">> "]), (">> ", ["<< "]), (" += ", [" = ", " -= "]), (" -= ", [" = "]), (" |= ", [" = ", " &= "]),
         ("true", ["false"]), ("false", ["true"]), (".is_some()", [".is_none()"]), (".is_none()", [".is_some()"]), (".is_ok()", [".is_err()"]), ("starts_with", ["ends_with"]), ("ends_with", ["starts_with"]),
         ("strip_prefix", ["strip_suffix"]), ("continue;", ["break;", ""]), ("break;", ["continue;", ""]), (".max(", [".min("]), (".all(", [".any("]), (".any(", [".all("]), (".first()", [".last()"]), (".last()", [".first()"]),
         (".chain(", [".zip("]), ("many0", ["many1"]), ("many1", ["many0"]), ("space1", ["space0"]), ("space0", ["space1"]), ("opt(", ["Some("]), ("if !", ["if "]), ("if ", ["if !"]), ("while ", ["while !"]),
         ("..", ["..="]), (".filter(", [".filter(|_| true).filter("]), (".or_insert(", [".or_insert_with(|| "]), ("Incoming", ["Outgoing"]), ("Outgoing", ["Incoming"]), ("Some(", ["None.or(Some("]), ("unwrap_or(", ["map(|_| Default::default()).unwrap_or("]),
         ("?", [".unwrap()"]), (".rev()", [""]), (".skip(1)", [".skip(0)", ".skip(2)"]), (".next()", [".last()"]), ("contains_key", ["is_empty() || !"]), ("u32", ["u16"]), ("u64", ["u32"]), ("i32", ["i16"])]


def body(path):
    ls = open(path).read().split("\n")
    for i, l in enumerate(ls):
        if l.startswith("#[cfg(test)]"):
            return ls, i
    return ls, len(ls)


def mutants(repo, rx):
    out = []
    for f in ("src/main.rs", "src/thumb.rs", "src/wrapper.rs", "src/ir.rs", "src/ir/define.rs", "src/ir/item.rs", "src/ir/ty.rs"):
        if not re.search(rx, f):
            continue
        ls, n = body(os.path.join(repo, f))
        for i, l in enumerate(ls[:n]):
            code = l.split("//")[0] if '"' not in l else l
            s = code.strip()
            if not s or s.startswith(("//", "#[", "use ", "warn!", "eprintln!", "///", "mod ")):
                continue
            for a, bs in SWAPS:
                for m in re.finditer(re.escape(a), code):
                    if a in ("u32", "u64", "i32", "true", "false") and (code[max(0, m.start() - 1)].isalnum() or code[m.end():m.end() + 1].isalnum()):
                        continue
                    for b in bs:
                        out.append((f, i, l, l[:m.start()] + b + l[m.end():]))
            for m in re.finditer(r"\b0[xb][0-9a-fA-F_]+\b", code):
                v, hexa = m.group(0), m.group(0)[1] == "x"
                n_ = int(v.replace("_", ""), 0)
                for bit in range(max(4, n_.bit_length() + 1)):
                    w = n_ ^ (1 << bit)
                    out.append((f, i, l, l[:m.start()] + (hex(w) if hexa else bin(w)) + l[m.end():]))
            for m in re.finditer(r"(?<![\w.\"])\d+(?![\w\"])", code):
                v = int(m.group(0))
                for w in {v + 1, max(0, v - 1)} - {v}:
                    out.append((f, i, l, l[:m.start()] + str(w) + l[m.end():]))
            for m in re.finditer(r'"((?:[^"\\]|\\.)+)"', code):
                if "!(" in code and ("bail" in code or "anyhow" in code or "expect" in code):
                    continue
                x = m.group(1)
                for w in {x[:-1], x + "x"}:
                    if not w.endswith("\\"):
                        out.append((f, i, l, l[:m.start(1)] + w + l[m.end(1):]))
            if s.endswith(";") and not s.startswith(("let", "return", "}", "const", ".", ")")) and "(" in s:
                out.append((f, i, l, ""))
            if re.match(r'^\|\| .*|^&& ', s):
                out.append((f, i, l, ""))
            if s.startswith(".") and s.endswith(")") and "(" in s:
                out.append((f, i, l, ""))
            if re.match(r"^[|] 0b|^0b", s) and " | " in s:
                out.append((f, i, l, re.sub(r"0b[01_]+ \| ", "", l, count=1)))
    return out


ORDER = {"src/thumb.rs": ["C23", "C06", "C08", "C22"], "src/wrapper.rs": ["C14", "C15"], "src/ir.rs": ["C11", "C12", "C05"], "src/ir/define.rs": ["C11", "C05", "C12"], "src/ir/item.rs": ["C11", "C12", "C05", "C10"],
         "src/ir/ty.rs": ["C12", "C07", "C11"]}


def main_order(line):
    """line of main.rs -> the checks most likely concerned, first"""
    if line < 395:
        return ["C17", "C16", "C24", "C09", "C13", "C05"]
    if line < 460:
        return ["C09", "C05", "C10", "C06", "C08"]
    if line < 600:
        return ["C10", "C07", "C22", "C05", "C19", "C25"]
    if line < 860:
        return ["C05", "C13", "C07", "C22", "C21", "C25"]
    if line < 1150:
        return ["C08", "C06", "C23", "C22", "C07", "C25"]
    return ["C01", "C02", "C03", "C04", "C18", "C19", "C20", "C12", "C22", "C25"]


def main():
    out, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    rx = sys.argv[4] if len(sys.argv) > 4 else "."
    work = "/tmp/mutate-%d" % os.getpid()
    subprocess.run("git clone -q /repo %s" % work, shell=True, check=True)
    done = {(x["file"], x["line"], x["new"]) for x in map(json.loads, open(out))} if os.path.exists(out) else set()
    ms = mutants(work, rx)
    random.Random(seed).shuffle(ms)
    sh = lambda c, t=600: subprocess.run(["bash", "-c", ENV + c], cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    k = 0
    try:
        for f, i, old, new in ms:
            if k >= n:
                break
            if (f, i + 1, new.strip()) in done or old.strip() == new.strip():
                continue
            sh("git checkout -q -- .")
            p = os.path.join(work, f)
            ls = open(p).read().split("\n")
            assert ls[i] == old
            ls[i] = new
            open(p, "w").write("\n".join(ls))
            r = {"file": f, "line": i + 1, "old": old.strip(), "new": new.strip(), "by": None}
            t = time.time()
            try:
                if sh("cargo check --offline --locked -q").returncode != 0:
                    continue
                k += 1
                if sh("cargo test --offline --locked -q --bins").returncode != 0:
                    r["by"] = "unit tests"
                else:
                    order = ORDER.get(f) or main_order(i + 1)
                    if os.environ.get("MUT_ALL"):
                        order = order + [c for c in ("C%02d" % j for j in range(1, 26)) if c not in order]
                    for c in order:
                        q = subprocess.run(["python3", "check.py", c, "quick"], cwd=VERIF, env=dict(os.environ, CCS_REPO=work, VERIF_SEED="1", MBV_FIRST="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
                        if q.returncode != 0:
                            r["by"] = c if q.returncode == 1 else "%s rc=%d" % (c, q.returncode)
                            break
            except subprocess.TimeoutExpired:
                r["by"] = "timeout"
            r["t"] = round(time.time() - t)
            with open(out, "a") as g:
                g.write(json.dumps(r) + "\n")
    finally:
        shutil.rmtree(work, ignore_errors=True)


main()
