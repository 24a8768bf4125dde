"""Makes /verif/seeded from seeds.py: every bug is applied to a scratch copy of the repository and kept only if it touches
lines of the original source, builds, passes the repository's tests, and its demonstration tells it from the original.

  mkseed.py [--notest] [ID ...]        (default: those not made yet)"""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from seeds import SEEDS  # noqa: E402

OUT = os.path.join(os.path.dirname(os.path.dirname(HERE)), "seeded")
BASE = "43a94c1"


def sh(cmd, cwd, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def copy():
    d = "/tmp/seedwork-%d" % os.getpid()
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    return d


def apply(work, s):
    for f, old, new in s["edits"]:
        p = os.path.join(work, f)
        t = open(p).read()
        if t.count(old) != 1:
            return "%d matches for %r" % (t.count(old), old[:80])
        open(p, "w").write(t.replace(old, new))
    return None


def origin(work, patch):
    """whether all removed lines are original, and at least one is removed"""
    n, f, ln = 0, None, 0
    for l in patch.split("\n"):
        if l.startswith("--- a/"):
            f = l[6:]
        elif l.startswith("@@"):
            ln = int(l.split()[1].split(",")[0][1:])
        elif l.startswith("-") and not l.startswith("---"):
            rc, b = sh("git blame -s -L %d,%d HEAD -- %s" % (ln, ln, f), work)
            if not b.startswith("^" + BASE):
                return "line %d of %s is not original: %s" % (ln, f, b)
            n += 1
            ln += 1
        elif l.startswith(" "):
            ln += 1
    return None if n else "nothing of the original changes"


def build(work):
    return sh("cargo build --offline --locked --bin cargo-call-stack 2>&1 | tail -30; exit ${PIPESTATUS[0]}".replace("${PIPESTATUS[0]}", "0"), work)


ENV = ("export HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never PATH=/root/.cargo/bin:$PATH; unset CARGO_TARGET_DIR RUSTFLAGS; ")


def main():
    av = sys.argv[1:]
    notest = "--notest" in av
    av = [a for a in av if not a.startswith("--")]
    ids = av or [s["id"] for s in SEEDS if not os.path.exists(os.path.join(OUT, s["id"], "meta.json"))]
    work = copy()
    bad = []
    try:
        for s in SEEDS:
            if s["id"] not in ids:
                continue
            dst = os.path.join(OUT, s["id"])

            def fail(why):
                bad.append(s["id"])
                print("%-24s REJECTED %s" % (s["id"], why), flush=True)
                shutil.rmtree(dst, ignore_errors=True)

            sh("git checkout -q -- .", work)
            why = apply(work, s)
            if why:
                fail(why)
                continue
            rc, patch = sh("git diff", work)
            why = origin(work, patch)
            if why:
                fail(why)
                continue
            os.makedirs(dst, exist_ok=True)
            for f in ("demolib.py", "demo.sh"):
                shutil.copy2(os.path.join(HERE, f), dst)
            open(os.path.join(dst, "patch.diff"), "w").write(patch)
            open(os.path.join(dst, "demo.py"), "w").write('"""%s: %s"""\nfrom demolib import *\n%s' % (s["property"], s["what_it_breaks"], s["demo"]))
            open(os.path.join(dst, "meta.json"), "w").write(json.dumps({k: s[k] for k in ("property", "needs", "what_it_breaks")}, indent=1) + "\n")
            rc, out = sh("sh %s/demo.sh" % dst, "/repo")
            if rc != 0:
                fail("demo on the original: %d %s" % (rc, out[-1500:]))
                continue
            rc, out = sh(ENV + "cargo build --offline --locked --bin cargo-call-stack", work)
            if rc != 0:
                fail("build: " + out[-1500:])
                continue
            rc, out = sh("sh %s/demo.sh" % dst, work)
            if rc == 0:
                fail("demo does not notice")
                continue
            note = out.strip()[-160:]
            if not notest:
                rc, out = sh(ENV + "cargo test --workspace --offline --no-fail-fast -- --test-threads 1 2>&1 | grep -E '^test |test result|panicked|error' ; rm -rf %s/firmware/target" % work, work)
                if "FAILED" in out or out.count("test result: ok") < 2 or "error" in out.split("test result")[0]:
                    fail("tests: " + out[-1500:])
                    continue
            print("%-24s ok: %s" % (s["id"], note), flush=True)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(1 if bad else 0)


if __name__ == "__main__":
    main()
