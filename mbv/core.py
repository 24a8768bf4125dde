"""What every check shares: building, running inputs through the real binary, handing the recorded runs to
TLC, reporting, and evidence."""
import hashlib
import json
import os
import random
import sys
import time
import traceback

from . import harness, tlc
from .harness import VERIF, ToolError

EVID = os.path.join(VERIF, "evidence")
REPLAY = os.path.join(VERIF, "replay")
KNOWN = os.path.join(VERIF, "known-findings.txt")
CHUNK = 3000


def known_findings():
    """`finding: property=<id> key=<key> <what>` -> {(id, key): what}"""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            w = line.split(None, 3)
            if len(w) >= 3 and w[0] == "finding:":
                out[(w[1].split("=", 1)[1], w[2].split("=", 1)[1])] = w[3].strip() if len(w) > 3 else ""
    return out


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.runs = 0
        self.samples = []
        self.focus = {}
        self.models = {}
        self.violations = []
        self.exhaustive = []
        self.assumptions = []
        self.corrupt_tried = self.corrupt_refused = 0
        self.pool = None
        self.binary = None
        self.stop = False
        self.deadline = self.t0 + float(os.environ.get("MBV_BUDGET", "90" if tier == "quick" else "780"))

    quick = property(lambda self: self.tier == "quick")

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def left(self):
        return self.deadline - time.time()

    def rng(self, *key):
        return random.Random("|".join(map(str, (self.seed,) + key)))

    def open(self):
        self.binary = harness.build()
        self.pool = harness.Pool(self.binary)

    def close(self):
        if self.pool:
            self.pool.close()

    # ---- design level
    def model(self, module, cfg, env=None, **kw):
        g, d = tlc.model_check(module, cfg, env, **kw)
        self.states += d
        self.transitions += g
        self.models["%s/%s" % (module, cfg)] = {"generated": g, "distinct": d}

    def emitted(self, module, cfg, env=None, tag="CASE", label="", **kw):
        """complete behaviours of a module, as it prints them"""
        vals, (g, d) = tlc.emitted(module, cfg, env, tag, **kw)
        self.states += d
        self.transitions += g
        self.models["%s/%s%s" % (module, cfg, label and " " + label)] = {"generated": g, "distinct": d, "behaviours": len(vals)}
        return vals

    # ---- conformance
    def conform(self, focus, items, runner, module="TraceGraph.tla", env=None, corrupt=None, sample=None):
        """runs every item through the binary and has TLC judge the recorded runs"""
        env = dict({"PROP": self.prop}, **(env or {}))
        done = []
        f = self.focus.setdefault(focus, {"runs": 0, "accepted": 0, "completed": 0})
        for lo in range(0, len(items), CHUNK):
            if self.stop:
                return done
            part = items[lo:lo + CHUNK]
            recs = self.pool.map(lambda box, it: runner(box, "%s-%d" % (focus, it[0]), it[1]), [(lo + i, x) for i, x in enumerate(part)])
            done += recs
            mut = []
            if corrupt is not None and lo == 0:
                r = self.rng(focus, "corrupt")
                for rec in r.sample(recs, min(len(recs), 60)):
                    try:
                        x = corrupt(r, json.loads(json.dumps(rec)))
                    except (IndexError, KeyError, ValueError):
                        x = None
                    if x is not None:
                        x["id"] = "corrupt-" + rec["id"]
                        mut.append((rec["id"], x))
            bad, (g, d) = tlc.conform(recs + [x for _, x in mut], module, env)
            self.states += d
            self.transitions += g
            f["runs"] += len(recs)
            f["completed"] += sum(1 for x in recs if x.get("o", {}).get("rc") == 0)
            f["accepted"] += sum(1 for x in recs if x["id"] not in bad)
            self.traces += len(recs)
            ok = [x["id"] for i, x in mut if i not in bad]
            self.corrupt_tried += len(ok)
            self.corrupt_refused += sum(1 for i in ok if i in bad)
            if ok and not any(i in bad for i in ok):
                raise ToolError("%s: TLC accepted every corrupted record" % focus)
            if len(self.samples) < 6:
                for x in recs[:1]:
                    self.samples.append({"focus": focus, "record": brief(x), "verdict": "refused" if x["id"] in bad else "allowed"})
            byid = {x["id"]: (it, x) for it, x in zip(part, recs)}
            for k in bad:
                if k.startswith("corrupt-"):
                    continue
                it, x = byid[k]
                self.violation(focus, runner.__name__, module, env, it, x, bad[k])
            known = known_findings()
            if any((self.prop, v["key"]) not in known for v in self.violations):
                self.stop = True
        return done

    def violation(self, focus, runner, module, env, item, rec, why):
        key = hashlib.sha256(json.dumps(item, sort_keys=True).encode()).hexdigest()[:12]
        self.violations.append({"focus": focus, "runner": runner, "module": module, "env": env, "item": item, "record": rec, "why": why, "key": key})

    # ---- the end
    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        known = known_findings()
        new, seen = [], {}
        for v in self.violations:
            k = (self.prop, v["key"])
            if k in known:
                seen[k] = known[k]
            else:
                new.append(v)
        for (p, k), what in sorted(seen.items()):
            print("KNOWN-FINDING: property=%s %s" % (p, what))
        rc = 0
        for i, v in enumerate(new[:3]):
            os.makedirs(REPLAY, exist_ok=True)
            path = os.path.join(REPLAY, "%s-%s.json" % (self.prop, v["key"]))
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            print("  %s: %s" % (v["record"]["id"], str(v["why"])[:700]))
            print("VIOLATION property=%s replay=%s" % (self.prop, os.path.relpath(path, VERIF)))
            rc = 1
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "samples": self.samples or [{"note": "no run was recorded"}], "conformance": self.focus, "models": self.models,
               "corrupted_records": {"tried": self.corrupt_tried, "refused": self.corrupt_refused}}
        if self.exhaustive:
            cov["exhausted"] = self.exhaustive
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s: %d model states, %d recorded runs judged, %d refused, %.1fs" % (
            self.prop, self.tier, self.states, self.traces, len(self.violations), time.time() - self.t0))
        return rc


def brief(rec):
    """a record short enough to print"""
    s = json.dumps(rec)
    if len(s) <= 4000:
        return rec
    return s[:4000] + "..."


def main(argv):
    from . import props, runners
    if len(argv) >= 2 and argv[0] == "--replay":
        return replay(argv[1])
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 1:
        tier = argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if prop not in props.CHECKS:
        print("no such check: %s" % prop, file=sys.stderr)
        return 2
    ctx = Ctx(prop, tier, seed)
    try:
        ctx.open()
        props.CHECKS[prop](ctx)
        return ctx.finish()
    except ToolError as e:
        print("%s: the check itself failed: %s" % (prop, e), file=sys.stderr)
        if ctx.violations:
            return ctx.finish()
        return 2
    except Exception:
        traceback.print_exc()
        if ctx.violations:
            return ctx.finish()
        return 2
    finally:
        ctx.close()


def replay(path):
    from . import runners
    v = json.load(open(path))
    ctx = Ctx("replay", "quick", 1)
    ctx.open()
    try:
        rec = runners.find(v["runner"])(ctx.pool.box(), "replay", v["item"])
        bad, _ = tlc.conform([rec], v["module"], v["env"])
        print(json.dumps(rec.get("o"), indent=1)[:3000])
        print("REFUSED: " + bad["replay"] if bad else "allowed")
        return 1 if bad else 0
    finally:
        ctx.close()
