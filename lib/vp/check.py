"""Check entry points: evidence, verdict lines, known findings."""
import glob
import json
import os
import shutil
import sys
import tempfile
import time
import traceback

from . import env


class Check(object):
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.started = time.time()
        self.coverage = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.violations = []
        self.known = load_known(prop)
        self.known_hit = []
        for path in glob.glob(os.path.join(env.EVIDENCE, "%s-violation-*.json" % prop)):
            os.unlink(path)

    # -- coverage ---------------------------------------------------------
    def add_model(self, res):
        self.coverage["states"] += res["states"]
        self.coverage["transitions"] += res["transitions"]
        self.coverage.setdefault("models", []).append(
            {"model": res["model"], "states": res["states"], "transitions": res["transitions"],
             "wall_s": res["wall_s"]})

    def add_trace(self, stats, traces):
        self.coverage["states"] += stats["states"]
        self.coverage["transitions"] += stats["transitions"]
        self.coverage["traces_validated_against_impl"] += traces
        self.coverage["events_validated"] = self.coverage.get("events_validated", 0) + stats["events"]

    def count(self, key, n=1):
        self.coverage[key] = self.coverage.get(key, 0) + n

    def sample(self, item, limit=4):
        if len(self.coverage["samples"]) < limit:
            self.coverage["samples"].append(item)

    def assume(self, text):
        self.assumptions.append(text)

    # -- verdict ----------------------------------------------------------
    def violation(self, why, replay, signature=None):
        """replay: JSON-able description of the failing input."""
        for k in self.known:
            if signature and signature == k["signature"]:
                self.known_hit.append(k)
                return
        self.violations.append((why, replay))

    def known_finding(self, signature, fails, what=""):
        """A finding committed in known_findings.json was probed; fails = it still fails."""
        for k in self.known:
            if k["signature"] == signature:
                if fails:
                    self.known_hit.append(k)
                return True
        return False

    def finish(self):
        d = env.EVIDENCE
        os.makedirs(d, exist_ok=True)
        cov = self.coverage
        if self.level != "model_checking":
            cov = {k: v for k, v in cov.items() if k not in ("states", "transitions",
                                                            "traces_validated_against_impl") or v}
        ev = {"property": self.prop, "tier": env.TIER if env.TIER in ("quick", "thorough") else "quick",
              "seed": env.SEED, "level": self.level, "coverage": cov,
              "wall_s": round(time.time() - self.started, 2), "assumptions": self.assumptions}
        out = []
        for n, (why, replay) in enumerate(self.violations[:20]):
            path = os.path.join(d, "%s-violation-%d.json" % (self.prop, n))
            with open(path, "w") as f:
                json.dump({"property": self.prop, "why": why, "input": replay}, f, indent=1, default=str)
            out.append((why, path))
        ev["violations"] = len(self.violations)
        if out:
            cov["violation_details"] = [{"what": str(w), "replay": p} for w, p in out]
        with open(os.path.join(d, "%s.json" % self.prop), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        seen = set()
        for k in self.known_hit:
            if k["signature"] not in seen:
                seen.add(k["signature"])
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        for why, path in out:
            print("  %s" % (why,))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        if not out:
            print("%s held: %s" % (self.prop, {k: v for k, v in cov.items() if k not in ("samples", "models")}))
        sys.stdout.flush()
        return 1 if out else 0


def load_known(prop):
    path = os.path.join(env.VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["open"] if k["property"] == prop]


def main(prop, body, level="model_checking"):
    c = Check(prop, level)
    root = tempfile.tempdir = tempfile.mkdtemp(prefix="vp-%s-" % prop)
    try:
        body(c)
        rc = c.finish()
    except env.MachineryError as e:
        sys.stderr.write("MACHINERY ERROR: %s\n" % e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 3
    shutil.rmtree(root, ignore_errors=True)
    sys.stdout.flush()
    sys.stderr.flush()
    sys.exit(rc)
