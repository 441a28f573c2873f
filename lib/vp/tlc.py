"""Running TLC: exhaustive models, and trace validation in parallel chunks."""
import json
import os
import re
import shutil
import subprocess
import time
from concurrent.futures import ThreadPoolExecutor

from . import env

JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


def java(heap="2g", tmp="/tmp"):
    return ["java", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=4", "-Xss256m", "-Xmx" + heap, "-Djava.io.tmpdir=" + tmp, "-cp", JAR, "tlc2.TLC"]


def tail(out):
    return "\n".join(x for x in out.splitlines() if not x.startswith(("Parsing file", "Semantic processing")))[-4000:]


def _states(out):
    m = re.findall(r"(\d[\d,]*) states generated(?: \([^)]*\))?, (\d[\d,]*) distinct", out)
    if not m:
        return 0, 0
    return int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))


def _tlc(module, cfg, workdir, envextra, heap, workers, extra=(), timeout=800):
    meta = os.path.join(workdir, "meta-%d-%d" % (os.getpid(), time.monotonic_ns()))
    cmd = java(heap, workdir) + ["-workers", str(workers), "-metadir", meta, "-nowarning", "-deadlock", "-config", cfg] + \
        list(extra) + [module]
    p = subprocess.run(cmd, cwd=env.SPEC, env=env.child_env(**envextra), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=timeout)
    shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def model(name, cfg=None, workers=env.CORES, heap="6g", timeout=800, extra=(), **envextra):
    """Exhaustive check of spec/<name>.tla.  A failing *model* is an error of the machinery."""
    work = env.scratch("tlc")
    cfg = cfg or name + ".cfg"
    started = time.time()
    rc, out = _tlc(name + ".tla", cfg, work, envextra, heap, workers, extra, timeout)
    env.drop(work)
    gen, dist = _states(out)
    if rc != 0 or "No error has been found" not in out:
        raise env.MachineryError("TLC on %s failed (rc %s):\n%s" % (name, rc, tail(out)))
    return {"model": name, "states": dist, "transitions": gen, "wall_s": round(time.time() - started, 1), "out": out}


def validate(module, trace_parts, heap="2g", timeout=800, parallel=env.CORES):
    """Run the trace spec on every part.  Each part is a JSON-able object with an "ev" list.
    Returns (rejections, stats); a rejection is (part index, event index (0-based), clauses)."""
    work = env.scratch("trace")

    def one(idx):
        part = trace_parts[idx]
        tf = os.path.join(work, "t%d.json" % idx)
        of = os.path.join(work, "o%d.json" % idx)
        with open(tf, "w") as f:
            json.dump(part, f, separators=(",", ":"))
        rc, out = _tlc(module + ".tla", module + ".cfg", work, {"TRACE": tf, "OUT": of}, heap, 1, timeout=timeout)
        if rc != 0 or not os.path.exists(of):
            raise env.MachineryError("trace spec %s failed on part %d (rc %s):\n%s" % (module, idx, rc, tail(out)))
        with open(of) as f:
            res = json.load(f)
        if res["n"] != len(part["ev"]):
            raise env.MachineryError("trace spec %s consumed %s of %s events" % (module, res["n"], len(part["ev"])))
        gen, dist = _states(out)
        os.unlink(tf)
        return idx, res, gen, dist

    rejections = []
    results = []
    states = trans = 0
    events = 0
    with ThreadPoolExecutor(max_workers=parallel) as ex:
        for idx, res, gen, dist in ex.map(one, range(len(trace_parts))):
            results.append(res)
            for b in res["bad"]:
                rejections.append((idx, b["i"] - 1, b["why"]))
            states += dist
            trans += gen
            events += res["n"]
    env.drop(work)
    return rejections, {"states": states, "transitions": trans, "events": events, "results": results}
