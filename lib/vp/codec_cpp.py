"""Conformance of the C++ full codec: recording build / decode events."""
import copy
import random

from . import cpp, env, gen, pool, schema, traces

CRASH = [-1]


def built(reply, what):
    """Fields of a build reply as event fields."""
    if reply[0] == "crash":
        e = {"x": reply[1], "sz": -1, "eb": -2, "le": CRASH, "be": CRASH, "na": CRASH, "pn": [-1, -1, -1]}
        return e
    e = {"sz": int(reply[0]), "eb": int(reply[1]), "le": [], "be": [], "na": [], "pn": []}
    i = 2
    if "v" in what:
        e["le"], e["be"], e["na"] = (cpp.unhex(x) for x in reply[i:i + 3])
        i += 3
    if "p" in what:
        e["pn"] = [int(x) for x in reply[i:i + 3]]
        i += 3
    if "t" in what:
        e["text"] = cpp.unhex(reply[i])
    return e


def decoded(reply, what):
    if reply[0] == "crash":
        e = built(reply, what)
        e.update({"ok": -1, "mem": 0})
        return e
    e = {"ok": int(reply[0]), "mem": int(reply[1]), "sz": -1, "eb": -2, "le": [], "be": [], "na": [], "pn": []}
    if e["ok"]:
        e.update(built(reply[2:], what))
    return e


def requests(job, rng, driver, program, values):
    """One program's requests with the events they become: (type, request, finish(reply) -> event)."""
    raise NotImplementedError


def run_program(args):
    maker, program, seed, values, opts, idx = args
    work = env.scratch("cppf")
    try:
        try:
            driver = cpp.FullDriver(program, work, "p%d" % idx, **opts)
        except cpp.Unusable as e:
            return {"unusable": str(e), "schema": schema.render(program.defs)}
        rng = random.Random(seed)
        reqs = []
        for t in program.types:
            reqs += [(t,) + r for r in maker(rng, program.info, t, values)]
        replies = driver.run([(t,) + r[0] for t, *r in reqs])
        out = {}
        for (t, req, finish), rep in zip(reqs, replies):
            out.setdefault(t, []).append(finish(rep))
        return {"events": [(t, schema.closure(program.info, t), ev) for t, ev in out.items()]}
    finally:
        env.drop(work)


def collect(c, maker, programs, seed, values, **opts):
    """Run every program; returns a TraceSet.  Unusable programs are violations."""
    ts = traces.TraceSet()
    jobs = [(maker, p, seed * 1000003 + i, values, opts, i) for i, p in enumerate(programs)]
    for i, res in enumerate(pool.pmap(run_program, jobs)):
        if "unusable" in res:
            c.violation("a valid schema has no usable C++ full codec: %s" % res["unusable"][:400], res)
            continue
        for t, defs, events in res["events"]:
            ts.add((i, t), defs, events)
    return ts


def programs(rng, pairs, rand, floats=True, files=8):
    """Schemas the C++ full generator accepts (one array per sizer)."""
    ps = gen.pair_programs(rng, files, pairs, floats=floats)
    extra = gen.random_programs(rng, rand, shared_sizers=False, floats=floats, merge=max(1, rand // files))
    # fold the random schemas into the same compile units
    for i, p in enumerate(extra):
        q = ps[i % len(ps)]
        ps[i % len(ps)] = gen.Program(q.defs + rename(p.defs, "R%d" % i), q.types + ["R%d%s" % (i, t) for t in p.types])
    return ps


def rename(defs, prefix):
    """Prefix all definition and enumerator names."""
    names = {d["name"] for d in defs}
    out = copy.deepcopy(defs)
    for d in out:
        d["name"] = prefix + d["name"]
        if d["t"] in names:
            d["t"] = prefix + d["t"]
        for m in d["m"]:
            if d["k"] == "enum":
                m["name"] = prefix + m["name"]
                m["c"] = schema.codes(m["name"])
            elif m["t"] in names:
                m["t"] = prefix + m["t"]
    return out
