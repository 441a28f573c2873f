"""C09: raw C++ swap converts a whole foreign-endian message to native in place."""
import random

from .. import check, cpp, cppraw, env, gen, pool, schema, traces
from . import c08


def run_program(args):
    program, idx, seed, values = args
    rng = random.Random(seed)
    info = program.info
    work = env.scratch("swap")
    try:
        try:
            driver = cppraw.RawDriver(program, work, "p%d" % idx, layout=False)
        except cpp.Unusable as e:
            return {"unusable": str(e), "schema": schema.render(program.defs)}
        reqs, evs = [], []
        for t in program.types:
            for k in range(values):
                v = gen.default(info, t) if k == 0 else gen.value(rng, info, t)
                if info.overaligned_part(t, v):
                    continue    # known finding, probed separately
                data = info.encode(t, v, ">")
                reqs.append((t, "s", data))
                evs.append({"k": "swap", "t": t, "v": v, "b": list(data)})
        out = {}
        for e, rep in zip(evs, driver.run(reqs)):
            if rep[0] == "crash":
                e.update({"out": [-1], "ret": -1, "intact": 0, "x": rep[1]})
            else:
                e.update({"out": cpp.unhex(rep[2]), "ret": int(rep[0]), "intact": int(rep[1])})
                if abs(e["ret"]) > 1 << 30:
                    e["ret"] = -1
            out.setdefault(e["t"], []).append(e)
        return {"events": [(t, schema.closure(info, t), ev) for t, ev in out.items()]}
    finally:
        env.drop(work)


ROUNDED = "address of an unlimited member in a part is rounded up"


def probe(c):
    """Known finding: a part followed by a lower aligned part."""
    m = schema.member
    defs = [schema.struct("X", [m("n", "u8"), m("a", "u8", "ext", s="n"), m("x", "u8", "dyn"), m("y", "u16")])]
    p = gen.Program(defs, ["X"])
    info = p.info
    work = env.scratch("swap")
    try:
        driver = cppraw.RawDriver(p, work, "k", layout=False)
        v = [[], [[1]], [[1]], [1, 2]]
        assert info.overaligned_part("X", v)
        rep = driver.run([("X", "s", info.encode("X", v, ">"))])[0]
    except cpp.Unusable:
        return
    finally:
        env.drop(work)
    fails = rep[0] == "crash" or cpp.unhex(rep[2]) != list(info.encode("X", v, "<"))
    c.known_finding("swap-part-overaligned", fails)


def body(c):
    probe(c)
    rng = random.Random(env.SEED + 91)
    ps = c08.programs(rng, 400 if env.THOROUGH else 60, 300 if env.THOROUGH else 48)
    ts = traces.TraceSet()
    jobs = [(p, i, env.SEED * 7919 + i, 8 if env.THOROUGH else 4) for i, p in enumerate(ps)]
    for i, res in enumerate(pool.pmap(run_program, jobs)):
        if "unusable" in res:
            c.violation("a valid schema has no usable raw codec: %s" % res["unusable"][:400], res)
            continue
        for t, defs, events in res["events"]:
            ts.add((i, t), defs, events)
    rejected, stats = ts.validate("TraceCodec")
    c.add_trace(stats, ts.n)
    c.count("struct_types", sum(len(p.types) for p in ps))
    for why, e, defs, extra in rejected:
        c.violation("; ".join(why), traces.replay(why, e, defs, extra),
                    "swap-unlimited-in-part" if why == [ROUNDED] else None)
    for p in ps[:2]:
        c.sample({"schema": schema.render(schema.closure(p.info, p.types[-1]))})
    c.assume("host is little endian, foreign means big endian; GCC x86-64 ABI")


if __name__ == "__main__":
    check.main("C09", body)
