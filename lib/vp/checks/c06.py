"""C06: Python decode is total."""
import random
import tracemalloc

from .. import check, codec_py, env, faults, gen, pool, pyrun, schema, traces


def attempt(info, t, cls, data, en, again_fresh, before=None):
    e = {"k": "fuz", "t": t, "b": list(data), "e": en, "o": "?", "mem": 1, "r": [], "f": [], "n2": -1, "f2": [],
         "r2": []}
    from prophy.exception import ProphyError
    msg = cls()
    if before is not None:      # a message which has decoded something else
        e["before"] = list(before)
        try:
            with pyrun.limit(10):
                msg.decode(before, en)
        except Exception:
            pass
    tracemalloc.reset_peak()
    base = tracemalloc.get_traced_memory()[0]
    try:
        with pyrun.limit(10):
            msg.decode(data, en)
        e["o"] = "ok"
    except ProphyError:
        e["o"] = "prophy"
    except BaseException as ex:
        e["o"] = "other"
        e["x"] = repr(ex)[:300]
    if tracemalloc.get_traced_memory()[1] - base > 200000 + 4096 * len(data):
        e["mem"] = 0
    if e["o"] != "ok":
        return e
    try:
        with pyrun.limit(20):
            e["f"] = pyrun.flat(info, t, msg)
            e["r"] = list(msg.encode(en))
    except BaseException as ex:
        e["x"] = repr(ex)[:300]
        e["r"] = [-1]
        return e
    try:
        with pyrun.limit(20):
            two = cls() if again_fresh else msg
            e["n2"] = two.decode(bytes(e["r"]), en)
            e["f2"] = pyrun.flat(info, t, two)
            e["r2"] = list(two.encode(en))
    except BaseException as ex:
        e["x"] = repr(ex)[:300]
    return e


def record(args):
    program, seed, values = args
    pool.cap_memory()
    rng = random.Random(seed)
    info = program.info
    try:
        mod = pyrun.load(program)
    except pyrun.CompileRejected as e:
        return {"unusable": str(e), "schema": schema.render(program.defs)}
    out = []
    tracemalloc.start()
    try:
        for t in program.types:
            cls = getattr(mod, t)
            events = []
            for k in range(values):
                v = gen.value(rng, info, t)
                en = rng.choice("<>")
                before = None
                for fault, data in faults.damaged(rng, info, t, v, en, 10):
                    e = attempt(info, t, cls, data, en, rng.random() < 0.7, before if rng.random() < 0.3 else None)
                    before = data
                    e["fault"] = fault
                    events.append(e)
            out.append((t, schema.closure(info, t), events))
    finally:
        tracemalloc.stop()
    return {"events": out}


def body(c):
    rng = random.Random(env.SEED + 61)
    programs = gen.pair_programs(rng, 16, 120 if env.THOROUGH else 12)
    programs += gen.random_programs(rng, 320 if env.THOROUGH else 80, merge=5, names=codec_py.odd_names())
    ts = codec_py.collect(c, record, programs, env.SEED, 8 if env.THOROUGH else 3)
    ends = {}
    for p in ts.parts:
        for e in p["ev"]:
            ends[e["o"]] = ends.get(e["o"], 0) + 1
    rejected, stats = ts.validate("TraceCodec")
    c.add_trace(stats, ts.n)
    c.coverage["outcomes"] = ends
    c.count("struct_types", sum(len(p.types) for p in programs))
    for why, e, defs, extra in rejected:
        c.violation("%s: %s" % (e["fault"], "; ".join(why)), traces.replay(why, e, defs, extra))
    for p in programs[:2]:
        c.sample({"schema": schema.render(schema.closure(p.info, p.types[0]))})


if __name__ == "__main__":
    check.main("C06", body)
