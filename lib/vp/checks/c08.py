"""C08: raw C++ struct layout coincides with the wire layout."""
import random

from .. import check, cpp, cppraw, env, gen, pool, schema, traces


def run_program(args):
    program, idx = args
    work = env.scratch("raw")
    try:
        try:
            driver = cppraw.RawDriver(program, work, "p%d" % idx, swap=False)
        except cpp.Unusable as e:
            return {"unusable": str(e), "schema": schema.render(program.defs)}
        out = []
        for t, rep in zip(program.types, driver.run([(t, "l", b"") for t in program.types])):
            if rep[0] == "crash":
                raise env.MachineryError("layout printer crashed: %s" % (rep,))
            nums = [int(x) for x in rep]
            out.append((t, schema.closure(program.info, t),
                        [{"k": "raw", "t": t, "size": nums[0], "offs": nums[1:]}]))
        return {"events": out}
    finally:
        env.drop(work)


def composites(p):
    """Every struct and union of the program, library types included."""
    return gen.Program(p.defs, [d["name"] for d in p.defs if d["k"] in ("struct", "union")])


def programs(rng, pairs, rand):
    ps = gen.pair_programs(rng, 8, pairs)
    return [composites(p) for p in ps + gen.random_programs(rng, rand, merge=max(1, rand // 8))]


def body(c):
    rng = random.Random(env.SEED + 81)
    ps = programs(rng, None if env.THOROUGH else 200, 400 if env.THOROUGH else 80)
    ts = traces.TraceSet()
    for i, res in enumerate(pool.pmap(run_program, [(p, i) for i, p in enumerate(ps)])):
        if "unusable" in res:
            c.violation("a valid schema has no usable raw header: %s" % res["unusable"][:400], res)
            continue
        for t, defs, events in res["events"]:
            ts.add((i, t), defs, events)
    rejected, stats = ts.validate("TraceCodec")
    c.add_trace(stats, ts.n)
    c.count("struct_types", sum(len(p.types) for p in ps))
    for why, e, defs, extra in rejected:
        c.violation("; ".join(why), traces.replay(why, e, defs, extra))
    for p in ps[:2]:
        c.sample({"schema": schema.render(schema.closure(p.info, p.types[-1]))})
    c.assume("GCC x86-64 ABI")


if __name__ == "__main__":
    check.main("C08", body)
