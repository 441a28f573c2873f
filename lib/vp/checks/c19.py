"""C19: byte order changes only the bytes inside scalars; padding is always zero."""
import random

from .. import check, codec_cpp, codec_py, cpp, env, gen, pool, pyrun, schema, traces


def littered(rng, info, t, v, e):
    """The encoding with its padding bytes replaced by garbage."""
    return b"".join(bytes([rng.randrange(1, 256)]) if role == "pad" else b if e == "<" else b[::-1]
                    for role, b in info.tokens(t, v))


def run_program(args):
    program, seed, values, idx = args
    info = program.info
    rng = random.Random(seed)
    work = env.scratch("cppm")
    try:
        try:
            mod = pyrun.load(program)
            driver = cpp.FullDriver(program, work, "p%d" % idx, sanitize=False)
        except (pyrun.CompileRejected, cpp.Unusable) as e:
            return {"unusable": str(e), "schema": schema.render(program.defs)}
        items = []
        reqs = []
        out = {}

        def python(t, v, make, how):
            e = {"k": "mir", "t": t, "v": v, "le": [-1], "be": [-1], "na": [-1], "how": how}
            try:
                with pyrun.limit(20):
                    msg = make()
                    e["le"] = e["na"] = list(msg.encode("<"))
                    e["be"] = list(msg.encode(">"))
            except Exception as ex:
                e["x"] = repr(ex)[:300]
                e["le"] = e["na"] = e["be"] = [-1]
            out.setdefault(t, []).append(e)

        for t in program.types:
            cls = getattr(mod, t)
            for k in range(values):
                v = gen.default(info, t) if k == 0 else gen.aligned_value(rng, info, t)
                if v is None or not gen.greedy_tail_aligned(info, t, v):
                    continue
                dirty = littered(rng, info, t, v, "<")
                python(t, v, lambda: codec_py.build(info, t, cls, v), "python")

                def redecoded():
                    msg = cls()
                    msg.decode(dirty, "<")
                    return msg
                python(t, v, redecoded, "python, padding littered")
                items.append((t, v, "C++"))
                reqs.append((t, "b", "-", "v", cpp.feed(info, t, v)))
                items.append((t, v, "C++, padding littered"))
                reqs.append((t, "d", "<", "v", dirty))
        for (t, v, how), req, rep in zip(items, reqs, driver.run(reqs)):
            b = codec_cpp.built(rep, "v") if req[1] == "b" else codec_cpp.decoded(rep, "v")
            e = {"k": "mir", "t": t, "v": v, "le": b["le"] or [-1], "be": b["be"] or [-1], "na": b["na"] or [-1],
                 "how": how}
            if not info.tokens(t, v):
                e.update(le=b["le"], be=b["be"], na=b["na"])
            out.setdefault(t, []).append(e)
        return {"events": [(t, schema.closure(info, t), ev) for t, ev in out.items()]}
    finally:
        env.drop(work)


def body(c):
    rng = random.Random(env.SEED + 191)
    programs = codec_cpp.programs(rng, 400 if env.THOROUGH else 26, 240 if env.THOROUGH else 24)
    ts = traces.TraceSet()
    jobs = [(p, env.SEED * 1000003 + i, 10 if env.THOROUGH else 4, i) for i, p in enumerate(programs)]
    for i, res in enumerate(pool.pmap(run_program, jobs)):
        if "unusable" in res:
            c.violation("a valid schema has no usable codecs: %s" % res["unusable"][:400], res)
            continue
        for t, defs, events in res["events"]:
            ts.add((i, t), defs, events)
    rejected, stats = ts.validate("TraceCodec")
    c.add_trace(stats, ts.n)
    c.count("struct_types", sum(len(p.types) for p in programs))
    for why, e, defs, extra in rejected:
        c.violation("%s: %s" % (e["how"], "; ".join(why)), traces.replay(why, e, defs, extra))
    for p in programs[:2]:
        c.sample({"schema": schema.render(schema.closure(p.info, p.types[0]))})
    c.assume("host is little endian (x86-64)")


if __name__ == "__main__":
    check.main("C19", body)
