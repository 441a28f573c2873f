"""C02: Python decode inverts encode and consumes exactly the message."""
import random

from .. import check, codec_py, env, gen, pool, pyrun, schema, traces


def replay_behaviours(args):
    lib, chunk = args
    program, names = codec_py.behaviour_program(lib, chunk)
    info = program.info
    try:
        mod = pyrun.load(program)
    except pyrun.CompileRejected as e:
        return 0, [{"unusable": str(e)[:2000], "schema": schema.render(program.defs)}]
    bad = []
    n = 0
    for b in chunk:
        t = names[tuple(b["ks"])]
        if not gen.greedy_tail_aligned(info, t, b["v"]):
            continue
        n += 1
        for key, en in (("le", "<"), ("be", ">")):
            try:
                with pyrun.limit(20):
                    msg = getattr(mod, t)()
                    used = msg.decode(bytes(b[key]), en)
                    ref = codec_py.build(info, t, getattr(mod, t), b["v"])
                    ok = used == len(b[key]) and list(msg.encode(en)) == b[key] and \
                        pyrun.flat(info, t, msg) == pyrun.flat(info, t, ref)
                    what = {"used": used, "re": list(msg.encode(en))}
            except Exception as e:
                ok, what = False, repr(e)
            if not ok:
                bad.append({"schema": schema.render(schema.closure(info, t)), "value": b["v"], "bytes": b[key],
                            "endianness": en, "observed": what})
    return n, bad


def body(c):
    rng = random.Random(env.SEED + 17)
    kinds = gen.member_kinds()
    rng.shuffle(kinds)
    nk = 40 if env.THOROUGH else 22
    res, lib, found = codec_py.behaviours(kinds[:nk], rng.sample(gen.GREEDY_KINDS, 4))
    c.add_model(res)
    for n, bad in pool.pmap(replay_behaviours, [(lib, ch) for ch in codec_py.chunks(found, 8)]):
        c.coverage["traces_validated_against_impl"] += n
        c.count("behaviours_replayed", n)
        for b in bad:
            c.violation("decode does not invert encode", b)
    programs = gen.pair_programs(rng, 8, None if env.THOROUGH else 450)
    programs += gen.random_programs(rng, 600 if env.THOROUGH else 96, names=codec_py.odd_names())
    programs += [gen.long_program(rng, 9 if env.THOROUGH else 2)]
    ts = codec_py.collect(c, codec_py.record_decode, programs, env.SEED, 4 if env.THOROUGH else 2)
    rejected, stats = ts.validate("TraceCodec")
    c.add_trace(stats, ts.n)
    c.count("struct_types", sum(len(p.types) for p in programs))
    for why, e, defs, extra in rejected:
        c.violation("; ".join(why), traces.replay(why, e, defs, extra))
    for p in programs[:2]:
        c.sample({"schema": schema.render(schema.closure(p.info, p.types[0]))})


if __name__ == "__main__":
    check.main("C02", body)
