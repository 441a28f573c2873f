"""C01: Python encode emits exactly the documented wire format."""
import random

from .. import check, codec_py, env, gen, pool, pyrun, schema, traces


def replay_behaviours(args):
    lib, chunk = args
    program, names = codec_py.behaviour_program(lib, chunk)
    info = program.info
    try:
        mod = pyrun.load(program)
    except pyrun.CompileRejected as e:
        return 0, [{"unusable": str(e)[:2000], "schema": schema.render(program.defs)}]
    bad = []
    for b in chunk:
        t = names[tuple(b["ks"])]
        got = {}
        try:
            with pyrun.limit(20):
                msg = codec_py.build(info, t, getattr(mod, t), b["v"])
                got = {"le": list(msg.encode("<")), "be": list(msg.encode(">"))}
        except Exception as e:
            got = {"le": repr(e), "be": repr(e)}
        if got["le"] != b["le"] or got["be"] != b["be"]:
            bad.append({"schema": schema.render(schema.closure(info, t)), "value": b["v"],
                        "spec": {"le": b["le"], "be": b["be"]}, "code": got})
    return len(chunk), bad


def body(c):
    rng = random.Random(env.SEED)
    kinds = gen.member_kinds()
    rng.shuffle(kinds)
    nk = 40 if env.THOROUGH else 22
    res, lib, found = codec_py.behaviours(kinds[:nk], rng.sample(gen.GREEDY_KINDS, 4))
    c.add_model(res)
    for n, bad in pool.pmap(replay_behaviours, [(lib, ch) for ch in codec_py.chunks(found, 8)]):
        c.coverage["traces_validated_against_impl"] += n
        c.count("behaviours_replayed", n)
        for b in bad:
            c.violation("encode differs from the specified bytes", b)
    programs = gen.pair_programs(rng, 8, None if env.THOROUGH else 450)
    programs += gen.random_programs(rng, 600 if env.THOROUGH else 96, names=codec_py.odd_names())
    programs += [gen.long_program(rng, 9 if env.THOROUGH else 2)]
    ts = codec_py.collect(c, codec_py.record_encode, programs, env.SEED, 6 if env.THOROUGH else 3)
    rejected, stats = ts.validate("TraceCodec")
    c.add_trace(stats, ts.n)
    c.count("struct_types", sum(len(p.types) for p in programs))
    for why, e, defs, extra in rejected:
        c.violation("; ".join(why), traces.replay(why, e, defs, extra))
    for p in programs[:2]:
        t = p.types[0]
        c.sample({"schema": schema.render(schema.closure(p.info, t))})


if __name__ == "__main__":
    check.main("C01", body)
