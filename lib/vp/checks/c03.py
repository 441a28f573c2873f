"""C03: Python and generated C++ full codec are wire-compatible."""
import random

from .. import check, codec_cpp, cpp, env, gen, schema, traces


def maker(rng, info, t, values):
    for k, v in enumerate(info.values.get(t) or [None] * values):
        v = v or (gen.default(info, t) if k == 0 else gen.aligned_value(rng, info, t))
        if v is None or not gen.greedy_tail_aligned(info, t, v):
            continue

        def on_build(rep, v=v):
            return dict(codec_cpp.built(rep, "v"), k="cppb", t=t, v=v)
        yield ("b", "-", rng.choice(["v", "vc"]), cpp.feed(info, t, v)), on_build
        for e in ("<", ">") if k else rng.choice("<>"):
            data = info.encode(t, v, e)
            op = rng.choice("dvr")
            before = b""
            if op == "r":
                before = info.encode(t, gen.value(rng, info, t), e)
                before = before[:rng.randint(0, len(before))] if rng.random() < 0.2 else before
            en = "n" if e == "<" and rng.random() < 0.3 else e

            def on_decode(rep, v=v, e=e, data=data, before=before):
                return dict(codec_cpp.decoded(rep, "v"), k="cppd", t=t, v=v, e=e, b=list(data), before=list(before))
            yield (op, en, rng.choice(["v", "vc"]), cpp.again(before, data) if op == "r" else data), on_decode


def body(c):
    rng = random.Random(env.SEED + 31)
    programs = codec_cpp.programs(rng, 400 if env.THOROUGH else 26, 240 if env.THOROUGH else 24)
    programs += [gen.long_program(rng, 9 if env.THOROUGH else 2)]
    ts = codec_cpp.collect(c, maker, programs, env.SEED, 8 if env.THOROUGH else 4)
    rejected, stats = ts.validate("TraceCodec")
    c.add_trace(stats, ts.n)
    c.count("struct_types", sum(len(p.types) for p in programs))
    for why, e, defs, extra in rejected:
        c.violation("; ".join(why), traces.replay(why, e, defs, extra))
    for p in programs[:2]:
        c.sample({"schema": schema.render(schema.closure(p.info, p.types[0]))})
    c.assume("host is little endian (x86-64), so native must equal little")
    c.assume("C++ compiled with g++ -O0 under ASan and UBSan (enum range check off)")


if __name__ == "__main__":
    check.main("C03", body)
