"""C05: C++ full codec get_byte_size equals bytes written; encode stays in bounds."""
import random

from .. import check, codec_cpp, cpp, env, gen, schema, traces


def overfill(rng, info, t, v):
    """Give limited arrays (also nested ones) more elements than their limit."""
    r = info.resolved(t)
    d = info.defs.get(r)
    if d is None or d["k"] == "enum":
        return v
    if d["k"] == "union":
        return [v[0], overfill(rng, info, d["m"][v[0] - 1]["t"], v[1])]
    out = []
    for m, x in zip(d["m"], v):
        if m["a"] == "plain":
            out.append(x if cpp.is_sizer(d["m"], m) else overfill(rng, info, m["t"], x))
            continue
        if m["t"] != "byte":
            x = [overfill(rng, info, m["t"], e) for e in x]
        if m["a"] == "lim" and rng.random() < 0.8:
            extra = rng.choice([1, 2, 5, 300])
            n = m["n"] + extra
            while len(x) < n:
                x = x + [rng.randrange(256) if m["t"] == "byte" else gen.value(rng, info, m["t"], 3)]
        out.append(x)
    return out


def maker(rng, info, t, values):
    lim = any(m["a"] == "lim" for d in schema.closure(info, t) for m in d["m"])
    given = info.values.get(t)
    for k, v in enumerate(given or [None] * (values + 2 * lim)):
        v = v or (gen.default(info, t) if k == 0 else gen.value(rng, info, t))
        if k >= values and not given:
            v = overfill(rng, info, t, v)

        def on_build(rep, v=v):
            return dict(codec_cpp.built(rep, "vp"), k="cpps", t=t, v=v)
        yield ("b", "-", rng.choice(["vp", "vp", "vpc"]), cpp.feed(info, t, v)), on_build


def probe(c):
    """Known finding: more elements than the array's sizer can count."""
    defs = [schema.struct("N", [schema.member("n", "u8"), schema.member("x", "u8", "ext", s="n")])]
    p = gen.Program(defs, ["N"])
    work = env.scratch("cppf")
    try:
        driver = cpp.FullDriver(p, work, "k", sanitize=False)
        rep = driver.run([("N", "b", "-", "vp", cpp.feed(p.info, "N", [[], [[7]] * 300]))])[0]
    except cpp.Unusable:
        return
    finally:
        env.drop(work)
    e = codec_cpp.built(rep, "vp")
    c.known_finding("narrow-sizer", any(n != e["sz"] for n in e["pn"]))


def body(c):
    probe(c)
    rng = random.Random(env.SEED + 51)
    programs = codec_cpp.programs(rng, 400 if env.THOROUGH else 26, 240 if env.THOROUGH else 24)
    programs += [gen.long_program(rng, 9 if env.THOROUGH else 2)]
    ts = codec_cpp.collect(c, maker, programs, env.SEED, 10 if env.THOROUGH else 5)
    rejected, stats = ts.validate("TraceCodec")
    c.add_trace(stats, ts.n)
    c.count("struct_types", sum(len(p.types) for p in programs))
    for why, e, defs, extra in rejected:
        c.violation("; ".join(why), traces.replay(why, e, defs, extra))
    for p in programs[:2]:
        c.sample({"schema": schema.render(schema.closure(p.info, p.types[0]))})
    c.assume("buffers are 8-aligned heap blocks of exactly get_byte_size() bytes watched by ASan")


if __name__ == "__main__":
    check.main("C05", body)
