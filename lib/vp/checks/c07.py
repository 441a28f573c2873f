"""C07: C++ full decode is memory-safe and exact on arbitrary bytes."""
import random

from .. import check, codec_cpp, cpp, env, faults, gen, schema, traces

FAULTS = 12


def maker(rng, info, t, values):
    for k in range(values):
        v = gen.value(rng, info, t)
        en = rng.choice("<>")
        before = b""
        for fault, data in faults.damaged(rng, info, t, v, en, FAULTS):
            asked = "n" if en == "<" and rng.random() < 0.2 else en
            op = rng.choice("dddddrrv")

            def on_decode(rep, fault=fault, data=data, en=en, before=before if op == "r" else b""):
                r = codec_cpp.decoded(rep, "v")
                return dict(r, k="cfz", t=t, b=list(data), e=en, fault=fault, before=list(before))
            yield (op, asked, "v", cpp.again(before, data) if op == "r" else data), on_decode
            before = data


def probe(c):
    """Known finding: an enum field holding a number outside the C++ range of the enum's values."""
    p = gen.Program([schema.enum("E", [schema.enumerator("E_A", 1)]),
                     schema.struct("N", [schema.member("x", "E")])], ["N"])
    work = env.scratch("cppu")
    try:
        driver = cpp.FullDriver(p, work, "k", flags=["-fsanitize=enum"])
        rep = driver.run([("N", "d", "<", "v", b"\x78\x56\x34\x12")])[0]
        c.known_finding("enum-range", rep[0] == "crash")
    except cpp.Unusable:
        return
    finally:
        env.drop(work)


def body(c):
    probe(c)
    rng = random.Random(env.SEED + 71)
    programs = codec_cpp.programs(rng, 240 if env.THOROUGH else 26, 160 if env.THOROUGH else 24)
    ts = codec_cpp.collect(c, maker, programs, env.SEED, 6 if env.THOROUGH else 3, meter=True)
    ends = {}
    for p in ts.parts:
        for e in p["ev"]:
            ends[e["ok"]] = ends.get(e["ok"], 0) + 1
    rejected, stats = ts.validate("TraceCodec")
    c.add_trace(stats, ts.n)
    c.coverage["outcomes"] = {{1: "accepted", 0: "refused", -1: "crashed"}[k]: n for k, n in ends.items()}
    c.count("struct_types", sum(len(p.types) for p in programs))
    for why, e, defs, extra in rejected:
        c.violation("%s: %s" % (e["fault"], "; ".join(why)), traces.replay(why, e, defs, extra))
    for p in programs[:2]:
        c.sample({"schema": schema.render(schema.closure(p.info, p.types[0]))})
    c.assume("undefined behaviour is what ASan and UBSan of g++ report at -O0 (enum range check off)")


if __name__ == "__main__":
    check.main("C07", body)
