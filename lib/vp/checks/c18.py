"""C18: text rendering is the same in Python and C++."""
import random

from .. import check, codec_cpp, codec_py, cpp, env, gen, pool, pyrun, schema, traces

FLOATS = {"float": [[0, 0, 0, 63], [0, 0, 80, 192], [0, 80, 154, 68], [0, 0, 0, 62]],
          "double": [[0, 0, 0, 0, 0, 0, 224, 63], [0, 0, 0, 0, 0, 0, 10, 192], [0, 0, 0, 0, 0, 74, 147, 64],
                     [0, 0, 0, 0, 0, 0, 192, 63]]}


def plain_floats(rng, info, t, v):
    """Replace floats by ones whose text is the same in both languages."""
    r = info.resolved(t)
    d = info.defs.get(r)
    if d is None:
        return list(rng.choice(FLOATS[r])) if r in FLOATS else v
    if d["k"] == "enum":
        return v
    if d["k"] == "union":
        return [v[0], plain_floats(rng, info, d["m"][v[0] - 1]["t"], v[1])]
    out = []
    for m, x in zip(d["m"], v):
        if m["t"] == "byte" or m["a"] == "plain" and pyrun.is_sizer(d["m"], m):
            out.append(x)
        elif m["a"] == "plain":
            out.append(plain_floats(rng, info, m["t"], x))
        else:
            out.append([plain_floats(rng, info, m["t"], e) for e in x])
    return out


def run_program(args):
    program, seed, values, idx = args
    info = program.info
    rng = random.Random(seed)
    work = env.scratch("cppt")
    try:
        try:
            mod = pyrun.load(program)
            driver = cpp.FullDriver(program, work, "p%d" % idx, sanitize=False)
        except (pyrun.CompileRejected, cpp.Unusable) as e:
            return {"unusable": str(e), "schema": schema.render(program.defs)}
        items = []
        for t in program.types:
            for k in range(values):
                v = plain_floats(rng, info, t, gen.value(rng, info, t))
                e = {"k": "txt", "t": t, "v": v, "py": [-1], "cpp": [-1]}
                try:
                    with pyrun.limit(20):
                        msg = codec_py.build(info, t, getattr(mod, t), v)
                        first = str(msg)
                        again = str(msg)
                        e["py"] = [ord(c) for c in first] if first == again else [-2]
                except Exception as ex:
                    e["x"] = repr(ex)[:300]
                items.append(e)
        replies = driver.run([(e["t"], "b", "-", "t", cpp.feed(info, e["t"], e["v"])) for e in items])
        out = {}
        for e, rep in zip(items, replies):
            b = codec_cpp.built(rep, "t")
            e["cpp"] = b.get("text", [-1])
            if "x" in b:
                e["x"] = b["x"]
            out.setdefault(e["t"], []).append(e)
        return {"events": [(t, schema.closure(info, t), ev) for t, ev in out.items()]}
    finally:
        env.drop(work)


def probe(c):
    """Known finding: numbers of float fields are written differently."""
    p = gen.Program([schema.struct("N", [schema.member("x", "double")])], ["N"])
    work = env.scratch("cppt")
    try:
        mod = pyrun.load(p)
        driver = cpp.FullDriver(p, work, "k", sanitize=False)
        one = [0, 0, 0, 0, 0, 0, 240, 63]
        rep = driver.run([("N", "b", "-", "t", bytes(one))])[0]
        msg = mod.N()
        msg.x = 1.0
        c.known_finding("float-text", bytes(codec_cpp.built(rep, "t")["text"]).decode("latin-1") != str(msg))
    except (pyrun.CompileRejected, cpp.Unusable, KeyError):
        return
    finally:
        env.drop(work)


def body(c):
    probe(c)
    rng = random.Random(env.SEED + 181)
    programs = codec_cpp.programs(rng, 400 if env.THOROUGH else 26, 240 if env.THOROUGH else 24)
    ts = traces.TraceSet()
    jobs = [(p, env.SEED * 1000003 + i, 14 if env.THOROUGH else 7, i) for i, p in enumerate(programs)]
    for i, res in enumerate(pool.pmap(run_program, jobs)):
        if "unusable" in res:
            c.violation("a valid schema has no usable codecs: %s" % res["unusable"][:400], res)
            continue
        for t, defs, events in res["events"]:
            ts.add((i, t), defs, events)
    rejected, stats = ts.validate("TraceCodec")
    c.add_trace(stats, ts.n)
    c.count("struct_types", sum(len(p.types) for p in programs))
    for why, e, defs, extra in rejected:
        c.violation("; ".join(why), traces.replay(why, e, defs, extra))
    for p in programs[:2]:
        c.sample({"schema": schema.render(schema.closure(p.info, p.types[0]))})
    c.assume("float fields hold values with a short decimal form (the rest is a known finding)")


if __name__ == "__main__":
    check.main("C18", body)
