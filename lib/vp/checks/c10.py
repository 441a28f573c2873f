"""C10: the Python message API keeps every reachable message state valid."""
import random

from .. import api, apimodel, check, codec_py, env, gen, schema, traces


def rows(defs, ev, index):
    """The history up to the rejected event."""
    first = index
    while first > 0 and ev[first]["k"] != "new":
        first -= 1
    return ev[first:index + 1]


def run(c, programs, params, mine=lambda e, why: True):
    ts = codec_py.collect(c, api.histories, programs, env.SEED, params)
    for p in ts.parts:
        keep = []
        for e, x in zip(p["ev"], p["extra"]):
            if e["k"] == "broken":
                last = e["history"][-2] if len(e["history"]) > 1 else None
                if last is None or last["k"] == "new" or mine(last, []):
                    c.violation("a message cannot be observed: %s" % e["x_"], e)
            else:
                keep.append(e)
        p["ev"], p["extra"] = keep, [None] * len(keep)
    ops = {}
    for p in ts.parts:
        for n, e in enumerate(p["ev"]):
            if e["k"] != "new":
                e["_pos"] = n
                name = e["op"] or {"take": "decode"}.get(e["k"], "copy_from")
                a, b = ops.get(name, (0, 0))
                ops[name] = (a + (e["out"] == "ok"), b + (e["out"] != "ok"))
    used = [p for p in ts.parts if p["ev"]]
    rejected, stats = ts.validate("TraceMessage")
    c.add_trace(stats, sum(e["k"] == "new" for p in used for e in p["ev"]))
    c.coverage["operations"] = {k: "%d accepted, %d refused" % v for k, v in sorted(ops.items())}
    for why, e, defs, extra in rejected:
        if not mine(e, why):
            continue
        history = next((rows(defs, p["ev"], e["_pos"]) for p in used
                        if e["_pos"] < len(p["ev"]) and p["ev"][e["_pos"]] is e), [e])
        known = e["op"] == "extendc" and e["out"] == "type" and \
            why == ["an operation was refused with the wrong exception"]
        c.violation("%s (%s -> %s %s)" % ("; ".join(why), e["op"] or {"take": "decode"}.get(e["k"], "copy_from"), e["out"], e.get("x_", "")),
                    {"reasons": why, "schema": schema.render(defs), "history": history},
                    signature="extend-wrong-class" if known else None)


def body(c):
    rng = random.Random(env.SEED + 101)
    programs = gen.pair_programs(rng, 16, 100 if env.THOROUGH else 14)
    programs += gen.random_programs(rng, 400 if env.THOROUGH else 64, merge=4, names=codec_py.odd_names())
    c.count("struct_types", sum(len(p.types) for p in programs))
    apimodel.check(c, 4 if env.THOROUGH else 3)
    run(c, programs, (6 if env.THOROUGH else 2, 40, 2, 0, 0.05))
    for p in programs[:2]:
        c.sample({"schema": schema.render(schema.closure(p.info, p.types[0]))})


if __name__ == "__main__":
    check.main("C10", body)
