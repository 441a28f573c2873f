"""C04: prophyc's computed layout equals the wire rules and both runtimes' statics."""
import os
import random

from .. import check, codec_cpp, codec_py, cpp, cppraw, env, gen, pool, pyrun, schema, traces

SIZES = r"""
#include <cstdio>
#include "s.ppf.hpp"
using namespace prophy::generated;
int main()
{
%s    return 0;
}
"""


def model_nodes(path):
    """{name: node} as prophyc computes it."""
    env.use_repo()
    import prophyc
    try:
        nodes = prophyc.main(["--void_out", path])
    except SystemExit as e:
        raise pyrun.CompileRejected("prophyc exits: %s" % (e,))
    except Exception as e:
        raise pyrun.CompileRejected("prophyc raises %r" % (e,))
    return {n.name: n for group in nodes.values() for n in group}


def full_sizes(program, work):
    d = os.path.join(work, "full")
    os.makedirs(d)
    src = os.path.join(d, "s.prophy")
    with open(src, "w") as f:
        f.write(schema.render(program.defs))
    rc, so, se = env.prophyc(["--cpp_full_out", d, src])
    if rc:
        raise cpp.Unusable("prophyc: " + (se or so)[-2000:])
    with open(os.path.join(d, "d.cpp"), "w") as f:
        f.write(SIZES % "".join('    printf("%%d\\n", int(%s::encoded_byte_size));\n' % t for t in program.types))
    exe = os.path.join(d, "d")
    rc, so, se = env.run(["g++", "-w", "-O0", "-std=c++11", "-I" + cpp.INCLUDE, os.path.join(d, "d.cpp"), "-o", exe])
    if rc:
        raise cpp.Unusable("g++: " + se[:2000])
    rc, so, se = env.run([exe])
    return dict(zip(program.types, (int(x) for x in so.split())))


def run_program(args):
    program, seed, values, idx = args
    info = program.info
    rng = random.Random(seed)
    work = env.scratch("lay")
    try:
        try:
            src = os.path.join(work, "s.prophy")
            with open(src, "w") as f:
                f.write(schema.render(program.defs))
            nodes = model_nodes(src)
            mod = pyrun.load(program)
            eb = full_sizes(program, work)
            raw = cppraw.RawDriver(program, work, "raw", swap=False)
            sizeof = {}
            for t, rep in zip(program.types, raw.run([(t, "l", b"") for t in program.types])):
                sizeof[t] = int(rep[0])
        except (pyrun.CompileRejected, cpp.Unusable) as e:
            return {"unusable": str(e), "schema": schema.render(program.defs)}
        out = []
        for t in program.types:
            n = nodes.get(t)
            cls = getattr(mod, t)
            e = {"k": "lay", "t": t, "msz": -9, "mal": -9, "mst": -9, "mb": [], "psz": cls._SIZE,
                 "pal": cls._ALIGNMENT, "pst": 2 if cls._UNLIMITED else 1 if cls._DYNAMIC else 0,
                 "eb": eb.get(t, -9), "raw": sizeof[t], "lens": []}
            if n is not None:
                e.update(msz=num(n.byte_size), mal=num(n.alignment), mst=num(n.kind))
                if info.defs[t]["k"] == "struct":
                    e["mb"] = [[num(m.byte_size), num(m.padding)] for m in n.members]
            if info.st[t] == schema.FIXED:
                for _ in range(values):
                    v = gen.value(rng, info, t)
                    try:
                        with pyrun.limit(20):
                            e["lens"].append(len(codec_py.build(info, t, cls, v).encode(rng.choice("<>"))))
                    except Exception as ex:
                        e["lens"].append(-1)
                        e["x"] = repr(ex)[:300]
            out.append((t, schema.closure(info, t), [e]))
        return {"events": out}
    finally:
        env.drop(work)


def num(x):
    return x if isinstance(x, int) else -9


def everything(p):
    return gen.Program(p.defs, [d["name"] for d in p.defs if d["k"] in ("struct", "union")])


def body(c):
    rng = random.Random(env.SEED + 41)
    programs = [everything(p) for p in codec_cpp.programs(rng, None if env.THOROUGH else 150,
                                                          600 if env.THOROUGH else 120)]
    ts = traces.TraceSet()
    jobs = [(p, env.SEED * 1000003 + i, 6 if env.THOROUGH else 3, i) for i, p in enumerate(programs)]
    for i, res in enumerate(pool.pmap(run_program, jobs)):
        if "unusable" in res:
            c.violation("a valid schema is unusable: %s" % res["unusable"][:400], res)
            continue
        for t, defs, events in res["events"]:
            ts.add((i, t), defs, events)
    rejected, stats = ts.validate("TraceCodec")
    c.add_trace(stats, ts.n)
    c.count("struct_types", sum(len(p.types) for p in programs))
    for why, e, defs, extra in rejected:
        c.violation("; ".join(why), traces.replay(why, e, defs, extra))
    for p in programs[:2]:
        c.sample({"schema": schema.render(schema.closure(p.info, p.types[-1]))})


if __name__ == "__main__":
    check.main("C04", body)
