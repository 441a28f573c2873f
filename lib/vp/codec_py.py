"""Conformance of the Python codec: recording encode / decode events."""
import json
import os
import random
import re

from . import env, front, gen, pool, pyrun, schema, tlc, traces


def sparse_value(rng, info, t, v):
    """Leave some top-level fields of a struct value at their default; returns (value, skipped names)."""
    d = info.defs[info.resolved(t)]
    if d["k"] != "struct" or rng.random() < 0.7:
        return v, set()
    skip = set()
    exts = {m["s"] for m in d["m"] if m["a"] in ("ext", "xlim")}
    v = list(v)
    for i, m in enumerate(d["m"]):
        if m["a"] in ("ext", "xlim") or m["name"] in exts:
            continue
        if rng.random() < 0.5:
            skip.add(m["name"])
            v[i] = gen.default_member(info, d["m"], m)
    return v, skip


def build(info, t, cls, v, skip=()):
    msg = cls()
    if not skip:
        pyrun.assign(info, t, msg, v)
    else:
        d = info.defs[info.resolved(t)]
        sub = schema.struct(d["name"], [m for m in d["m"] if m["name"] not in skip])
        keep = [x for m, x in zip(d["m"], v) if m["name"] not in skip]
        fake = schema.Info.__new__(schema.Info)
        fake.__dict__.update(info.__dict__)
        fake.defs = dict(info.defs)
        fake.defs[d["name"]] = sub
        pyrun.assign(fake, t, msg, keep)
    return msg


def record_encode(args):
    program, seed, values = args
    try:
        mod = pyrun.load(program)
    except pyrun.CompileRejected as e:
        return {"unusable": str(e), "schema": schema.render(program.defs)}
    return {"events": encoded(mod, program, random.Random(seed), values)}


def encoded(mod, program, rng, values):
    """[(type, definitions, events)] of a module with the types of the program."""
    info = program.info
    out = []
    for t in program.types:
        cls = getattr(mod, t)
        events = []
        for k, v in enumerate(info.values.get(t) or [None] * values):
            if v is not None:
                skip = ()
            elif k == 0:
                v, skip = gen.default(info, t), None
            else:
                v, skip = sparse_value(rng, info, t, gen.value(rng, info, t))
            e = {"k": "enc", "t": t, "v": v}
            try:
                with pyrun.limit(20):
                    msg = cls() if skip is None else build(info, t, cls, v, skip)
                    e["le"] = list(msg.encode("<"))
                    e["be"] = list(msg.encode(">"))
            except Exception as ex:
                e["le"] = e["be"] = [-1]
                e["x"] = repr(ex)[:300]
            events.append(e)
        out.append((t, schema.closure(info, t), events))
    return out


def record_decode(args):
    program, seed, values = args
    try:
        mod = pyrun.load(program)
    except pyrun.CompileRejected as e:
        return {"unusable": str(e), "schema": schema.render(program.defs)}
    return {"events": decoded(mod, program, random.Random(seed), values)}


def decoded(mod, program, rng, values):
    """[(type, definitions, events)] of a module with the types of the program."""
    info = program.info
    out = []
    for t in program.types:
        cls = getattr(mod, t)
        events = []
        for v in info.values.get(t) or [None] * values:
            v = v or gen.aligned_value(rng, info, t)
            if v is None:
                continue
            en = rng.choice("<>")
            data = info.encode(t, v, en)
            e = {"k": "dec", "t": t, "v": v, "e": en, "b": list(data), "n": -1, "f": [], "r": []}
            try:
                with pyrun.limit(20):
                    msg = cls()
                    e["n"] = msg.decode(data, en)
                    e["f"] = pyrun.flat(info, t, msg)
                    e["r"] = list(msg.encode(en))
            except Exception as ex:
                e["x"] = repr(ex)[:300]
                if e["n"] != -1:
                    e["r"] = [-1]
            events.append(e)
        out.append((t, schema.closure(info, t), events))
    return out


def usable(names):
    work = env.scratch("names")
    out = []
    for name in names:
        directory = front.package(work)
        front.write(work, {"s.prophy": "struct S { u8 %s; }; union U { 1: u8 %s; };\n" % (name, name)})
        try:
            front.call(["--python_out", directory, os.path.join(work, "s.prophy")])
            front.importing(directory, "s")
            out.append(name)
        except front.Refused:
            pass
    env.drop(work)
    return out


def odd_names():
    """Awkward names of members which prophyc takes for Python."""
    return [n for part in pool.pmap(usable, [gen.ODD[i::8] for i in range(8)]) for n in part]


def collect(c, recorder, programs, seed, values):
    ts = traces.TraceSet()
    jobs = [(p, seed * 1000003 + i, values) for i, p in enumerate(programs)]
    for i, res in enumerate(pool.pmap(recorder, jobs)):
        if "unusable" in res:
            c.violation("a valid schema has no usable Python codec: %s" % res["unusable"][:400], res)
            continue
        for t, defs, events in res["events"]:
            ts.add((i, t), defs, events)
    return ts


# ------------------------------------------------ behaviours enumerated by TLC
def behaviours(kinds, greedy, fields=2, timeout=800):
    """Run MCCodec; returns (model result, library defs, kinds, behaviours)."""
    work = env.scratch("beh")
    lib = {"defs": gen.base_library(),
           "kinds": [gen.kind_members(k, "") for k in kinds] +
                    [gen.kind_members((t, a, 0, ""), "") for t, a in greedy]}
    path = os.path.join(work, "lib.json")
    with open(path, "w") as f:
        json.dump(lib, f)
    cfg = os.path.join(work, "MC.cfg")
    base = open(os.path.join(env.SPEC, "MCCodec.cfg")).read()
    with open(cfg, "w") as f:
        f.write(re.sub(r"MaxFields = \d+", "MaxFields = %d" % fields, base))
    res = tlc.model("MCCodec", cfg=cfg, LIB=path, PRINT="1", timeout=timeout)
    found = []
    for line in res["out"].splitlines():
        if line.startswith('<<"BEHAVIOUR", '):
            found.append(json.loads(json.loads(line[len('<<"BEHAVIOUR", '):-2])))
    env.drop(work)
    return res, lib, found


def behaviour_program(lib, chunk):
    """Schema with one struct per distinct kind sequence used in the chunk."""
    defs = list(lib["defs"])
    names = {}
    for b in chunk:
        ks = tuple(b["ks"])
        if ks in names:
            continue
        ms = []
        for pos, k in enumerate(ks):
            for m in lib["kinds"][k - 1]:
                ms.append(schema.member(m["name"] + str(pos + 1), m["t"], m["a"], m["n"],
                                        m["s"] + str(pos + 1) if m["s"] else ""))
        names[ks] = "M%d" % len(names)
        defs.append(schema.struct(names[ks], ms))
    return gen.Program(defs, list(names.values())), names


def chunks(seq, n):
    seq = sorted(seq, key=lambda b: b["ks"])
    size = (len(seq) + n - 1) // n
    return [seq[i:i + size] for i in range(0, len(seq), size)]
