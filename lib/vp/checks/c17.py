"""C17: isar (+ patch) and the prophy language describe the same types."""
import copy
import json
import os
import random
import re
import sys

from .. import check, codec_cpp, codec_py, cpp, env, front, gen, isar, pool, pyrun, schema, tlc, traces
from .c03 import maker
from .c04 import num


def forget(out):
    for m in [m for m in sys.modules if m.startswith(os.path.basename(out))]:
        del sys.modules[m]


# ------------------------------------------------------------ agreement
def counted_limits(rng, defs):
    """Some limited arrays with counters of other types."""
    out = []
    for d in defs:
        ms = []
        for m in d["m"]:
            if d["k"] == "struct" and m["a"] == "lim" and rng.random() < 0.2:
                s = "k" + m["name"]
                ms.append(schema.member(s, rng.choice(["u8", "u16", "i32", "u64", "i8"])))
                if rng.random() < 0.3:
                    ms.append(schema.member("w" + m["name"], rng.choice(["u8", "u64", "u16"])))
                ms.append(schema.member(m["name"], m["t"], "xlim", m["n"], s))
            else:
                ms.append(m)
        out.append(dict(d, m=ms))
    return out


def has_xlim(defs):
    return any(m["a"] == "xlim" for d in defs for m in d["m"])


def described(rng, program, patched, xlim=True):
    """The program with an isar description."""
    defs = counted_limits(rng, program.defs) if xlim and rng.random() < 0.5 else program.defs
    r = isar.Renderer(rng, patched).render(defs)
    p = gen.Program(r.defs, list(program.types))
    p.isar = (r.xml, r.patch)
    return p


def run_described(args):
    program, seed, values = args
    work = env.scratch("isar")
    try:
        out = front.package(work)
        try:
            nodes, _ = front.call(program.put(work, "s") + ["--python_out", out])
            mod = front.importing(out, "s")
            for t in program.types:
                getattr(mod, t)
        except (front.Refused, AttributeError) as e:
            return {"unusable": str(e)}
        nodes = {n.name: n for n in nodes["s"]}
        events = codec_py.encoded(mod, program, random.Random(seed), values)
        events += codec_py.decoded(mod, program, random.Random(seed + 1), max(1, values - 1))
        for d in program.defs:
            if d["k"] in ("struct", "union"):
                n = nodes.get(d["name"])
                e = {"k": "mod", "t": d["name"], "msz": -9, "mal": -9, "mst": -9}
                if n is not None:
                    e.update(msz=num(n.byte_size), mal=num(n.alignment), mst=num(n.kind))
                events.append((d["name"], schema.closure(program.info, d["name"]), [e]))
        forget(out)
        return {"events": events}
    finally:
        env.drop(work)


def control(program, seed, values, kind, t, index):
    """The same event from the prophy language (or from the runtime library where the language has no
    such type); None when that is no better."""
    text = gen.Program(program.defs, program.types)
    if kind == "mod":
        if has_xlim(program.defs):
            return None
        work = env.scratch("ctl")
        try:
            nodes, _ = front.call(text.put(work, "s") + ["--void_out"])
            n = {n.name: n for n in nodes["s"]}[t]
            return {"msz": num(n.byte_size), "mal": num(n.alignment), "mst": num(n.kind)}
        except (front.Refused, KeyError):
            return None
        finally:
            env.drop(work)
    try:
        mod = pyrun.runtime_module(program.defs) if has_xlim(program.defs) else pyrun.load(text)
    except pyrun.CompileRejected:
        return None
    if kind == "enc":
        groups = codec_py.encoded(mod, text, random.Random(seed), values)
    else:
        groups = codec_py.decoded(mod, text, random.Random(seed + 1), max(1, values - 1))
    forget("vpgen_")
    return next(ev[index] for name, _, ev in groups if name == t)


SAME = {"enc": ("le", "be"), "dec": ("n", "f", "r"), "mod": ("msz", "mal", "mst")}


def agreement(c, programs, values):
    ts = traces.TraceSet()
    jobs = [(p, env.SEED * 7001 + i, values) for i, p in enumerate(programs)]
    for i, res in enumerate(pool.pmap(run_described, jobs)):
        p = programs[i]
        if "unusable" in res:
            try:
                pyrun.runtime_module(p.defs) if has_xlim(p.defs) else pyrun.load(gen.Program(p.defs, p.types))
            except pyrun.CompileRejected:
                continue
            c.violation("types usable from the prophy language are not from isar: %s" % res["unusable"][:300],
                        {"xml": p.isar[0], "patch": p.isar[1], "schema": schema.render(p.defs)})
            continue
        for t, defs, events in res["events"]:
            for k, e in enumerate(events):
                ts.add((i, t), defs, [e], extra=(i, k))
    rejected, stats = ts.validate("TraceCodec")
    c.add_trace(stats, ts.n)
    c.count("types_described_twice", sum(len(p.types) for p in programs))
    c.count("patched_descriptions", sum(1 for p in programs if p.isar[1]))
    for why, e, defs, (i, k) in rejected[:40]:
        p = programs[i]
        other = control(p, jobs[i][1], values, e["k"], e["t"], k)
        if other is not None and any(other[f] != e[f] for f in SAME[e["k"]]):
            c.violation("; ".join(why), dict(traces.replay(why, e, defs), xml=p.isar[0], patch=p.isar[1]))
    for p in programs[:1]:
        c.sample({"schema": schema.render(p.defs)[:900], "xml": p.isar[0][:900], "patch": p.isar[1][:500]})


def cpp_agreement(c, programs, values):
    jobs = [(maker, p, env.SEED * 7001 + i, values, {}, i) for i, p in enumerate(programs)]
    ts = traces.TraceSet()
    for i, res in enumerate(pool.pmap(codec_cpp.run_program, jobs)):
        if "unusable" in res:
            again = codec_cpp.run_program((maker, gen.Program(programs[i].defs, programs[i].types)) + jobs[i][2:])
            if "unusable" not in again:
                c.violation("types usable in C++ from the prophy language are not from isar: %s" %
                            res["unusable"][:300], {"xml": programs[i].isar[0], "patch": programs[i].isar[1]})
            continue
        for t, defs, events in res["events"]:
            for k, e in enumerate(events):
                ts.add((i, t), defs, [e], extra=(i, k))
    rejected, stats = ts.validate("TraceCodec")
    c.add_trace(stats, ts.n)
    c.count("cpp_types_described_twice", sum(len(p.types) for p in programs))
    again = {}
    for why, e, defs, (i, k) in rejected:
        if i not in again:
            again[i] = codec_cpp.run_program((maker, gen.Program(programs[i].defs, programs[i].types)) + jobs[i][2:])
        if "unusable" in again[i]:
            continue
        other = next(ev[k] for t, _, ev in again[i]["events"] if t == e["t"])
        if any(other.get(f) != e.get(f) for f in ("ok", "le", "be")):
            c.violation("C++: " + "; ".join(why), dict(traces.replay(why, e, defs), xml=programs[i].isar[0],
                                                       patch=programs[i].isar[1]))


# ---------------------------------------------------------------- patches
def rule(text):
    w = text.split()
    return {"m": w[0], "act": w[1] if len(w) > 1 else "", "p": w[2:], "text": text, "id": [x.isidentifier() for x in w[2:]],
            "q": [int(x) if re.match(r"\d+$", x) and int(x) < 1 << 30 else -1 for x in w[2:]]}


BASE = [
    schema.enum("E", [schema.enumerator("E_a", 1), schema.enumerator("E_b", 0xFFFFFFFE)]),
    schema.typedef("T", "u16"),
    schema.struct("F", [schema.member("a", "u8"), schema.member("b", "u32", "fix", 2)]),
    schema.struct("D", [schema.member("n", "u16"), schema.member("x", "u8", "ext", s="n")]),
    schema.union("U", [schema.arm("a", "u8", 1), schema.arm("b", "F", 2), schema.arm("c", "E", 0x80000000)]),
    schema.struct("M", [schema.member("a", "u8"), schema.member("n", "u8"), schema.member("b", "u16", "fix", 3),
                        schema.member("c", "F", "opt"), schema.member("d", "u32")]),
    schema.struct("H", [schema.member("m", "M"), schema.member("z", "T")]),
]

MENU = """
M type a u32|M type b u64|M type b D|M type c D|M type d D|M type d F|M type d M|M type d H|M type n E|M type n T
M type n i64|M type zz u8|M type a|M type d r64
M insert 0 i u8|M insert 2 i u64|M insert 999 i F|M insert 1 a u8|M insert x i u8|M insert 0 i|M insert 1 i D
M remove a|M remove d|M remove zz|M remove n|M remove b c|M remove c
M dynamic b n|M dynamic d n|M dynamic a n|M dynamic c n|M dynamic b zz|M dynamic d a|M dynamic zz n|M dynamic b
M greedy d|M greedy b|M greedy zz|M greedy|M greedy c
M static d 4|M static a 2|M static c 3|M static d 0|M static zz 1|M static d|M static n 2
M limited b n|M limited d n|M limited b d|M limited b zz|M limited b a|M limited zz n|M limited c n|M limited d b
M struct|M rename N0|M rename a q|M rename n m|M rename a d|M rename zz y|M rename|M rename E|M rename a b c|M rename d 1x
M frob x
U struct|U rename a z|U rename W|U type a u32|U dynamic b a|U remove a|U insert 0 n u8|U struct x|U rename a b|U static b 2
D type n i32|D type n F|D rename n k|D remove x|D static x 3|D greedy x|D dynamic x k|D limited x n|D remove n
E rename E2|E remove E_a|E rename E_a E_b|T rename T2|T type x u8|E rename E_b
H rename H2|H static m 2|H type m N0|H greedy z|H type z T2|H limited m z|F greedy b|F dynamic b a|F limited b a|F type b M
Nobody struct|Nobody frob|N0 remove a|Nobody type
"""


def menu():
    return [rule(x.strip()) for line in MENU.strip().splitlines() for x in line.split("|")]


def replay_scripts(args):
    """[(definitions, rules, outcome, resulting definitions)] -> verdicts and encode events."""
    cases, seed, values, base = args
    rng = random.Random(seed)
    work = env.scratch("patch")
    wrong, events = [], []
    try:
        for n, (defs, rules, outcome, after) in enumerate(cases):
            src = os.path.join(work, "in")
            texts = [isar.plain_xml(d) for d in defs]
            rng.shuffle(texts)
            files = {"s.xml": "<x>%s</x>" % "\n".join(texts),
                     "p.txt": "\n".join(r["text"] for r in rules) + "\n"}
            front.write(src, files)
            out = front.package(work)
            about = {"xml": files["s.xml"], "patch": files["p.txt"], "expected": outcome}
            try:
                front.call(["--isar", os.path.join(src, "s.xml"), "--patch", os.path.join(src, "p.txt"),
                            "--python_out", out], 30)
                done = True
            except front.Refused as e:
                done = False
                about["got"] = str(e)[:300]
            if outcome == "fail" and done:
                wrong.append(("a patch rule which cannot be applied does not fail the compilation", about))
            elif outcome == "ok" and not done:
                wrong.append(("a patch which can be applied fails the compilation: %s" % about["got"], about))
            elif outcome == "ok":
                try:
                    mod = front.importing(out, "s")
                except front.Refused as e:
                    wrong.append(("patched types are unusable: %s" % e, about))
                    continue
                program = gen.Program(after, [])
                known = {d["name"]: d for d in base}
                program.types = [d["name"] for d in after if d["k"] in ("struct", "union") and
                                 any(known.get(x["name"]) != x for x in schema.closure(program.info, d["name"]))]
                missing = [t for t in program.types if not hasattr(mod, t)]
                if missing:
                    wrong.append(("patched types %s are missing" % missing, about))
                    continue
                for t, ds, ev in codec_py.encoded(mod, program, random.Random(seed + n), values):
                    events.append((t, ds, ev, about))
                forget(out)
            env.drop(out)
    finally:
        env.drop(work)
    return wrong, events


def bare(defs):
    """Definitions as TLC gave them back: only what identifies them."""
    out = copy.deepcopy(defs)
    for d in out:
        for m in d["m"]:
            m["c"] = schema.codes(m["name"])
    return out


def patches(c, cases, values, what, base=()):
    size = max(1, len(cases) // 32)
    jobs = [(cases[i:i + size], env.SEED * 31 + i, values, base) for i in range(0, len(cases), size)]
    ts = traces.TraceSet()
    n = 0
    for wrong, events in pool.pmap(replay_scripts, jobs):
        for why, about in wrong:
            c.violation(why, about)
        for t, defs, ev, about in events:
            n += 1
            ts.add((n, t), defs, ev, extra=about)
    rejected, stats = ts.validate("TraceCodec")
    c.add_trace(stats, len(cases))
    c.count(what, len(cases))
    for r in ("ok", "fail", "open"):
        c.count("%s_%s" % (what, r), sum(1 for x in cases if x[2] == r))
    for why, e, defs, about in rejected[:40]:
        try:
            mod = pyrun.runtime_module(defs)
            msg = codec_py.build(schema.Info(defs), e["t"], getattr(mod, e["t"]), e["v"])
            if list(msg.encode("<")) == e["le"] and list(msg.encode(">")) == e["be"]:
                continue
        except Exception:
            if e["le"] == [-1]:
                continue
        c.violation("patched type: " + "; ".join(why), dict(traces.replay(why, e, defs), **about))


def enumerated(c):
    work = env.scratch("lib")
    lib = os.path.join(work, "lib.json")
    rules = menu()
    with open(lib, "w") as f:
        json.dump({"defs": BASE, "menu": rules}, f)
    res = tlc.model("MCPatch", LIB=lib, PRINT="1")
    c.add_model(res)
    cases = []
    for line in re.findall(r'^<<"SCRIPT", "(.*)">>$', res["out"], re.M):
        s = json.loads(line.encode().decode("unicode_escape"))
        cases.append((BASE, [rules[k - 1] for k in s["ks"]], s["r"], bare(s["defs"])))
    env.drop(work)
    return cases


def random_script(rng, defs):
    types = [d["name"] for d in defs] + ["u8", "u16", "u32", "u64", "i8", "r32"]
    targets = [d for d in defs if d["k"] == "struct"] * 3 + list(defs)
    lines = []
    focus = rng.choice(targets)
    for _ in range(rng.randint(1, 5)):
        d = focus if rng.random() < 0.8 else rng.choice(targets)
        fields = [m["name"] for m in d["m"]] + ["i1", "i2"]
        f = rng.choice(fields[:-2] or fields) if rng.random() < 0.9 else rng.choice(fields)
        f2 = rng.choice(fields)
        act = rng.choice(["type", "insert", "insert", "remove", "dynamic", "dynamic", "greedy", "static", "limited",
                          "limited", "struct", "rename", "rename"])
        if d["k"] == "union" and rng.random() < 0.6:
            act = rng.choice(["struct", "rename"])
        args = {"type": [f, rng.choice(types)],
                "insert": [rng.choice([0, 1, 2, 3, 999]), rng.choice(["i1", "i2"]), rng.choice(types)],
                "remove": [f], "dynamic": [f, f2],
                "greedy": [fields[-3] if len(fields) > 2 and rng.random() < 0.7 else f],
                "static": [f, rng.randint(0 if rng.random() < 0.1 else 1, 4)], "limited": [f, f2], "struct": [],
                "rename": [rng.choice(["R1", "R2"])] if rng.random() < 0.2 else [f, rng.choice(["r1", "r2", "r3"])]}[act]
        if rng.random() < 0.03:
            args = args[:-1] if rng.random() < 0.5 else args + ["extra"]
        lines.append(" ".join(str(x) for x in [d["name"], act] + args))
    return [rule(x) for x in lines]


def random_cases(c, rng, count):
    cases = []
    while len(cases) < count:
        defs = gen.SchemaGen(rng, max_fields=4).schema(structs=3)
        defs = [isar.explicit(d) for d in defs]
        defs = [dict(d, m=[m for m in d["m"] if m["a"] != "greedy"]) for d in defs]
        known = {d["name"] for d in defs if d["m"] or d["k"] == "typedef"}
        while True:
            keep = [d for d in defs if d["name"] in known and all(
                t in known or t in schema.WIDTH for t in [d["t"]] * (d["k"] == "typedef") +
                [m["t"] for m in d["m"] if d["k"] in ("struct", "union")])]
            if len(keep) == len(known):
                break
            known = {d["name"] for d in keep}
        if keep:
            for _ in range(4):
                cases.append({"defs": keep, "rules": random_script(rng, keep)})
    parts = [{"ev": cases[i::env.CORES]} for i in range(env.CORES)]
    _, stats = tlc.validate("EvalPatch", parts)
    out = []
    for part, res in zip(parts, stats["results"]):
        for case, r in zip(part["ev"], res["res"]):
            out.append((case["defs"], case["rules"], r["r"], bare(r["defs"])))
    c.coverage["states"] += stats["states"]
    c.coverage["transitions"] += stats["transitions"]
    return out


def body(c):
    rng = random.Random(env.SEED + 171)
    programs = gen.pair_programs(rng, 24, 12) + gen.random_programs(rng, 1600 if env.THOROUGH else 320, merge=4, names=codec_py.odd_names())
    programs = [described(rng, p, k % 3 != 0) for k, p in enumerate(programs)]
    agreement(c, programs, 8 if env.THOROUGH else 4)
    some = gen.random_programs(rng, 96 if env.THOROUGH else 16, merge=2, shared_sizers=False)
    cpp_agreement(c, [described(rng, p, k % 3 != 0, xlim=False) for k, p in enumerate(some)], 3)
    cases = enumerated(c)
    patches(c, cases, 2, "enumerated_scripts", BASE)
    patches(c, random_cases(c, rng, 40000 if env.THOROUGH else 4000), 2, "random_scripts")
    c.assume("types only one of the syntaxes has (bytes outside arrays) and types left without a definition are not "
             "compared; what a patch makes of them is undocumented")
    c.assume("a codec wrong for a type however described is not a difference between front-ends")


if __name__ == "__main__":
    check.main("C17", body)
