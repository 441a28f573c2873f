"""C16: multi-file schemas equal their concatenation."""
import contextlib
import json
import os
import random
import re
import sys

from .. import check, codec_py, env, front, gen, orders, pool, pyrun, schema, split, tlc, traces

COUNTED = {}


def count_parses():
    """Starts counting how often each schema file is opened for reading."""
    if not COUNTED:
        def audit(event, args):
            if event == "open" and isinstance(args[0], str) and args[0].endswith((".prophy", ".xml")) and args[1] \
                    and args[1].startswith("r"):
                key = os.path.realpath(args[0])
                COUNTED["n"][key] = COUNTED["n"].get(key, 0) + 1
        COUNTED["n"] = {}
        sys.addaudithook(audit)
    COUNTED["n"] = {}


@contextlib.contextmanager
def working_directory(path):
    old = os.getcwd()
    os.chdir(path)
    try:
        yield
    finally:
        os.chdir(old)


def constant(nodes, name):
    for n in nodes:
        if getattr(n, "name", None) == name and hasattr(n, "value"):
            try:
                return int(str(n.value), 0)
            except ValueError:
                return -1
    return -1


def spelled_path(rng, path, cwd):
    return path if rng.random() < 0.4 else os.path.relpath(path, cwd)


def own_name(path):
    """The constant a file defines: files of the same name in different directories define different ones."""
    return "S_" + "_".join(path)[:-len(".prophy")]


def name_meant(case, f, inc):
    """The constant of the file meant by an include (any name where there is none)."""
    paths = [g["p"] for g in case["fs"]]
    for d in [f["p"][:-1]] + case["dirs"]:
        p = list(d)
        for x in inc:
            p = p[:-1] if x == ".." else p + [x]
        if p in paths:
            return own_name(p)
    return "S_missing"


def replay_arrangements(args):
    seed, cases = args
    rng = random.Random(seed)
    work = env.scratch("files")
    events, notes = [], []
    try:
        for n, case in enumerate(cases):
            root = os.path.join(work, "c%d" % n)
            for d in ("w/s", "i", "j", "elsewhere"):
                os.makedirs(os.path.join(root, d))
            for f in case["fs"]:
                text = "".join('#include "%s"\n' % "/".join(x) for x in f["inc"])
                text += "const %s = %s;\n" % (own_name(f["p"]), " + ".join(
                    [str(f["val"])] + [name_meant(case, f, x) for x in f["inc"]]))
                with open(os.path.join(root, *f["p"]), "w") as out:
                    out.write(text)
            cwd = os.path.join(root, rng.choice(["w", "elsewhere", "i", "w/s", ""]))
            mains = case.get("mains", [1])
            e = {"k": "load", "fs": case["fs"], "dirs": case["dirs"], "mains": mains, "ok": 0, "vals": [], "once": 1}
            note = ""
            count_parses()
            with working_directory(cwd):
                opts = []
                for d in case["dirs"]:
                    opts += ["-I", spelled_path(rng, os.path.join(root, *d), cwd)]
                paths = [os.path.join(root, *case["fs"][m - 1]["p"]) for m in mains]
                try:
                    nodes, _ = front.call(opts + ["--void_out"] + [spelled_path(rng, p, cwd) for p in paths])
                    e["ok"] = 1
                    e["vals"] = [constant(nodes[os.path.basename(p)[:-7]], own_name(case["fs"][m - 1]["p"]))
                                 for m, p in zip(mains, paths)]
                except front.Refused as ex:
                    note = str(ex)[:300]
                    if not note.startswith("ProphycError"):
                        e["ok"] = 2
                except KeyError as ex:
                    note = "no outcome for %s" % ex
                    e["vals"] = [-1] * len(mains)
            if any(v > 1 for v in COUNTED["n"].values()):
                e["once"] = 0
            events.append(e)
            notes.append(note)
    finally:
        env.drop(work)
    return events, notes


def random_arrangement(rng):
    dirs = [["w"], ["w", "s"], ["i"], ["j"]]
    stems = ["a", "b", "c", "d"]
    fs = [{"p": ["w", "m.prophy"], "inc": [], "val": 1}]
    for d in dirs:
        for s in stems:
            if rng.random() < 0.55:
                fs.append({"p": d + [s + ".prophy"], "inc": [], "val": 1 + rng.randrange(100000)})
    cyc = rng.random() < 0.15
    for f in fs:
        me = f["p"][-1][0]
        for s in rng.sample(stems, rng.choice([0, 1, 1, 2, 3])):
            if s == me or (not cyc and me != "m" and s <= me):
                continue
            f["inc"].append(rng.choice([[s + ".prophy"]] * 4 + [["s", s + ".prophy"], ["..", "i", s + ".prophy"],
                                                               ["..", "j", s + ".prophy"]])
                            if rng.random() < 0.5 else [s + ".prophy"])
    listed = rng.sample(dirs, rng.randint(1, 4))
    # mains of different names, so that each has its own output
    mains, seen = [1], {"m.prophy"}
    for k in rng.sample(range(2, len(fs) + 1), min(len(fs) - 1, rng.choice([0, 0, 1, 2]))):
        if fs[k - 1]["p"][-1] not in seen:
            seen.add(fs[k - 1]["p"][-1])
            mains.append(k)
    rng.shuffle(mains)
    return {"fs": fs, "dirs": listed, "mains": mains}


# -- partitions ---------------------------------------------------------------

def meaning(groups):
    """(constants, layouts) of a list of model nodes, by name."""
    consts, lays = [], []
    nodes = [n for g in groups for n in g if type(n).__name__ != "Include"]
    for n in sorted(nodes, key=lambda n: n.name):
        kind = type(n).__name__
        if kind == "Constant":
            consts += [orders.number_of(n.name), orders.number_of(str(n.value))]
        elif kind == "Enum":
            for m in n.members:
                consts += [orders.number_of(m.name), orders.number_of(str(m.value))]
        else:
            lays += [orders.number_of(n.name), orders.number_of([n.byte_size, n.alignment, n.kind])
                     if kind != "Typedef" else 0]
            for m in getattr(n, "members", None) or ():
                lays += [orders.number_of([m.name, m.type_name, m.byte_size, m.alignment, getattr(m, "padding", None),
                                           getattr(m, "numeric_size", None), getattr(m, "bound", None),
                                           str(getattr(m, "discriminator", None))])]
    return consts, lays


def python_constants(mod, names):
    return [orders.number_of(repr(getattr(mod, n, None))) for n in names]


def cpp_table(work, out, stems, program, names, tag):
    lines = ['show("%s", %s);' % (n, n) for n in names]
    raw = lines + ['show("%s", sizeof(%s));' % (t, t) for t in program.types]
    full = lines + ['show("%s", int(%s::encoded_byte_size));' % (t, t) for t in program.types]
    from .c14 import run_cpp
    a = run_cpp(work, out, "raw", stems, raw, tag)
    b = run_cpp(work, out, "full", stems, full, tag)
    return [orders.number_of(sorted(a.items())), orders.number_of(sorted(b.items()))]


def run_partition(args):
    seed, program, with_cpp = args
    rng = random.Random(seed)
    info = program.info
    its = split.items(rng, program.defs)
    names = [n for i in its if i.d is None or i.d["k"] == "enum" for n in i.defines if not (i.d and n == i.d["name"])]
    work = env.scratch("part")
    events, notes, encs = [], [], []
    try:
        out1 = front.package(work)
        src = front.write(os.path.join(work, "single"), {"one.prophy": split.single(its)})["one.prophy"]
        outs = ["--python_out"] + ([] if not with_cpp else ["--cpp_out", "--cpp_full_out"])
        try:
            nodes1, _ = front.call([src] + [x for o in outs for x in (o, out1)])
            mod1 = front.importing(out1, "one")
        except front.Refused as ex:
            return {"unusable": str(ex), "schema": split.single(its)}
        c1, l1 = meaning([nodes1["one"]])
        c1 += python_constants(mod1, names)
        x1 = cpp_table(work, out1, ["one"], program, names, "one") if with_cpp else []
        for n in range(2 if with_cpp else 3):
            files, home = split.partition(rng, its, rng.choice([2, 2, 3, 4, 6]))
            texts, listed = split.arrange(rng, files)
            root = os.path.join(work, "r%d" % n)
            for d in split.DIRS:
                os.makedirs(os.path.join(root, d), exist_ok=True)
            written = {p: split.prophy_text(lines, f) for p, (lines, f) in texts.items()}
            front.write(root, written)
            out2 = front.package(work)
            e = {"k": "part", "ok": 0, "c1": c1, "l1": l1, "x1": [], "c2": [], "l2": [], "x2": [], "once": 1}
            cwd = os.path.join(root, rng.choice(split.DIRS))
            note = "cwd %s, -I %s\n" % (os.path.relpath(cwd, root), listed)
            order = list(texts)
            rng.shuffle(order)
            together = rng.random() < 0.6
            mods = {}
            try:
                with working_directory(cwd):
                    opts = [y for d in listed for y in ("-I", spelled_path(rng, os.path.join(root, d), cwd))]
                    opts += [y for o in outs for y in (o, spelled_path(rng, out2, cwd))]
                    groups = {}
                    count_parses()
                    if together:
                        groups, _ = front.call(opts + [spelled_path(rng, os.path.join(root, p), cwd) for p in order])
                        if any(v > 1 for v in COUNTED["n"].values()):
                            e["once"] = 0
                    else:
                        for p in order:
                            g, _ = front.call(opts + [spelled_path(rng, os.path.join(root, p), cwd)])
                            groups.update(g)
                mods = {f.stem: front.importing(out2, f.stem) for f in files}
                e["c2"], e["l2"] = meaning(groups.values())
                e["c2"] += [orders.number_of(repr(getattr(mods["f%d" % home[x]], x, None))) for x in names]
                if with_cpp:
                    e["x1"] = x1
                    if n == 0:
                        front.gxx([os.path.join(out2, f.stem + ".ppf.cpp") for f in files], includes=[out2])
                    e["x2"] = cpp_table(work, out2, [f.stem for f in files], program, names, "p%d" % n)
                e["ok"] = 1
            except front.Refused as ex:
                note += str(ex)[:400]
            events.append(e)
            notes.append({"note": note, "files": written})
            if not mods:
                continue
            for t in program.types:
                cls = getattr(mods["f%d" % home[t]], t, None)
                evs = []
                for k in range(2):
                    v = gen.default(info, t) if k == 0 else gen.value(rng, info, t)
                    ev = {"k": "enc", "t": t, "v": v, "le": [-1], "be": [-1]}
                    try:
                        with pyrun.limit(20):
                            msg = codec_py.build(info, t, cls, v)
                            ev["le"], ev["be"] = list(msg.encode("<")), list(msg.encode(">"))
                    except Exception as ex:
                        ev["x"] = repr(ex)[:300]
                        ev["le"] = ev["be"] = [-1]
                    evs.append(ev)
                encs.append((t, schema.closure(info, t), evs, {"files": written, "note": note}))
    finally:
        env.drop(work)
        for m in [m for m in sys.modules if m.startswith("vpgen_")]:
            del sys.modules[m]
    return {"events": events, "notes": notes, "encs": encs}


# -- isar: reported, if only by a warning --------------------------------------

def isar_reports(args):
    what, files = args
    work = env.scratch("isar")
    try:
        paths = front.write(work, files)
        try:
            _, err = front.call(["--isar", "--void_out", paths["m.xml"]])
        except front.Refused as ex:
            err = str(ex)
        return "x.xml" in err or "m.xml" in err, err
    finally:
        env.drop(work)


XI = '<x xmlns:xi="http://www.w3.org/2001/XInclude">\n<xi:include href="%s"/>\n<constant name="%s" value="1"/></x>\n'


def body(c):
    rng = random.Random(env.SEED + 161)
    res = tlc.model("MCFiles", cfg="MCFilesWide.cfg" if env.THOROUGH else None, PRINT="1")
    c.add_model(res)
    cases = [json.loads(x.encode().decode("unicode_escape")) for x in
             re.findall(r'^<<"FILES", "(.*)">>$', res["out"], re.M)]
    if len(cases) < 3000:
        raise env.MachineryError("only %d arrangements" % len(cases))
    cases.sort(key=json.dumps)
    c.count("enumerated_arrangements", len(cases))
    parts, meta = [], []
    jobs = [(rng.getrandbits(40), cases[at:at + 300]) for at in range(0, len(cases), 300)]
    for (_, chunk), (events, notes) in zip(jobs, pool.pmap(replay_arrangements, jobs)):
        for case, e, note in zip(chunk, events, notes):
            good = e["once"] == 1 and (e["ok"] == 0 if not case["ok"] else e["ok"] == 1 and e["vals"] == [case["val"]])
            if not good:
                why = "%s arrangement: prophyc says %s, constant %s instead of %s (%s)" % (
                    case["why"] or "right", ("refused", "fine", "internal error")[e["ok"]], e["vals"], case["val"], note)
                if e["once"] == 0:
                    why = "a file is processed more than once"
                c.violation(why, {"case": case, "observed": e, "note": note})
    jobs = [(rng.getrandbits(40), [random_arrangement(rng) for _ in range(60)]) for _ in range(200 if env.THOROUGH else 16)]
    for events, notes in pool.pmap(replay_arrangements, jobs):
        parts.append({"ev": events})
        meta.append(notes)
    programs = gen.pair_programs(rng, 6 if not env.THOROUGH else 16, 14 if not env.THOROUGH else None) + \
        gen.random_programs(rng, 40 if not env.THOROUGH else 400, merge=4)
    small = gen.random_programs(rng, 12 if not env.THOROUGH else 80, merge=2, shared_sizers=False)
    jobs = [(rng.getrandbits(40), p, True) for p in small] + [(rng.getrandbits(40), p, False) for p in programs]
    ts = traces.TraceSet()
    events, notes = [], []
    for i, r in enumerate(pool.pmap(run_partition, jobs)):
        if "unusable" in r:
            c.violation("a valid schema with constants is refused: %s" % r["unusable"][:300], r)
            continue
        events += r["events"]
        notes += r["notes"]
        for t, defs, evs, extra in r["encs"]:
            ts.add((i, t), defs, evs, extra)
    parts.append({"ev": events})
    meta.append(notes)
    c.count("partitions", len(events))
    rejected, stats = tlc.validate("TraceFiles", parts)
    c.add_trace(stats, len(events) + sum(len(p["ev"]) for p in parts[:-1]))
    for part, i, why in rejected:
        e = parts[part]["ev"][i]
        c.violation("; ".join(why), {"why": why, "event": e, "input": meta[part][i]})
    rejected, stats = ts.validate("TraceCodec")
    c.add_trace(stats, ts.n)
    for why, e, defs, extra in rejected:
        c.violation("encoding from a split schema: %s" % "; ".join(why), traces.replay(why, e, defs, extra))
    for what, files in (("missing", {"m.xml": XI % ("x.xml", "M")}), ("cyclic", {"m.xml": XI % ("x.xml", "M"), "x.xml": XI % ("m.xml", "X")}),
                        ("own", {"m.xml": XI % ("m.xml", "M")})):
        said, err = isar_reports((what, files))
        if not said:
            c.violation("%s isar include is not reported" % what, {"files": files, "stderr": err})
    c.sample({"arrangement": cases[len(cases) // 2]})
    c.sample({"partition": notes[0] if notes else None})
    c.assume("files have distinct stems; isar reports missing and cyclic includes by a warning (pinned by the test suite)")


if __name__ == "__main__":
    check.main("C16", body)
