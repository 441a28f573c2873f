"""C20: the same files and options give the same outputs."""
import hashlib
import json
import os
import queue
import random
import re
import subprocess
import threading

from .. import check, env, gen, isar, legal, split, tlc

TARGETS = {"python": ("--python_out", ("%s.py",)), "cpp": ("--cpp_out", ("%s.pp.hpp", "%s.pp.cpp")),
           "cpp_full": ("--cpp_full_out", ("%s.ppf.hpp", "%s.ppf.cpp")), "prophy": ("--prophy_out", ("%s.prophy",))}
# hash seed and surroundings of a process; those marked keep running in one process
PLACES = [dict(PYTHONHASHSEED="0"), dict(PYTHONHASHSEED="1", TZ="Asia/Tokyo"), dict(PYTHONHASHSEED="2", LC_ALL="C", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0"),
          dict(PYTHONHASHSEED="3", HOME="/nonexistent", USER="somebody", COLUMNS="20"), dict(PYTHONHASHSEED="42", LC_ALL="C.UTF-8"),
          dict(PYTHONHASHSEED="1000003"), dict(PYTHONHASHSEED="random"), dict(PYTHONHASHSEED="random"),
          dict(PYTHONHASHSEED="5", stays="1"), dict(PYTHONHASHSEED="6", stays="1"), dict(PYTHONHASHSEED="random", stays="1")]


class Server(object):
    def __init__(self, place):
        place = dict(place)
        self.fork = not place.pop("stays", "")
        e = env.child_env(**place)
        e["PYTHONPATH"] = env.REPO + os.pathsep + os.path.join(env.VERIF, "lib")
        if place["PYTHONHASHSEED"] == "random":
            e["PYTHONHASHSEED"] = str(random.SystemRandom().randrange(1 << 32))
        self.place = dict(place, PYTHONHASHSEED=e["PYTHONHASHSEED"], keeps_running=not self.fork)
        self.env = e
        self.proc = None

    def start(self):
        self.proc = subprocess.Popen([env.PY, "-m", "vp.server"], env=self.env, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                     stderr=subprocess.DEVNULL, cwd="/")

    def __call__(self, cwd, args):
        if self.proc is None:
            self.start()
        job = json.dumps({"cwd": cwd, "args": args, "fork": self.fork}) + "\n"
        timer = threading.Timer(120, self.proc.kill)
        timer.start()
        try:
            self.proc.stdin.write(job.encode())
            self.proc.stdin.flush()
            line = self.proc.stdout.readline()
        except BrokenPipeError:
            line = b""
        finally:
            timer.cancel()
        if not line:
            self.stop()
            return {"ok": 0, "why": "the process ended"}
        return json.loads(line)

    def stop(self):
        if self.proc is not None:
            self.proc.kill()
            self.proc.wait()
            self.proc.stdin.close()
            self.proc.stdout.close()
            self.proc = None


class World(object):
    """Files, options and the inputs which are compiled in all ways."""

    def __init__(self, label, mode, files, units, options=(), targets=tuple(sorted(TARGETS)), paths=()):
        self.label, self.mode, self.files, self.units = label, mode, files, list(units)
        self.options, self.targets, self.paths = list(options), list(targets), list(paths)
        self.roots = []

    def put(self, root):
        self.files["elsewhere/bad.prophy"] = "const PK = 1;\nenum PE0 { PE0_0 = 3 };\nstruct F1S0 { u8 a; Nope b; };\nstruct PS0 { "
        self.files["elsewhere/bad.xml"] = '<x><constant name="F1K" value="77"/><struct name="F1S0"><member name="a" type="F1S0"/></struct></x>'
        for name, text in self.files.items():
            path = os.path.join(root, name)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w", encoding="utf-8") as f:
                f.write(text)
        self.roots.append(root)


def taking(defs):
    """Targets which take the definitions."""
    return sorted(t for t in TARGETS if t != "cpp_full" or not legal.shared_sizer(defs))


class Run(object):
    def __init__(self, world, inputs, rng, n, plain=False):
        self.world, self.inputs = world, inputs
        self.root = world.roots[0] if plain else rng.choice(world.roots)
        self.cwd = self.root if plain else rng.choice([self.root, self.root, "/", os.path.dirname(self.root), os.path.join(self.root, "elsewhere")])
        self.style = "plain" if plain else rng.choice(["relative", "relative", "absolute", "dotted", "mixed"])
        self.server = 0 if plain else rng.randrange(len(PLACES))
        self.out = os.path.join(self.root, "o%d" % n if rng.random() < 0.7 else "out-in-a-longer-directory-%d" % n)
        self.seed = rng.random()

    def spell(self, rng, path):
        path = os.path.join(self.root, path)
        rel = os.path.relpath(path, self.cwd)
        style = rng.choice(["relative", "absolute", "dotted"]) if self.style == "mixed" else self.style
        if style == "absolute":
            return path
        if style == "dotted":
            return os.path.join(".", os.path.dirname(rel), ".", os.path.basename(rel))
        return rel

    def args(self):
        rng = random.Random(self.seed)
        w = self.world
        out = [["--" + w.mode]] if w.mode != "prophy" else []
        out += [[TARGETS[t][0], self.spell(rng, os.path.join(self.out, t))] for t in w.targets]
        out += [[o, self.spell(rng, p)] for o, p in w.paths if o != "-I"]
        rng.shuffle(out)
        out += [["-I", self.spell(rng, p)] for o, p in w.paths if o == "-I"]
        return [x for o in out for x in o] + w.options + [self.spell(rng, i) for i in self.inputs]

    def perform(self, server):
        for t in self.world.targets:
            os.makedirs(os.path.join(self.out, t))
        if not server.fork and self.seed < 0.3:
            # something refused in between
            server(self.root, ["--void_out", "elsewhere/bad.prophy"] if self.seed < 0.2 else ["--isar", "--void_out", "elsewhere/bad.xml"])
        res = server(self.cwd, self.args())
        outs = []
        for t in self.world.targets:
            d = os.path.join(self.out, t)
            for name in sorted(os.listdir(d)):
                with open(os.path.join(d, name), "rb") as f:
                    data = f.read()
                outs.append(("%s/%s" % (t, name), hashlib.sha1(data).hexdigest(), data))
                os.unlink(os.path.join(d, name))
            os.rmdir(d)
        os.rmdir(self.out)
        due = ["%s/%s" % (t, n % os.path.splitext(os.path.basename(i))[0]) for i in self.inputs for t in self.world.targets for n in TARGETS[t][1]]
        self.place = server.place
        self.result = res
        self.event = {"ok": res["ok"], "outs": [{"f": f, "d": d} for f, d, _ in outs], "due": due}
        self.data = {f: data for f, _, data in outs}
        return self

    def describe(self):
        return {"cwd": self.cwd, "args": self.args(), "place": self.place, "result": self.result}


# ------------------------------------------------------------------ worlds
def graph_world(rng, includes, lang, label):
    """Files with the include graph; each uses what it includes."""
    n = len(includes)
    ext = {"prophy": ".prophy", "isar": ".xml"}[lang]
    names = ["unit%d" % k for k in range(1, n + 1)]
    rng.shuffle(names)
    files, units, patch, own, every = {}, [], "", {}, []
    for f in range(1, n + 1):
        defs = gen.SchemaGen(rng).schema(rng.randint(2, 5), "F%d" % f)
        own[f] = [d["name"] for d in defs]
        every += defs
        inc = [names[k - 1] for k in includes[f - 1]]
        rng.shuffle(inc)
        uses = [(k, t) for k in includes[f - 1] for t in rng.sample(own[k], min(len(own[k]), rng.randint(1, 4)))]
        rng.shuffle(uses)
        values = [k for k in includes[f - 1]]
        path = names[f - 1] + ext
        units.append(path)
        if lang == "prophy":
            its = split.items(rng, defs)
            text = "".join('#include "%s%s"\n' % (x, ext) for x in inc)
            text += re.sub(r"\bC(\d+)\b", "F%dC\\1" % f, split.single(its))
            text += "\nconst F%dK = %s;\n" % (f, " + ".join(["%d" % f] + ["F%dK" % k for k in values]))
            text += "const F%dL = %d;\nconst F%dM = F%dL;\n" % (f, rng.randint(1, 9), f, f)
            for j, (k, t) in enumerate(uses):
                text += "struct F%dX%d { u8 a[F%dK]; %s b; };\n" % (f, j, k, t)
                if rng.random() < 0.4:
                    text += "typedef %s F%dY%d;\n" % (t, f, j)
            files[path] = text
        else:
            rd = isar.Renderer(rng, True).render(defs)
            body = rd.xml.strip()[len("<x>"):-len("</x>")].replace("KN_", "KN%d_" % f)
            patch += rd.patch
            extra = [isar.element("constant", [("name", "F%dK" % f), ("value", " + ".join(["%d" % f] + ["F%dK" % k for k in values])),
                                               ("comment", rng.choice(["", "über", "Ж 'quoted' \"text\""]))])]
            for j, (k, t) in enumerate(uses):
                extra.append(isar.element("struct", [("name", "F%dX%d" % (f, j)), ("comment", rng.choice(["", "größe"]))], isar.element(
                    "member", [("name", "a"), ("type", "u8")], isar.element("dimension", [("size", "F%dK" % k)])) +
                    isar.element("member", [("name", "b"), ("type", t), ("comment", rng.choice(["", "ü"]))])))
            rng.shuffle(extra)
            files[path] = '<x xmlns:xi="http://www.w3.org/2001/XInclude">%s%s%s</x>' % (
                "".join('<xi:include href="%s%s"/>' % (x, ext) for x in inc), "\n".join(extra), body)
    paths = []
    if patch:
        lines = patch.splitlines()
        files["rules.patch"] = "\n".join(lines) + "\n"
        paths = [("-p", "rules.patch")]
    return World(label, lang, files, units, targets=taking(every), paths=paths)


def partition_world(rng, label):
    defs = gen.SchemaGen(rng).schema(rng.randint(5, 10), "P")
    its = split.items(rng, defs)
    parts, _ = split.partition(rng, its, rng.randint(2, 5))
    arranged, dirs = split.arrange(rng, parts)
    files = {p: split.prophy_text(lines, f) for p, (lines, f) in arranged.items()}
    units = sorted(files)
    for d in dirs:
        files[os.path.join(d, "readme")] = ""
    return World(label, "prophy", files, units, targets=taking(defs), paths=[("-I", d or ".") for d in dirs])


def namesakes_world(rng, lang, label):
    """Files which know nothing of each other and give the same names to different things."""
    ext = {"prophy": ".prophy", "isar": ".xml", "sack": ".hpp"}[lang]
    files, units = {}, []
    nums = {"prophy": ["u8", "u16", "u32", "u64", "i32", "double"], "isar": ["u8", "u16", "u32", "u64", "i32", "r64"],
            "sack": ["unsigned char", "short", "int", "long long", "double"]}[lang]
    for n in range(rng.randint(2, 4)):
        ext_n = "side%d" % n + ext
        value = [rng.randint(1, 200) for _ in range(3)]
        kinds = {"A": rng.choice(["struct", "union", "enum", "typedef"]), "B": rng.choice(["struct", "enum"])}
        member = lambda name: (name, rng.choice(nums + ["A", "B"]))
        z = [[("x", rng.choice(nums)), ("y", rng.choice(nums))] + [member("m%d" % k) for k in range(rng.randint(0, 3))] for _ in range(2)]
        if lang == "isar":
            el = isar.element
            out = [el("constant", [("name", "K"), ("value", str(value[0]))]), el("constant", [("name", "L"), ("value", "K + %d" % value[1])])]
            for name in "AB":
                body = "".join(el("member", [("name", "n%d" % k), ("type", rng.choice(nums)), ("discriminatorValue", str(k))]) for k in range(rng.randint(1, 3)))
                if kinds[name] == "typedef":
                    out.append(el("typedef", [("name", name), ("primitiveType", rng.choice(["8 bit integer unsigned", "32 bit integer unsigned"]))]))
                elif kinds[name] == "enum":
                    out.append(el("enum", [("name", name)], "".join(el("enum-member", [("name", "%s_%d" % (name, k)), ("value", str(rng.randint(0, 9) + 10 * k))])
                                                                    for k in range(rng.randint(1, 3)))))
                elif kinds[name] == "union":
                    out.append(el("union", [("name", name)], body))
                else:
                    out.append(el("struct", [("name", name)], body.replace("discriminatorValue", "comment")))
            for k, members in enumerate(z):
                out.append(el("struct", [("name", "Z%d" % k)], "".join(el("member", [("name", m), ("type", t)]) for m, t in members)
                              + el("member", [("name", "s"), ("type", "u8")], el("dimension", [("size", rng.choice("KL"))]))))
            rng.shuffle(out)
            files[ext_n] = "<x>%s</x>" % "\n".join(out)
        else:
            sack = lang == "sack"
            out = [] if sack else ["const K = %d;" % value[0], "const L = K + %d;" % value[1]]
            for name in "AB":
                fields = ["%s n%d;" % (rng.choice(nums), k) for k in range(rng.randint(1, 3))]
                if kinds[name] == "typedef":
                    out.append("typedef %s %s;" % (rng.choice(nums), name))
                elif kinds[name] == "enum":
                    out.append("enum %s { %s };" % (name, ", ".join("%s_%d = %d" % (name, k, rng.randint(0, 9) + 10 * k) for k in range(rng.randint(1, 3)))))
                elif kinds[name] == "union":
                    out.append("union %s { %s };" % (name, " ".join(fields if sack else ["%d: %s" % (k, f) for k, f in enumerate(fields)])))
                else:
                    out.append("struct %s { %s };" % (name, " ".join(fields)))
            for k, members in enumerate(z):
                out.append("struct Z%d { %s };" % (k, " ".join(["%s %s;" % (t, m) for m, t in members] + (["int s[%d];" % value[0]] if sack else ["u8 s[%s];" % rng.choice("KL")]))))
            files[ext_n] = "\n".join(out) + "\n"
        units.append(ext_n)
    rules = {"Z0": ["type x u64", "type y i8", "insert 1 w u16", "insert 999 w2 r32", "remove y", "static x 3", "rename y yy"],
             "Z1": ["type y u64", "static y 4", "insert 0 v u32", "remove s", "rename x xx"]}
    lines = [name + " " + rule for name in sorted(rules) for rule in rng.sample(rules[name], rng.randint(0, 2))]
    lines = [line for line in lines if not any(o != line and line.split()[:1] == o.split()[:1] and line.split()[2] == o.split()[2] for o in lines)]
    paths = []
    if lines:
        files["rules.patch"] = "\n".join(lines) + "\n"
        paths = [("-p", "rules.patch")]
    return World(label, lang, files, units, paths=paths)


def neighbours_world(rng, lang, label):
    """Inputs in several directories, each with files of the same names beside it."""
    ext = {"prophy": ".prophy", "isar": ".xml"}[lang]
    shared = rng.sample(["common", "types", "defs"], rng.randint(1, 3))
    files, units = {}, []
    for n in range(rng.randint(2, 4)):
        d = rng.choice(["", "x/", "x/y/", "z/"]) + "d%d/" % n
        before = []
        for k, name in enumerate(shared):
            size, kind = rng.randint(1, 9), rng.choice(["u8", "u16", "u32", "i64"])
            inc = rng.sample(before, rng.randint(0, len(before)))
            if lang == "prophy":
                text = "".join('#include "%s%s"\n' % (x, ext) for x in inc) + "const N%d = %d;\ntypedef %s T%d;\nstruct V%d { T%d a; T%d b[N%d]; };\n" % (k, size, kind, k, k, k, k, k)
            else:
                text = '<x xmlns:xi="http://www.w3.org/2001/XInclude">' + "".join('<xi:include href="%s%s"/>' % (x, ext) for x in inc) + \
                       '<constant name="N%d" value="%d"/><typedef name="T%d" type="%s"/><struct name="V%d"><member name="a" type="T%d"/></struct></x>' % (k, size, k, kind, k, k)
            files[d + name + ext] = text
            before.append(name)
        used = list(range(len(shared)))
        rng.shuffle(used)
        if lang == "prophy":
            text = "".join('#include "%s%s"\n' % (shared[k], ext) for k in used) + "".join("struct W%d { V%d a; T%d b[N%d]; };\n" % (k, k, k, k) for k in used)
        else:
            text = '<x xmlns:xi="http://www.w3.org/2001/XInclude">' + "".join('<xi:include href="%s%s"/>' % (shared[k], ext) for k in used) + "".join(
                '<struct name="W%d"><member name="a" type="V%d"/><member name="b" type="T%d"><dimension size="N%d"/></member></struct>' % (k, k, k, k) for k in used) + "</x>"
        files[d + "unit%d" % n + ext] = text
        units.append(d + "unit%d" % n + ext)
    return World(label, lang, files, units)


def sack_world(rng, label):
    files, units = {}, []
    for n in range(rng.randint(1, 3)):
        fields = ["%s f%d%s;" % (rng.choice(["int", "uint8_t", "Common", "double", "E%d" % n, "In%d" % n, "Un%d" % n, "char*"]), k,
                                 rng.choice(["", "", "[3]"])) for k in range(rng.randint(1, 4))]
        if rng.random() < 0.6:
            fields.append("struct { int x; struct { short y; } z; } w;")
        if rng.random() < 0.4:
            fields.append("enum { P%d, Q%d } e; union { int i; float f; } u;" % (n, n))
        files["h%d.hpp" % n] = '#include <stdint.h>\n#include "common.hpp"\nenum E%d { E%d_a = 1, E%d_b };\nstruct In%d { int a; Common b; };\n' \
            "union Un%d { int a; In%d b; };\nstruct Main%d { %s };\n" % (n, n, n, n, n, n, n, " ".join(fields))
        units.append("h%d.hpp" % n)
    files["common.hpp"] = "struct Common { int a; long long b; };\n"
    paths = [("-I", ".")]
    if rng.random() < 0.4:
        rd = isar.Renderer(rng, False)
        defs = [d for d in gen.SchemaGen(rng).schema(3, "P") if d["k"] in ("enum", "typedef")]
        files["defs.xml"] = rd.render(defs).xml
        paths.append(("-S", "defs.xml"))
    return World(label, "sack", files, units, paths=paths)


def orders(rng, units, count):
    """Input lists: single files, all of them in several orders, some of them."""
    out = [[u] for u in units]
    while len(out) < count:
        xs = rng.sample(units, rng.randint(1, len(units)))
        out.append(xs)
    rng.shuffle(out)
    return out


def perform(runs):
    """Each place works through its runs; results in the order of runs."""
    servers = [Server(p) for p in PLACES]
    queues = [queue.Queue() for _ in PLACES]
    for r in runs:
        queues[r.server].put(r)
    failed = []

    def work(k):
        try:
            while True:
                try:
                    r = queues[k].get_nowait()
                except queue.Empty:
                    return
                r.perform(servers[k])
        except Exception as e:
            failed.append(e)

    threads = [threading.Thread(target=work, args=(k,)) for k in range(len(PLACES))]
    try:
        for t in threads:
            t.start()
        for t in threads:
            t.join()
    finally:
        for s in servers:
            s.stop()
    if failed:
        raise failed[0]


def differing(a, b):
    for f in sorted(set(a) & set(b)):
        if a[f] != b[f]:
            xs, ys = a[f].decode("utf-8", "replace").splitlines(), b[f].decode("utf-8", "replace").splitlines()
            for n, (x, y) in enumerate(zip(xs + [""] * len(ys), ys + [""] * len(xs))):
                if x != y:
                    return "%s:%d: %r / %r" % (f, n + 1, x[:120], y[:120])
    return ""


def body(c):
    quick = env.TIER == "quick"
    rng = random.Random("c20/%s" % env.SEED)
    work = env.scratch("c20")
    res = tlc.model("MCRuns", cfg="MCRuns.cfg" if quick else "MCRunsWide.cfg", PRINT="1")
    c.add_model(res)
    graphs = {}
    for line in re.findall(r'^<<"RUN", "(.*)">>$', res["out"], re.M):
        b = json.loads(line.encode().decode("unicode_escape"))
        graphs.setdefault(json.dumps(b["includes"]), []).append(b["inputs"])
    if len(graphs) < 8:
        raise env.MachineryError("MCRuns: only %d graphs" % len(graphs))
    plans = []
    for g in sorted(graphs):
        for lang in ("prophy", "isar"):
            w = graph_world(rng, json.loads(g), lang, "graph %s %s" % (g, lang))
            plans.append((w, [[w.units[k - 1] for k in inputs] for inputs in sorted(graphs[g])]))
    count = 60 if quick else 500
    for n in range(count):
        w = partition_world(rng, "partition %d" % n)
        plans.append((w, orders(rng, w.units, 12)))
    for n in range(count // 2):
        files = rng.randint(1, 4)
        w = graph_world(rng, [sorted(rng.sample(range(1, f), rng.randint(0, f - 1))) for f in range(1, files + 1)],
                        rng.choice(["isar", "isar", "prophy"]), "random graph %d" % n)
        plans.append((w, orders(rng, w.units, 12)))
    for n in range(count // 3):
        w = sack_world(rng, "sack %d" % n)
        plans.append((w, orders(rng, w.units, 6)))
    for n in range(count // 3):
        w = namesakes_world(rng, ("prophy", "isar", "sack")[n % 3], "namesakes %d" % n)
        plans.append((w, orders(rng, w.units, 8)))
    for n in range(count // 4):
        w = neighbours_world(rng, ("prophy", "isar")[n % 2], "neighbours %d" % n)
        plans.append((w, orders(rng, w.units, 8)))
    first, rest = [], []
    for n, (w, inputs) in enumerate(plans):
        w.put(os.path.join(work, "w%d" % n))
        w.put(os.path.join(work, "another", "place with space", "w%d" % n))
        # what every input gives alone, twice
        alone = [Run(w, [u], rng, k, plain=True) for k, u in enumerate(w.units)]
        w.alone = alone
        first += alone
        w.runs = [Run(w, xs, rng, 100 + k) for k, xs in enumerate(inputs)]
        w.runs += [Run(w, [u], rng, 500 + k) for k, u in enumerate(w.units)]
        rest += w.runs
    for k, r in enumerate(first):
        r.server = k % 8
    perform(first)
    usable = []
    for w, _ in plans:
        # targets may have reasons not to take a file; then all of them are given up for this world
        refused = [r for r in w.alone if not r.event["ok"]]
        if refused:
            c.count("worlds_refused")
            c.sample({"refused": refused[0].result["why"][:200], "world": w.label}, 2)
        else:
            usable.append(w)
    if len(usable) < len(plans) * 0.8:
        raise env.MachineryError("only %d of %d worlds usable: %s" % (len(usable), len(plans), c.coverage["samples"]))
    runs = [r for w in usable for r in w.runs]
    rng.shuffle(runs)
    perform(runs)
    parts = [[] for _ in range(8)]
    for n, w in enumerate(usable):
        for r in w.alone + w.runs:
            parts[n % 8].append((r, dict(r.event, w=n)))
            c.count("runs_" + w.mode)
    c.count("worlds", len(usable))
    rejections, stats = tlc.validate("TraceRuns", [{"ev": [e for _, e in p]} for p in parts])
    c.add_trace(stats, sum(len(p) for p in parts))
    for p, i, why in rejections:
        r = parts[p][i][0]
        diff = ""
        for other in r.world.alone + r.world.runs:
            diff = diff or differing(other.data, r.data)
        c.violation("%s: %s" % ("; ".join(why), (diff or r.result["why"])[:400]),
                    {"files": r.world.files, "run": r.describe(), "compared_with": r.world.alone[0].describe(), "difference": diff})
    r = runs[0]
    c.sample({"run": r.describe(), "digests": r.event["outs"][:3]})
    c.assume("digests are SHA-1; worlds whose files some back-end refuses are left out")
    env.drop(work)


if __name__ == "__main__":
    check.main("C20", body)
