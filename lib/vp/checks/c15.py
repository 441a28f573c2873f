"""C15: definition order does not matter."""
import json
import os
import random
import re
import sys

from .. import check, env, front, orders, pool, pyrun, tlc

BASE = '<x>\n<constant name="KB" value="3"/>\n<struct name="SB"><member name="a" type="u16"/></struct>\n' \
       '<enum name="EB"><enum-member name="EB_1" value="KB + 1"/></enum>\n</x>\n'


def layouts(nodes, mod):
    out = []
    for n in sorted((n for n in nodes if hasattr(n, "byte_size")), key=lambda n: n.name):
        out += [orders.number_of(n.name), -1 if n.byte_size is None else n.byte_size,
                -1 if n.alignment is None else n.alignment, -1 if n.kind is None else int(n.kind)]
        for m in getattr(n, "members", ()):
            out += [-1 if m.byte_size is None else m.byte_size, -1 if m.alignment is None else m.alignment]
        cls = getattr(mod, n.name, None)
        if cls is not None and hasattr(cls, "encode"):
            try:
                with pyrun.limit(10):
                    out.append(orders.number_of(cls().encode("<")))
            except Exception as e:
                out.append(orders.number_of(repr(e)))
    for n in sorted(nodes, key=lambda n: n.name):
        if type(n).__name__ in ("Constant", "Enum"):
            names = [n.name] if type(n).__name__ == "Constant" else [m.name for m in n.members]
            out += [orders.number_of(repr(getattr(mod, x, None))) for x in names]
    return out


def observe(work, text, names, lang, cpp, extra_files=()):
    """One run of prophyc: {"out", "py", "cc", "lay", "note"}."""
    e = {"k": "run", "out": [], "py": 0, "cc": 2, "lay": [], "note": ""}
    out = front.package(work)
    src = os.path.join(out, "src")
    ext = {"isar": "xml", "sack": "hpp"}[lang]
    front.write(src, dict(extra_files, **{"d." + ext: text}))
    args = ["--" + lang, os.path.join(src, "d." + ext), "--python_out", out]
    if cpp:
        args += ["--cpp_out", out, "--cpp_full_out", out]
    try:
        for f, _ in extra_files:
            front.call(["--isar", os.path.join(src, f), "--python_out", out] + args[4:])
        nodes, _ = front.call(args, 30)
    except front.Refused as ex:
        e["note"] = str(ex)[:300]
        return e
    nodes = [n for n in nodes["d"] if type(n).__name__ != "Include"]
    e["out"] = [names.index(n.name) + 1 if n.name in names else 0 for n in nodes]
    mod = None
    try:
        mod = front.importing(out, "d")
        e["py"] = 1
    except front.Refused as ex:
        e["note"] = str(ex)[:300]
    e["lay"] = layouts(nodes, mod)
    if cpp:
        e["cc"] = 1
        try:
            tu = os.path.join(out, "tu.cpp")
            with open(tu, "w") as f:
                f.write('#include "d.pp.hpp"\n')
            front.gxx([tu], includes=[out])
            front.gxx([os.path.join(out, "d.ppf.cpp")], includes=[out])
        except front.Refused as ex:
            e["cc"] = 0
            e["note"] = str(ex)[:300]
    for m in [m for m in sys.modules if m.startswith(os.path.basename(out))]:
        del sys.modules[m]
    return e


def run_set(args):
    """All given orders of one definition set."""
    seed, kinds, deps, perms, cpp, included = args
    rng = random.Random(seed)
    d = orders.Definitions(rng, kinds, deps)
    events = [{"k": "set", "deps": deps}]
    notes = [""]
    extra, inc = (), ""
    if included:
        extra = (("b.xml", BASE),)
        inc = '<xi:include xmlns:xi="http://www.w3.org/2001/XInclude" href="b.xml"/>\n'
        for k in range(len(kinds)):
            if kinds[k] == "struct":
                d.text[k] = d.text[k].replace("</struct>", '<member name="zb" type="SB"/><member name="zk" type="EB">'
                                              '<dimension size="EB_1"/></member></struct>')
    work = env.scratch("sort")
    try:
        for n, perm in enumerate(perms):
            text = d.xml(perm, inc)
            e = observe(work, text, d.names, "isar", cpp and n < 2, extra)
            notes.append("%s\n%s" % (e.pop("note"), text))
            events.append(e)
    finally:
        env.drop(work)
    return events, notes


def run_model(args):
    """Orders of model nodes of mixed kinds, given to the model evaluator as parsers give them."""
    seed, kinds, deps, perms = args
    env.use_repo()
    from prophyc import model
    from prophyc.parsers import isar
    rng = random.Random(seed)
    d = orders.Definitions(rng, kinds, deps)
    events = [{"k": "set", "deps": deps}]
    notes = [""]
    for perm in perms:
        nodes = {n.name: n for n in isar.IsarParser().parse(d.xml(range(1, len(kinds) + 1)), "d.xml", None)}
        e = {"k": "run", "out": [], "py": 1, "cc": 2, "lay": []}
        note = ""
        try:
            with pyrun.limit(20):
                out, _ = model.evaluate_model([nodes[d.names[k - 1]] for k in perm])
            e["out"] = [d.names.index(n.name) + 1 for n in out]
            e["lay"] = [x for n in sorted(out, key=lambda n: n.name) if hasattr(n, "byte_size")
                        for x in (-1 if n.byte_size is None else n.byte_size, -1 if n.alignment is None else n.alignment)]
        except Exception as ex:
            note = repr(ex)[:300]
        events.append(e)
        notes.append("%s\norder %s of\n%s" % (note, perm, d.xml(range(1, len(kinds) + 1))))
    return events, notes


class Headers(object):
    """C++ declarations of definitions: names[k - 1] is what definition k is called in prophy."""

    def __init__(self, seed, n):
        rng = random.Random(seed)
        self.seed, self.n = seed, n
        self.kinds, self.deps = [], []
        for k in range(1, n + 1):
            kind = rng.choice(["enum", "struct", "struct", "union"])
            self.kinds.append(kind)
            self.deps.append(rng.sample(range(1, k), min(k - 1, rng.randrange(4))) if kind != "enum" else [])
            if kind == "union":     # a union of dynamic types is none
                self.deps[-1] = self.deps[-1][:2]
        users = {k: [u for u in range(1, n + 1) if k in self.deps[u - 1]] for k in range(1, n + 1)}
        self.style, self.path = {}, {}
        for k in range(n, 0, -1):
            kind = self.kinds[k - 1]
            style = rng.choice(["top", "top", "top", "c", "space", "inner", "alias"] + (["class"] if kind == "struct" else []))
            if not users[k]:
                if kind == "union":
                    self.kinds[k - 1] = kind = "struct"
                style = "c" if kind == "struct" and style == "c" else "top"     # others are not looked for
            if style == "inner" and (len(users[k]) > 1 or self.kinds[users[k][0] - 1] != "struct"):
                style = "space"
            if kind == "enum" and style == "inner":
                style = "top"
            if style == "alias" and kind == "union":
                style = "top"
            self.style[k] = style
        for k in range(n, 0, -1):
            own = self.name(k)
            self.path[k] = {"space": ["ns%d" % (k % 2), own], "inner": None}.get(self.style[k], [own])
            if self.style[k] == "inner":
                self.path[k] = self.path[users[k][0]] + [own]
        self.names = ["__".join(self.path[k]) for k in range(1, n + 1)]

    def name(self, k):
        return {"enum": "E", "struct": "S", "union": "U"}[self.kinds[k - 1]] + str(k)

    def orders(self, rng):
        """A dependency order."""
        left, perm = set(range(1, self.n + 1)), []
        while left:
            k = rng.choice(sorted(k for k in left if not set(self.deps[k - 1]) & left))
            perm.append(k)
            left.discard(k)
        return perm

    def body(self, k):
        ctypes = ("uint8_t", "uint16_t", "uint32_t", "uint64_t", "int8_t", "int32_t", "double")
        r = random.Random(self.seed * 1000 + k)
        n = self.name(k)
        if self.kinds[k - 1] == "enum":
            return "enum %s { %s_0 = %d, %s_1 = %d }" % (n, n, r.randrange(9), n, 10 + r.randrange(9))
        ms, inner = [], []
        for d in self.deps[k - 1]:
            t = "::".join(self.path[d])
            if self.style[d] == "inner":
                inner.append(self.body(d) + ";")
            if self.style[d] == "alias":
                t = "Alias%d" % d
            if self.kinds[d - 1] == "enum" and r.random() < 0.4:
                ms.append("uint8_t %%s[%s_1];" % "::".join(self.path[d][:-1] + [self.name(d)]))
                ms.append("%s %%s;" % t)
            else:
                ms.append("%s %%s%s;" % (t, r.choice(["", "[2]"])))
        ms += ["%s %%s;" % r.choice(ctypes) for _ in range(r.randint(1, 2))]
        r.shuffle(ms)
        ms = [m % ("m%d" % j) for j, m in enumerate(ms)]
        key = self.kinds[k - 1]
        if key == "struct":
            if r.random() < 0.3:
                ms.insert(r.randrange(len(ms) + 1), r.choice(["static int z;", "void z() const;", "%s* z;" % n, "typedef int z;"]))
            key = "class" if self.style[k] == "class" else "struct"
            if key == "class":
                ms.insert(0, "public:")
        return "%s %s { %s }" % (key, n, " ".join(inner + ms))

    def text(self, perm, rng):
        head, out = ["#include <stdint.h>"], []
        for k in perm:
            st, body = self.style[k], self.body(k)
            if st == "inner":
                continue
            if self.kinds[k - 1] == "struct" and st in ("top", "c") and rng.random() < 0.3:
                fwd = "struct %s;" % self.name(k)
                (head if rng.random() < 0.5 else out).append('extern "C" { %s }' % fwd if st == "c" else fwd)
            if st == "space":
                out.append("namespace %s { %s; }" % (self.path[k][0], body))
            elif st == "c":
                out.append('extern "C" { %s; }' % body)
            elif st == "alias":
                out.append("typedef %s Alias%d;" % (body, k) if rng.random() < 0.5 else
                           "%s; typedef %s Alias%d;" % (body, self.name(k), k))
            else:
                out.append(body + ";")
        return "\n".join(head + out) + "\n"

    def missing(self):
        """What is not listed on its own: classes and unions, and whatever only they use."""
        return [k for k in range(1, self.n + 1) if self.style[k] in ("class", "space", "inner") or
                self.kinds[k - 1] == "union" or self.style[k] == "c" and self.kinds[k - 1] == "enum"]


def run_sack(args):
    seed, n, perms = args
    rng = random.Random(seed)
    h = Headers(seed, n)
    listed = set(range(1, n + 1)) - set(h.missing())
    todo = list(listed)
    while todo:
        for d in h.deps[todo.pop() - 1]:
            if d not in listed:
                listed.add(d)
                todo.append(d)
    keep = sorted(listed)
    events = [{"k": "set", "deps": [[keep.index(d) + 1 for d in h.deps[k - 1]] for k in keep]}]
    names = [h.names[k - 1] for k in keep]
    notes = [""]
    work = env.scratch("sack")
    try:
        for _ in range(perms):
            text = h.text(h.orders(rng), rng)
            e = observe(work, text, names, "sack", False)
            notes.append("%s\n%s" % (e.pop("note"), text))
            events.append(e)
    finally:
        env.drop(work)
    return events, notes


def call(job):
    return {"isar": run_set, "model": run_model, "sack": run_sack}[job[0]](job[1])


def body(c):
    rng = random.Random(env.SEED + 151)
    jobs = []
    for cfg in ("MCSort.cfg", "MCSort5.cfg" if env.THOROUGH else "MCSort4.cfg"):
        res = tlc.model("MCSort", cfg=cfg, PRINT="1")
        c.add_model(res)
        sets = {}
        for line in re.findall(r'^<<"ORDER", "(.*)">>$', res["out"], re.M):
            d = json.loads(line.encode().decode("unicode_escape"))
            sets.setdefault(json.dumps([d["kinds"], d["deps"]]), []).append(d["perm"])
        if len(sets) < 50:
            raise env.MachineryError("%s: only %d definition sets" % (cfg, len(sets)))
        for key in sorted(sets):
            kinds, deps = json.loads(key)
            perms = sorted(sets[key])
            jobs.append(("isar", (rng.getrandbits(40), kinds, deps, perms, False, False)))
            jobs.append(("model", (rng.getrandbits(40), kinds, deps, perms)))
            c.count("enumerated_orders", len(perms))
    for n in range(600 if env.THOROUGH else 60):
        kinds, deps = orders.random_graph(rng, rng.randint(4, 12) if n % 3 else rng.randint(12, 40))
        perms = [rng.sample(range(1, len(kinds) + 1), len(kinds)) for _ in range(4)]
        perms.append(list(range(len(kinds), 0, -1)))
        jobs.append(("isar", (rng.getrandbits(40), kinds, deps, perms, n % 4 == 0, n % 2 == 1)))
        jobs.append(("model", (rng.getrandbits(40), kinds, deps, perms)))
    if sack_works():
        for n in range(300 if env.THOROUGH else 40):
            jobs.append(("sack", (rng.getrandbits(30), rng.randint(3, 12), 3)))
    else:
        c.assume("sack input not exercised: libclang does not load")
    parts, meta = [{"ev": []}], [[]]
    for events, notes in pool.pmap(call, jobs):
        if len(parts[-1]["ev"]) > 3000:
            parts.append({"ev": []})
            meta.append([])
        parts[-1]["ev"] += events
        meta[-1] += notes
    rejected, stats = tlc.validate("TraceSort", parts)
    c.add_trace(stats, len(jobs))
    c.count("definition_sets", len(jobs))
    for part, i, why in rejected:
        e = parts[part]["ev"][i]
        c.violation("%s: %s" % ("; ".join(why), meta[part][i][:400]), {"why": why, "event": e, "input": meta[part][i]})
    for notes in meta[:1]:
        c.sample({"input": notes[1]})
        c.sample({"input": notes[-1]})
    c.assume("isar inputs with names used only where they are declared; sack inputs follow C++ declaration order")


def sack_works():
    env.use_repo()
    try:
        from prophyc.parsers.sack import SackParser
        return bool(SackParser.check())
    except Exception:
        return False


if __name__ == "__main__":
    check.main("C15", body)
