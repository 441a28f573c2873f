"""C14: constant expressions have one meaning across every tool."""
import json
import os
import random
import re

from .. import check, env, exprs, front, pool, pyrun, tlc


def digits(v):
    return {"ok": 1, "neg": int(v < 0), "m": [int(ch) for ch in reversed(str(abs(v)))] if v else []}


def seen(w, v):
    """An observation: what a tool made of the expression (None: nothing usable)."""
    if isinstance(v, bool) or not isinstance(v, int):
        return {"w": w, "ok": 0, "neg": 0, "m": []}
    return dict(digits(v), w=w)


# -- enumerated expressions ---------------------------------------------------

def enumerated(res):
    out = []
    for line in re.findall(r'^<<"EXPR", "(.*)">>$', res["out"], re.M):
        d = json.loads(line.encode().decode("unicode_escape"))
        v = int("".join(map(str, reversed(d["m"]))) or "0")
        out.append((d["ts"], -v if d["neg"] else v))
    return out


SHOW = r"""
#include <cstdio>
#include <cstring>
template <class T> static void show(const char* n, T x)
{
    if (x < 0) std::printf("%s -%llu\n", n, 0ull - (unsigned long long)x);
    else std::printf("%s %llu\n", n, (unsigned long long)x);
}
"""


def run_cpp(work, out, kind, stems, lines, tag):
    """Compiles a table printer of the generated code and returns {label: int}."""
    src = os.path.join(work, "show_%s_%s.cpp" % (kind, tag))
    exe = src[:-4]
    with open(src, "w") as f:
        for s in stems:
            f.write('#include "%s%s"\n' % (s, ".pp.hpp" if kind == "raw" else ".ppf.hpp"))
        f.write(SHOW)
        if kind == "full":
            f.write("using namespace prophy::generated;\n")
        n = 0
        for at in range(0, len(lines), 400):
            f.write("static void part%d() {\n%s\n}\n" % (n, "\n".join(lines[at:at + 400])))
            n += 1
        f.write("int main() { %s return 0; }\n" % " ".join("part%d();" % k for k in range(n)))
    front.gxx([src], exe, includes=[out], flags=["-O0"])
    rc, so, se = env.run([exe], timeout=60)
    if rc != 0:
        raise front.Refused("table printer ends with %s" % rc)
    return {a: int(b) for a, b in (x.split() for x in so.splitlines())}


def model_values(nodes):
    """The compiler's own evaluation of what stands in its model: a function from text to value."""
    from prophyc import calc
    table = {}
    for n in nodes:
        if type(n).__name__ == "Constant":
            table[n.name] = n.value
        elif type(n).__name__ == "Enum":
            table.update((m.name, m.value) for m in n.members)

    def value(x, depth=0):
        try:
            return int(str(x), 0)
        except ValueError:
            pass
        try:
            if str(x) in table and depth < 100:
                return value(table[str(x)], depth + 1)
            return calc.eval(str(x), table)
        except Exception:
            return None
    return value


def replay_enumerated(args):
    idx, lang, part = args
    work = env.scratch("expr")
    try:
        names = ["N"]
        texts = [exprs.spell(ts, names, octal=lang == "prophy") for ts, _ in part]
        if lang == "prophy":
            body = "const N = 5;\n" + "".join("const E%d = %s;\n" % x for x in enumerate(texts))
            files = {"e.prophy": body}
        else:
            body = "<x>\n<constant name=\"N\" value=\"5\"/>\n" + "".join(
                '<constant name="E%d" value="%s"/>\n' % (i, t.replace("<", "&lt;")) for i, t in enumerate(texts)) + "</x>\n"
            files = {"e.xml": body}
        tables = {}
        errors = {}
        try:
            out = front.package(work)
            path = front.write(work, files)
            nodes, _ = front.call(list(path.values()) + (["--isar"] if lang == "isar" else []) +
                                  ["--python_out", out, "--cpp_out", out, "--cpp_full_out", out], 200)
        except front.Refused as e:
            return {"errors": {"prophyc": str(e)}, "wrong": [], "n": len(part)}

        def table(key, fn):
            try:
                tables[key] = fn()
            except front.Refused as e:
                errors[key] = str(e)
        mod = None

        def py():
            mod = front.importing(out, "e")
            return {"E%d" % i: getattr(mod, "E%d" % i, None) for i in range(len(part))}

        def model():
            value = model_values(nodes["e"])
            return {n.name: value(n.value) for n in nodes["e"]}

        def calc():
            from prophyc import calc
            res = {}
            for i, (ts, _) in enumerate(part):
                try:
                    with pyrun.limit(5):
                        res["E%d" % i] = calc.eval(exprs.spell(ts, names, octal=False), {"N": 5})
                except Exception as e:
                    res["E%d" % i] = repr(e)
            return res
        lines = ['show("E%d", E%d);' % (i, i) for i in range(len(part))]
        table("python", py)
        table("model", model)
        if lang == "prophy":
            table("calc", calc)
        table("raw", lambda: run_cpp(work, out, "raw", ["e"], lines, "e"))
        table("full", lambda: run_cpp(work, out, "full", ["e"], lines, "e"))
        wrong = []
        for i, (ts, v) in enumerate(part):
            for key, got in tables.items():
                x = got.get("E%d" % i)
                if x != v or isinstance(x, float):
                    wrong.append((key, lang, texts[i], v, repr(x)))
        return {"errors": errors, "wrong": wrong[:20], "n": len(part) * len(tables)}
    finally:
        env.drop(work)


# -- random programs ----------------------------------------------------------

class Prog(object):
    def __init__(self):
        self.items = []     # definitions in order
        self.files = []     # names of files; the last one includes the others


def make_program(rng, lang, size):
    """Definitions with expressions: ("const"|"enum"|"fixed"|"lim"|"union"|"dim2", name, [(label, tokens, value)], file)."""
    p = Prog()
    nfiles = rng.choice([1, 2, 3])
    p.files = ["f%d" % i for i in range(nfiles)]
    names, values = [], []
    octal, calls = lang == "prophy", lang == "isar"
    for k in range(size):
        home = min(nfiles - 1, k * nfiles // size)
        kind = rng.choice(["const", "const", "const", "enum", "fixed", "lim", "union"] + (["dim2"] if lang == "isar" else []))
        exp = lambda accept, big=True, calls=calls: exprs.expression(rng, values, accept, octal, big, calls)
        if kind == "const":
            ts, v = exp(lambda v: exprs.LO <= v <= exprs.HI)
            p.items.append(("const", "K%d" % k, [("K%d" % k, ts, v)], home))
            names.append("K%d" % k)
            values.append(v)
        elif kind == "enum":
            used = set()
            ens = []
            for j in range(rng.randint(1, 3)):
                low = -rng.choice([0, 0, 3, 1 << 31, 0xFFFFFFFF]) if lang == "isar" else 0
                ts, v = exp(lambda v: low <= v <= 0xFFFFFFFF and v % (1 << 32) not in used)
                v %= 1 << 32
                used.add(v)
                ens.append(("N%d_%d" % (k, j), ts, v))
                if lang == "prophy":      # visible to the following enumerators
                    names.append("N%d_%d" % (k, j))
                    values.append(v)
            if lang == "isar":
                names += [e[0] for e in ens]
                values += [e[2] for e in ens]
            p.items.append(("enum", "T%d" % k, ens, home))
        elif kind == "fixed":
            p.items.append(("fixed", "S%d" % k, [("S%d" % k,) + exp(lambda v: 1 <= v <= 3000, True, False)], home))
        elif kind == "lim":
            p.items.append(("lim", "L%d" % k, [("L%d" % k,) + exp(lambda v: 1 <= v <= 300, True, False)], home))
        elif kind == "dim2":
            p.items.append(("dim2", "D%d" % k, [("D%d" % k,) + exp(lambda v: 1 <= v <= 60, True, False),
                                                ("D%d" % k,) + exp(lambda v: 1 <= v <= 60, True, False)], home))
        else:
            used = set()
            arms = []
            for j in range(rng.randint(1, 3)):
                ts, v = exp(lambda v: 0 <= v <= 0xFFFFFFFF and v not in used, True, False)
                used.add(v)
                arms.append(("a%d" % j, ts, v))
            p.items.append(("union", "U%d" % k, arms, home))
    p.names, p.values = names, values
    return p


def render(p, lang, rng):
    out = {f: [] for f in p.files}
    if lang == "prophy":
        for i, f in enumerate(p.files):
            out[f] += ['#include "%s.prophy"' % g for g in p.files[:i]]
        for kind, name, es, home in p.items:
            sp = [(lab, exprs.spell(ts, p.names, rng)) for lab, ts, _ in es]
            if kind == "const":
                text = "const %s = %s;" % sp[0]
            elif kind == "enum":
                text = "enum %s { %s };" % (name, ", ".join("%s = %s" % x for x in sp))
            elif kind == "fixed":
                text = "struct %s { u8 x[%s]; };" % (name, sp[0][1])
            elif kind == "lim":
                text = "struct %s { u32 x<%s>; };" % (name, sp[0][1])
            else:
                text = "union %s { %s };" % (name, " ".join("%s: u32 %s;" % (t, lab) for lab, t in sp))
            out[p.files[home]].append(text)
        return {f + ".prophy": "\n".join(x) + "\n" for f, x in out.items()}
    for i, f in enumerate(p.files):
        out[f] += ['<xi:include xmlns:xi="http://www.w3.org/2001/XInclude" href="%s.xml"/>' % g for g in p.files[:i]]
    for kind, name, es, home in p.items:
        sp = [(lab, exprs.spell(ts, p.names, rng).replace("<", "&lt;").replace(">", "&gt;")) for lab, ts, _ in es]
        if kind == "const":
            text = '<constant name="%s" value="%s"/>' % sp[0]
        elif kind == "enum":
            text = '<enum name="%s">%s</enum>' % (name, "".join('<enum-member name="%s" value="%s"/>' % x for x in sp))
        elif kind == "fixed":
            text = '<struct name="%s"><member name="x" type="u8"><dimension size="%s"/></member></struct>' % (name, sp[0][1])
        elif kind == "dim2":
            text = '<struct name="%s"><member name="x" type="u8"><dimension size="%s" size2="%s"/></member></struct>' % (
                name, sp[0][1], sp[1][1])
        elif kind == "lim":
            text = '<struct name="%s"><member name="x" type="u32"><dimension size="%s" isVariableSize="true"/></member></struct>' % (
                name, sp[0][1])
        else:
            text = '<union name="%s">%s</union>' % (name, "".join(
                '<member type="u32" name="%s" discriminatorValue="%s"/>' % (lab, t) for lab, t in sp))
        out[p.files[home]].append(text)
    return {f + ".xml": "<x>\n%s\n</x>\n" % "\n".join(x) for f, x in out.items()}


def capacity(mod, name, v):
    """Number of elements a limited array of the Python module takes."""
    msg = getattr(mod, name)()
    n = 0
    try:
        while n <= v:
            msg.x.append(n)
            n += 1
    except Exception:
        pass
    return n


def run_program(args):
    seed, lang, size, idx, with_cpp = args
    rng = random.Random(seed)
    p = make_program(rng, lang, size)
    files = render(p, lang, rng)
    work = env.scratch("exprp")
    try:
        out = front.package(work)
        src = os.path.join(work, "src")
        os.makedirs(src)
        paths = front.write(src, files)
        try:
            nodes, _ = front.call(list(paths.values()) + (["--isar"] if lang == "isar" else []) +
                                  ["--python_out", out, "--cpp_out", out, "--cpp_full_out", out], 120)
            mods = [front.importing(out, f) for f in p.files]
        except front.Refused as e:
            return {"refused": str(e), "files": files}
        model = {}
        for f in p.files:
            for n in nodes[f]:
                model[getattr(n, "name", None)] = n
        lines = {"raw": [], "full": []}
        for kind, name, es, home in p.items:
            if kind in ("const", "enum"):
                for lab, _, _ in es:
                    for k in lines:
                        lines[k].append('show("%s", %s);' % (lab, lab))
            elif kind in ("fixed", "dim2", "lim"):
                n = 4 if kind == "lim" else 1
                lines["raw"].append('show("%s", sizeof(((%s*)0)->x) / %d);' % (name, name, n))
                lines["full"].append('show("%s", (int(%s::encoded_byte_size) - %d) / %d);' % (name, name, 4 if n == 4 else 0, n))
                if kind != "lim":
                    lines["full"].append('show("%s.size", %s().x.size());' % (name, name))
            else:
                for lab, _, _ in es:
                    for k in lines:
                        lines[k].append('show("%s.%s", (uint32_t)%s::discriminator_%s);' % (name, lab, name, lab))
        tables = {}
        refused = []
        if with_cpp:
            for k in lines:
                try:
                    tables[k] = run_cpp(work, out, k, p.files, lines[k], "p")
                except front.Refused as e:
                    refused.append((k, str(e)))
        events = [{"k": "prog", "ts": [], "keep": 0, "u32": 0, "obs": []}]
        texts = [""]

        value = model_values(model.values())

        def emit(label, ts, keep, obs, kind):
            events.append({"k": "def", "ts": exprs.plain(ts), "keep": keep,
                           "u32": int(kind == "enum" and lang == "isar"), "obs": [seen(w, v) for w, v in obs]})
            texts.append("%s: %s  %s" % (label, exprs.spell(ts, p.names), [o[:2] for o in obs]))

        for kind, name, es, home in p.items:
            mod = mods[home]
            node = model.get(name)
            for lab, ts, v in es:
                obs = []
                if kind == "const":
                    obs.append(("constant in the Python module", getattr(mod, lab, None)))
                    obs.append(("constant in the model", value(getattr(node, "value", None))))
                    obs += [("constant in %s C++" % k, t.get(lab)) for k, t in tables.items()]
                elif kind == "enum":
                    obs.append(("enumerator in the Python module", getattr(mod, lab, None)))
                    obs.append(("enumerator value in the Python enum", dict(getattr(getattr(mod, name, None), "_enumerators", [])).get(lab)))
                    found = [value(m.value) for m in getattr(node, "members", []) if m.name == lab]
                    obs.append(("enumerator in the model", found[0] if found else None))
                    obs += [("enumerator in %s C++" % k, t.get(lab)) for k, t in tables.items()]
                elif kind in ("fixed", "dim2"):
                    if kind == "dim2" and lab == name and ts is es[0][1]:
                        continue
                    if kind == "dim2":
                        ts = [exprs.tok("(")] + es[0][1] + [exprs.tok(")"), exprs.tok("*"), exprs.tok("(")] + ts + [exprs.tok(")")]
                    try:
                        n = len(getattr(mod, name)().x)
                    except Exception:
                        n = None
                    obs.append(("array length in Python", n))
                    obs.append(("array size in the model", getattr(node.members[-1], "numeric_size", None)))
                    obs.append(("byte size in the model", getattr(node, "byte_size", None)))
                    for k, t in tables.items():
                        obs.append(("array length in %s C++" % k, t.get(name)))
                        if k == "full":
                            obs.append(("array length in full C++", t.get(name + ".size")))
                elif kind == "lim":
                    try:
                        n = capacity(mod, name, v)
                    except Exception:
                        n = None
                    obs.append(("array capacity in Python", n))
                    obs.append(("array size in the model", getattr(node.members[-1], "numeric_size", None)))
                    obs += [("array capacity in %s C++" % k, t.get(name)) for k, t in tables.items()]
                else:
                    cls = getattr(mod, name)
                    try:
                        msg = cls()
                        msg.discriminator = lab
                        n = int.from_bytes(msg.encode("<")[:4], "little")
                    except Exception:
                        n = None
                    obs.append(("discriminator in Python", n))
                    found = [value(m.discriminator) for m in getattr(node, "members", []) if m.name == lab]
                    obs.append(("discriminator in the model", found[0] if found else None))
                    obs += [("discriminator in %s C++" % k, t.get("%s.%s" % (name, lab))) for k, t in tables.items()]
                emit(lab if kind in ("const", "enum") else name + "." + lab, ts, int(kind in ("const", "enum")), obs, kind)
        return {"events": events, "texts": texts, "files": files, "refused_cpp": refused}
    finally:
        env.drop(work)


# -- values at the ends of the ranges ------------------------------------------

INSIDE = [0, -1, (1 << 31) - 1, 1 << 31, -(1 << 31), -(1 << 31) - 1, (1 << 32) - 1, 1 << 32, -(1 << 32), (1 << 63) - 1,
          1 << 63, -(1 << 63), -(1 << 63) + 1, (1 << 64) - 2, (1 << 64) - 1]
OUTSIDE = [1 << 64, (1 << 64) + 5, -(1 << 63) - 1, -(1 << 64), 1 << 71]


def forms(v):
    """Tokens of a few spellings of a value."""
    def lit(x, k="dec"):
        return exprs.tok(k, [int(ch, 16) for ch in ("%d" if k == "dec" else "%x") % x])

    def signed(k):
        return [exprs.tok("-"), lit(-v, k)] if v < 0 else [lit(v, k)]
    out = [signed("dec"), signed("hex")]
    if v > 0:
        out.append([lit(v - 1), exprs.tok("+"), lit(1)])
        out.append([lit(v + 1), exprs.tok("-"), lit(1)])
    else:
        out.append([exprs.tok("-"), lit(1 - v), exprs.tok("+"), lit(1)])
    return out


def run_edges(args):
    """Constants of the given values; None when prophyc refuses them."""
    lang, values = args
    work = env.scratch("edge")
    try:
        cases = [(ts, v) for v in values for ts in forms(v)]
        texts = [exprs.spell(ts, [], octal=False) for ts, _ in cases]
        if lang == "prophy":
            files = {"e.prophy": "".join("const E%d = %s;\n" % x for x in enumerate(texts))}
        else:
            files = {"e.xml": "<x>%s</x>" % "".join('<constant name="E%d" value="%s"/>\n' % x for x in enumerate(texts))}
        out = front.package(work)
        path = front.write(work, files)
        try:
            nodes, _ = front.call(list(path.values()) + (["--isar"] if lang == "isar" else []) +
                                  ["--python_out", out, "--cpp_out", out, "--cpp_full_out", out], 100)
        except front.Refused as e:
            return {"refused": str(e), "files": files}
        tables = {"model": {}, "Python module": {}}
        value = model_values(nodes["e"])
        tables["model"] = {n.name: value(n.value) for n in nodes["e"]}
        try:
            tables["Python module"] = vars(front.importing(out, "e"))
        except front.Refused:
            pass
        lines = ['show("E%d", E%d);' % (i, i) for i in range(len(cases))]
        for k in ("raw", "full"):
            try:
                tables[k + " C++"] = run_cpp(work, out, k, ["e"], lines, "e")
            except front.Refused:
                tables[k + " C++"] = {}
        events, notes = [{"k": "prog", "ts": [], "keep": 0, "u32": 0, "obs": []}], [""]
        for i, (ts, v) in enumerate(cases):
            obs = [("constant in the " + k, t.get("E%d" % i)) for k, t in sorted(tables.items())]
            events.append({"k": "def", "ts": exprs.plain(ts), "keep": 0, "u32": 0, "obs": [seen(*o) for o in obs]})
            notes.append("%s: %s" % (texts[i], obs))
        return {"events": events, "texts": notes, "files": files}
    finally:
        env.drop(work)


def edges(c):
    jobs = [(lang, INSIDE) for lang in ("prophy", "isar")] + [(lang, [v]) for v in OUTSIDE for lang in ("prophy", "isar")]
    parts, meta = [{"ev": []}], [[]]
    for job, r in zip(jobs, pool.pmap(run_edges, jobs)):
        if "refused" in r:
            c.count("values_refused", len(job[1]))
            if job[1] is INSIDE:
                c.violation("constants within 64 bits are refused (%s): %s" % (job[0], r["refused"][:300]), r)
            continue
        parts[0]["ev"] += r["events"]
        meta[0] += [(t, r["files"]) for t in r["texts"]]
    return parts, meta


def body(c):
    res = tlc.model("MCExpr", cfg="MCExprDeep.cfg" if env.THOROUGH else None, PRINT="1")
    c.add_model(res)
    todo = [(ts, v) for ts, v in enumerated(res) if exprs.LO <= v <= exprs.HI]
    if len(todo) < 1000:
        raise env.MachineryError("only %d expressions enumerated" % len(todo))
    todo.sort(key=lambda x: (len(x[0]), json.dumps(x[0])))
    n = 2500
    jobs = [(i, lang, todo[at:at + n]) for i, at in enumerate(range(0, len(todo), n)) for lang in ("prophy", "isar")]
    for job, r in zip(jobs, pool.pmap(replay_enumerated, jobs)):
        c.count("enumerated_values_compared", r["n"])
        for k, e in r["errors"].items():
            c.violation("enumerated expressions (%s): no values from %s: %s" % (job[1], k, e[:300]),
                        {"lang": job[1], "tool": k, "error": e, "first": exprs.spell(job[2][0][0], ["N"])})
        for key, lang, text, v, got in r["wrong"]:
            c.violation("%s (%s): %s is %s, not %s" % (key, lang, text, got, v),
                        {"lang": lang, "expression": text, "tool": key, "got": got, "expected": v, "names": {"N": 5}})
    c.count("enumerated_expressions", len(todo))
    programs = 160 if env.THOROUGH else 24
    jobs = [(env.SEED * 7919 + i, ("prophy", "isar")[i % 2], 60, i, env.THOROUGH or i < 12) for i in range(programs)]
    parts, meta = edges(c)
    for job, r in zip(jobs, pool.pmap(run_program, jobs)):
        if "refused" in r:
            c.violation("a program of valid expressions is refused: %s" % r["refused"][:300], r)
            continue
        for k, e in r["refused_cpp"]:
            c.violation("%s C++ of a program of valid expressions: %s" % (k, e[:300]), {"files": r["files"], "error": e})
        if len(parts[-1]["ev"]) > 400:
            parts.append({"ev": []})
            meta.append([])
        parts[-1]["ev"] += r["events"]
        meta[-1] += [(t, r["files"]) for t in r["texts"]]
        c.sample({"program": list(r["files"].values())[0][:600]}, 2)
    rejected, stats = tlc.validate("TraceExpr", parts)
    c.add_trace(stats, len(jobs))
    for part, i, why in rejected:
        if any(w.startswith("MACHINERY") for w in why):
            raise env.MachineryError("%s: %s" % (why, meta[part][i][0]))
        c.violation("%s: %s" % ("; ".join(why), meta[part][i][0][:300]),
                    {"definition": meta[part][i][0], "files": meta[part][i][1], "why": why})
    c.assume("octal literals only in the prophy language; '|' only as bitMaskOr() of isar; values within 64 bits, "
             "enumerators, discriminators and sizes within 32")


if __name__ == "__main__":
    check.main("C14", body)
