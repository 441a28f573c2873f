"""C12: what prophyc accepts every back-end can realise; rule breakers are refused."""
import json
import os
import random
import re

from .. import check, env, gen, headers, isar, legal, pool, schema, tlc
from ..schema import arm, enum, enumerator, member, struct, typedef, union

# ------------------------------------------------------------ enumeration
LIBRARY = [
    enum("E", [enumerator("E_a", 1), enumerator("E_b", 2)]),
    typedef("T", "u16"),
    typedef("TE", "E"),
    typedef("TR", "float"),
    struct("F", [member("f", "u8"), member("g", "u64", "opt")]),
    struct("D", [member("f", "u8", "dyn")]),
    struct("DE", [member("f", "u8"), member("g", "u16", "ext", s="f"), member("h", "u32")]),
    struct("G", [member("f", "u8"), member("g", "u16", "greedy")]),
    struct("GD", [member("f", "u8", "dyn"), member("g", "D", "greedy")]),
    struct("GG", [member("f", "D"), member("g", "G")]),
    union("U", [arm("f", "u8", 1), arm("g", "F", 2)]),
    typedef("TD", "D"),
    typedef("TG", "GD"),
    typedef("TU", "U"),
]
TYPES = ["u8", "i64", "float", "E", "T", "TE", "TR", "F", "D", "DE", "G", "GD", "GG", "U", "TD", "TG", "TU", "byte"]
ARITIES = [("plain", 0, ""), ("opt", 0, ""), ("fix", 2, ""), ("fix", 0, ""), ("fix", -1, ""), ("lim", 2, ""),
           ("lim", 0, ""), ("dyn", 0, ""), ("greedy", 0, ""), ("ext", 0, "a"), ("ext", 0, "b"), ("ext", 0, "zz")]


def fields(types, arities):
    return [member("", t, a, n, s) for t in types for a, n, s in arities]


def spots(*pairs):
    return [member("", t, a, n, s) for t, a, n, s in pairs]


def candidates(size):
    everything = fields(TYPES, ARITIES)
    first = spots(("u8", "plain", 0, ""), ("i64", "plain", 0, ""), ("float", "plain", 0, ""), ("E", "plain", 0, ""),
                  ("T", "plain", 0, ""), ("TE", "plain", 0, ""), ("TR", "plain", 0, ""), ("u8", "opt", 0, ""),
                  ("u8", "fix", 2, ""), ("u8", "lim", 2, ""), ("u16", "dyn", 0, ""), ("u8", "greedy", 0, ""),
                  ("D", "plain", 0, ""), ("GD", "plain", 0, ""), ("TG", "plain", 0, ""), ("F", "plain", 0, ""),
                  ("u8", "ext", 0, "b"), ("u8", "ext", 0, "a"), ("byte", "lim", 3, "")) + [member("b", "u8")]
    arms = [dict(member("", t), v=legal.wide(v)) for t in TYPES for v in (1, 2)]
    odd = [dict(member(n, t), v=legal.wide(v)) for n, t, v in (
        ("", "u8", 0xFFFFFFFF), ("", "u8", 1 << 32), ("", "u8", -1), ("", "F", 0), ("a", "u16", 7), ("b", "u16", 8))]
    values = [dict(member(n, ""), v=legal.wide(v)) for n, v in (
        ("", 0), ("", 1), ("", 0x7FFFFFFF), ("", 0x80000000), ("", 0xFFFFFFFF), ("", 1 << 32), ("", (1 << 32) + 1),
        ("", -1), ("", -(1 << 31)), ("", 1 << 63), ("a", 5), ("b", 6), ("E", 7), ("E_a", 8), ("X", 9))]
    if size == "wide":
        return {"fields": [everything, everything], "arms": [arms + odd, arms + odd], "enums": [values] * 3}
    if size == "deep":
        mixed = first + spots(("u8", "ext", 0, "c"), ("DE", "plain", 0, ""), ("D", "dyn", 0, ""), ("F", "opt", 0, ""),
                              ("u8", "ext", 0, "a"), ("D", "lim", 2, ""), ("G", "dyn", 0, ""))
        return {"fields": [mixed] * 3, "arms": [arms[:2]], "enums": [values[:1]]}
    if size == "small":
        mixed = spots(("u8", "plain", 0, ""), ("float", "plain", 0, ""), ("u8", "opt", 0, ""), ("u8", "ext", 0, "a"),
                      ("u16", "ext", 0, "b"), ("byte", "ext", 0, "c"), ("u64", "dyn", 0, ""), ("u8", "greedy", 0, ""),
                      ("D", "plain", 0, ""), ("G", "plain", 0, ""))
        return {"fields": [mixed] * 3, "arms": [arms[:2]], "enums": [values[:1]]}
    return {"fields": [first, everything], "arms": [arms + odd, arms + odd], "enums": [values] * 2}


def enumerated(c, size, work):
    """[(definition, legal)] as TLC enumerates them."""
    lib = dict(candidates(size), defs=LIBRARY)
    path = os.path.join(work, "lib-%s.json" % size)
    with open(path, "w") as f:
        json.dump(lib, f)
    res = tlc.model("MCLegal", LIB=path, PRINT="1")
    c.add_model(res)
    out = []
    names = "abcd"
    for line in re.findall(r'^<<"DEF", "(.*)">>$', res["out"], re.M):
        b = json.loads(line.encode().decode("unicode_escape"))
        if size in ("deep", "small") and b["k"] != "struct":
            continue
        cands = lib[{"struct": "fields", "union": "arms", "enum": "enums"}[b["k"]]]
        ms = []
        for i, k in enumerate(b["ks"]):
            m = dict(cands[i][k - 1])
            m["name"] = m["name"] or names[i]
            ms.append(m)
        out.append(({"k": b["k"], "name": "X", "t": "", "m": ms}, b["ok"]))
    if len(out) < 500:
        raise env.MachineryError("MCLegal %s: only %d definitions" % (size, len(out)))
    return out


INFO = schema.Info(LIBRARY)


def with_library(d):
    need = []
    for m in d["m"]:
        for x in schema.closure(INFO, m["t"]) if m["t"] in INFO.defs else ():
            if x not in need:
                need.append(x)
    if d["k"] == "enum":
        need = LIBRARY[:1]
    return [x for x in LIBRARY if x in need] + [d]


def run_cases(args):
    """Each definition in a file of its own."""
    seed, cases = args
    rng = random.Random(seed)
    work = env.scratch("legal")
    out = []
    try:
        for d, _ in cases:
            defs = with_library(d)
            text = legal.text_of(rng, defs)
            e, note = legal.judge([("s.prophy", text)], ["s"], ["py", "run"], work, defs)
            out.append((dict(e, k="text", defs=defs), note, text))
    finally:
        env.drop(work)
    return out


def renamed(d, tag):
    d = dict(d, name="X%s" % tag)
    if d["k"] == "enum":
        d["m"] = [dict(m, name="%s_%s" % (m["name"], tag)) for m in d["m"]]
    return d


def run_batch(args):
    """Many legal definitions in one file, through every back-end."""
    seed, ds, full = args
    rng = random.Random(seed)
    work = env.scratch("batch")
    try:
        defs = LIBRARY + [renamed(d, str(i)) for i, d in enumerate(ds)]
        text = legal.text_of(rng, defs)
        e, note = legal.judge([("s.prophy", text)], ["s"], ["py", "raw"] + (["full"] if full else []), work)
        return dict(e, k="text", defs=defs), note, text
    finally:
        env.drop(work)


# ---------------------------------------------------------------- programs
def build(seed, n):
    """The n-th program: (label, definitions)."""
    rng = random.Random("%s/%s" % (seed, n))
    base = gen.SchemaGen(rng).schema(rng.randint(2, 8), "P") if rng.random() < 0.75 else None
    if base is None:
        keep = rng.sample(range(len(LIBRARY)), rng.randint(2, 6))
        need = set()
        for k in keep:
            need |= {x["name"] for x in schema.closure(INFO, LIBRARY[k]["name"])}
        base = [d for d in LIBRARY if d["name"] in need]
    if rng.random() < 0.12:
        return "none", base
    return legal.edited(rng, base)


def in_isar(defs):
    """The definitions as isar can say them; None when it cannot (unknown types are only warned about there,
    enumerators of one value refused)."""
    known = {d["name"] for d in defs} | set(schema.WIDTH)
    for d in defs:
        if not d["m"] and d["k"] != "typedef":
            return None
        for m in d["m"]:
            if m["t"] == "byte" or m["t"] not in known and d["k"] != "enum":
                return None
        if d["k"] == "typedef" and (d["t"] == "byte" or d["t"] not in known):
            return None
        if d["k"] == "enum" and (len({tuple(m["v"]) for m in d["m"]}) < len(d["m"]) or
                                 any(-1 << 32 <= legal.value_of(m) < 0 for m in d["m"])):
            return None
    out = [isar.explicit(d) for d in defs]
    if greedy_rules(out) and not unique(out):
        return None
    return out


def unique(defs):
    """Every name in its scope once: a patch can tell which is meant."""
    names = [d["name"] for d in defs]
    return len(names) == len(set(names)) and all(len(d["m"]) == len({m["name"] for m in d["m"]}) for d in defs)


def greedy_rules(defs):
    return ["%s greedy %s" % (d["name"], m["name"]) for d in defs if d["k"] == "struct"
            for m in d["m"] if m["a"] == "greedy"]


def run_programs(args):
    seed, ns, heavy = args
    work = env.scratch("prog")
    out = []
    try:
        for n in ns:
            rng = random.Random("%s/%s/run" % (seed, n))
            label, defs = build(seed, n)
            want = ["py"]
            if n % heavy == 0:
                want += ["raw"] if legal.shared_sizer(defs) or n % 2 else ["full"]
            sub = os.path.join(work, "p%d" % n)
            os.makedirs(sub)
            sets = in_isar(defs) if n % 3 == 1 else None
            if sets:
                rng.shuffle(sets)
                files = [("s.xml", "<dom>%s</dom>" % "".join(isar.plain_xml(d, value=legal.value_of) for d in sets))]
                extra = ["--isar"]
                rules = greedy_rules(sets)
                if rules:
                    files.append(("s.patch", "".join(r + "\n" for r in rules)))
                    extra += ["--patch", os.path.join(sub, "s.patch")]
                e, note = legal.judge(files, ["s"], want, sub, (), extra)
                out.append((dict(e, k="set", defs=sets), "isar %s: %s" % (label, note), "\n".join(t for _, t in files)))
                continue
            if n % 5 == 3 and len(defs) > 3:
                files = legal.chain(rng, defs, rng.choice([2, 2, 3]))
                e, note = legal.judge(files, [f[0][:-7] for f in files], want, sub)
            else:
                files = [("s.prophy", legal.text_of(rng, defs))]
                e, note = legal.judge(files, ["s"], want + ["run"], sub, defs)
            out.append((dict(e, k="text", defs=defs), "%s: %s" % (label, note), "\n".join(t for _, t in files)))
    finally:
        env.drop(work)
    return out


def patched(rng, d):
    """(definition to start from, rules making it d); None when no patch makes it."""
    base, inserts, rules, renames, taken = [], [], [], [], set()
    if any(m["t"] == "byte" and m["a"] in ("plain", "opt") for m in d["m"]):
        return None     # a rule of the language only
    for k, m in enumerate(d["m"]):
        name = m["name"] if m["name"] not in taken else "spare%d" % k
        taken.add(name)
        if name != m["name"]:
            renames.append("rename %s %s" % (name, m["name"]))
        if d["k"] == "union":
            base.append(dict(m, name=name))
            continue
        base.append(member(name, "u8", "opt" if m["a"] == "opt" else "plain"))
        if rng.random() < 0.3 and m["a"] != "opt":
            base.pop()
            inserts.append("insert %d %s u8" % (k, name))
        if m["t"] != "u8":
            rules.append("type %s %s" % (name, isar.tname(m["t"])))
        if m["a"] in ("fix", "xlim"):
            rules.append("static %s %d" % (name, m["n"]))
        if m["a"] == "xlim":
            rules.append("limited %s %s" % (name, m["s"]))
        if m["a"] == "ext":
            rules.append("dynamic %s %s" % (name, m["s"]))
        if m["a"] == "greedy":
            rules.append("greedy %s" % name)
    rules = ["%s %s" % (d["name"], r) for r in inserts + rules + renames]
    return (dict(d, m=base), rules) if rules and base else None


def run_restated(args):
    """Definitions which are made by patches, or come from isar."""
    seed, cases = args
    rng = random.Random(seed)
    work = env.scratch("restate")
    out = []
    try:
        for d, _ in cases:
            full = [isar.explicit(x) for x in with_library(d)]
            made = patched(rng, full[-1]) if d["k"] != "enum" and rng.random() < 0.5 else None
            if made:
                text = legal.text_of(rng, full[:-1] + [made[0]])
                files = [("s.prophy", text), ("s.patch", "".join(r + "\n" for r in made[1]))]
                extra = ["--patch", os.path.join(work, "s.patch")]
            else:
                full = in_isar(full)
                if not full:
                    continue
                files = [("s.xml", "<dom>%s</dom>" % "".join(isar.plain_xml(x, value=legal.value_of) for x in full))]
                extra = ["--isar"]
                rules = greedy_rules(full)
                if rules:
                    files.append(("s.patch", "".join(r + "\n" for r in rules)))
                    extra += ["--patch", os.path.join(work, "s.patch")]
            e, note = legal.judge(files, ["s"], ["py"], work, (), extra)
            out.append((dict(e, k="set", defs=full), note, "\n".join(t for _, t in files)))
    finally:
        env.drop(work)
    return out


def run_names(args):
    seed, texts = args
    work = env.scratch("names")
    out = []
    try:
        for n, text in enumerate(texts):
            for want in ("py", "raw", "full"):
                e, note = legal.judge([("s.prophy", text)], ["s"], [want], work)
                out.append((dict(e, k="open", defs=[]), note, text))
    finally:
        env.drop(work)
    return out


def run_headers(args):
    """C++ headers through sack, and (text, patch) pairs."""
    seed, texts = args
    work = env.scratch("headers")
    out = []
    try:
        for text in texts:
            for want in ("py", "raw", "full"):
                if isinstance(text, str):
                    e, note = legal.judge([("s.hpp", text)], ["s"], [want], work, (), ["--sack"])
                else:
                    files = [("s.prophy", text[0]), ("s.patch", text[1])]
                    e, note = legal.judge(files, ["s"], [want], work, (), ["--patch", os.path.join(work, "s.patch")])
                out.append((dict(e, k="open", defs=[]), note, text))
    finally:
        env.drop(work)
    return out


def run_bundle(args):
    """Definitions in a file of their own for acceptance, then together in one for the rest."""
    kind, texts, in_xml = args
    work = env.scratch("bundle")
    out = []

    def judge(texts, stems):
        text = "\n".join(texts)
        if in_xml:
            return legal.judge([("s.xml", "<x>%s</x>" % text)], stems, [kind], work, (), ["--isar"]) + (text,)
        return legal.judge([("s.prophy", text)], stems, [kind], work) + (text,)
    try:
        fine = []
        for text in texts:
            e, note, text = judge([text], [])
            out.append((dict(e, k="open", defs=[], raw=2, full=2, py=2), note, text))
            if e["acc"]:
                fine.append(text)
        if fine:
            e, note, text = judge(fine + [legal.PLAIN_ISAR if in_xml else legal.PLAIN], ["s"])
            out.append((dict(e, k="open", defs=[]), note, text))
    finally:
        env.drop(work)
    return out


def run_isar_names(args):
    seed, texts = args
    work = env.scratch("inames")
    out = []
    try:
        for text in texts:
            for want in ("py", "raw", "full"):
                e, note = legal.judge([("s.xml", text)], ["s"], [want], work, (), ["--isar"])
                out.append((dict(e, k="open", defs=[]), "isar " + note, text))
    finally:
        env.drop(work)
    return out


def run_spread(args):
    seed, sets = args
    work = env.scratch("spread")
    out = []
    try:
        for n, files in enumerate(sets):
            sub = os.path.join(work, str(n))
            os.makedirs(sub)
            for want in ("py", "raw", "full"):
                e, note = legal.judge(files, ["m"], [want], sub)
                out.append((dict(e, k="open", defs=[]), note, "\n".join("%s:\n%s" % f for f in files)))
    finally:
        env.drop(work)
    return out


def validated(c, items, what):
    parts = [{"ev": []}]
    where = []
    for k, (e, _, _) in enumerate(items):
        if len(parts[-1]["ev"]) >= 700:
            parts.append({"ev": []})
        where.append((len(parts) - 1, len(parts[-1]["ev"])))
        parts[-1]["ev"].append(e)
    back = {w: k for k, w in enumerate(where)}
    rejected, stats = tlc.validate("TraceLegal", parts)
    c.add_trace(stats, len(items))
    c.count(what, len(items))
    c.count("accepted", sum(e["acc"] for e, _, _ in items))
    for kind in ("py", "full", "raw", "run"):
        c.count("tried_" + kind, sum(1 for e, _, _ in items if e[kind] != 2))
    out = []
    for part, i, why in rejected:
        e, note, text = items[back[(part, i)]]
        out.append((why, e, note, text))
    return out


def report(c, rejected):
    for why, e, note, text in rejected:
        c.violation("%s: %s" % ("; ".join(why), note[:300]),
                    {"why": why, "observed": {k: e[k] for k in ("acc", "diag", "py", "full", "raw", "run")},
                     "note": note, "schema": text})


def split_jobs(seed, items, size):
    return [(seed * 1000 + i, items[i:i + size]) for i in range(0, len(items), size)]


def body(c):
    work = env.scratch("c12")
    rng = random.Random(env.SEED + 121)
    cases = enumerated(c, "wide" if env.THOROUGH else "quick", work)
    cases += enumerated(c, "deep" if env.THOROUGH else "small", work)
    env.drop(work)
    rng.shuffle(cases)
    items = [x for part in pool.pmap(run_cases, split_jobs(env.SEED, cases, 40)) for x in part]
    report(c, validated(c, items, "enumerated_definitions"))
    some = cases if env.THOROUGH else cases[:2400]
    items = [x for part in pool.pmap(run_restated, split_jobs(env.SEED, some, 40)) for x in part]
    report(c, validated(c, items, "restated_definitions"))
    # legal ones through C++
    good = [d for d, ok in cases if ok]
    jobs = []
    for full in (False, True):
        pick = [d for d in good if not full or not legal.shared_sizer([d])]
        pick = pick if env.THOROUGH else pick[:900]
        jobs += [(env.SEED * 100 + len(jobs) + i, pick[i:i + 45], full) for i in range(0, len(pick), 45)]
    items = pool.pmap(run_batch, jobs)
    c.count("legal_definitions_compiled", sum(len(j[1]) for j in jobs))
    rejected = validated(c, items, "batches")
    report(c, rejected)
    # programs with one edit
    n = 12000 if env.THOROUGH else 1600
    heavy = 10
    jobs = [(env.SEED, list(range(i, min(i + 16, n))), heavy) for i in range(0, n, 16)]
    items = [x for part in pool.pmap(run_programs, jobs) for x in part]
    report(c, validated(c, items, "edited_programs"))
    jobs = []
    for b in legal.bundles(rng, 1000 if env.THOROUGH else 45, 1000 if env.THOROUGH else 40):
        jobs += [(kind, b, False) for kind in ("py", "raw", "full")]
    for b in legal.isar_bundles(rng, 1 if env.THOROUGH else 0.35):
        jobs += [(kind, b, True) for kind in ("py", "raw", "full")]
    bundled = [x for part in pool.pmap(run_bundle, jobs) for x in part]
    report(c, validated(c, bundled, "awkward_names_in_bundles"))
    texts = list(legal.awkward(rng, 1200 if env.THOROUGH else 24))
    names = [x for part in pool.pmap(run_names, split_jobs(env.SEED, texts, 3)) for x in part]
    texts = list(legal.awkward_isar(rng, 900 if env.THOROUGH else 60))
    names += [x for part in pool.pmap(run_isar_names, split_jobs(env.SEED, texts, 3)) for x in part]
    report(c, validated(c, names, "awkward_names"))
    sets = list(legal.spread(rng, 1200 if env.THOROUGH else 60))
    names = [x for part in pool.pmap(run_spread, split_jobs(env.SEED, sets, 3)) for x in part]
    report(c, validated(c, names, "awkward_names_over_files"))
    texts = [headers.HEADERS[k] for k in sorted(headers.HEADERS)] + headers.EMPTIED
    texts += headers.named(rng, legal.NAMES, 900 if env.THOROUGH else 24)
    told = [x for part in pool.pmap(run_headers, split_jobs(env.SEED, texts, 2)) for x in part]
    report(c, validated(c, told, "headers_and_emptied_structs"))
    macro = run_names((0, ["struct S1 { u8 INT8_MAX; };"]))
    c.known_finding("macro-names", any(e["raw"] == 0 or e["full"] == 0 for e, _, _ in macro))
    c.assume("cpp_full refuses arrays sharing a sizer: such schemas go through Python and raw C++ only")
    c.assume("isar types which are not defined are only warned about: every type is defined in isar inputs")
    c.assume("names and numbers of hand-written descriptors are not judged by the runtime library")
    for e, note, text in items[:2]:
        c.sample({"schema": text[:800], "observed": {k: e[k] for k in ("acc", "diag", "py")}, "note": note[:200]})


if __name__ == "__main__":
    check.main("C12", body)
