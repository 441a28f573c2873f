"""Seeded generation of schemas and values."""
import os
import random
import struct as pystruct

from .schema import (Info, codes, render, member, arm, enumerator, struct, union, enum, typedef, WIDTH, SIGNED, INTS,
                     FIXED, DYNAMIC, UNLIMITED)

SCALARS = list(INTS) + ["float", "double"]


def base_library(floats=True):
    """A fixed library covering every layout class of referenced type."""
    defs = [
        enum("EA", [enumerator("EA_X", 5), enumerator("EA_Y", 0xFFFFFFFF), enumerator("EA_Z", 0)]),
        enum("EB", [enumerator("EB_X", 2), enumerator("EB_Y", 0x80000000), enumerator("EB_Z", 0x01020304)]),
        typedef("Tu8", "u8"),
        typedef("TTu8", "Tu8"),
        typedef("Ti16", "i16"),
        typedef("Tu64", "u64"),
        typedef("TEB", "EB"),
        struct("F1", [member("a", "u8")]),
        struct("F1c", [member("a", "u8", "fix", 3)]),
        struct("F2", [member("a", "u16"), member("b", "i8")]),
        struct("F4", [member("a", "u32"), member("b", "Tu8")]),
        struct("F8", [member("a", "u8"), member("b", "i64"), member("c", "u16")]),
        struct("FO", [member("a", "u8"), member("b", "u8", "opt")]),
        struct("FO8", [member("a", "u16", "opt"), member("b", "Tu64", "opt"), member("c", "i8")]),
        struct("FL", [member("a", "u16", "lim", 3), member("b", "byte", "lim", 5)]),
        struct("FN", [member("a", "i8"), member("b", "F2", "fix", 2), member("c", "EB", "opt")]),
        typedef("TF4", "F4"),
        union("U4", [arm("a", "u8", 1), arm("b", "EA", 0), arm("c", "F4", 7)]),
        union("U8", [arm("a", "i16", 0x80000000), arm("b", "u64", 3), arm("c", "FO", 0xFFFFFFFF), arm("d", "F1c", 0)]),
        union("UL", [arm("a", "FL", 2), arm("b", "U4", 5), arm("c", "TEB", 4)]),
        typedef("TU8", "U8"),
        struct("FU", [member("a", "U4"), member("b", "u8"), member("c", "U8", "opt")]),
        struct("D1", [member("n", "u8"), member("x", "u8", "ext", s="n")]),
        struct("D2", [member("n", "u16"), member("x", "u16", "ext", s="n"), member("y", "u8")]),
        struct("D4", [member("x", "byte", "dyn")]),
        struct("D4b", [member("x", "u8", "dyn"), member("y", "u16")]),
        struct("D8", [member("x", "u8", "dyn"), member("y", "u64")]),
        struct("D8b", [member("x", "u64", "dyn"), member("y", "u8"), member("z", "u16", "dyn"), member("w", "u32")]),
        struct("DO", [member("x", "u16", "dyn"), member("y", "u8", "opt")]),
        struct("DD", [member("a", "u8"), member("b", "D4b"), member("c", "u8"), member("d", "D1", "dyn")]),
        typedef("TD4b", "D4b"),
        struct("G1", [member("x", "byte", "greedy")]),
        struct("G2", [member("a", "u8"), member("x", "u16", "greedy")]),
        struct("G8", [member("a", "u8"), member("x", "u64", "greedy")]),
        struct("GD", [member("x", "u8", "dyn"), member("y", "D4", "greedy")]),
        struct("GF", [member("x", "F4", "greedy")]),
    ]
    if not floats:
        return defs
    return defs


# member kinds: (id, type, arity, n, sizer type)
def member_kinds(floats=True):
    kinds = []

    def add(t, a, n=0, s=""):
        kinds.append((t, a, n, s))

    for t in ("u8", "i16", "u32", "i64", "EA", "TTu8"):
        add(t, "plain")
    if floats:
        add("float", "plain")
        add("double", "plain")
    for t in ("F1", "F1c", "F2", "TF4", "F8", "FO", "FO8", "FL", "FN", "U4", "TU8", "UL", "FU"):
        add(t, "plain")
    for t in ("D1", "D2", "D4", "TD4b", "D8", "D8b", "DO", "DD"):
        add(t, "plain")
    for t in ("i8", "u16", "u32", "u64", "EB", "F1c", "F2", "F8", "U4", "U8", "FL"):
        add(t, "opt")
    for t, n in (("u8", 3), ("u16", 3), ("u64", 1), ("EB", 2), ("F2", 2), ("FO", 2), ("U8", 1), ("byte", 3)):
        add(t, "fix", n)
    for t, n in (("i8", 3), ("u16", 3), ("u64", 2), ("TEB", 2), ("F1c", 2), ("F4", 3), ("U4", 2), ("byte", 5)):
        add(t, "lim", n)
    for t in ("u8", "Ti16", "u32", "u64", "EA", "byte", "F1c", "F8", "FO", "U4", "D1", "D4b", "D8"):
        add(t, "dyn")
    for t, s in (("u8", "u8"), ("u16", "i8"), ("u64", "u16"), ("byte", "Tu8"), ("F4", "i32"), ("D2", "u64"),
                 ("u32", "Ti16")):
        add(t, "ext", 0, s)
    return kinds


GREEDY_KINDS = [("u8", "greedy"), ("u16", "greedy"), ("u64", "greedy"), ("byte", "greedy"), ("EB", "greedy"),
                ("F4", "greedy"), ("D4b", "greedy"), ("U8", "greedy"), ("G2", "plain"), ("G8", "plain"),
                ("GD", "plain"), ("FL", "greedy"), ("UL", "greedy"), ("FO8", "greedy"), ("D8b", "greedy")]


def kind_members(kind, tag):
    t, a, n, s = kind
    if a == "ext":
        return [member("n" + tag, s), member("x" + tag, t, "ext", s="n" + tag)]
    return [member("x" + tag, t, a, n)]


def arity_kinds(floats=True):
    """Every library type in every arity it is allowed in."""
    info = Info(base_library(floats))
    kinds = []
    for t in SCALARS + ["byte"] + info.order:
        if t in ("float", "double") and not floats:
            continue
        st = info.st[t]
        if st == UNLIMITED:
            kinds.append((t, "plain", 0, ""))
            continue
        if t != "byte":
            kinds.append((t, "plain", 0, ""))
        if st == FIXED:
            kinds += [(t, "fix", 3, ""), (t, "lim", 3, "")]
            if t != "byte":
                kinds.append((t, "opt", 0, ""))
        kinds += [(t, "dyn", 0, ""), (t, "ext", 0, "u16"), (t, "greedy", 0, "")]
    return kinds


def layout_class(info, kind):
    """Coarse layout class of a member kind, for pair selection."""
    t, a, n, s = kind
    return (a, info.al[t], info.sz[t] % 8, info.st[t], info.kind(t))


class SchemaGen(object):
    """Random schemas."""

    def __init__(self, rng, floats=True, shared_sizers=True, max_fields=6):
        self.rng = rng
        self.floats = floats
        self.shared_sizers = shared_sizers
        self.max_fields = max_fields
        self.scalars = SCALARS if floats else list(INTS)

    def schema(self, structs=4, prefix=""):
        rng = self.rng
        info = Info()
        self.info = info
        p = prefix
        for i in range(rng.randint(1, 2)):
            info.add(self.enum("%sE%d" % (p, i)))
        for i in range(rng.randint(1, 3)):
            info.add(typedef("%sT%d" % (p, i), self.pick_type(fixed=True)))
        for i in range(structs):
            r = rng.random()
            if r < 0.2:
                info.add(self.union("%sU%d" % (p, i)))
            elif r < 0.28:
                info.add(typedef("%sV%d" % (p, i), self.pick_type()))
            else:
                info.add(self.struct("%sS%d" % (p, i), last=(i >= structs - 2)))
        return [info.defs[n] for n in info.order]

    def enum(self, name):
        rng = self.rng
        n = rng.randint(1, 4)
        pool = [0, 1, 2, 3, 7, 255, 256, 65535, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, rng.randrange(1 << 32),
                rng.randrange(1 << 16)]
        vals = []
        for v in rng.sample(pool, n):
            if v not in vals:
                vals.append(v)
        return enum(name, [enumerator("%s_%d" % (name, i), v) for i, v in enumerate(vals)])

    def pick_type(self, fixed=False, allow_dynamic=True, composite=None):
        rng = self.rng
        info = self.info
        named = [n for n in info.order if info.st[n] == FIXED or (not fixed and allow_dynamic and
                                                                 info.st[n] == DYNAMIC)]
        if named and rng.random() < 0.55:
            return rng.choice(named)
        return rng.choice(self.scalars)

    def union(self, name):
        rng = self.rng
        n = rng.randint(1, 4)
        pool = [0, 1, 2, 3, 100, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, rng.randrange(1 << 32), rng.randrange(1 << 10)]
        discs = []
        for v in rng.sample(pool, n):
            if v not in discs:
                discs.append(v)
        return union(name, [arm("m%d" % i, self.pick_type(fixed=True), d) for i, d in enumerate(discs)])

    def struct(self, name, last=False):
        rng = self.rng
        info = self.info
        n = rng.randint(1, self.max_fields)
        ms = []
        sizers = []
        for i in range(n):
            final = i == n - 1
            nm = "f%d" % i
            r = rng.random()
            if final and last and r < 0.3:
                unl = [x for x in info.order if info.st[x] == UNLIMITED]
                if unl and rng.random() < 0.4:
                    ms.append(member(nm, rng.choice(unl)))
                else:
                    t = "byte" if rng.random() < 0.3 else self.pick_type()
                    ms.append(member(nm, t, "greedy"))
            elif r < 0.3:
                ms.append(member(nm, self.pick_type()))
            elif r < 0.45:
                ms.append(member(nm, self.pick_type(fixed=True), "opt"))
            elif r < 0.57:
                t = "byte" if rng.random() < 0.25 else self.pick_type(fixed=True)
                ms.append(member(nm, t, "fix", rng.randint(1, 4)))
            elif r < 0.69:
                t = "byte" if rng.random() < 0.25 else self.pick_type(fixed=True)
                ms.append(member(nm, t, "lim", rng.randint(1, 5)))
            elif r < 0.85:
                t = "byte" if rng.random() < 0.25 else self.pick_type()
                ms.append(member(nm, t, "dyn"))
            else:
                t = "byte" if rng.random() < 0.25 else self.pick_type()
                free = sizers if self.shared_sizers else [s for s in sizers
                                                          if not any(m["s"] == s for m in ms)]
                if free and rng.random() < 0.6:
                    s = rng.choice(free)
                else:
                    s = "n%d" % i
                    ints = list(INTS) + [x for x in info.order if info.res[x] in INTS]
                    ms.append(member(s, rng.choice(ints)))
                    sizers.append(s)
                    if rng.random() < 0.3:
                        ms.append(member("g%d" % i, self.pick_type()))
                ms.append(member(nm, t, "ext", s=s))
        return struct(name, ms)


# ---------------------------------------------------------------- values
def scalar_value(rng, info, t):
    r = info.resolved(t)
    w = WIDTH[r]
    if r in ("float", "double"):
        fmt = "<f" if w == 4 else "<d"
        pool = [0.0, -0.0, 1.0, -1.0, 0.5, 3.25, -123456.0, 1e30, -1e-30, float("inf"), float("-inf"),
                rng.uniform(-1000, 1000), pystruct.unpack("<f", pystruct.pack("<f", rng.uniform(-1, 1)))[0]]
        x = rng.choice(pool)
        return list(pystruct.pack(fmt, x))
    bits = 8 * w
    pick = rng.random()
    if pick < 0.45:
        v = int.from_bytes(bytes(range(rng.randint(1, 100), 200))[:w], "little") if w > 1 else rng.randrange(256)
    elif pick < 0.75:
        v = rng.choice([0, 1, 127, 128, 255, (1 << bits) - 1, 1 << (bits - 1), (1 << (bits - 1)) - 1, 10, 39])
    else:
        v = rng.randrange(1 << bits)
    return list((v & ((1 << bits) - 1)).to_bytes(w, "little"))


def bytes_value(rng, n):
    pick = rng.random()
    if pick < 0.3:
        return [rng.choice(b"abcXYZ 0189~!") for _ in range(n)]
    if pick < 0.5:
        return [rng.choice([0, 9, 10, 13, 92, 34, 127, 128, 255, 31, 32, 126, 7, 8, 11, 12]) for _ in range(n)]
    return [rng.randrange(256) for _ in range(n)]


def value(rng, info, t, depth=0, lens=None):
    r = info.resolved(t)
    d = info.defs.get(r)
    if d is None:
        return scalar_value(rng, info, r)
    if d["k"] == "enum":
        return list(rng.choice(d["m"])["v"])
    if d["k"] == "union":
        i = rng.randrange(len(d["m"]))
        return [i + 1, value(rng, info, d["m"][i]["t"], depth + 1)]
    ms = d["m"]
    sizes = {}
    out = []
    for m in ms:
        a, mt = m["a"], m["t"]
        if a == "plain":
            if any(o["a"] in ("ext", "xlim") and o["s"] == m["name"] for o in ms):
                out.append([])
            else:
                out.append(value(rng, info, mt, depth + 1))
            continue
        if a == "opt":
            out.append([value(rng, info, mt, depth + 1)] if rng.random() < 0.6 else [])
            continue
        if a == "fix":
            n = m["n"]
        elif a == "lim":
            n = rng.choice([0, m["n"], rng.randint(0, m["n"])])
        elif a in ("ext", "xlim"):
            if m["s"] not in sizes:
                st = info.resolved(next(o["t"] for o in ms if o["name"] == m["s"]))
                cap = (1 << (8 * WIDTH[st] - (st in SIGNED))) - 1
                shared = [o["t"] for o in ms if o["a"] in ("ext", "xlim") and o["s"] == m["s"]]
                limits = [o["n"] for o in ms if o["a"] == "xlim" and o["s"] == m["s"]]
                sizes[m["s"]] = min([cap, arr_len(rng, depth, info, *shared)] + limits)
            n = sizes[m["s"]]
        else:
            n = arr_len(rng, depth, info, mt)
        if mt == "byte":
            out.append(bytes_value(rng, n))
        else:
            out.append([value(rng, info, mt, depth + 1) for _ in range(n)])
    return out


def arr_len(rng, depth, info=None, *ts):
    if depth == 0 and rng.random() < 0.04 and all(t == "byte" or info.kind(t) in ("scalar", "enum") for t in ts):
        return rng.choice([16, 17, 31, 100, 128, 255, 256, 300])
    if depth >= 2:
        return rng.choice([0, 1, 1, 2, 3])
    return rng.choice([0, 1, 2, 3, 4, 5])


def greedy_tail_aligned(info, t, v):
    """True unless the message ends in a greedy array and padding follows it."""
    r = info.resolved(t)
    if info.st[r] != UNLIMITED:
        return True
    toks = info.tokens(r, v)
    return not trailing_pad_after_greedy(info, r, v)


def trailing_pad_after_greedy(info, t, v):
    r = info.resolved(t)
    wire = info.wire[r]
    w = wire[-1]
    off = 0
    for x in wire:
        off += (-off) % x["ea"]
        off += sum(len(b) for _, b in info._member_tokens(x, v))
    if (-off) % info.al[r]:
        return True
    if w["a"] == "plain":
        return trailing_pad_after_greedy(info, w["t"], v[w["src"]])
    return False


def aligned_value(rng, info, t, tries=60):
    for _ in range(tries):
        v = value(rng, info, t)
        if greedy_tail_aligned(info, t, v):
            return v
    return None


def default(info, t):
    """Value of a fresh message (mirror of Codec!Default)."""
    r = info.resolved(t)
    d = info.defs.get(r)
    if d is None:
        return [0] * WIDTH[r]
    if d["k"] == "enum":
        return list(d["m"][0]["v"])
    if d["k"] == "union":
        return [1, default(info, d["m"][0]["t"])]
    return [default_member(info, d["m"], m) for m in d["m"]]


def default_member(info, ms, m):
    if m["a"] == "plain":
        if any(o["a"] in ("ext", "xlim") and o["s"] == m["name"] for o in ms):
            return []
        return default(info, m["t"])
    if m["a"] == "fix":
        return [0] * m["n"] if m["t"] == "byte" else [default(info, m["t"]) for _ in range(m["n"])]
    return []


class Program(object):
    """One schema file and the types to exercise in it."""

    def __init__(self, defs, types):
        self.defs = defs
        self.types = types
        self.info = Info(defs)
        self.isar = None        # (xml, patch): described in isar instead

    def put(self, directory, stem):
        """Writes the source files; returns prophyc's arguments."""
        def write(name, text):
            path = os.path.join(directory, name)
            with open(path, "w") as f:
                f.write(text)
            return path
        if self.isar is None:
            return [write(stem + ".prophy", render(self.defs))]
        xml, patch = self.isar
        return (["--patch", write(stem + ".patch", patch)] if patch else []) + ["--isar", write(stem + ".xml", xml)]


def pair_programs(rng, files, per_file=None, floats=True, ext_shared=True, greedy=True, lead_prob=0.6, arities=True):
    """All ordered pairs of member kinds (or a random sample), each in a random context; and every
    library type in every arity."""
    kinds = member_kinds(floats)
    pairs = [(a, b) for a in kinds for b in kinds]
    rng.shuffle(pairs)
    if per_file is not None:
        pairs = pairs[:files * per_file]
    lib = base_library(floats)
    info = Info(lib)
    single = arity_kinds(floats) if arities else []
    if not greedy:
        single = [k for k in single if k[1] != "greedy" and info.st[k[0]] != UNLIMITED]
    rng.shuffle(single)
    programs = []
    for f in range(files):
        defs = list(lib)
        types = []
        for idx, (a, b) in enumerate(pairs[f::files]):
            ms = []
            if rng.random() < lead_prob:
                ms += kind_members(rng.choice(kinds), "l")
            ms += kind_members(a, "a") + kind_members(b, "b")
            r = rng.random()
            if r < 0.45:
                ms += kind_members(rng.choice(kinds), "t")
            elif greedy and r < 0.6:
                t, ar = rng.choice(GREEDY_KINDS)
                ms.append(member("xt", t, ar))
            defs.append(struct("P%d" % idx, ms))
            types.append("P%d" % idx)
        for idx, kind in enumerate(single[f::files]):
            last = kind[1] == "greedy" or kind[1] == "plain" and info.st[kind[0]] == UNLIMITED
            ms = kind_members(rng.choice(kinds), "l") if rng.random() < lead_prob else []
            ms += kind_members(kind, "a")
            if not last and rng.random() < 0.5:
                ms += kind_members(rng.choice(kinds), "t")
            defs.append(struct("A%d" % idx, ms))
            types.append("A%d" % idx)
        programs.append(Program(defs, types))
    return programs


# names of members which a codec might mistake for its own
ODD = """data size value name id len type list self cls x key index count buf pos end tag kind object str int prophy args array
optional discriminator encode decode copy_from get_descriptor set_field fields descriptor wire pad sizer items bound max min
bytes enum union struct_ get values keys append add extend insert element_type endianness offset parent result first last
mro real imag conjugate bit_length to_bytes number names hash repr iter next num_of_ has_ none true false message
validate check_one print eq ne copy clear update pop sort reverse format join a A aa Aa aA a_ a_1 a1""".split()


def renamed(rng, d, names):
    """The struct or union with other names of its members."""
    new = dict(zip([m["name"] for m in d["m"]], rng.sample(names, len(d["m"]))))
    return dict(d, m=[dict(m, name=new[m["name"]], c=codes(new[m["name"]]), s=new.get(m["s"], "")) for m in d["m"]])


def random_programs(rng, count, structs=5, merge=8, names=(), **kw):
    """Random schemas, several merged into one file; with names, every other one has them for its members."""
    programs = []
    n = 0
    while n < count:
        defs, types = [], []
        for k in range(min(merge, count - n)):
            g = SchemaGen(rng, **kw)
            ds = g.schema(structs=structs, prefix="Q%d" % k)
            if names and n % 2:
                ds = [renamed(rng, d, names) if d["k"] in ("struct", "union") else d for d in ds]
            defs += ds
            types += [d["name"] for d in ds if d["k"] in ("struct", "union")]
            n += 1
        programs.append(Program(defs, types))
    return programs


# --------------------------------------------------------------- long arrays
LONG = [
    struct("LE", [member("x", "u8"), member("y", "u16", "opt")]),
    struct("LN", [member("x", "u8"), member("y", "u8", "dyn")]),
    struct("LA", [member("a", "u8", "dyn"), member("z", "u16")]),
    struct("LB", [member("b", "byte", "dyn"), member("z", "u8")]),
    struct("LC", [member("n", "u16"), member("a", "u8", "ext", s="n"), member("z", "u32")]),
    struct("LD", [member("n", "u8"), member("a", "u16", "ext", s="n")]),
    struct("LI", [member("n", "i16"), member("a", "byte", "ext", s="n"), member("z", "u8")]),
    struct("LS", [member("a", "LE", "dyn")]),
    struct("LT", [member("a", "LN", "dyn"), member("z", "u64")]),
    struct("LL", [member("a", "u8", "lim", 40000), member("z", "u16")]),
    struct("LM", [member("a", "byte", "lim", 300), member("z", "u8")]),
    struct("LF", [member("a", "byte", "fix", 33000), member("z", "u64")]),
    struct("LG", [member("z", "u8"), member("g", "u8", "greedy")]),
]
LENGTHS = {"LA": (65537, 255, 256, 257, 32767, 32768, 65535, 65536, 80000),   # the first one always
           "LB": (65536, 256, 4096, 65535, 70000), "LC": (65535, 256, 32768), "LD": (255, 127, 128),
           "LI": (32767, 255, 256), "LS": (256, 1000), "LT": (300, 256), "LL": (40000, 255, 256, 32768, 39999),
           "LM": (300, 255, 256, 299), "LF": (33000,), "LG": (65536, 256, 65535, 70000)}


def long_program(rng, per_type=2):
    """Arrays of many elements."""
    p = Program(LONG, sorted(LENGTHS))
    for t in p.types:
        first, ns = LENGTHS[t][0], LENGTHS[t][1:]
        ns = (first,) + tuple(rng.sample(ns, min(per_type - 1, len(ns))))
        p.info.values[t] = [long_value(rng, p.info, t, n) for n in ns]
    return p


def long_value(rng, info, t, n):
    out = []
    for m in info.defs[t]["m"]:
        if m["name"] == "n":
            out.append([])
        elif m["a"] == "plain":
            out.append(value(rng, info, m["t"]))
        elif m["t"] == "byte":
            out.append([rng.randrange(256) for _ in range(n)])
        else:
            out.append([value(rng, info, m["t"], 2) for _ in range(n)])
    return out
