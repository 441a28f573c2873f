"""Schemas derived from valid ones by one edit, and what becomes of them."""
import copy
import os
import random
import re
import sys

from . import env, front, isar, pyrun, schema

BIG = [1 << 32, (1 << 32) + 1, 1 << 33, 1 << 63, -1, -2, -(1 << 31)]


def wide(value):
    """Bytes of a value that need not fit 32 bits: four of them only when it does."""
    if 0 <= value < 1 << 32:
        return schema.u32le(value)
    return list((value & ((1 << 72) - 1)).to_bytes(9, "little"))


def value_of(m):
    v = int.from_bytes(bytes(m["v"]), "little")
    return v - (1 << 72) if len(m["v"]) == 9 and v >> 71 else v


def shared_sizer(defs):
    for d in defs:
        ss = [m["s"] for m in d["m"] if m["a"] in ("ext", "xlim")]
        if len(ss) != len(set(ss)):
            return True
    return False


# ------------------------------------------------------------------ text
class Speller(object):
    """Numbers as literals, expressions or constants declared on the way."""

    def __init__(self, rng):
        self.rng, self.consts, self.n = rng, [], 0

    def __call__(self, m, value):
        value = value_of(m) if m["v"] else value
        r = self.rng.random()
        if r < 0.5:
            return str(value)
        if r < 0.6 and value >= 0:
            return hex(value)
        if r < 0.7:
            return "%d + %d" % (value - 3, 3)
        if r < 0.78:
            return "(%d) - %d" % (value + 7, 7)
        if r < 0.85 and value > 0 and value % 2 == 0:
            return "%d << 1" % (value // 2)
        self.n += 1
        name = "KN%d" % self.n
        self.consts.append("const %s = %d;\n" % (name, value))
        return name


def text_of(rng, defs):
    out = []
    sp = Speller(rng)
    for d in defs:
        t = schema.render_def(d, sp)
        out += sp.consts + [t]
        sp.consts = []
    return "\n".join(out)


def chain(rng, defs, n):
    """The definitions in order in n files, each including all the earlier ones."""
    cuts = sorted(rng.sample(range(1, len(defs)), n - 1)) if len(defs) > n else []
    files = []
    for k, (a, b) in enumerate(zip([0] + cuts, cuts + [len(defs)])):
        sp = Speller(rng)
        sp.n = 100 * k
        body = []
        for d in defs[a:b]:
            t = schema.render_def(d, sp)
            body += sp.consts + [t]
            sp.consts = []
        inc = rng.sample(["f%d" % j for j in range(k)], k)
        files.append(("f%d.prophy" % k, "".join('#include "%s.prophy"\n' % i for i in inc) + "\n".join(body)))
    return files


# ----------------------------------------------------------------- edits
def _structs(defs):
    return [d for d in defs if d["k"] == "struct"]


def _some(rng, seq):
    seq = list(seq)
    return rng.choice(seq) if seq else None


def _member(rng, defs, pred=lambda m: True, kinds=("struct",)):
    return _some(rng, [(d, i) for d in defs if d["k"] in kinds for i, m in enumerate(d["m"]) if pred(m)])


def _types(defs, d):
    return [x["name"] for x in defs[:defs.index(d)]]


ARRAYS = ("fix", "lim", "dyn", "greedy", "ext")


def move_member(rng, defs):
    d = _some(rng, [d for d in _structs(defs) if len(d["m"]) > 1])
    if d:
        m = d["m"].pop(rng.randrange(len(d["m"])))
        d["m"].insert(rng.randrange(len(d["m"]) + 1), m)
    return d


def move_last(rng, defs):
    """An unlimited member (where there is one) moves."""
    x = _member(rng, defs, lambda m: m["a"] == "greedy")
    if x:
        d, i = x
        d["m"].insert(rng.randrange(i + 1), d["m"].pop(i))
        if rng.random() < 0.5:
            d["m"].append(schema.member("after", rng.choice(["u8", "u64", "float"])))
    return x


def append_after(rng, defs):
    d = _some(rng, _structs(defs))
    if d:
        t = rng.choice(["u8", "u16", "double"] + _types(defs, d))
        d["m"].append(schema.member("after", t, rng.choice(["plain", "plain", "opt", "greedy", "dyn", "fix"]), 2))
    return d


def change_type(rng, defs):
    x = _member(rng, defs)
    if x:
        d, i = x
        others = _types(defs, d)
        d["m"][i]["t"] = rng.choice(others if others and rng.random() < 0.8 else ["u8", "i64", "float", "byte"])
    return x


def change_arity(rng, defs):
    x = _member(rng, defs)
    if x:
        d, i = x
        m = d["m"][i]
        m["a"] = rng.choice(["plain", "opt"] + list(ARRAYS))
        m["n"] = rng.choice([1, 2, 3]) if m["a"] in ("fix", "lim") else 0
        m["s"] = ""
        if m["a"] == "ext":
            m["s"] = rng.choice([o["name"] for o in d["m"]] + ["nobody"])
    return x


def change_sizer(rng, defs):
    x = _member(rng, defs, lambda m: m["a"] == "ext")
    if x:
        d, i = x
        d["m"][i]["s"] = rng.choice([o["name"] for o in d["m"]] + ["nobody", d["name"], "num_of_x"])
    return x


def spoil_sizer(rng, defs):
    x = _member(rng, defs, lambda m: m["a"] == "ext")
    if x:
        d, i = x
        s = next((o for o in d["m"] if o["name"] == d["m"][i]["s"]), None)
        if s is None:
            return None
        s.update(rng.choice([{"a": "opt"}, {"t": "float"}, {"t": "double"}, {"a": "fix", "n": 1}, {"a": "dyn"},
                             {"t": "u64"}, {"t": "i8"}, {"a": "lim", "n": 4}, {"a": "ext", "s": s["name"]}] +
                            [{"t": t} for t in _types(defs, d)[-6:]]))
    return x


def drop_sizer(rng, defs):
    x = _member(rng, defs, lambda m: m["a"] == "ext")
    if x:
        d, i = x
        d["m"] = [o for o in d["m"] if o["name"] != d["m"][i]["s"]]
    return x


def sizer_after(rng, defs):
    x = _member(rng, defs, lambda m: m["a"] == "ext")
    if x:
        d, i = x
        s = [o for o in d["m"] if o["name"] == d["m"][i]["s"]]
        d["m"] = [o for o in d["m"] if o not in s] + s
    return x


def add_sized(rng, defs):
    """A field with an array bound to it, in either order."""
    d = _some(rng, _structs(defs))
    if d:
        t = rng.choice(["u8", "i64", "float"] + _types(defs, d))
        pair = [schema.member("szr", t, rng.choice(["plain"] * 4 + ["opt", "fix"]), 1),
                schema.member("szd", rng.choice(["u8", "byte", "u64"] + _types(defs, d)), "ext", 0, "szr")]
        if rng.random() < 0.3:
            pair.append(schema.member("szd2", "u16", "ext", 0, "szr"))
        if rng.random() < 0.3:
            rng.shuffle(pair)
        at = rng.randrange(len(d["m"]) + 1)
        d["m"][at:at] = pair
    return d


def same_field(rng, defs):
    d = _some(rng, [d for d in defs if d["k"] in ("struct", "union") and len(d["m"]) > 1])
    if d:
        a, b = rng.sample(d["m"], 2)
        b["name"] = rng.choice([a["name"], a["name"], "num_of_" + a["name"], a["name"] + "1"])
        b["c"] = schema.codes(b["name"])
    return d


def same_discriminator(rng, defs):
    d = _some(rng, [d for d in defs if d["k"] == "union" and len(d["m"]) > 1])
    if d:
        a, b = rng.sample(d["m"], 2)
        b["v"] = list(a["v"])
    return d


def far_value(rng, defs):
    x = _member(rng, defs, kinds=("enum", "union"))
    if x:
        d, i = x
        d["m"][i]["v"] = wide(rng.choice(BIG + [0xFFFFFFFF, 0x80000000, 0x7FFFFFFF, 0]))
    return x


def odd_size(rng, defs):
    x = _member(rng, defs, lambda m: m["a"] in ("fix", "lim"))
    if x:
        d, i = x
        d["m"][i]["n"] = rng.choice([0, 0, -1, -5, 1, 255, 256, 4097])
    return x


def add_sized_fixed(rng, defs):
    d = _some(rng, _structs(defs))
    if d:
        t = rng.choice(["u8", "byte"] + _types(defs, d))
        d["m"].insert(0, schema.member("fxd", t, rng.choice(["fix", "lim"]), rng.choice([0, -1, 1, 2, 3])))
    return d


def add_optional(rng, defs):
    d = _some(rng, _structs(defs))
    if d:
        d["m"].insert(0, schema.member("opn", rng.choice(["u8"] + _types(defs, d)), "opt"))
    return d


def change_arm(rng, defs):
    x = _member(rng, defs, kinds=("union",))
    if x:
        d, i = x
        d["m"][i]["t"] = rng.choice(["u8", "double", "byte"] + _types(defs, d) * 2)
    return x


def add_arm(rng, defs):
    d = _some(rng, [d for d in defs if d["k"] == "union"])
    if d:
        d["m"].append(schema.arm("late", rng.choice(["u8"] + _types(defs, d) * 2), rng.choice([0, 1, 2, 3, 99])))
    return d


def unknown_type(rng, defs):
    x = _member(rng, defs, kinds=("struct", "union"))
    if x:
        d, i = x
        d["m"][i]["t"] = rng.choice(["Nobody", d["name"], "EA_X", "uint8_t"] +
                                    [o["name"] for o in defs[defs.index(d):]])
    return x


def unknown_target(rng, defs):
    d = _some(rng, [d for d in defs if d["k"] == "typedef"])
    if d:
        d["t"] = rng.choice(["Nobody", d["name"], "byte", "EA_X"] + [o["name"] for o in defs])
    return d


def same_name(rng, defs):
    names = [d["name"] for d in defs] + [m["name"] for d in defs if d["k"] == "enum" for m in d["m"]]
    d = rng.choice(defs)
    new = rng.choice(names + ["U8", "Fresh"])
    if d["k"] == "enum" and rng.random() < 0.5:
        m = rng.choice(d["m"])
        m.update(name=new, c=schema.codes(new))
    else:
        d["name"] = new
    return d


def again(rng, defs):
    d = copy.deepcopy(rng.choice(defs))
    if rng.random() < 0.3:
        d["name"] += "again"
    defs.append(d)
    return d


def swap_definitions(rng, defs):
    if len(defs) < 2:
        return None
    i = rng.randrange(len(defs) - 1)
    j = i + 1 if rng.random() < 0.6 else rng.randrange(len(defs))
    defs[i], defs[j] = defs[j], defs[i]
    return True


def drop_definition(rng, defs):
    if len(defs) < 3:
        return None
    return defs.pop(rng.randrange(len(defs) - 1))


def drop_member(rng, defs):
    x = _member(rng, defs, kinds=("struct", "union", "enum"))
    if x:
        d, i = x
        d["m"].pop(i)
    return x


def enclose(rng, defs):
    """A struct of the last definition, somewhere it may or may not be."""
    t = defs[-1]["name"]
    ms = [schema.member("q%d" % i, rng.choice(["u8", "u32", "i64"])) for i in range(rng.randint(0, 2))]
    m = schema.member("inner", t, rng.choice(["plain", "plain", "opt", "fix", "lim", "dyn", "greedy"]), 2)
    ms.insert(rng.randrange(len(ms) + 1), m)
    defs.append(schema.struct("Outer", ms))
    return True


def rename(rng, defs):
    """A new name for a type, everywhere: harmless."""
    d = rng.choice(defs)
    old, new = d["name"], d["name"] + "Renamed"
    for o in defs:
        if o["name"] == old:
            o["name"] = new
        if o["t"] == old:
            o["t"] = new
        for m in o["m"]:
            if m["t"] == old:
                m["t"] = new
    return True


EDITS = [move_member, move_last, append_after, change_type, change_arity, change_sizer, spoil_sizer, drop_sizer,
         sizer_after, add_sized, same_field, same_discriminator, far_value, odd_size, add_sized_fixed, add_optional,
         change_arm, add_arm, unknown_type, unknown_target, same_name, again, swap_definitions, drop_definition,
         drop_member, enclose, rename]


def edited(rng, defs):
    """(name of the edit, definitions after it)."""
    while True:
        e = rng.choice(EDITS)
        out = copy.deepcopy(defs)
        if e(rng, out):
            return e.__name__, out


# ----------------------------------------------------------------- names
# Names which may mean something else in generated code: @ stands for one.
FORMS = [
    "struct S1 { u8 @; u16 zz<>; u32 yy; };",
    "struct S1 { u8* @; u32 yy; };",
    "struct S1 { u8 yy; u8 @<3>; };",
    "struct S1 { u8 yy; u8 @<>; u64 xx; };",
    "struct S1 { u8 yy<>; u8 @; u16 zz<>; u8 xx; };",
    "struct S1 { u8 zn; u16 @<@@>; };",
    "struct S1 { bytes yy[2]; u8 @<...>; };",
    "union U1 { 1: u8 @; 2: u16 yy; };",
    "enum E1 { @ = 1, E1_x = 2 }; struct S1 { E1 a; };",
    "enum E1 { E1_x = 2, @ = 1 }; union U1 { @: E1 a; 7: u8 b; };",
    "enum @ { E1_y = 1, E1_x = 2 }; struct S1 { u8 q; @* a; @ b<>; };",
    "struct @ { u8 a; u16* b; }; struct S1 { u8 q; @ a; @* b; @ c[2]; @ d<>; };",
    "struct @ { u8 a; u16 b<>; }; struct S1 { u8 q; @ a; @ d<>; };",
    "struct @ { u8 a; u16 b<>; u8 c; }; struct S1 { u8 q; @ a; u8 b; };",
    "union @ { 1: u8 a; 2: u16 b; }; struct S1 { u8 q; @ a; @* b; @ c<3>; };",
    "typedef u16 @; struct S1 { u8 q; @ a; @* b; @ c<3>; };",
    "struct F1 { u8 a<>; }; typedef F1 @; struct S1 { u8 q; @ a; @ c<>; };",
    "const @ = 3; struct S1 { u8 q; u8 a[@]; };",
    "struct F1 { u8 a; }; struct S1 { F1 @; F1* b; };",
    "enum E1 { E1_a = 1 }; struct S1 { E1 @; u8 b<>; };",
    "struct S1 { u8 @[3]; u16 yy; };",
    "struct F1 { u8 a; }; struct S1 { u8 @; bytes yy[3]; F1 zz[2]; u64* xx; };",
    "struct F1 { u8 @; u16 aa; }; struct S1 { u8 q; F1 aa; F1* bb; F1 cc[2]; F1 dd<3>; F1 ee<>; };",
    "struct F1 { u8 aa; u16 @<>; }; struct S1 { u8 q; F1 aa; F1 ee<>; F1 ff<...>; };",
    "union F1 { 1: u8 @; 2: u16 aa; }; struct S1 { u8 q; F1 aa; F1* bb; F1 cc[2]; F1 ee<>; };",
]
NAMES = """alignas and asm auto bool break case catch char class compl constexpr continue decltype default delete do else
explicit export extern false for friend goto if inline int long mutable namespace new noexcept not nullptr operator or
private protected public register return short signed sizeof static switch template this throw true try typeid typename
unsigned using virtual void volatile wchar_t while xor None True False as assert async await def del elif except finally
from global import in is lambda nonlocal pass raise with yield print exec self len match type id str property list
object prophy std detail generated size_t uint8_t uint16_t uint32_t uint64_t int8_t int16_t int32_t int64_t float_t NULL
align alignment array optional message encode decode swap cast E T X x payload part2 part3 discriminator
discriminator_yy has_yy num_of_zz get_byte_size encoded_byte_size encoder decoder printer native little big in_ out pos
end S1 U1 E1 F1 E1_a E1_x byte r8 r32 r64 bytes_ u128 sys enum_generator value name size data begin first second
__a __2 _ __ _a a_ a__ __a__ __init__ __file__ __name__ __builtins__ __package__ __spec__ __path__ __doc__ __class__
__slots__ __dict__ __new__ __all__ _descriptor _enumerators _fields _SIZE _generated a b o has_o num_of_b _padding0 _1""".split()


INSIDE = [f for f in FORMS if "@" in f.split("}")[0].split("{")[1] and not f.startswith("enum")]     # as a field


# uses of whatever generated code consists of, to stand beside definitions with awkward names
PLAIN = """enum E9 { E9_a = 1, E9_b = 2 }; typedef E9 T9; struct F9 { u8 f1; u16 f2[2]; u32* f3; };
union U9 { 1: u8 u1; 2: F9 u2; 3: E9 u3; }; struct D9 { F9 d1<>; T9 d2<>; u64 d3<3>; U9 d4[2]; bytes d5<>; U9* d6; F9 d7<...>; };
"""
PLAIN_ISAR = """<enum name="E9"><enum-member name="E9_a" value="1"/></enum><typedef name="T9" type="E9"/>
<struct name="F9"><member name="f1" type="u8"/><member name="f2" type="u16"><dimension size="2"/></member>
<member name="f3" type="u32" optional="true"/></struct>
<union name="U9"><member name="u1" type="u8" discriminatorValue="1"/><member name="u2" type="F9" discriminatorValue="2"/></union>
<struct name="D9"><member name="d1" type="F9"><dimension isVariableSize="true"/></member>
<member name="d2" type="T9"><dimension isVariableSize="true" size="3"/></member><member name="d3" type="U9" optional="true"/>
<member name="d4" type="U9"><dimension size="2"/></member></struct>
"""


def form(k, name, tag=""):
    text = re.sub(r"\b([SUEF]1)\b", r"\1%s" % tag, FORMS[k]) if tag else FORMS[k]
    return text.replace("@@", "%").replace("@", name).replace("%", "@zn")


def bundles(rng, fields, tops):
    """Lists of schemas with names that may clash, which may stand in one file each."""
    inside = [k for k, f in enumerate(FORMS) if f in INSIDE]
    outside = [k for k in range(len(FORMS)) if k not in inside]
    plain = [n for n in NAMES if not re.match("[SUEF]1", n)]
    for name in rng.sample(plain, min(fields, len(plain))):
        yield [form(k, name, "_%d" % k) for k in inside]
    spread = []
    for k in outside:
        names = rng.sample(plain, len(plain))
        spread += [[form(k, n, "_%d" % i) for i, n in enumerate(names[j:j + 15])] for j in range(0, len(names), 15)]
    for b in rng.sample(spread, min(tops, len(spread))):
        yield b


def awkward(rng, n):
    """Single schemas with names that may clash."""
    for _ in range(n):
        yield form(rng.randrange(len(FORMS)), rng.choice(NAMES))


ISAR_FORMS = [
    '<struct name="S1"><member name="@" type="u8"/><member name="yy" type="u16"/></struct>',
    '<struct name="S1"><member name="@" type="u8" optional="true"/><member name="yy" type="u16"/></struct>',
    '<struct name="S1"><member name="@" type="u8"><dimension size="3"/></member></struct>',
    '<struct name="S1"><member name="@" type="u8"><dimension isVariableSize="true"/></member></struct>',
    '<struct name="S1"><member name="@" type="u8"><dimension size="3" isVariableSize="true"/></member></struct>',
    '<struct name="S1"><member name="yy" type="u8"><dimension isVariableSize="true" variableSizeFieldName="@"/></member>'
    '</struct>',
    '<struct name="@"><member name="yy" type="u8"/></struct><struct name="S1"><member name="a" type="@"/></struct>',
    '<message name="@"><member name="yy" type="u8"/></message>',
    '<union name="U1"><member name="@" type="u8" discriminatorValue="1"/></union>',
    '<union name="@"><member name="yy" type="u8" discriminatorValue="1"/></union>',
    '<enum name="E1"><enum-member name="@" value="1"/></enum>',
    '<enum name="@"><enum-member name="E1_a" value="1"/></enum><struct name="S1"><member name="a" type="@"/></struct>',
    '<typedef name="@" type="u16"/><struct name="S1"><member name="a" type="@"/></struct>',
    '<typedef name="@" primitiveType="16 bit integer unsigned"/>',
    '<constant name="@" value="3"/><struct name="S1"><member name="a" type="u8"><dimension size="@"/></member></struct>',
    '<constant name="@" value="3"/><struct name="S1"><member name="o" type="u32" optional="true"/><member name="a" type="u8">'
    '<dimension size="@"/></member><member name="b" type="u64"><dimension size="@" isVariableSize="true"/></member></struct>',
    '<constant name="@" value="3"/>',
    '<constant name="@" value="3"/><enum name="E1"><enum-member name="E1_a" value="@"/></enum>'
    '<union name="U1"><member name="a" type="u8" discriminatorValue="@"/></union>',
    '<constant name="K1" value="3" comment="@"/><struct name="S1" comment="@"><member name="a" type="u8" comment="@"/></struct>',
]
SPOILT = ["1a", "a b", "a-b", "a.b", "a:b", "a;", "a+1", "(a)", "a[2]", "*a", "a,b", " a", "a ", "9", "0x1", "a/b", "a'b",
          "a\\b", "#a", "a=b", "@", "a$", "{a}", "-", ".", "&quot;", "'''", "&quot;&quot;&quot;", "a&#10;b", "\\", "*/", "&#13;"]


def awkward_isar(rng, n):
    """Isar with names which clash or aren't any."""
    for k in range(n):
        form = ISAR_FORMS[k % len(ISAR_FORMS)]
        name = rng.choice(SPOILT if rng.random() < 0.6 else NAMES)
        yield "<x>%s</x>" % name.join(form.split("@"))


def isar_bundles(rng, share):
    """Lists of isar definitions of one form, each with another name that may clash, which may stand in one file."""
    plain = [n for n in NAMES if not re.match("[SUEF]1", n)]
    for form in ISAR_FORMS:
        names = rng.sample(plain, int(len(plain) * share))
        for j in range(0, len(names), 20):
            yield [n.join(re.sub(r"\b([SUEK]1)(_a)?\b", r"\1_%d\2" % i, form).split("@")) for i, n in enumerate(names[j:j + 20])]


STEMS = """a-b a-c a.b a.c 1x class import None a+b a'b a_b a~b sys prophy std self print __init__x A m-1 m.1 m_1 f()""".split() + \
    ["a b", "\u00e9"]


def spread(rng, n):
    """Definitions over files with names that may clash: lists of files, the last one including the others."""
    outside = [k for k, f in enumerate(FORMS) if f not in INSIDE]
    for k in range(n):
        stems = rng.sample(STEMS if k % 2 else ["one", "two", "three"], 2)
        texts = ["struct A9 { u8 x; };", form(rng.choice(outside), rng.choice(NAMES) if not k % 2 or rng.random() < 0.2 else "Plain")]
        rng.shuffle(texts)
        files = [(stem + ".prophy", text) for stem, text in zip(stems, texts)]
        includes = ["#include \"%s\"" % name for name, _ in files]
        rng.shuffle(includes)
        yield files + [("m.prophy", "\n".join(includes + ["struct B9 { A9 a; };"]))]


# --------------------------------------------------------------- outcomes
def forget(out):
    for m in [m for m in sys.modules if m.startswith(os.path.basename(out))]:
        del sys.modules[m]


def compiled(sources, includes):
    try:
        front.gxx(sources, "/dev/null", includes=includes, flags=["-S"])
        return 1, ""
    except front.Refused as e:
        return 0, str(e)


def judge(files, stems, want, work, defs=(), extra=()):
    """Runs prophyc on the files with the wanted outputs and tries what comes out."""
    e = {"acc": 0, "diag": 0, "py": 2, "full": 2, "raw": 2, "run": 2}
    note = []
    out = front.package(work)
    front.write(work, dict(files))
    args = list(extra)
    for kind, opt in (("py", "--python_out"), ("raw", "--cpp_out"), ("full", "--cpp_full_out")):
        if kind in want:
            args += [opt, out]
    if not {"py", "raw", "full"} & set(want):
        args.append("--void_out")
    try:
        front.call(args + [os.path.join(work, n) for n, _ in files if not n.endswith(".patch")])
        e["acc"] = 1
    except front.Refused as ex:
        note.append(str(ex))
        e["diag"] = 1 if str(ex).startswith("ProphycError: ") else 0
    if e["acc"]:
        if "py" in want:
            e["py"] = 1
            try:
                for s in stems:
                    front.importing(out, s)
            except front.Refused as ex:
                note.append(str(ex))
                e["py"] = 0
            forget(out)
        for kind, suffix in (("raw", ".pp.cpp"), ("full", ".ppf.cpp")):
            if kind in want:
                e[kind] = 1
                for s in stems:
                    ok, why = compiled([os.path.join(out, s + suffix)], [out])
                    if not ok:
                        e[kind] = 0
                        note.append("%s: %s" % (kind, why))
    if "run" in want:
        try:
            pyrun.runtime_module(defs, value_of)
            e["run"] = 1
        except pyrun.CompileRejected as ex:
            e["run"] = 0
            note.append("runtime: %s" % ex)
    return e, "; ".join(note)
