"""Damaged schemas, patches and command lines."""
import re
import xml.etree.ElementTree as ElementTree

WORDS = ["struct", "union", "enum", "typedef", "const", "u8", "u16", "i64", "float", "double", "byte", "bytes", "{", "}",
         "<", ">", "[", "]", "(", ")", ";", ":", ",", "*", "...", "..", ".", "@", "=", "+", "-", "/", "|", "<<", ">>",
         "0", "1", "-1", "08", "0x", "0xFFFFFFFFF", "4294967296", "99999999999999999999999", "'", '"', "#include",
         "#include \"\"", "#include <x>", "//", "/*", "*/", "/**/", "#", "\\", "$", "%", "&", "!", "~", "^", "?", "`",
         "\t", "\n", "\r", "\x00", "\x7f", "é", "Ж", "\U0001f600", "﻿", " ", "1u", "1.5", "1e9",
         "__", "lambda", "class", "None", "namespace", "int", "encode", "num_of_a", "discriminator"]
TOKEN = re.compile(r"\s+|//[^\n]*|/\*.*?\*/|[A-Za-z_]\w*|0x\w+|\d+|<<|>>|\.\.\.|.", re.S)


def tokens(text):
    return TOKEN.findall(text)


def numbers(rng):
    return rng.choice(["0", "-1", "1 - 1", "1 / 0", "1 << 99999999", "1 << -1", "(1 << 1000) * (1 << 1000)", "9" * 30,
                       "9" * 5000, "0x" + "F" * 5000, "1 +", "(1", "1)", "7 / 2", "-7 / 2", "1 >> 70", "1 >> -3", "()",
                       "(" * 30 + "1" + ")" * 30, "- " * 40 + "1", "1" + " + 1" * 300, "A_B", "1 2", "0b1", "08", "1.0",
                       "2147483648", "4294967295", "4294967296", "18446744073709551616", "1 << 63", "1 << 64"])


def damage_text(rng, text, times):
    """Token-level edits."""
    ts = tokens(text)
    names = [t for t in ts if re.match(r"[A-Za-z_]", t)] or ["x"]
    for _ in range(times):
        solid = [i for i, t in enumerate(ts) if t and not t.isspace()]
        if not solid:
            ts.append(rng.choice(WORDS))
            continue
        i = rng.choice(solid)
        op = rng.randrange(12)
        if op == 0:
            del ts[i]
        elif op == 1:
            ts.insert(i, ts[i])
        elif op == 2:
            j = rng.choice(solid)
            ts[i], ts[j] = ts[j], ts[i]
        elif op == 3:
            ts[i] = rng.choice(WORDS)
        elif op == 4:
            ts.insert(i, rng.choice(WORDS))
        elif op == 5:
            ts[i] = rng.choice(names)
        elif op == 6:
            del ts[i:]
        elif op == 7:
            j = rng.choice(solid)
            a, b = min(i, j), max(i, j)
            ts[a:a] = ts[a:b]
        elif op == 8:
            j = rng.choice(solid)
            a, b = min(i, j), max(i, j)
            del ts[a:min(b, a + 12)]
        elif op == 9:
            nums = [k for k in solid if ts[k][:1].isdigit()]
            if nums:
                ts[rng.choice(nums)] = numbers(rng)
        elif op == 10:
            # one name instead of another of the same text, everywhere
            a, b = rng.choice(names), rng.choice(names)
            ts = [b if t == a else t for t in ts]
        else:
            t = ts[i]
            k = rng.randrange(len(t))
            ts[i] = t[:k] + rng.choice(["", chr(rng.randrange(1, 127)), chr(rng.randrange(128, 0x3000)), t[k].swapcase()]) + t[k + 1:]
    return "".join(ts)


def damage_bytes(rng, data):
    data = bytearray(data)
    for _ in range(rng.choice([1, 1, 2, 5])):
        if not data:
            break
        i = rng.randrange(len(data))
        op = rng.randrange(5)
        if op == 0:
            data[i] = rng.randrange(256)
        elif op == 1:
            data[i] ^= 1 << rng.randrange(8)
        elif op == 2:
            del data[i:]
        elif op == 3:
            data[i:i] = bytes(rng.randrange(256) for _ in range(rng.choice([1, 2, 7])))
        else:
            data[:0] = rng.choice([b"\xef\xbb\xbf", b"\xff\xfe", b"\x00", b"\xc3"])
    return bytes(data)


def random_text(rng):
    r = rng.random()
    if r < 0.4:
        return " ".join(rng.choice(WORDS) for _ in range(rng.randrange(40)))
    if r < 0.6:
        return "".join(chr(rng.choice([rng.randrange(9, 127), rng.randrange(0x20, 0xD7FF)])) for _ in range(rng.randrange(60)))
    word = lambda: rng.choice(["a", "b", "X", "Y", "u8", "u32", "1", "K"])
    shapes = ["const %s = %s;", "typedef %s %s;", "enum %s { %s = %s };", "struct %s { %s %s; };",
              "struct %s { %s %s[%s]; };", "struct %s { %s %s<%s>; };", "struct %s { %s %s<>; };",
              "struct %s { %s %s<...>; };", "struct %s { %s %s<@%s>; };", "struct %s { %s* %s; };",
              "union %s { %s: %s %s; };", "#include \"%s\"", "struct %s { bytes %s<>; };", "struct %s {};", "enum %s {};"]
    out = []
    for _ in range(rng.randrange(1, 8)):
        s = rng.choice(shapes)
        out.append(s % tuple(word() for _ in range(s.count("%s"))))
    return "\n".join(out) + rng.choice(["", "\n"])


def stress(rng, n):
    """Sizes a reader has to live with."""
    k = rng.choice([50, 400, 3000])
    return [
        "const A = %s1%s;\n" % ("(" * k, ")" * k),
        "const A = %s1;\n" % ("-" * k),
        "const A = 1%s;\n" % (" + 1" * k),
        "const A = 1%s;\n" % (" << 1" * k),
        "const %s = 1;\n" % ("a" * k),
        "const A = %s;\n" % ("9" * k),
        "const A = 0x%s;\n" % ("F" * k),
        "".join("const A%d = A%d + 1;\n" % (i, i - 1) if i else "const A0 = 1;\n" for i in range(min(k, 1200))),
        "".join("typedef %s T%d;\n" % ("T%d" % (i - 1) if i else "u8", i) for i in range(min(k, 1200))) + "struct X { T%d a[T0]; };" % (min(k, 1200) - 1),
        "".join("struct S%d { %s a; };\n" % (i, "S%d" % (i - 1) if i else "u8") for i in range(min(k, 1200))),
        "".join("struct S%d { %s a[2]; };\n" % (i, "S%d" % (i - 1) if i else "u8") for i in range(min(k, 100))),
        "".join("union U%d { 0: %s a; };\n" % (i, "U%d" % (i - 1) if i else "u8") for i in range(min(k, 1200))),
        "struct X {\n%s};\n" % "".join("u8 a%d;\n" % i for i in range(k)),
        "enum E {\n%s};\n" % ",\n".join("E%d = %d" % (i, i) for i in range(k)),
        "{" * k, "struct A { " * k, "/*" * k, "//" + "x" * k, "\n" * k, "#include \"" * k, "@" * k,
        "const A = 1 << 1 << 1000;\n", "const A = 1 << (1 << 40);\n", "const A = (1 << 1024) << 1024;\n",
        "const A = 1;\nconst B = A << 1023;\n%s" % "".join(
            "const C%d = %s * %s;\n" % ((i,) + (("C%d" % (i - 1) if i else "B",) * 2)) for i in range(40)),
    ][n % 25]


STRESSES = 25


# -------------------------------------------------------------------- isar
TAGS = ["struct", "union", "enum", "typedef", "message", "constant", "member", "enum-member", "dimension", "x", "include",
        "{http://www.w3.org/2001/XInclude}include"]
ATTRS = ["name", "type", "primitiveType", "value", "size", "size2", "isVariableSize", "variableSizeFieldName",
         "variableSizeFieldType", "discriminatorValue", "optional", "comment", "href", "defaultValue"]
VALUES = ["", " ", "0", "-1", "1", "3", "x", "u8", "u64", "r32", "true", "false", "True", "@", "@x", "@@", "@a", "1 / 0", "1 <<",
          "shiftLeft(1, 2)", "shiftLeft(1", "shiftLeft(,)", "shiftLeft)", "bitMaskOr(1, shiftLeft(1,1)", "bitMaskOr()",
          "shiftLeft(shiftLeft(1,2),", "shiftLeft(shiftLeft(", "THIS_IS_VARIABLE_SIZE_ARRAY", "99999999999999999999", "1.5",
          "0x", "0xZZ", "010", "08", "1_000", "None", "a b", "a.b", "é", "Ж", "\n", "1\n", "(", ")", "()", "1)", "8 bit integer unsigned",
          "9 bit", "f.xml", "../f.xml", "main.xml", "m.xml", ".", "..", "/", "/dev/null", "u8 x; u8", "lambda", "class", "'", "\\",
          "{}", "%s", "1 << 100000000", "1 << -1", "9" * 5000]


def values_of(root):
    return [v for e in root.iter() for v in e.attrib.values()] or ["x"]


def damage_xml(rng, text, times):
    """Structure-level edits of a document."""
    root = ElementTree.fromstring(text.encode("utf-8"))
    for _ in range(times):
        elems = list(root.iter())
        parents = {c: p for p in elems for c in p}
        e = rng.choice(elems)
        op = rng.randrange(13)
        if op == 0 and e.attrib:
            del e.attrib[rng.choice(sorted(e.attrib))]
        elif op == 1 and e.attrib:
            e.attrib[rng.choice(sorted(e.attrib))] = rng.choice(VALUES)
        elif op == 2:
            e.attrib[rng.choice(ATTRS)] = rng.choice(VALUES)
        elif op == 3 and e.attrib:
            e.attrib[rng.choice(sorted(e.attrib))] = rng.choice(values_of(root))
        elif op == 4:
            e.tag = rng.choice(TAGS)
        elif op == 5 and e in parents:
            parents[e].remove(e)
        elif op == 6 and e in parents:
            p = parents[e]
            p.insert(rng.randrange(len(p) + 1), ElementTree.fromstring(ElementTree.tostring(e)))
        elif op == 7 and e in parents:
            p = rng.choice([x for x in elems if x not in set(e.iter())])
            parents[e].remove(e)
            p.append(e)
        elif op == 8:
            e.append(ElementTree.Element(rng.choice(TAGS), {rng.choice(ATTRS): rng.choice(VALUES) for _ in range(rng.randrange(4))}))
        elif op == 9:
            for c in list(e):
                e.remove(c)
        elif op == 10:
            e.text = rng.choice(VALUES)
        elif op == 11:
            # types of members: of anything defined here, so that definitions may go round
            typed = [x for x in elems if "type" in x.attrib]
            named = [x.attrib["name"] for x in elems if x.tag in ("struct", "union", "message", "enum", "typedef") and x.attrib.get("name")]
            if typed and named:
                rng.choice(typed).attrib["type"] = rng.choice(named)
        else:
            valued = [x for x in elems if "value" in x.attrib or "size" in x.attrib]
            named = [x.attrib["name"] for x in elems if x.tag in ("constant", "enum-member") and x.attrib.get("name")]
            if valued and named:
                x = rng.choice(valued)
                x.attrib["value" if "value" in x.attrib else "size"] = rng.choice(named) + rng.choice(["", " + 1", " * 2", " / 0"])
    return ElementTree.tostring(root, encoding="unicode")


def isar_stress(rng, n):
    k = rng.choice([50, 400, 3000])
    many = min(k, 600)
    return [
        "<x>" * k + "</x>" * k,
        "<x>" + "".join('<typedef name="T%d" type="T%d"/>' % (i, i + 1) for i in range(many)) + '<typedef name="T%d" type="u8"/></x>' % many,
        "<x>" + "".join('<struct name="S%d"><member name="a" type="S%d"/></struct>' % (i, i + 1) for i in range(many)) + '<struct name="S%d"><member name="a" type="u8"/></struct></x>' % many,
        "<x>" + "".join('<struct name="S%d"><member name="a" type="S%d"/></struct>' % (i, (i + 1) % many) for i in range(many)) + "</x>",
        "<x>" + "".join('<constant name="C%d" value="C%d + 1"/>' % (i, i + 1) for i in range(many)) + '<constant name="C%d" value="1"/></x>' % many,
        "<x>" + "".join('<constant name="C%d" value="C%d"/>' % (i, (i + 1) % many) for i in range(many)) + "</x>",
        '<x><constant name="C" value="%s"/></x>' % ("shiftLeft(" * k + "1" + ",1)" * k),
        '<x><constant name="C" value="%s"/></x>' % ("(" * k + "1" + ")" * k),
        '<x><constant name="C" value="%s"/></x>' % ("9" * k),
        '<x><constant name="C" value="%s"/></x>' % ("9" * (3 * k)),
        '<x><constant name="C" value="1 + %s"/></x>' % ("9" * (1000 + 3 * k)),
        '<x><constant name="C" value="0x%s"/></x>' % ("9" * (3 * k)),
        '<x><enum name="E"><enum-member name="E_a" value="%s"/></enum></x>' % rng.choice(["9" * 5000, "1 + " + "9" * 5000, "-" + "9" * 5000, "0x" + "f" * 5000]),
        '<x><struct name="S"><member name="a" type="u8"><dimension size="%s"/></member></struct></x>' % rng.choice(["9" * 5000, "2*" + "9" * 5000]),
        '<x><union name="U"><member name="a" type="u8" discriminatorValue="%s"/></union></x>' % rng.choice(["9" * 5000, "0x" + "9" * 5000, "3-" + "9" * 5000]),
        '<x><constant name="C" value="%s"/></x>' % ("bitMaskOr(1," * k),
        '<?xml version="1.0"?><!DOCTYPE x [<!ENTITY a "aaaaaaaaaa">%s]><x><constant name="C" value="&e%d;"/></x>' % (
            "".join('<!ENTITY e%d "%s">' % (i, ("&e%d;" % (i - 1) if i else "&a;") * 10) for i in range(12)), 11),
        '<?xml version="1.0"?><!DOCTYPE x SYSTEM "nowhere.dtd"><x/>',
        '<?xml version="1.0"?><!DOCTYPE x [<!ENTITY a SYSTEM "file:///dev/zero">]><x>&a;</x>',
        '<?xml version="1.0" encoding="utf-16"?><x/>',
        '<?xml version="1.0" encoding="ebcdic-cp-us"?><x/>',
        '<?xml version="1.0" encoding="hex"?><x/>',
        '<?xml version="1.0" encoding="idna"?><x/>',
        '<?xml version="1.0" encoding="nonesuch"?><x/>',
        '<?xml version="1.0" encoding="latin-1"?><x><constant name="C" value="1" comment="é"/></x>',
        "", " ", "<x", "<x></y>", "<x/><x/>", "x", "<x a='1' a='2'/>", "<x>&undefined;</x>", "<x>\x01</x>", "<a:x/>", "﻿<x/>",
    ][n % 36]


ISAR_STRESSES = 36
RECURSIONS = [
    '<x><struct name="S"><member name="a" type="S"/></struct></x>',
    '<x><struct name="S"><member name="a" type="S"><dimension size="2"/></member></struct></x>',
    '<x><struct name="S"><member name="n" type="u32"/><member name="a" type="S"><dimension variableSizeFieldName="@n"/></member></struct></x>',
    '<x><struct name="S"><member name="a" type="S" optional="true"/></struct></x>',
    '<x><struct name="S"><member name="a" type="U"/></struct><union name="U"><member name="a" type="S" discriminatorValue="1"/></union></x>',
    '<x><union name="U"><member name="a" type="U" discriminatorValue="1"/></union></x>',
    '<x><typedef name="T" type="T"/></x>',
    '<x><typedef name="T" type="V"/><typedef name="V" type="T"/></x>',
    '<x><typedef name="T" type="S"/><struct name="S"><member name="a" type="T"/></struct></x>',
    '<x><typedef name="T" type="V"/><typedef name="V" type="T"/><struct name="S"><member name="a" type="T"/></struct></x>',
    '<x><constant name="A" value="A"/></x>',
    '<x><constant name="A" value="B"/><constant name="B" value="A + 1"/></x>',
    '<x><constant name="A" value="E_a"/><enum name="E"><enum-member name="E_a" value="A"/></enum></x>',
    '<x><enum name="E"><enum-member name="E_a" value="E_b"/><enum-member name="E_b" value="E_a"/></enum></x>',
    '<x><constant name="A" value="B"/><constant name="B" value="A"/><struct name="S"><member name="a" type="u8"><dimension size="A"/></member></struct></x>',
    '<x><struct name="S"><member name="a" type="u8"><dimension size2="4"/></member></struct></x>',
    '<x><message name="S"><member name="a" type="M"/></message><message name="M"><member name="a" type="S"/></message></x>',
    '<x><struct name="A"><member name="a" type="B"/></struct><struct name="B"><member name="a" type="C"/></struct><struct name="C"><member name="a" type="A"/></struct><struct name="D"><member name="a" type="u8"/></struct></x>',
]


# ------------------------------------------------------------------- patch
def damage_patch(rng, lines, names):
    """Rules out of shape."""
    actions = ["type", "insert", "remove", "greedy", "static", "limited", "dynamic", "struct", "rename", "x"]
    words = names + ["u8", "u64", "0", "1", "-1", "99", "x", "1/0", "@", "é", "lambda", "0x", "a+b", "1.5", "S T", "(", "9" * 5000]
    out = list(lines)
    for _ in range(rng.choice([1, 1, 2, 4])):
        op = rng.randrange(6)
        i = rng.randrange(len(out)) if out else 0
        if op == 0 or not out:
            out.insert(i, " ".join([rng.choice(names), rng.choice(actions)] + [rng.choice(words) for _ in range(rng.randrange(5))]))
        elif op == 1:
            del out[i]
        elif op == 2:
            out.insert(i, out[i])
        elif op == 3:
            ws = out[i].split()
            if ws:
                ws[rng.randrange(len(ws))] = rng.choice(words + actions)
            out[i] = " ".join(ws)
        elif op == 4:
            ws = out[i].split()
            out[i] = " ".join(ws[:rng.randrange(len(ws) + 1)])
        else:
            out[i] = out[i] + " " + rng.choice(words)
    return "\n".join(out)
