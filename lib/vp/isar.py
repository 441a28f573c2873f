"""The same definitions in isar XML, completed by a patch script where isar cannot tell them."""
from xml.sax.saxutils import quoteattr

from . import schema

PRIMITIVE = {"u8": "8 bit integer unsigned", "u16": "16 bit integer unsigned", "u32": "32 bit integer unsigned",
             "u64": "64 bit integer unsigned", "i8": "8 bit integer signed", "i16": "16 bit integer signed",
             "i32": "32 bit integer signed", "i64": "64 bit integer signed", "float": "32 bit float",
             "double": "64 bit float"}
NAMES = {"float": "r32", "double": "r64"}


def tname(t):
    return NAMES.get(t, t)


def element(tag, attrs, body=""):
    text = "".join(" %s=%s" % (k, quoteattr(str(v))) for k, v in attrs if v is not None)
    return "<%s%s>%s</%s>" % (tag, text, body, tag) if body else "<%s%s/>" % (tag, text)


def explicit(d):
    """The struct with every counter explicit (arities plain, opt, fix, ext, xlim, greedy)."""
    if d["k"] != "struct":
        return d
    ms = []
    for m in d["m"]:
        if m["a"] in ("dyn", "lim"):
            s = m["name"] + "_len"
            ms.append(schema.member(s, "u32"))
            ms.append(schema.member(m["name"], m["t"], "ext" if m["a"] == "dyn" else "xlim", m["n"], s))
        else:
            ms.append(m)
    return schema.struct(d["name"], ms)


def plain_xml(d, num=str, value=schema.disc_of):
    """Explicit definition straight to XML (greedy arrays have no isar form: left for a patch)."""
    if d["k"] == "enum":
        return element("enum", [("name", d["name"])], "".join(
            element("enum-member", [("name", m["name"]), ("value", num(value(m)))]) for m in d["m"]))
    if d["k"] == "typedef":
        return element("typedef", [("name", d["name"]), ("type", tname(d["t"]))])
    if d["k"] == "union":
        return element("union", [("name", d["name"])], "".join(
            element("member", [("name", m["name"]), ("type", tname(m["t"])),
                               ("discriminatorValue", num(value(m)))]) for m in d["m"]))
    out = []
    skip = None
    for i, m in enumerate(d["m"]):
        if m["name"] == skip:
            continue
        dim = ""
        attrs = [("name", m["name"]), ("type", tname(m["t"]))]
        if m["a"] == "opt":
            attrs.append(("optional", "true"))
        elif m["a"] == "fix":
            dim = element("dimension", [("size", m["n"])])
        elif m["a"] == "greedy":
            pass
        elif m["a"] == "ext":
            dim = element("dimension", [("variableSizeFieldName", "@" + m["s"])])
        elif m["a"] == "plain":
            nxt = d["m"][i + 1] if i + 1 < len(d["m"]) else None
            if nxt and nxt["a"] == "xlim" and nxt["s"] == m["name"]:
                skip = nxt["name"]
                attrs = [("name", nxt["name"]), ("type", tname(nxt["t"]))]
                dim = element("dimension", [("size", nxt["n"]), ("isVariableSize", "true"),
                                            ("variableSizeFieldName", m["name"]),
                                            ("variableSizeFieldType", tname(m["t"]))])
        else:
            raise ValueError("not in isar: %s" % m)
        out.append(element("member", attrs, dim))
    return element("struct", [("name", d["name"])], "".join(out))


class Renderer(object):
    """One way of describing definitions.  After render(): xml, patch (text or "") and defs, which
    are the given definitions with has_ fields isar adds to optional arrays."""

    def __init__(self, rng, patched):
        self.rng = rng
        self.patched = patched
        self.rules = []         # (message, [rule lines])
        self.notes = {}

    def chance(self, p):
        return self.rng.random() < p

    # ------------------------------------------------------------ numbers
    def number(self, v, enum=False):
        forms = ["%d" % v, "0x%X" % v, "0x%x" % v]
        if enum and v >= 1 << 31:
            forms += ["-%d" % ((1 << 32) - v)] * 2
        small = [c for c, x in self.consts if x == v]
        if small:
            forms += small
        base = [(c, x) for c, x in self.consts if 0 < x <= v]
        if base:
            c, x = self.rng.choice(base)
            forms += ["%s + %d" % (c, v - x), "(%d+%s)" % (v - x, c)]
        if v and v % 2 == 0 and v < 1 << 31:
            forms.append("shiftLeft(%d, 1)" % (v // 2))
        return self.rng.choice(forms)

    # ----------------------------------------------------------- the file
    def render(self, defs):
        rng = self.rng
        self.consts = [("KN_%d" % i, rng.choice([1, 2, 3, 4, 5, 7, 255])) for i in range(rng.randint(0, 3))]
        out = [element("constant", [("name", c), ("value", v)]) for c, v in self.consts]
        final = []
        self.types = [d["name"] for d in defs if d["k"] != "enum"]
        for d in defs:
            name = d["name"]
            xml_name = name
            script = []
            if self.patched and self.chance(0.15):
                xml_name = "Was" + name
            body, d, script = getattr(self, d["k"])(d, xml_name)
            if xml_name != name:
                script.insert(rng.randint(0, len(script)), "rename %s" % name)
                if self.chance(0.3):
                    self.rules.append((name, ["remove %s" % (d["m"][0]["name"] if d["m"] else "x")]))
            if script:
                self.rules.append((xml_name, script))
            out.append(body)
            final.append(d)
        if rng.random() < 0.7:
            rng.shuffle(out)
        self.xml = "<x>\n%s\n</x>\n" % "\n".join(out)
        if self.patched and self.chance(0.5):
            self.rules.append(("Nobody", rng.sample(["type x u8", "insert 0 a u8", "remove x", "frobnicate", "struct",
                                                     "rename Somebody", "static a", "limited a b c"], 2)))
        self.patch = self.interleave()
        self.defs = final
        return self

    def interleave(self):
        queues = [[m, list(r)] for m, r in self.rules if r]
        lines = []
        while queues:
            q = self.rng.choice(queues)
            lines.append("%s %s" % (q[0], q[1].pop(0)))
            if self.chance(0.1):
                lines.append("")
            if not q[1]:
                queues.remove(q)
        return "\n".join(lines) + "\n" if lines else ""

    # -------------------------------------------------------- definitions
    def enum(self, d, xml_name):
        body = "".join(element("enum-member", [("name", m["name"]), ("value", self.number(schema.disc_of(m), True))])
                       for m in d["m"])
        return element("enum", [("name", xml_name)], body), d, []

    def typedef(self, d, xml_name):
        if d["t"] in PRIMITIVE and self.chance(0.5):
            return element("typedef", [("name", xml_name), ("primitiveType", PRIMITIVE[d["t"]])]), d, []
        return element("typedef", [("name", xml_name), ("type", tname(d["t"]))]), d, []

    def union(self, d, xml_name):
        script = []
        body = ""
        for m in d["m"]:
            name = m["name"]
            if self.patched and self.chance(0.1):
                name = "old_" + name
                script.append("rename %s %s" % (name, m["name"]))
            body += element("member", [("name", name), ("type", tname(m["t"])),
                                       ("discriminatorValue", self.number(schema.disc_of(m)))])
        return element("union", [("name", xml_name)], body), d, script

    def struct(self, d, xml_name):
        rng = self.rng
        tag = "message" if self.chance(0.3) else "struct"
        ms = self.with_enablers(d["m"], tag)
        d = schema.struct(d["name"], ms)
        plan = self.units(ms, tag)
        from_union = self.patched and self.chance(0.3) and all(u["form"] == "plain" for u in plan)
        body = []
        removes, renames, inserts, types, shapes = [], [], [], [], []
        at = 0
        for u in plan:
            if u["form"] == "inserted":
                for m in u["model"]:
                    inserts.append((at + u["model"].index(m), m["name"], tname(m["t"])))
            else:
                for old, new in u.get("renames", ()):
                    renames.append("rename %s %s" % (old, new))
                body.append(u["xml"])
            types += u.get("types", [])
            shapes.append(u.get("shapes", []))
            at += len(u["model"])
        total = at
        if self.patched and self.chance(0.25):
            for k in range(rng.randint(1, 2)):
                name = "junk%d" % k
                t = rng.choice(["u8", "u64", "NoSuchType"] + self.types[:1])
                body.insert(rng.randint(0, len(body)), element("member", [("name", name), ("type", t)]))
                removes.append("remove %s" % name)
        if not body:
            body.append(element("member", [("name", "junk9"), ("type", "u8")]))
            removes.append("remove junk9")
        script = []
        if from_union:
            body = [b.replace("/>", ' discriminatorValue="%d"/>' % k) for k, b in enumerate(body)]
            tag = "union"
            script.append("struct")
        rng.shuffle(renames)
        script += removes + renames
        for idx, name, t in inserts:
            if idx == total - 1 and self.chance(0.5):
                idx = rng.choice([999, total + 7])
            script.append("insert %d %s %s" % (idx, name, t))
        late = [[x] for x in types] + [s for s in shapes if s]
        rng.shuffle(late)
        script += [x for s in late for x in s]
        return element(tag, [("name", xml_name)], "".join(body)), d, script

    def with_enablers(self, ms, tag):
        """An optional array in isar is a u32 before the array."""
        out = []
        for i, m in enumerate(ms):
            joint = m["a"] in ("ext", "xlim") and i and ms[i - 1]["name"] == m["s"]
            if m["a"] in ("fix", "dyn", "lim", "ext") and not (m["a"] == "lim" and tag == "message") and not joint and self.chance(0.1):
                out.append(schema.member("has_" + m["name"], "u32"))
            out.append(m)
        return out

    def units(self, ms, tag):
        plan = []
        i = 0
        while i < len(ms):
            m = ms[i]
            nxt = ms[i + 1] if i + 1 < len(ms) else None
            users = [x for x in ms if x["s"] == m["name"]] if m["a"] == "plain" else []
            enabled = nxt and m["name"] == "has_" + nxt["name"]
            if enabled:
                plan.append(self.array(nxt, tag, enabler=m))
                i += 2
            elif nxt and nxt["a"] in ("ext", "xlim") and nxt["s"] == m["name"] and len(users) == 1 and \
                    not (nxt["a"] == "xlim" and tag == "message") and self.chance(0.5):
                size = nxt["n"] if nxt["a"] == "xlim" else 7 if tag == "message" and self.chance(0.5) else None
                dim = element("dimension", [("size", size and self.number(size)), ("isVariableSize", "true"),
                                            ("variableSizeFieldName", m["name"]),
                                            ("variableSizeFieldType", tname(m["t"]))])
                plan.append({"form": "joint", "model": [m, nxt],
                             "xml": element("member", [("name", nxt["name"]), ("type", tname(nxt["t"]))], dim)})
                i += 2
            else:
                plan.append(self.scalar(m) if m["a"] in ("plain", "opt") else self.array(m, tag))
                i += 1
        return plan

    def scalar(self, m):
        rng = self.rng
        u = {"form": m["a"], "model": [m]}
        name, t = m["name"], tname(m["t"])
        if self.patched and m["a"] == "plain" and self.chance(0.12):
            u["form"] = "inserted"
            return u
        if self.patched and self.chance(0.1):
            u["types"] = ["type %s %s" % (name, t)]
            t = rng.choice(["u8", "r64", "NoSuchType"] + self.types[:2])
        if self.patched and self.chance(0.1):
            u["renames"] = [("was_" + name, name)]
            name = "was_" + name
        opt = [("optional", rng.choice(["true", "TRUE", "True"]))] if m["a"] == "opt" else \
            [("optional", "false")] if self.chance(0.1) else []
        u["xml"] = element("member", [("name", name), ("type", t)] + opt)
        return u

    def array(self, m, tag, enabler=None):
        """Fixed, limited, dynamic, externally sized or greedy array; its implicit counter is in the unit."""
        rng = self.rng
        a, name, t = m["a"], m["name"], tname(m["t"])
        sizer = rng.choice([name + "_len", "num_of_" + name, "numOf" + name[0].upper() + name[1:]])
        bound = m["s"] if a in ("ext", "xlim") else sizer
        u = {"form": "array", "model": ([schema.member(sizer, "u32")] if a in ("dyn", "lim") else []) + [m]}
        opt = []
        if enabler is not None:
            u["model"].insert(0, enabler)
            opt = [("optional", "true")]
        shapes = {"fix": ["static %s %s" % (name, m["n"])],
                  "dyn": ["dynamic %s %s" % (name, bound)],
                  "ext": ["dynamic %s %s" % (name, bound)],
                  "lim": ["static %s %s" % (name, m["n"]), "limited %s %s" % (name, bound)],
                  "xlim": ["static %s %s" % (name, m["n"]), "limited %s %s" % (name, bound)],
                  "greedy": ["greedy %s" % name]}[a]
        if self.patched and enabler is None and self.chance(0.12):
            u["form"] = "inserted"
            u["shapes"] = shapes
            return u
        forms = []      # (xml elements, rules)

        def member_of(dim, extra=()):
            return element("member", [("name", name), ("type", t)] + opt + list(extra), dim)

        counter = element("member", [("name", sizer), ("type", "u32")])
        implicit = [("variableSizeFieldName", sizer)] if sizer != name + "_len" or self.chance(0.3) else []
        implicit += [("variableSizeFieldType", "u32")] if self.chance(0.3) else []
        if a == "fix":
            forms.append((member_of(element("dimension", [("size", self.number(m["n"]))])), []))
            for k in range(2, m["n"]):
                if m["n"] % k == 0:
                    forms.append((member_of(element("dimension", [("size", self.number(k)),
                                                                  ("size2", self.number(m["n"] // k))])), []))
        elif a == "lim" and tag == "struct":
            forms.append((member_of(element("dimension", [("size", self.number(m["n"])), ("isVariableSize", "true")] +
                                            implicit)), []))
            for k in range(2, m["n"]):
                if m["n"] % k == 0:
                    forms.append((member_of(element("dimension", [("size", self.number(k)), ("size2", self.number(m["n"] // k)),
                                                                  ("isVariableSize", "true")] + implicit)), []))
        elif a == "dyn":
            forms.append((member_of(element("dimension", [("isVariableSize", "true")] + implicit)), []))
            if tag == "message":
                forms.append((member_of(element("dimension", [("size", rng.choice(["5", "KX", "0"])),
                                                              ("isVariableSize", "true")] + implicit)), []))
            if enabler is None:
                forms.append((counter + member_of(element("dimension", [("variableSizeFieldName", "@" + sizer)])), []))
                if sizer.startswith("numOf"):
                    forms.append((counter + member_of(element("dimension",
                                                              [("size", "THIS_IS_VARIABLE_SIZE_ARRAY")])), []))
        elif a == "ext":
            forms.append((member_of(element("dimension", [("variableSizeFieldName", "@" + m["s"])])), []))
        if enabler is None and (not forms or self.patched and self.chance(0.3)):
            lead = counter if a in ("dyn", "lim") else ""
            wrong = ['<dimension size="3"/>', ""]
            extra = []
            if a not in ("lim", "xlim"):
                wrong += ['<dimension variableSizeFieldName="@nowhere"/>']
                extra = [("optional", "true")] if self.chance(0.3) else []
            dim = rng.choice(wrong)
            if a in ("lim", "xlim") and self.chance(0.5):
                dim, shapes = element("dimension", [("size", self.number(m["n"]))]), shapes[1:]
            forms = [(lead + member_of(dim, extra if not dim else ()), shapes)]
        xml, rules = rng.choice(forms)
        u["xml"], u["shapes"] = xml, rules
        if self.patched and enabler is None and self.chance(0.1):
            u["types"] = ["type %s %s" % (name, t)]
            u["xml"] = u["xml"].replace('name="%s" type="%s"' % (name, t), 'name="%s" type="NoSuchType"' % name)
        if self.patched and enabler is None and self.chance(0.1) and 'name="%s"' % name in u["xml"] and \
                "numOf" not in u["xml"] and (sizer != name + "_len" or implicit or a not in ("dyn", "lim")):
            u["renames"] = [("was_" + name, name)]
            u["xml"] = u["xml"].replace('name="%s"' % name, 'name="was_%s"' % name)
        return u
