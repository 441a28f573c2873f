"""Abstract schemas: the same records the TLA+ modules read, plus a renderer to the
prophy language and a small layout mirror used only to *choose* inputs."""

WIDTH = {"u8": 1, "i8": 1, "byte": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "float": 4,
         "u64": 8, "i64": 8, "double": 8}
SIGNED = {"i8", "i16", "i32", "i64"}
INTS = ("u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64")
FIXED, DYNAMIC, UNLIMITED = 0, 1, 2


def codes(text):
    return [ord(ch) for ch in text]


def u32le(value):
    return list((value & 0xFFFFFFFF).to_bytes(4, "little"))


def member(name, t, a="plain", n=0, s="", v=None):
    return {"name": name, "c": codes(name), "t": t, "a": a, "n": n, "s": s, "v": v or []}


def arm(name, t, disc):
    return member(name, t, v=u32le(disc))


def enumerator(name, value):
    return member(name, "", v=u32le(value))


def struct(name, members):
    return {"k": "struct", "name": name, "t": "", "m": members}


def union(name, arms):
    return {"k": "union", "name": name, "t": "", "m": arms}


def enum(name, members):
    return {"k": "enum", "name": name, "t": "", "m": members}


def typedef(name, target):
    return {"k": "typedef", "name": name, "t": target, "m": []}


def disc_of(m):
    return int.from_bytes(bytes(m["v"]), "little")


def render_member(m, num=None):
    a, t, name = m["a"], m["t"], m["name"]
    n = num(m, m["n"]) if num else m["n"]
    if t == "byte":
        t = "bytes"
    return {
        "plain": "%s %s;" % (t, name),
        "opt": "%s* %s;" % (t, name),
        "fix": "%s %s[%s];" % (t, name, n),
        "dyn": "%s %s<>;" % (t, name),
        "lim": "%s %s<%s>;" % (t, name, n),
        "greedy": "%s %s<...>;" % (t, name),
        "ext": "%s %s<@%s>;" % (t, name, m["s"]),
        "xlim": "%s %s<%s, @%s>; // not in the language" % (t, name, n, m["s"]),
    }[a]


def render_def(d, num=None):
    """num(member, value): spelling of a size, enumerator value or discriminator."""
    def val(m):
        return num(m, disc_of(m)) if num else disc_of(m)
    if d["k"] == "typedef":
        return "typedef %s %s;\n" % (d["t"], d["name"])
    if d["k"] == "enum":
        body = ",\n".join("    %s = %s" % (m["name"], val(m)) for m in d["m"])
        return "enum %s {\n%s\n};\n" % (d["name"], body)
    if d["k"] == "struct":
        body = "".join("    %s\n" % render_member(m, num) for m in d["m"])
        return "struct %s {\n%s};\n" % (d["name"], body)
    body = "".join("    %s: %s %s;\n" % (val(m), m["t"], m["name"]) for m in d["m"])
    return "union %s {\n%s};\n" % (d["name"], body)


def render(defs):
    return "\n".join(render_def(d) for d in defs)


class Info(object):
    """Layout mirror (input selection only; the verdicts come from the TLA+ spec)."""

    def __init__(self, defs=()):
        self.defs = {}
        self.order = []
        self.al = dict(WIDTH)
        self.sz = dict(WIDTH)
        self.st = {k: FIXED for k in WIDTH}
        self.res = {k: k for k in WIDTH}
        self.wire = {}
        self.values = {}        # type: values given for it
        for d in defs:
            self.add(d)

    def kind(self, t):
        r = self.res[t]
        return self.defs[r]["k"] if r in self.defs else "scalar"

    def resolved(self, t):
        return self.res[t]

    def add(self, d):
        name = d["name"]
        self.defs[name] = d
        self.order.append(name)
        self.res[name] = self.res[d["t"]] if d["k"] == "typedef" else name
        if d["k"] == "enum":
            self.al[name] = self.sz[name] = 4
            self.st[name] = FIXED
        elif d["k"] == "typedef":
            self.al[name], self.sz[name], self.st[name] = self.al[d["t"]], self.sz[d["t"]], self.st[d["t"]]
        elif d["k"] == "union":
            al = max([4] + [self.al[m["t"]] for m in d["m"]])
            sz = al + max(self.sz[m["t"]] for m in d["m"])
            self.al[name], self.sz[name], self.st[name] = al, sz + (-sz) % al, FIXED
        else:
            self._add_struct(d)

    def _add_struct(self, d):
        name = d["name"]
        ms = d["m"]
        wire = []
        for i, m in enumerate(ms):
            if m["a"] in ("dyn", "lim"):
                wire.append({"src": None, "cnt": [i], "t": "u32", "a": "size", "n": 0})
                wire.append({"src": i, "cnt": [], "t": m["t"], "a": m["a"], "n": m["n"]})
            elif m["a"] == "xlim":
                wire.append({"src": i, "cnt": [], "t": m["t"], "a": "lim", "n": m["n"]})
            elif m["a"] == "ext":
                wire.append({"src": i, "cnt": [], "t": m["t"], "a": "dyn", "n": 0})
            elif m["a"] == "plain":
                cnt = [j for j, o in enumerate(ms) if o["a"] in ("ext", "xlim") and o["s"] == m["name"]]
                wire.append({"src": i, "cnt": cnt, "t": m["t"], "a": "size" if cnt else "plain", "n": 0})
            else:
                wire.append({"src": i, "cnt": [], "t": m["t"], "a": m["a"], "n": m["n"]})
        blk = 0
        for w in wire:
            t = w["t"]
            w["al"] = max(4, self.al[t]) if w["a"] == "opt" else self.al[t]
            w["sz"] = {"plain": self.sz[t], "size": self.sz[t], "opt": w["al"] + self.sz[t]}.get(
                w["a"], w["n"] * self.sz[t])
            w["st"] = {"plain": self.st[t], "dyn": DYNAMIC, "greedy": UNLIMITED}.get(w["a"], FIXED)
            w["blk"] = blk
            if w["st"] == DYNAMIC:
                blk += 1
        for i, w in enumerate(wire):
            first = i == 0 or wire[i - 1]["blk"] != w["blk"]
            w["ea"] = max(x["al"] for x in wire if x["blk"] == w["blk"]) if first else w["al"]
        self.wire[name] = wire
        self.al[name] = max([1] + [w["al"] for w in wire])
        self.st[name] = max([FIXED] + [w["st"] for w in wire])
        off = 0
        for w in wire:
            off += (-off) % w["ea"] + w["sz"]
        self.sz[name] = off + (-off) % self.al[name]

    # -- mirror encoding: list of (role, little-endian bytes) ------------------
    def tokens(self, t, v):
        r = self.res[t]
        d = self.defs.get(r)
        if d is None:
            return [("num", bytes(v))]
        if d["k"] == "enum":
            return [("enum", bytes(v))]
        if d["k"] == "union":
            m = d["m"][v[0] - 1]
            al = self.al[r]
            body = self.tokens(m["t"], v[1])
            out = [("disc", bytes(m["v"]))] + pads(al - 4) + body
            return out + pads(self.sz[r] - al - length(body))
        out = []
        off = 0
        for w in self.wire[r]:
            p = (-off) % w["ea"]
            out += pads(p)
            body = self._member_tokens(w, v)
            out += body
            off += p + length(body)
        return out + pads((-off) % self.al[r])

    def _member_tokens(self, w, v):
        t = w["t"]
        if w["a"] == "size":
            return [("count", len(v[w["cnt"][0]]).to_bytes(self.sz[t], "little"))]
        x = v[w["src"]]
        if w["a"] == "plain":
            return self.tokens(t, x)
        if w["a"] == "opt":
            if not x:
                return [("flag", bytes(4))] + pads(w["sz"] - 4)
            return [("flag", b"\1\0\0\0")] + pads(w["al"] - 4) + self.tokens(t, x[0])
        if t == "byte":
            body = [("num", bytes([b])) for b in x]
        else:
            body = [tok for e in x for tok in self.tokens(t, e)]
        if w["a"] == "lim":
            body = body + pads((w["n"] - len(x)) * self.sz[t])
        return body

    def overaligned_part(self, t, v):
        """Some partN (N >= 2) of v ends where rounding up to its own alignment skips
        past the start of the next part."""
        r = self.res[t]
        d = self.defs.get(r)
        if d is None or d["k"] == "enum":
            return False
        if d["k"] == "union":
            return self.overaligned_part(d["m"][v[0] - 1]["t"], v[1])
        off = 0
        wire = self.wire[r]
        for i, w in enumerate(wire):
            off += (-off) % w["ea"] + length(self._member_tokens(w, v))
            if i + 1 < len(wire) and wire[i + 1]["blk"] != w["blk"] and w["blk"] >= 1:
                al = max(x["al"] for x in wire if x["blk"] == w["blk"])
                nxt = wire[i + 1]["ea"]
                own = off + (-off) % al
                if own + (-own) % nxt != off + (-off) % nxt:
                    return True
            if w["a"] == "size" or w["t"] == "byte":
                continue
            xs = [v[w["src"]]] if w["a"] == "plain" else v[w["src"]]
            if any(self.overaligned_part(w["t"], x) for x in xs):
                return True
        return False

    def encode(self, t, v, endian):
        return flatten(self.tokens(t, v), endian)


def pads(n):
    return [("pad", b"\0")] * n


def length(tokens):
    return sum(len(b) for _, b in tokens)


def flatten(tokens, endian):
    return b"".join(b if endian == "<" else b[::-1] for _, b in tokens)


def closure(info, t):
    """Definitions needed by type t, in order."""
    need = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in need or x not in info.defs:
            continue
        need.add(x)
        d = info.defs[x]
        if d["k"] == "typedef":
            stack.append(d["t"])
        elif d["k"] in ("struct", "union"):
            stack.extend(m["t"] for m in d["m"])
    return [info.defs[n] for n in info.order if n in need]
