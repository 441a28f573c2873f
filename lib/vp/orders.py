"""Definition sets for isar and C++ (sack) inputs, from kinds and dependencies."""
import zlib

SCALARS = ("u8", "u16", "u32", "u64", "i8", "i32", "r64")


def name(kinds, k):
    return {"const": "K", "enum": "E", "typedef": "T", "struct": "S", "union": "U"}[kinds[k - 1]] + str(k)


# names much alike, like the ones of builtin types, and like the ones members have
ALIKE = (["r8", "r16", "r128", "u", "i", "r", "u1", "u24", "i7", "u80", "r320", "byte_", "bytes_", "U8", "I16", "R64"],
         ["S", "S1", "S_1", "S11", "S_", "s", "s1", "S1_", "SS", "S111", "s_1", "_S", "S12", "S1S"],
         ["M0", "M1", "A0", "numOfM1", "numOf", "M1_", "x1", "value_", "Name", "Type", "kind_", "Base"],
         ["Zz", "Yy", "Xx", "aA", "bB", "cC", "_0", "_1", "_a", "z9", "Q" * 90, "Q" * 91])


def names(rng, kinds):
    """Names of definitions, in most sets telling their kinds."""
    n = len(kinds)
    out = [name(kinds, k) for k in range(1, n + 1)]
    if chance(rng, 0.35):
        pool = [x for x in rng.choice(ALIKE) if x not in out]
        rng.shuffle(pool)
        for k in rng.sample(range(n), min(n, len(pool), rng.randint(1, n))):
            out[k] = pool.pop()
    return out


def chance(rng, p):
    return rng.random() < p


class Definitions(object):
    """text[k]: isar element of definition k; symbols[k]: name; deps[k] (1-based ids)."""

    def __init__(self, rng, kinds, deps):
        self.kinds, self.deps = kinds, deps
        self.names = names(rng, kinds)
        self.values = {}        # usable numeric names: id -> [(symbol, value)]
        self.text = []
        self.types = []
        dynamic = "union" not in kinds and chance(rng, 0.5)
        self.dyn = {}
        for k, (kind, uses) in enumerate(zip(kinds, deps), 1):
            nums = [rng.choice(self.values[d]) for d in uses if d in self.values]
            self.text.append(getattr(self, kind)(rng, k, uses, nums, dynamic))
            if kind not in ("const", "enum"):
                self.types.append(k)

    def number(self, rng, nums):
        """An expression naming all of nums (and its value), which does not grow."""
        if not nums:
            v = rng.randint(1, 9)
            return str(v), v
        if len(nums) == 1 and chance(rng, 0.4):
            return nums[0]
        text, v = nums[0]
        for s, w in nums[1:]:
            text, v = "%s + %s" % (text, s), v + w
        if len(nums) > 1:
            text = "(%s)" % text
        form = rng.randrange(3)
        if form == 0:
            return "%s / %d + 1" % (text, len(nums) + 1), v // (len(nums) + 1) + 1
        if form == 1:
            return "1 + %s / %d" % (text, len(nums)), 1 + v // len(nums)
        return "(%s << 1) / %d + 2" % (text, 2 * len(nums)), (v << 1) // (2 * len(nums)) + 2

    def const(self, rng, k, uses, nums, dynamic):
        text, v = self.number(rng, nums)
        self.values[k] = [(self.names[k - 1], v)]
        return '<constant name="%s" value="%s"/>' % (self.names[k - 1], text.replace("<", "&lt;"))

    def enum(self, rng, k, uses, nums, dynamic):
        n = self.names[k - 1]
        ms = []
        groups = [nums] if chance(rng, 0.5) else [[x] for x in nums] or [[]]
        used = set()
        for j, g in enumerate(groups + [[]]):
            text, v = self.number(rng, g)
            if v in used:
                v += 50 * (j + 1)
                text = "%s + %d" % (text, 50 * (j + 1))
            used.add(v)
            ms.append(("%s_e%d" % (n, j), text, v))
        self.values[k] = [(a, v) for a, _, v in ms]
        if chance(rng, 0.5):
            ms.reverse()
        self.dyn[k] = False
        return '<enum name="%s">%s</enum>' % (n, "".join(
            '<enum-member name="%s" value="%s"/>' % (a, t.replace("<", "&lt;")) for a, t, _ in ms))

    def typedef(self, rng, k, uses, nums, dynamic):
        self.dyn[k] = self.dyn.get(uses[0], False) if uses else False
        return '<typedef name="%s" type="%s"/>' % (self.names[k - 1], self.names[uses[0] - 1] if uses else rng.choice(SCALARS))

    def struct(self, rng, k, uses, nums, dynamic):
        ms = []
        self.dyn[k] = False

        def add(t, dim="", opt=""):
            ms.append('<member name="%%s" type="%s"%s>%s</member>' % (t, opt, dim))
        for d in uses:
            as_type = d in self.dyn and (d not in self.values or chance(rng, 0.5))
            if as_type:
                t = self.names[d - 1]
                form = rng.randrange(6)
                if self.dyn[d]:
                    form = rng.choice([0, 3])
                    self.dyn[k] = True
                if form == 1:
                    add(t, '<dimension size="%d"/>' % rng.randint(1, 3))
                elif form == 2:
                    add(t, '<dimension size="%d" isVariableSize="true"/>' % rng.randint(1, 3))
                elif form == 3 and dynamic:
                    add(t, '<dimension size="THIS_IS_VARIABLE_SIZE_ARRAY"/>')
                    self.dyn[k] = True
                elif form == 4:
                    add(t, opt=' optional="true"')
                else:
                    add(t)
            else:
                s, _ = rng.choice(self.values[d])
                text = rng.choice(["%s", "%s + 1", "2*%s", "(%s)"]) % s
                add(rng.choice(SCALARS), '<dimension size="%s"%s/>' % (text, rng.choice(['', ' size2="2"'])))
        for _ in range(rng.randint(0 if ms else 1, 2)):
            add(rng.choice(SCALARS))
        rng.shuffle(ms)
        out = []
        for j, m in enumerate(ms):
            nm = "m%d" % j
            if "THIS_IS" in m:
                out.append('<member name="numOfM%d" type="u32"></member>' % j)
            out.append(m % nm)
        return '<struct name="%s">%s</struct>' % (self.names[k - 1], "".join(out))

    def union(self, rng, k, uses, nums, dynamic):
        arms = []
        used = set()
        for j, d in enumerate(uses):
            t, disc, v = rng.choice(SCALARS), str(700 + j), 700 + j
            if d in self.dyn and (d not in self.values or chance(rng, 0.5)):
                t = self.names[d - 1]
            else:
                disc, v = rng.choice(self.values[d])
                if v in used:
                    disc, v = "%s + %d" % (disc, 900 + j), v + 900 + j
            used.add(v)
            arms.append((t, disc))
        if not arms or chance(rng, 0.5):
            arms.append((rng.choice(SCALARS), "699"))
        rng.shuffle(arms)
        self.dyn[k] = False
        return '<union name="%s">%s</union>' % (self.names[k - 1], "".join(
            '<member type="%s" name="a%d" discriminatorValue="%s"/>' % (t, j, d) for j, (t, d) in enumerate(arms)))

    def xml(self, perm, include=""):
        return "<x>\n%s%s\n</x>\n" % (include, "\n".join(self.text[k - 1] for k in perm))


def random_graph(rng, n):
    may = {"const": ("const", "enum"), "enum": ("const", "enum"), "typedef": ("enum", "typedef", "struct", "union")}
    kinds, deps = [], []
    pool = rng.choice([("const", "enum", "typedef", "struct", "union"), ("struct",), ("const", "struct", "enum"),
                       ("typedef", "struct"), ("const",)])
    width = rng.choice([2, 4, 1000])
    for k in range(1, n + 1):
        kind = rng.choice(pool)
        can = [d for d in range(1, k) if kinds[d - 1] in may.get(kind, pool) and d >= k - width]
        m = rng.choice([0, 1, 1, 2, 3, 5])
        if kind == "typedef":
            m = min(m, 1)
        uses = rng.sample(can, min(m, len(can)))
        kinds.append(kind)
        deps.append(uses)
    return kinds, deps


def number_of(text):
    return zlib.crc32(repr(text).encode()) & 0x7FFFFFFF
