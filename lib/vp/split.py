"""Schemas over several files: numbers given names, declarations put into files."""
import os
import re

from . import schema

NUMBER = re.compile(r"[A-Za-z_]\w*")


class Item(object):
    """A declaration: names it defines, names it uses and its prophy text."""

    def __init__(self, defines, text, d=None):
        self.defines, self.text, self.d = defines, text, d
        self.uses = set()


def items(rng, defs, prob=0.6):
    """Declarations of a schema with constants and enumerators in place of many numbers."""
    out = []
    named = {}          # value -> names
    count = [0]

    def spelled(value):
        """A spelling of value by names declared so far, or by a new constant."""
        if value in named and rng.random() < 0.6:
            return rng.choice(named[value])
        close = [(v, n) for v, ns in sorted(named.items()) if 0 < value - v < 1000 for n in ns]
        if close and rng.random() < 0.3:
            v, n = rng.choice(close)
            return "%s + %d" % (n, value - v)
        count[0] += 1
        name = "C%d" % count[0]
        text = str(value)
        if close and rng.random() < 0.6:
            v, n = rng.choice(close)
            text = "%d + %s" % (value - v, n)
        elif rng.random() < 0.5:
            text = rng.choice(["0x%x", "(%d)", "%d * 1", "%d >> 0"]) % value
        out.append(Item([name], "const %s = %s;\n" % (name, text)))
        named.setdefault(value, []).append(name)
        return name

    def num(m, value):
        if m["a"] in ("dyn", "greedy", "ext", "opt") or m["a"] == "plain" and not m["v"] or rng.random() > prob:
            return value
        return spelled(value)

    for d in defs:
        text = schema.render_def(d, num)
        names = [d["name"]]
        if d["k"] == "enum":
            names += [m["name"] for m in d["m"]]
        out.append(Item(names, text, d))
        if d["k"] == "enum":
            for m in d["m"]:
                named.setdefault(schema.disc_of(m), []).append(m["name"])
    known = {n for i in out for n in i.defines}
    for i in out:
        text = i.text
        if i.d is not None and i.d["k"] in ("struct", "union"):     # field names are not uses
            text = re.sub(r"(\w+)\s*(\[[^\]]*\]|<[^>]*>)?;", lambda m: (m.group(2) or "") + ";", text)
        i.uses = (set(NUMBER.findall(text)) & known) - set(i.defines)
        if i.d is not None and i.d["k"] == "enum":
            i.uses -= set(i.defines)
    return out


def single(its):
    return "\n".join(i.text for i in its)


class File(object):
    def __init__(self, stem):
        self.stem, self.items, self.needs, self.dir = stem, [], set(), ""


def partition(rng, its, count):
    """Files with their items; file k only needs files before it."""
    files = [File("f%d" % k) for k in range(count)]
    home = {}
    style = rng.choice(["late", "any", "any"])
    for pos, i in enumerate(its):
        low = max([home[u] for u in i.uses] or [0])
        if style == "late":
            k = max(low, pos * count // len(its))
        else:
            k = rng.randint(low, count - 1)
        for n in i.defines:
            home[n] = k
        files[k].items.append(i)
        files[k].needs |= {home[u] for u in i.uses} - {k}
    for k, f in enumerate(files):
        if k and rng.random() < 0.3:
            f.needs.add(rng.randrange(k))       # unneeded include
    return files, home


DIRS = ("", "s", "s/t", "u", "inc", "inc2")


def arrange(rng, files, lang="prophy"):
    """Puts files in directories; returns ({relative path: text}, include directories)."""
    ext = {"prophy": ".prophy", "isar": ".xml"}[lang]
    flat = rng.random() < 0.2
    for f in files:
        f.dir = "" if flat else rng.choice(DIRS)
    listed = [d for d in DIRS if rng.random() < 0.5]
    rng.shuffle(listed)
    out = {}
    for f in files:
        lines = []
        needs = sorted(f.needs)
        rng.shuffle(needs)
        for k in needs:
            g = files[k]
            leaf = g.stem + ext
            forms = [os.path.relpath(os.path.join(g.dir, leaf), f.dir or ".")]
            if g.dir in listed:
                forms += [leaf] * 2
            for d in listed:
                if d and g.dir.startswith(d + "/"):
                    forms.append(os.path.join(os.path.relpath(g.dir, d), leaf))
            lines.append(rng.choice(forms))
        out[os.path.join(f.dir, f.stem + ext)] = (lines, f)
    return out, listed


def prophy_text(lines, f):
    return "".join('#include "%s"\n' % x for x in lines) + "\n".join(i.text for i in f.items)
