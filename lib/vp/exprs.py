"""Random constant expressions as token sequences, and their spelling."""

OPS = ("+", "-", "*", "/", "<<", ">>")
LEVEL = {"+": 1, "-": 1, "*": 2, "/": 2, "<<": 3, ">>": 3}
LO, HI = -(1 << 63), (1 << 64) - 1


class Undefined(Exception):
    pass


def tok(k, d=(), n=0):
    return {"k": k, "d": list(d), "n": n}


def apply(o, a, b):
    if o == "/":
        if a < 0 or b <= 0:
            raise Undefined
        return a // b
    if o in ("<<", ">>"):
        if not 0 <= b <= 100:
            raise Undefined
        return a << b if o == "<<" else a >> b
    if o == "|":
        if a < 0 or b < 0:
            raise Undefined
        return a | b
    return a + b if o == "+" else a - b if o == "-" else a * b


def literal(rng, octal, big):
    v = rng.choice([rng.randrange(10), rng.randrange(300), rng.choice([0, 1, 7, 8, 63, 64, 255, 256, 1000])])
    if big and rng.random() < 0.25:
        v = rng.choice([65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, rng.getrandbits(48)])
    k = rng.choice(["dec", "dec", "hex"] + (["oct"] if octal else []))
    if k == "oct":
        text = "%o" % v if v else "0"
    else:
        text = ("%d" if k == "dec" else "%x") % v
    if k == "hex" and rng.random() < 0.2:
        text = "0" + text
    return ("lit", tok(k, [int(ch, 16) for ch in text]), v)


def tree(rng, names, depth, octal, big, calls):
    """(shape, ..., value)"""
    if depth == 0 or rng.random() < 0.15:
        if names and rng.random() < 0.45:
            n = rng.randrange(len(names))
            return ("lit", tok("name", (), n + 1), names[n])
        return literal(rng, octal, big)
    if rng.random() < 0.15:
        a = tree(rng, names, depth - 1, octal, big, calls)
        return ("neg", a, -a[-1])
    for _ in range(20):
        o = rng.choice(OPS + (("|",) if calls else ()))
        a = tree(rng, names, depth - 1, octal, big, calls)
        b = tree(rng, names, depth - 1, octal, big and o not in ("<<", ">>"), calls)
        if o in ("<<", ">>") and rng.random() < 0.8:
            b = literal(rng, octal, False)
            b = b if b[-1] < 40 else ("lit", tok("dec", [rng.randrange(10)]), None)
            if b[-1] is None:
                b = ("lit", b[1], b[1]["d"][0])
        try:
            v = apply(o, a[-1], b[-1])
        except Undefined:
            continue
        if v.bit_length() > 150:
            continue
        return ("bin", o, a, b, v)
    return literal(rng, octal, big)


def tokens(rng, t, level=0, calls=False):
    """Token sequence of a tree, with the parentheses it needs and some it does not.
    A call shiftLeft/bitMaskOr is one ("call", name, first, second) item, flattened by plain()."""
    extra = rng.random() < 0.1
    if t[0] == "lit":
        out, mine = [t[1]], 9
    elif t[0] == "neg":
        out, mine = [tok("-")] + tokens(rng, t[1], 4, calls), 4
    else:
        _, o, a, b, _ = t
        if o == "|" or (calls and o == "<<" and rng.random() < 0.6):
            out = [("call", {"|": "bitMaskOr", "<<": "shiftLeft"}[o], tokens(rng, a, 0, calls), tokens(rng, b, 0, calls))]
            mine = 9
        else:
            mine = LEVEL[o]
            out = tokens(rng, a, mine, calls) + [tok(o)] + tokens(rng, b, mine + 1, calls)
    if mine < level or extra:
        return [tok("(")] + out + [tok(")")]
    return out


def plain(ts):
    out = []
    for t in ts:
        if isinstance(t, tuple):
            o = {"bitMaskOr": "|", "shiftLeft": "<<"}[t[1]]
            out += [tok("("), tok("(")] + plain(t[2]) + [tok(")"), tok(o), tok("(")] + plain(t[3]) + [tok(")"), tok(")")]
        else:
            out.append(t)
    return out


def spell(ts, names, rng=None, octal=True):
    out = []
    for t in ts:
        if isinstance(t, tuple):
            out.append("%s(%s, %s)" % (t[1], spell(t[2], names, rng, octal), spell(t[3], names, rng, octal)))
            continue
        k = t["k"]
        digits = "".join("0123456789abcdef"[x] for x in t["d"])
        if k == "hex" and rng and rng.random() < 0.5:
            digits = digits.upper()
        if k == "oct" and not octal:
            out.append(str(int(digits, 8)))
        else:
            out.append({"dec": digits, "oct": "0" + digits, "hex": "0x" + digits,
                        "name": names[t["n"] - 1] if k == "name" else ""}.get(k, k))
    if not rng:
        return " ".join(out)
    text = out[0]
    for a, b in zip(out, out[1:]):
        # "- -" and "<< <<" never touch; names and numbers never meet
        text += ("" if rng.random() < 0.3 else " ") + b
    return text


def expression(rng, names, accept, octal=True, big=True, calls=False, tries=40):
    """(tokens, value) with accept(value); names: values of the names in scope."""
    for n in range(tries):
        t = tree(rng, names, rng.choice([0, 1, 2, 2, 3, 3, 4]), octal, big, calls)
        if accept(t[-1]):
            return tokens(rng, t, 0, calls), t[-1]
    v = next(x for x in iter(lambda: rng.randrange(1, 200), None) if accept(x))
    return [tok("dec", [int(ch) for ch in str(v)])], v
