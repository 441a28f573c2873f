"""Damaged encodings: token-aware faults on valid messages, and plain noise."""
from . import gen, schema

COUNTS = (0, 1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 100000,
          (1 << 24) + 1, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, 1 << 63, (1 << 64) - 1)
FLAGS = (0, 1, 2, 255, 256, 0x01000000, 0x80000000, 0xFFFFFFFF, 0x00010000)


def noise(rng, n):
    return bytes(rng.randrange(256) for _ in range(n))


def discriminators(info):
    out = {0, 1, 0xFFFFFFFF, 0x80000000}
    for d in info.defs.values():
        if d["k"] in ("union", "enum"):
            out |= {schema.disc_of(m) for m in d["m"]}
    return sorted(out)


def substitute(rng, info, role, b):
    """Another content for one token."""
    w = len(b)
    mask = (1 << 8 * w) - 1
    if role == "count":
        n = int.from_bytes(b, "little")
        x = rng.choice([n + 1, n - 1, n + 2, n * 2, rng.choice(COUNTS), rng.choice(COUNTS), rng.randrange(mask + 1)])
    elif role == "flag":
        x = rng.choice(FLAGS)
    elif role in ("disc", "enum"):
        x = rng.choice(discriminators(info) + [rng.randrange(1 << 32), int.from_bytes(b[::-1], "little")])
    elif role == "pad":
        x = rng.randrange(1, 256)
    else:
        x = rng.choice([0, mask, 1 << (8 * w - 1), rng.randrange(mask + 1)])
    return (x & mask).to_bytes(w, "little")


def damaged(rng, info, t, v, e, many):
    """Byte strings around the encoding of v: yields (fault, bytes)."""
    toks = info.tokens(t, v)
    flat = schema.flatten
    good = flat(toks, e)
    yield "none", good
    yield "other order", flat(toks, "<" if e == ">" else ">")
    special = [k for k, (role, _) in enumerate(toks) if role in ("count", "flag", "disc", "enum")]
    for _ in range(many):
        r = rng.random()
        if special and r < 0.42:
            ts = list(toks)
            for k in rng.sample(special, min(len(special), rng.choice([1, 1, 1, 2, 3]))):
                ts[k] = (ts[k][0], substitute(rng, info, *ts[k]))
            b = flat(ts, e)
            if rng.random() < 0.3:
                b = adjust(rng, b)
            yield "substituted", b
        elif r < 0.52 and toks:
            ts = list(toks)
            for _ in range(rng.choice([1, 2, 4])):
                k = rng.randrange(len(ts))
                ts[k] = (ts[k][0], substitute(rng, info, *ts[k]))
            yield "substituted", flat(ts, e)
        elif r < 0.66 and toks:
            # cut at or near a token boundary
            k = rng.randrange(len(toks))
            n = schema.length(toks[:k]) + rng.choice([0, 0, 1, -1, 2, 3])
            yield "truncated", good[:max(0, n)]
        elif r < 0.8:
            yield "adjusted", adjust(rng, good)
        elif r < 0.88 and toks:
            ts = list(toks)
            k = rng.randrange(len(ts))
            if rng.random() < 0.5:
                del ts[k]
            else:
                ts.insert(k, ts[rng.randrange(len(ts))])
            yield "token removed or repeated", flat(ts, e)
        elif r < 0.95 and good:
            b = bytearray(good)
            for _ in range(rng.choice([1, 2, 8])):
                b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
            yield "flipped", bytes(b)
        else:
            yield "noise", noise(rng, rng.choice([0, 1, 2, 3, 4, 8, len(good), rng.randrange(64)]))


def adjust(rng, b):
    if b and rng.random() < 0.5:
        return b[:len(b) - rng.randint(1, min(len(b), 9))]
    n = rng.randint(1, 17)
    return b + rng.choice([bytes(n), noise(rng, n)])


def long_message(rng, info, t):
    """A value; sometimes one with a longer array."""
    return gen.value(rng, info, t)
