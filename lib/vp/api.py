"""Random histories of Python message API calls, recorded as events for TraceMessage."""
import copy
import random
import struct as pystruct

from . import env, gen, pool, pyrun, schema
from .schema import WIDTH, SIGNED, INTS

NONE = {"k": "none", "b": [], "d": [], "s": [], "c": []}


class Stranger(object):
    pass


def pack(fmt, x):
    try:
        return list(pystruct.pack(fmt, x))
    except (OverflowError, pystruct.error):
        return []


def record(x):
    """A Python object as Message.tla sees it."""
    r = dict(NONE)
    if x is None:
        return r
    if isinstance(x, (bool, int)):
        r["k"] = "bool" if isinstance(x, bool) else "int"
        r["b"] = list(int(x).to_bytes(17, "little", signed=True))
        r["d"], r["s"] = pack("<d", x), pack("<f", x)
    elif isinstance(x, float):
        r["k"] = "float"
        r["d"], r["s"] = pack("<d", x), pack("<f", x)
    elif isinstance(x, str):
        r["k"] = "str"
        r["c"] = [ord(ch) for ch in x]
    elif isinstance(x, bytes):
        r["k"] = "bytes"
        r["b"] = list(x)
    else:
        r["k"] = "other"
    return r


def good(rng, info, t):
    """A Python object acceptable for a scalar or enum of type t."""
    r = info.resolved(t)
    d = info.defs.get(r)
    if d is not None:
        m = rng.choice(d["m"])
        return m["name"] if rng.random() < 0.4 else schema.disc_of(m)
    x = pyrun.to_py(info, r, gen.scalar_value(rng, info, r))
    if r in ("float", "double"):
        if x != x:
            return 1.5
        return rng.choice([x, x, x, 3, -7, True])
    if rng.random() < 0.08:
        return rng.random() < 0.5
    if rng.random() < 0.5:
        w = 8 * WIDTH[r]
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if r in SIGNED else (0, (1 << w) - 1)
        return rng.choice([lo, hi, 0, 1, 2, 3])
    return x


def bad(rng, info, t):
    """An object that usually is not acceptable."""
    r = info.resolved(t)
    d = info.defs.get(r)
    pool = [None, "nope", b"x", Stranger(), [1], 1 << 64, -1, -(1 << 63) - 1, 1 << 100, 2.5, 1e39, 1e308, (), 1 << 32,
            float(3)]
    if d is not None:
        pool += [d["m"][0]["name"] + "x", 12345, 1, 0, ""]
    elif r in INTS:
        w = 8 * WIDTH[r]
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if r in SIGNED else (0, (1 << w) - 1)
        pool += [lo - 1, hi + 1, lo - 1, hi + 1, -lo, hi + 2, 1 << w]
    else:
        pool += [10 ** 40, -10 ** 39, 1e300]
    return rng.choice(pool)


def some(rng, info, t, p_bad=0.25):
    return bad(rng, info, t) if rng.random() < p_bad else good(rng, info, t)


def narrow(info, d, m):
    """What the one-byte sizer of field m can count, or 0."""
    if m["a"] != "ext":
        return 0
    r = info.resolved(next(o["t"] for o in d["m"] if o["name"] == m["s"]))
    return {"u8": 255, "i8": 127}.get(r, 0)


def some_bytes(rng, m, cap=0):
    if cap and rng.random() < 0.2:
        return bytes(rng.choice([cap, cap + 1, cap - 1, 300]))
    if rng.random() < 0.15:
        return rng.choice([None, "text", 5, [1, 2], Stranger()])
    n = m["n"] if m["a"] in ("fix", "lim") else 4
    return bytes(gen.bytes_value(rng, rng.choice([0, n, n + 1, max(0, n - 1), rng.randrange(8)])))


def some_index(rng, n):
    return rng.choice([0, -1, n - 1, n, -n, -n - 1, n + 3, rng.randint(-n - 1, n + 1)])


def some_slice(rng, n):
    def bound():
        return None if rng.random() < 0.35 else rng.randint(-n - 2, n + 2)
    step = None if rng.random() < 0.6 else rng.choice([1, 1, 2, -1, -2, 3, 0])
    return slice(bound(), bound(), step)


def slice_record(sl):
    return [[] if x is None else [x] for x in (sl.start, sl.stop, sl.step)]


def selected(sl, n):
    try:
        return len(range(n)[sl])
    except ValueError:
        return 0


class Walker(object):
    """Finds places in a message, looking at a deep copy so that looking changes nothing."""

    def __init__(self, info):
        self.info = info

    def places(self, t, msg, p=()):
        """All (path, type) of composites in msg."""
        out = [(list(p), t)]
        d = self.info.defs[self.info.resolved(t)]
        if d["k"] == "union":
            for k, m in enumerate(d["m"]):
                if schema.disc_of(m) == msg.discriminator and self.composite(m["t"]):
                    out += self.places(m["t"], getattr(msg, m["name"]), p + ((k + 1, 0),))
            return out
        for k, m in enumerate(d["m"]):
            if m["t"] == "byte" or not self.composite(m["t"]):
                continue
            x = getattr(msg, m["name"])
            if m["a"] == "plain":
                out += self.places(m["t"], x, p + ((k + 1, 0),))
            elif m["a"] == "opt":
                if x is not None:
                    out += self.places(m["t"], x, p + ((k + 1, 0),))
            else:
                for j in range(len(x)):
                    out += self.places(m["t"], x[j], p + ((k + 1, j + 1),))
        return out

    def composite(self, t):
        return self.info.kind(t) in ("struct", "union")

    def at(self, t, msg, path):
        for k, j in path:
            m = self.info.defs[self.info.resolved(t)]["m"][k - 1]
            msg = getattr(msg, m["name"])
            if j:
                msg = msg[j - 1]
            t = m["t"]
        return msg


def attempt(fn):
    """Outcome class of a call."""
    from prophy.exception import ProphyError
    try:
        with pyrun.limit(5):
            fn()
        return "ok", ""
    except pyrun.TookTooLong:
        return "hangs", "no answer"
    except ProphyError as e:
        return "prophy", repr(e)
    except IndexError as e:
        return "index", repr(e)
    except ValueError as e:
        return "value", repr(e)
    except AttributeError as e:
        return "attribute", repr(e)
    except TypeError as e:
        return "type", repr(e)
    except BaseException as e:
        return "other", repr(e)


class History(object):
    def __init__(self, rng, info, t, cls, objects, copies, stray):
        self.rng, self.info, self.t = rng, info, t
        self.objs = [cls() for _ in range(objects)]
        self.walk = Walker(info)
        self.copies = copies
        self.stray = stray
        self.events = [{"k": "new", "t": t, "n": objects}]

    def shadow(self, o):
        try:
            return copy.deepcopy(self.objs[o])
        except Exception:
            return self.objs[o]

    def flats(self):
        out = []
        for o in range(len(self.objs)):
            try:
                with pyrun.limit(10):
                    out.append(pyrun.flat(self.info, self.t, self.shadow(o)))
            except BaseException as e:
                out.append([-9])
        return out

    def encoding(self, o):
        from prophy.exception import ProphyError
        target = self.shadow(o) if self.rng.random() < 0.7 else self.objs[o]
        try:
            with pyrun.limit(10):
                return list(target.encode("<"))
        except ProphyError:
            return [-1]
        except BaseException:
            return [-2]

    def emit(self, e, fn):
        e.setdefault("op", "")
        for key, val in (("m", 0), ("a", NONE), ("l", []), ("x", 0), ("sl", [[], [], []]), ("kw", []), ("src", []), ("r", []),
                         ("o2", 1), ("p2", [])):
            e.setdefault(key, val)
        e["t"] = self.t
        e["out"], x = attempt(fn)
        if x:
            e["x_"] = x[:200]
        e["r"] = [int(x) if isinstance(x, int) else -9 for x in e["r"]]
        ended = e["out"] != "hangs"
        e["f"] = self.flats() if ended else [[-9] for _ in self.objs]
        e["enc"] = self.encoding(e["o"] - 1) if ended and self.rng.random() < 0.4 else []
        self.events.append(e)

    def step(self):
        rng = self.rng
        o = rng.randrange(len(self.objs))
        places = self.walk.places(self.t, self.shadow(o))
        p, t = rng.choice(places)
        if self.copies and rng.random() < self.copies:
            self.copy_step(o, places)
            return
        target = self.walk.at(self.t, self.objs[o], p)
        if rng.random() < 0.05 and self.take_step(o, p, t, target):
            return
        d = self.info.defs[self.info.resolved(t)]
        base = {"k": "op", "o": o + 1, "p": p}
        if d["k"] == "union":
            self.union_step(base, d, target)
        elif d["m"]:
            self.struct_step(base, d, target, o, p)

    def copy_step(self, o, places):
        rng = self.rng
        o2 = rng.randrange(len(self.objs))
        if o2 == o and rng.random() < 0.7:
            o2 = (o + 1) % len(self.objs)
        theirs = self.walk.places(self.t, self.shadow(o2))
        pairs = [(p, q) for p, t in places for q, u in theirs
                 if self.info.resolved(t) == self.info.resolved(u) and
                 not (o == o2 and (q[:len(p)] == p or p[:len(q)] == q) and p != q)]
        if rng.random() < 0.6:
            pairs = [([], [])]
        p, q = rng.choice(pairs)
        e = {"k": "copy", "o": o + 1, "p": p, "o2": o2 + 1, "p2": q}
        dst = self.walk.at(self.t, self.objs[o], p)
        src = self.walk.at(self.t, self.objs[o2], q)
        self.emit(e, lambda: dst.copy_from(src))

    def take_step(self, o, p, t, target):
        """The message or a part of it decodes an encoding of something else."""
        v = gen.aligned_value(self.rng, self.info, t)
        if v is None:
            return False
        order = self.rng.choice("<>")
        data = bytes(self.info.encode(t, v, order))
        self.emit({"k": "take", "o": o + 1, "p": p, "v": v, "e": order, "b": list(data)}, lambda: target.decode(data, order))
        return True

    def union_step(self, e, d, target):
        rng = self.rng
        k = rng.randrange(len(d["m"]))
        m = d["m"][k]
        r = rng.random()
        if r < 0.4:
            x = rng.choice([m["name"], schema.disc_of(m)])
            if rng.random() < 0.2:
                x = rng.choice(["nope", 4242, -1, 1 << 32, None, b"a", "", 2.5, m["name"] + "x"])
            e.update(op="disc", a=record(x))
            self.emit(e, lambda: setattr(target, "discriminator", x))
        elif r < 0.5:
            e.update(op="read", m=k + 1)
            self.emit(e, lambda: getattr(target, m["name"]))
        else:
            comp = self.walk.composite(m["t"])
            x = rng.choice([None, True, 1, Stranger()]) if comp else some(rng, self.info, m["t"])
            e.update(op="set", m=k + 1, a=record(x))
            self.emit(e, lambda: setattr(target, m["name"], x))

    def struct_step(self, e, d, target, o, p):
        rng, info = self.rng, self.info
        k = rng.randrange(len(d["m"]))
        m = d["m"][k]
        e["m"] = k + 1
        name = m["name"]
        if pyrun.is_sizer(d["m"], m):
            x = rng.randrange(5)
            e.update(op="setsizer", a=record(x))
            self.emit(e, lambda: setattr(target, name, x))
            return
        comp = m["t"] != "byte" and self.walk.composite(m["t"])
        if m["t"] == "byte":
            x = some_bytes(rng, m, narrow(info, d, m))
        elif m["a"] == "plain":
            x = rng.choice([None, True, 1, Stranger(), type(target)()]) if comp else some(rng, info, m["t"])
        elif m["a"] == "opt":
            if comp:
                x = rng.choice([None, True, True, True, 1, False, Stranger(), "x"])
            else:
                x = None if rng.random() < 0.3 else some(rng, info, m["t"])
                if x is None and rng.random() < 0.1:
                    x = bad(rng, info, m["t"])
        else:
            self.array_step(e, d, m, getattr(target, name), target, comp, o)
            return
        e.update(op="set", a=record(x))
        self.emit(e, lambda: setattr(target, name, x))

    def array_step(self, e, d, m, arr, owner, comp, o):
        rng, info = self.rng, self.info
        n = len(arr)
        if rng.random() < 0.03:
            x = rng.choice([[], None, 1, Stranger()])
            e.update(op="set", a=record(x))
            self.emit(e, lambda: setattr(owner, m["name"], x))
            return
        if comp:
            if m["a"] == "fix":
                x = rng.choice([[], None, 1])
                e.update(op="set", a=record(x))
                self.emit(e, lambda: setattr(owner, m["name"], x))
                return
            self.composite_array_step(e, m, arr, n, o)
            return
        fixed = m["a"] == "fix"
        ops = ["seti", "sets", "sets"] if fixed else \
            ["append", "append", "append", "insert", "extend", "extend", "seti", "sets", "sets", "deli", "dels", "remove",
             "sort", "selfextend"]
        if rng.random() < 0.15:
            self.read_step(e, m, arr, n, False)
            return
        if info.resolved(m["t"]) in ("float", "double"):
            ops = [x for x in ops if x not in ("remove", "sort")]
        op = rng.choice(ops)
        x = some(rng, info, m["t"])
        if n > 8 and op in ("extend", "append", "insert", "selfextend"):
            op = "dels"
        if op == "append":
            e.update(op=op, a=record(x))
            self.emit(e, lambda: arr.append(x))
        elif op == "insert":
            i = some_index(rng, n)
            e.update(op=op, a=record(x), x=i)
            self.emit(e, lambda: arr.insert(i, x))
        elif op in ("extend", "sets"):
            sl = some_slice(rng, n)
            cnt = rng.choice([0, 1, 2, 3])
            if op == "sets" and rng.random() < 0.6:
                cnt = selected(sl, n)
            xs = [some(rng, info, m["t"], 0.06) for _ in range(cnt)]
            cap = narrow(info, d, m)
            if cap and rng.random() < 0.15:
                xs = [good(rng, info, m["t"])] * (cap + rng.choice([0, 1, -n, 1 - n]))
            form = rng.choice([list, list, list, tuple, iter, lambda s: (y for y in s)])
            e.update(op=op, l=[record(y) for y in xs], sl=slice_record(sl) if op == "sets" else [[], [], []])
            given = form(xs)
            if op == "extend":
                self.emit(e, lambda: arr.extend(given))
            else:
                self.emit(e, lambda: arr.__setitem__(sl, given))
        elif op == "seti":
            i = some_index(rng, n)
            e.update(op=op, a=record(x), x=i)
            self.emit(e, lambda: arr.__setitem__(i, x))
        elif op == "deli":
            i = some_index(rng, n)
            e.update(op=op, x=i)
            self.emit(e, lambda: arr.__delitem__(i))
        elif op == "dels":
            sl = some_slice(rng, n)
            e.update(op=op, sl=slice_record(sl))
            self.emit(e, lambda: arr.__delitem__(sl))
        elif op == "remove":
            if n and rng.random() < 0.7:
                x = int(arr[rng.randrange(n)])
            elif isinstance(x, float):
                x = 3
            e.update(op=op, a=record(x))
            self.emit(e, lambda: arr.remove(x))
        elif op == "sort":
            e.update(op=op)
            self.emit(e, lambda: arr.sort())
        else:
            e.update(op=op)
            self.emit(e, lambda: arr.extend(arr))

    def read_step(self, e, m, arr, n, comp):
        """A look at an array; what it tells is put in the event."""
        rng, info, t = self.rng, self.info, m["t"]
        plain = not comp and info.resolved(t) not in ("float", "double")
        op = rng.choice(["geti", "geti", "gets", "gets", "len"] + ["eq", "eq"] * plain)
        told = e["r"] = []
        i, sl = some_index(rng, n), some_slice(rng, n)
        e.update(op=op, x=i if op == "geti" else 0, sl=slice_record(sl) if op == "gets" else [[], [], []])
        if op == "geti":
            self.emit(e, lambda: told.extend(pyrun.flat(info, t, arr[i])))
        elif op == "gets":
            self.emit(e, lambda: told.extend(x for elem in arr[sl] for x in pyrun.flat(info, t, elem)))
        elif op == "len":
            self.emit(e, lambda: told.append(len(arr)))
        else:
            xs = [int(x) for x in arr[:]]
            r = rng.random()
            if r < 0.3 and xs:
                xs[rng.randrange(n)] = good(rng, info, t)
            elif r < 0.4:
                xs = xs[:-1] if rng.random() < 0.5 else xs + xs[:1]
            xs = [x for x in xs if isinstance(x, int)]
            e["l"] = [record(x) for x in xs]
            look = rng.choice([lambda: arr == xs, lambda: xs == arr, lambda: not arr != xs, lambda: not xs != arr])
            self.emit(e, lambda: told.append(look()))

    def composite_array_step(self, e, m, arr, n, o):
        rng, info = self.rng, self.info
        e["comp"] = 1
        if rng.random() < 0.1:
            self.read_step(e, m, arr, n, True)
            return
        op = rng.choice(["add", "add", "add", "extendc", "extendc", "deli", "dels", "selfextend"])
        if n > 4 and op != "deli":
            op = "dels"
        if op == "add":
            kw, args = [], {}
            d = info.defs[info.resolved(m["t"])]
            if d["k"] == "struct" and rng.random() < 0.5:
                for k, f in enumerate(d["m"]):
                    if pyrun.is_sizer(d["m"], f) or rng.random() < 0.6:
                        continue
                    if f["t"] != "byte" and self.walk.composite(f["t"]):
                        continue
                    if f["t"] == "byte":
                        x = some_bytes(rng, f)
                    elif f["a"] in ("plain", "opt"):
                        x = some(rng, info, f["t"], 0.1)
                    else:
                        cnt = f["n"] if f["a"] == "fix" and rng.random() < 0.8 else rng.randrange(3)
                        xs = [some(rng, info, f["t"], 0.05) for _ in range(cnt)]
                        kw.append({"k": k + 1, "a": NONE, "l": [record(y) for y in xs]})
                        args[f["name"]] = xs
                        continue
                    kw.append({"k": k + 1, "a": record(x), "l": []})
                    args[f["name"]] = x
            e.update(op=op, kw=kw)
            self.emit(e, lambda: arr.add(**args))
        elif op == "extendc":
            refs, srcs = [], []
            for _ in range(rng.randrange(3)):
                o2 = rng.randrange(len(self.objs))
                cands = [(q, u) for q, u in self.walk.places(self.t, self.shadow(o2))
                         if info.resolved(u) == info.resolved(m["t"])]
                if not cands:
                    continue
                if rng.random() < self.stray:
                    cands = self.walk.places(self.t, self.shadow(o2))
                q, u = rng.choice(cands)
                refs.append([o2 + 1, q])
                srcs.append(self.walk.at(self.t, self.objs[o2], q))
            form = rng.choice([list, list, tuple, iter])
            e.update(op=op, src=refs)
            given = form(srcs)
            self.emit(e, lambda: arr.extend(given))
        elif op == "deli":
            i = some_index(rng, n)
            e.update(op=op, x=i)
            self.emit(e, lambda: arr.__delitem__(i))
        elif op == "dels":
            sl = some_slice(rng, n)
            e.update(op=op, sl=slice_record(sl))
            self.emit(e, lambda: arr.__delitem__(sl))
        else:
            e.update(op=op)
            self.emit(e, lambda: arr.extend(arr))


def histories(args):
    """Worker: (program, seed, (histories per type, steps, objects, copy probability, probability
    of extending by an element of another class))."""
    program, seed, (count, steps, objects, copies, stray) = args
    pool.cap_memory()
    rng = random.Random(seed)
    info = program.info
    try:
        mod = pyrun.load(program)
    except pyrun.CompileRejected as e:
        return {"unusable": str(e), "schema": schema.render(program.defs)}
    out, hangs = [], 0
    for t in program.types:
        events = []
        for _ in range(0 if hangs > 1 else count):
            h = History(rng, info, t, getattr(mod, t), objects, copies, stray)
            try:
                with pyrun.limit(60):
                    for _ in range(steps):
                        h.step()
                        if h.events[-1].get("out") not in (None, "ok", "prophy", "index", "value"):
                            break
            except BaseException as e:
                h.events.append(h.events[0])
                events.append({"k": "broken", "x_": repr(e)[:300], "t": t, "history": h.events})
                continue
            events += h.events
            hangs += h.events[-1].get("out") == "hangs"
        out.append((t, schema.closure(info, t), events))
    return {"events": out}
