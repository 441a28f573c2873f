"""Histories enumerated by MCMessage, replayed on the real API."""
import json
import os
import re

from . import api, env, gen, pool, pyrun, schema, tlc
from .schema import member, struct, union, arm, enum, enumerator

EMPTY = {"op": "", "m": 0, "p": [], "a": api.NONE, "l": [], "x": 0, "sl": [[], [], []], "kw": []}


def call(op, m=0, p=(), a=None, l=None, x=0, sl=None):
    """(operation record, raw arguments)."""
    e = dict(EMPTY, op=op, m=m, p=[list(s) for s in p], a=api.record(a), x=x)
    if l is not None:
        e["l"] = [api.record(y) for y in l]
    if sl is not None:
        e["sl"] = api.slice_record(sl)
    return e, (a, l, x, sl)


def array_menu(k, p=(), two=(1, 2), bad="no"):
    s = slice
    return [call("append", k, p, two[0]), call("append", k, p, bad), call("insert", k, p, two[1], x=0),
            call("insert", k, p, two[1], x=-1), call("extend", k, p, l=list(two)), call("extend", k, p, l=[two[0], bad]),
            call("seti", k, p, two[1], x=0), call("seti", k, p, two[1], x=-2), call("sets", k, p, l=[two[0]], sl=s(0, 1)),
            call("sets", k, p, l=[two[1], two[0]], sl=s(None, None, 2)), call("sets", k, p, l=[], sl=s(None, None)),
            call("sets", k, p, l=[two[0], two[1], two[0]], sl=s(1, None)), call("deli", k, p, x=0),
            call("deli", k, p, x=2), call("dels", k, p, sl=s(None, None, -1)), call("dels", k, p, sl=s(1, 2)),
            call("remove", k, p, two[0]), call("sort", k, p), call("selfextend", k, p)]


def composite_menu(k, p=()):
    s = slice
    return [call("add", k, p), call("selfextend", k, p), call("deli", k, p, x=0), call("deli", k, p, x=-2),
            call("dels", k, p, sl=s(None, 1)), call("dels", k, p, sl=s(None, None)), call("dels", k, p, sl=s(None, None, 2)),
            call("set", k, p, a=[])]


def cases():
    lib = gen.base_library()

    def m(ms):
        return lib + [struct("M", ms)]
    out = []
    for a, n in (("fix", 2), ("lim", 2), ("dyn", 0), ("greedy", 0)):
        for t, two, bad in (("u8", (7, 255), 256), ("i16", (-5, 6), "no"), ("EB", (2, "EB_Z"), 3)):
            menu = array_menu(1, two=two, bad=bad)
            if a == "fix":
                menu = [x for x in menu if x[0]["op"] in ("seti", "sets")]
            out.append((m([member("x", t, a, n)]), "M", menu))
    out.append((m([member("n", "u8"), member("x", "u16", "ext", s="n"), member("y", "u8", "ext", s="n")]), "M",
                array_menu(2)[:8] + array_menu(3)[:5] + [call("dels", 3, sl=slice(None, None))]))
    for a, n in (("lim", 2), ("dyn", 0), ("greedy", 0)):
        for t in ("F2", "U4", "FO"):
            menu = composite_menu(1)
            if t == "U4":
                menu += [call("disc", 0, [(1, 1)], "b"), call("disc", 0, [(1, 1)], 7), call("set", 1, [(1, 1)], 9),
                         call("set", 2, [(1, 2)], "EA_Y"), call("disc", 0, [(1, 2)], 0), call("read", 3, [(1, 1)])]
            else:
                menu += [call("set", 1, [(1, 1)], 9), call("set", 1, [(1, 1)], 1 << 16), call("set", 2, [(1, 2)], 5),
                         call("set", 2, [(1, 1)], None)]
            out.append((m([member("x", t, a, n)]), "M", menu))
    for t, vals in (("u8", (None, 0, 255, 256, -1, "x", True)), ("EA", (None, "EA_X", 0, 7, "nope", 0xFFFFFFFF)),
                    ("double", (None, 1, 2.5, "x", 1 << 100))):
        for a in ("opt", "plain"):
            out.append((m([member("x", t, a), member("y", "u8")]), "M",
                        [call("set", 1, a=v) for v in vals] + [call("set", 2, a=3), call("set", 2, a=300)]))
    for t, fields in (("F4", ((1, 5), (2, 300), (2, 9))), ("FL", ((2, b"abc"), (2, b"abcdef")))):
        out.append((m([member("x", t, "opt"), member("z", t)]), "M",
                    [call("set", 1, a=v) for v in (None, True, 1, "x")] +
                    [call("set", k, [(1, 0)], v) for k, v in fields] + [call("set", k, [(2, 0)], v) for k, v in fields] +
                    ([call("append", 1, [(1, 0)], 3), call("append", 1, [(2, 0)], 4)] if t == "FL" else []) +
                    [call("set", 2, a=True), call("set", 2, a=None)]))
    for n, bs in ((("fix", 3), (b"", b"ab", b"abc", b"abcd", "txt", None)), (("lim", 3), (b"", b"a", b"abc", b"abcd", 5)),
                  (("dyn", 0), (b"", b"a", b"\0\0", "txt")), (("greedy", 0), (b"", b"xyz", None))):
        out.append((m([member("x", "byte", *n)]), "M", [call("set", 1, a=v) for v in bs]))
    u = [call("disc", 0, (), v) for v in ("a", "b", "c", "d", 3, 0x80000000, 0xFFFFFFFF, 0, 99, "z", None)] + \
        [call("set", 1, (), v) for v in (-3, 40000)] + [call("set", 2, (), 1 << 63), call("set", 3, (), 1),
                                                        call("set", 1, [(3, 0)], 200), call("set", 2, [(3, 0)], 8),
                                                        call("set", 2, [(3, 0)], None), call("read", 1), call("read", 4)]
    out.append((lib, "U8", u))
    return out


def enumerate_histories(depth, timeout=800):
    work = env.scratch("hist")
    cs = cases()
    path = os.path.join(work, "lib.json")
    with open(path, "w") as f:
        json.dump([{"defs": schema.closure(schema.Info(defs), t), "t": t, "menu": [e for e, _ in menu]}
                   for defs, t, menu in cs], f)
    cfg = os.path.join(work, "MC.cfg")
    base = open(os.path.join(env.SPEC, "MCMessage.cfg")).read()
    with open(cfg, "w") as f:
        f.write(re.sub(r"Depth = \d+", "Depth = %d" % depth, base))
    res = tlc.model("MCMessage", cfg=cfg, LIB=path, PRINT="1", timeout=timeout)
    found = [[] for _ in cs]
    for line in res["out"].splitlines():
        if line.startswith('<<"HISTORY", '):
            h = json.loads(json.loads(line[len('<<"HISTORY", '):-2]))
            found[h["c"] - 1].append(h)
    env.drop(work)
    return res, cs, found


def perform(walk, t, msg, info, e, raw):
    a, l, x, sl = raw
    target = walk.at(t, msg, e["p"])
    tt = t
    for k, _ in e["p"]:
        tt = info.defs[info.resolved(tt)]["m"][k - 1]["t"]
    d = info.defs[info.resolved(tt)]
    name = d["m"][e["m"] - 1]["name"] if e["m"] else ""
    op = e["op"]
    if op == "set":
        setattr(target, name, a)
    elif op == "disc":
        target.discriminator = a
    elif op == "read":
        getattr(target, name)
    else:
        arr = getattr(target, name)
        {"append": lambda: arr.append(a), "insert": lambda: arr.insert(x, a), "extend": lambda: arr.extend(l),
         "seti": lambda: arr.__setitem__(x, a), "sets": lambda: arr.__setitem__(sl, l),
         "deli": lambda: arr.__delitem__(x), "dels": lambda: arr.__delitem__(sl), "remove": lambda: arr.remove(a),
         "sort": lambda: arr.sort(), "selfextend": lambda: arr.extend(arr), "add": lambda: arr.add()}[op]()


def replay(args):
    """Replays the histories of one case; returns mismatches."""
    defs, t, menu, histories = args
    pool.cap_memory()
    program = gen.Program(schema.closure(schema.Info(defs), t), [t])
    try:
        mod = pyrun.load(program)
    except pyrun.CompileRejected as e:
        return [{"why": "a valid schema has no usable Python codec: %s" % str(e)[:300]}], 0
    info = program.info
    walk = api.Walker(info)
    cls = getattr(mod, t)
    bad = []
    for h in histories:
        try:
            with pyrun.limit(10):
                why = one(info, walk, t, cls, menu, h)
        except BaseException as e:
            why = "unexpected %r" % e
        if why:
            bad.append({"why": why, "schema": schema.render(schema.closure(info, t)), "outcomes": h["o"],
                        "history": [(menu[n - 1][0]["op"], menu[n - 1][0]["p"], menu[n - 1][0]["m"],
                                     repr(menu[n - 1][1])) for n in h["h"]], "expected": h["f"]})
            if len(bad) > 3:
                break
    return bad, len(histories)


def one(info, walk, t, cls, menu, h):
    msg = cls()
    for n, ok in zip(h["h"], h["o"]):
        e, raw = menu[n - 1]
        out, x = api.attempt(lambda: perform(walk, t, msg, info, e, raw))
        if (out == "ok") != bool(ok):
            return "%s: specification %s, API %s %s" % (e["op"], "accepts" if ok else "refuses", out, x)
        allowed = {"prophy", "ok"} | ({"index"} if e["op"] in ("seti", "deli") else
                                      {"value"} if e["op"] in ("sets", "dels", "remove") else set())
        if out not in allowed:
            return "%s refused with %s" % (e["op"], x)
    f = pyrun.flat(info, t, msg)
    if f != h["f"]:
        return ("message holds %s" % f)[:400]
    try:
        enc = list(msg.encode("<"))
    except Exception as e:
        enc = [-1] if type(e).__name__ == "ProphyError" else [-2]
    if enc != h["e"]:
        return ("message encodes to %s" % enc)[:400]
    return None


def check(c, depth):
    res, cs, found = enumerate_histories(depth)
    c.add_model(res)
    jobs = []
    for (defs, t, menu), hs in zip(cs, found):
        for k in range(0, len(hs), 4000):
            jobs.append((defs, t, menu, hs[k:k + 4000]))
    total = 0
    for bad, n in pool.pmap(replay, jobs):
        total += n
        for b in bad:
            c.violation("enumerated history: %s" % b["why"], b)
    c.coverage["traces_validated_against_impl"] += total
    c.count("histories_replayed", total)
