"""Driving generated Python codecs: compile, import, assign values, observe."""
import contextlib
import importlib
import os
import signal
import struct as pystruct
import sys

from . import env, schema
from .schema import WIDTH, SIGNED

_counter = [0]


class CompileRejected(Exception):
    pass


class TookTooLong(Exception):
    pass


@contextlib.contextmanager
def limit(seconds):
    """Interrupt the code under test after so many seconds (main thread only)."""
    def ring(signum, frame):
        raise TookTooLong("no answer within %s s" % seconds)
    old = signal.signal(signal.SIGALRM, ring)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def load(program, stem="s", extra=()):
    """Generated module of a program, or raises CompileRejected whatever went wrong."""
    try:
        mod = compile_python({stem: schema.render(program.defs)}, extra=extra)[stem]
        for t in program.types:
            getattr(mod, t)
        return mod
    except CompileRejected:
        raise
    except Exception as e:
        raise CompileRejected("generated module is unusable: %r" % e)


def compile_python(files, out_root=None, extra=()):
    """files: {stem: text}.  Returns {stem: module} of generated Python."""
    env.use_repo()
    root = out_root or env.scratch("py")
    _counter[0] += 1
    pkg = "vpgen_%d_%d" % (os.getpid(), _counter[0])
    src = os.path.join(root, "src_" + pkg)
    out = os.path.join(root, pkg)
    os.makedirs(src)
    os.makedirs(out)
    paths = []
    for stem, text in files.items():
        path = os.path.join(src, stem + ".prophy")
        with open(path, "w") as f:
            f.write(text)
        paths.append(path)
    rc, so, se = env.prophyc(["--python_out", out] + list(extra) + paths)
    if rc != 0:
        raise CompileRejected(se or so)
    open(os.path.join(out, "__init__.py"), "w").close()
    sys.path.insert(0, root)
    try:
        importlib.invalidate_caches()
        return {stem: importlib.import_module("%s.%s" % (pkg, stem)) for stem in files}
    finally:
        sys.path.remove(root)


def runtime_text(defs, value=schema.disc_of):
    """Python module with the definitions written for the runtime library by hand."""
    names = {"float": "r32", "double": "r64", "byte": "u8"}

    def tname(t):
        return "prophy." + names.get(t, t) if t in WIDTH else t

    def field(m):
        a, t = m["a"], tname(m["t"])
        args = {"fix": ["size=%d" % m["n"]], "greedy": [], "ext": ["bound=%r" % m["s"]],
                "dyn": ["bound=%r" % (m["name"] + "_len")],
                "xlim": ["bound=%r" % m["s"], "size=%d" % m["n"]],
                "lim": ["bound=%r" % (m["name"] + "_len"), "size=%d" % m["n"]]}.get(a)
        if a == "plain":
            expr = t
        elif a == "opt":
            expr = "prophy.optional(%s)" % t
        elif m["t"] == "byte":
            expr = "prophy.bytes(%s)" % ", ".join(args)
        else:
            expr = "prophy.array(%s)" % ", ".join([t] + args)
        lead = "(%r, prophy.u32), " % (m["name"] + "_len") if a in ("dyn", "lim") else ""
        return "%s(%r, %s)" % (lead, m["name"], expr)

    out = ["import prophy"]
    for d in defs:
        if d["k"] == "typedef":
            out.append("%s = %s" % (d["name"], tname(d["t"])))
            continue
        body = {"enum": lambda m: "(%r, %d)" % (m["name"], value(m)),
                "struct": field,
                "union": lambda m: "(%r, %s, %d)" % (m["name"], tname(m["t"]), value(m))}[d["k"]]
        out.append("class %s(prophy.with_metaclass(prophy.%s_generator, prophy.%s)):\n    %s = [%s]" % (
            d["name"], d["k"], d["k"], "_enumerators" if d["k"] == "enum" else "_descriptor",
            ", ".join(body(m) for m in d["m"])))
    return "\n".join(out) + "\n"


def runtime_module(defs, value=schema.disc_of):
    import types
    env.use_repo()
    mod = types.ModuleType("vp_by_hand")
    try:
        exec(runtime_text(defs, value), mod.__dict__)
    except Exception as e:
        raise CompileRejected("%s: %s" % (type(e).__name__, e))
    return mod


def to_py(info, t, b):
    r = info.resolved(t)
    if r == "float":
        return pystruct.unpack("<f", bytes(b))[0]
    if r == "double":
        return pystruct.unpack("<d", bytes(b))[0]
    return int.from_bytes(bytes(b), "little", signed=r in SIGNED)


def from_py(info, t, x):
    """Observed scalar as little-endian bytes; [-1] when it is not a value of the type."""
    r = info.resolved(t)
    try:
        if r == "float":
            return list(pystruct.pack("<f", x))
        if r == "double":
            return list(pystruct.pack("<d", x))
        w = WIDTH.get(r, 4)
        return list(int(x).to_bytes(w, "little", signed=r in SIGNED))
    except Exception:
        return [-1]


def is_sizer(ms, m):
    return m["a"] == "plain" and any(o["a"] in ("ext", "xlim") and o["s"] == m["name"] for o in ms)


def assign(info, t, msg, v):
    """Give message msg (of type t) the abstract value v through the public API."""
    d = info.defs[info.resolved(t)]
    if d["k"] == "union":
        m = d["m"][v[0] - 1]
        msg.discriminator = m["name"] if v[0] % 2 else int.from_bytes(bytes(m["v"]), "little")
        if info.kind(m["t"]) in ("struct", "union"):
            assign(info, m["t"], getattr(msg, m["name"]), v[1])
        else:
            setattr(msg, m["name"], to_py(info, m["t"], v[1]))
        return
    for m, x in zip(d["m"], v):
        a, mt, name = m["a"], m["t"], m["name"]
        if is_sizer(d["m"], m):
            continue
        comp = mt != "byte" and info.kind(mt) in ("struct", "union")
        if mt == "byte":
            setattr(msg, name, bytes(x))
        elif a == "plain":
            if comp:
                assign(info, mt, getattr(msg, name), x)
            else:
                setattr(msg, name, to_py(info, mt, x))
        elif a == "opt":
            if not x:
                setattr(msg, name, None)
            elif comp:
                setattr(msg, name, True)
                assign(info, mt, getattr(msg, name), x[0])
            else:
                setattr(msg, name, to_py(info, mt, x[0]))
        elif comp:
            arr = getattr(msg, name)
            if a == "fix":
                for i, e in enumerate(x):
                    assign(info, mt, arr[i], e)
            else:
                del arr[:]
                for e in x:
                    assign(info, mt, arr.add(), e)
        else:
            getattr(msg, name)[:] = [to_py(info, mt, e) for e in x]


def flat(info, t, msg):
    """Observed message state as the integer sequence Codec!Flat describes."""
    r = info.resolved(t)
    d = info.defs.get(r)
    if d is None or d["k"] == "enum":
        return from_py(info, t, msg)
    if d["k"] == "union":
        disc = msg.discriminator
        for i, m in enumerate(d["m"]):
            if int.from_bytes(bytes(m["v"]), "little") == disc:
                return [i + 1] + flat(info, m["t"], getattr(msg, m["name"]))
        return [-2]
    out = []
    for m in d["m"]:
        a, mt, name = m["a"], m["t"], m["name"]
        if is_sizer(d["m"], m):
            continue
        x = getattr(msg, name)
        if mt == "byte":
            b = x if isinstance(x, bytes) else b"" if x == "" else None
            out += [-3] if b is None else [len(b)] + list(b)
        elif a == "plain":
            out += flat(info, mt, x)
        elif a == "opt":
            out += [0] if x is None else [1] + flat(info, mt, x)
        else:
            out.append(len(x))
            for i in range(len(x)):
                out += flat(info, mt, x[i])
    return out
