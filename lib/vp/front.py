"""Running prophyc inside this process (worker) and its generated artifacts."""
import contextlib
import importlib
import io
import os
import sys

from . import cpp, env, pyrun

_counter = [0]


class Refused(Exception):
    """prophyc ended otherwise than with outputs."""


def package(root):
    _counter[0] += 1
    out = os.path.join(root, "vpgen_%d_%d" % (os.getpid(), _counter[0]))
    os.makedirs(out)
    open(os.path.join(out, "__init__.py"), "w").close()
    return out


def call(args, seconds=60):
    """prophyc.main(args): returns ({stem: nodes}, warnings); raises Refused."""
    env.use_repo()
    import prophyc
    err = io.StringIO()
    try:
        with contextlib.redirect_stderr(err), contextlib.redirect_stdout(io.StringIO()), pyrun.limit(seconds):
            nodes = prophyc.main(list(args))
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, MemoryError)):
            raise
        raise Refused("%s: %s" % (type(e).__name__, e))
    return nodes, err.getvalue()


def write(root, files):
    paths = {}
    for name, text in files.items():
        path = os.path.join(root, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w", encoding="utf-8") as f:
            f.write(text)
        paths[name] = path
    return paths


def importing(out, stem):
    """Imports stem from the package directory out."""
    root, pkg = os.path.split(out)
    sys.path.insert(0, root)
    try:
        importlib.invalidate_caches()
        return importlib.import_module("%s.%s" % (pkg, stem))
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, MemoryError)):
            raise
        raise Refused("generated module does not import: %s: %s" % (type(e).__name__, e))
    finally:
        sys.path.remove(root)


def gxx(sources, exe=None, includes=(), flags=(), timeout=300):
    """Compiles; raises Refused with the first errors."""
    cmd = ["g++", "-std=c++11", "-w", "-I" + cpp.INCLUDE] + ["-I" + i for i in includes] + list(flags)
    cmd += (["-o", exe] if exe else ["-fsyntax-only"]) + list(sources)
    rc, so, se = env.run(cmd, timeout=timeout)
    if rc != 0:
        raise Refused("C++ does not compile: %s" % "\n".join(x for x in se.splitlines() if "error" in x)[:600])
