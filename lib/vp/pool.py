"""Deterministic parallel map over forked workers."""
import multiprocessing
import resource
import traceback

from . import env


def _call(args):
    fn, item = args
    try:
        return ("ok", fn(item))
    except env.MachineryError as e:
        return ("mach", str(e))
    except Exception:
        return ("err", traceback.format_exc())


def cap_memory(gigabytes=3):
    """For workers running Python code that may run away."""
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    resource.setrlimit(resource.RLIMIT_AS, (int(gigabytes * (1 << 30)), hard))


def pmap(fn, items, procs=env.CORES):
    items = list(items)
    if not items:
        return []
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(min(procs, len(items))) as pool:
        res = pool.map(_call, [(fn, it) for it in items], chunksize=1)
    out = []
    for kind, val in res:
        if kind == "mach":
            raise env.MachineryError(val)
        if kind == "err":
            raise RuntimeError("worker failed:\n" + val)
        out.append(val)
    return out
