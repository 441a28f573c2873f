"""Running calls which may never end: workers that are killed and replaced."""
import multiprocessing
import multiprocessing.connection
import os
import signal
import time
import traceback

from . import env, pool

HANGS = "hangs"
DIED = "died"


def _worker(pipe, fn, items, gigabytes):
    try:
        pool.cap_memory(gigabytes)
        for n, item in items:
            pipe.send(("start", n, None))
            try:
                res = ("done", n, fn(item))
            except env.MachineryError as e:
                res = ("mach", n, str(e))
            except Exception:
                res = ("err", n, traceback.format_exc())
            pipe.send(res)
    finally:
        pipe.close()
        os._exit(0)


class _Lane(object):
    def __init__(self, ctx, fn, items, gigabytes):
        self.ctx, self.fn, self.items, self.gigabytes = ctx, fn, items, gigabytes
        self.start()

    def start(self):
        self.pipe, there = self.ctx.Pipe(False)
        self.proc = self.ctx.Process(target=_worker, args=(there, self.fn, self.items, self.gigabytes))
        self.proc.start()
        there.close()
        self.current, self.since = None, time.time()

    def stop(self):
        if self.proc.is_alive():
            os.kill(self.proc.pid, signal.SIGKILL)
        self.proc.join()
        self.pipe.close()


def guarded(fn, items, seconds, procs=env.CORES, gigabytes=3):
    """[fn(item)], HANGS in place of calls taking more than the seconds, DIED of ones whose process ended."""
    items = list(enumerate(items))
    out = {}
    ctx = multiprocessing.get_context("fork")
    lanes = [_Lane(ctx, fn, items[k::procs], gigabytes) for k in range(min(procs, len(items)))]
    try:
        while lanes:
            ready = multiprocessing.connection.wait([x.pipe for x in lanes], timeout=0.5)
            for lane in list(lanes):
                lost = None
                if lane.pipe in ready:
                    try:
                        kind, n, value = lane.pipe.recv()
                        if kind == "start":
                            lane.current, lane.since = n, time.time()
                        elif kind == "mach":
                            raise env.MachineryError(value)
                        elif kind == "err":
                            raise RuntimeError("worker failed:\n" + value)
                        else:
                            out[n] = value
                            lane.items = [x for x in lane.items if x[0] > n]
                            lane.current, lane.since = None, time.time()
                    except EOFError:
                        if not lane.items:
                            lane.stop()
                            lanes.remove(lane)
                            continue
                        lost = DIED
                elif lane.current is not None and time.time() - lane.since > seconds:
                    lost = HANGS
                if lost:
                    lane.stop()
                    if lane.current is None:
                        raise env.MachineryError("a worker ended between two calls")
                    out[lane.current] = lost
                    lane.items = [x for x in lane.items if x[0] > lane.current]
                    if lane.items:
                        lane.start()
                    else:
                        lanes.remove(lane)
    finally:
        for lane in lanes:
            lane.stop()
    return [out[n] for n, _ in items]
