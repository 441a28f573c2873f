"""A process which runs prophyc on demand: command lines as JSON lines in, outcomes as JSON lines out."""
import io
import json
import os
import sys


def once(job):
    import prophyc
    os.chdir(job["cwd"])
    sys.stdout = sys.stderr = io.StringIO()
    try:
        prophyc.main(job["args"])
        return {"ok": 1, "why": ""}
    except (KeyboardInterrupt, GeneratorExit):
        raise
    except BaseException as e:
        return {"ok": 0, "why": "%s: %s" % (type(e).__name__, e)}


def forked(job, out):
    pid = os.fork()
    if not pid:
        try:
            out.write(json.dumps(once(job)) + "\n")
            out.flush()
        finally:
            os._exit(0)
    os.waitpid(pid, 0)


def main():
    out = os.fdopen(os.dup(1), "w")
    for line in sys.stdin:
        job = json.loads(line)
        if job["fork"]:
            forked(job, out)
        else:
            out.write(json.dumps(once(job)) + "\n")
            out.flush()


if __name__ == "__main__":
    main()
