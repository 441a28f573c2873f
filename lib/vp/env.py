"""Paths, scratch space, process helpers."""
import atexit
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
SPEC = os.path.join(VERIF, "spec")
PY = "/opt/venv/bin/python"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
CORES = max(1, min(8, os.cpu_count() or 1))

_scratch = []


def scratch(prefix="vp"):
    path = tempfile.mkdtemp(prefix="%s-" % prefix)
    _scratch.append((os.getpid(), path))
    return path


def drop(path):
    shutil.rmtree(path, ignore_errors=True)


@atexit.register
def _cleanup():
    for pid, path in _scratch:
        if pid == os.getpid():
            shutil.rmtree(path, ignore_errors=True)


class MachineryError(Exception):
    """The check itself is broken (exit 2), not the code under test."""


def child_env(**extra):
    env = dict(os.environ)
    env["PYTHONPATH"] = REPO
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env.setdefault("PYTHONHASHSEED", "0")
    env.update({k: str(v) for k, v in extra.items()})
    return env


def run(cmd, cwd=None, timeout=300, env=None, inp=None):
    p = subprocess.run(cmd, cwd=cwd, env=env or child_env(), input=inp, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, timeout=timeout)
    return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")


def prophyc(args, cwd=None, timeout=300, **env):
    return run([PY, "-m", "prophyc"] + list(args), cwd=cwd or "/", timeout=timeout, env=child_env(**env))


def use_repo():
    """Make the runtime and compiler of /repo importable in this process."""
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
