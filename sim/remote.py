"""
Restarted interpreters: server processes, each started with its own hash seed, that fork a fresh child per request.

A request is a pickle (function, args) over a Unix socket; servers are started once by the parent of all runs.
"""
import atexit
import importlib
import os
import pickle
import shutil
import signal
import socket
import struct
import subprocess
import sys
import tempfile
import time
import traceback

from . import boot
from .core import HarnessError

_state = {"pid": None, "dir": None, "procs": {}}


class RemoteError(Exception):
    """An exception in a restarted interpreter; `inside` tells whether it came from the code under test."""

    def __init__(self, kind, text, inside):
        super().__init__(f"{kind}: {text}")
        self.kind, self.text, self.inside = kind, text, inside


def start(hash_seeds):
    """Start the servers (in the process from which all runs are forked)."""
    if _state["dir"] is None:
        _state["dir"] = tempfile.mkdtemp(prefix="veroku-sim-")
        _state["pid"] = os.getpid()
        atexit.register(stop)
    for seed in hash_seeds:
        if seed in _state["procs"]:
            continue
        env = dict(os.environ)
        env.update(boot.FIXED_ENV)
        env["PYTHONHASHSEED"] = str(seed)
        env["VEROKU_SIM_BOOTED"] = "1"
        _state["procs"][seed] = subprocess.Popen(
            [sys.executable, "-W", "ignore", "-m", "sim.remote", _path(seed), str(os.getpid())], cwd=boot.VERIF, env=env,
            stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL)


def _path(seed):
    return os.path.join(_state["dir"], f"s{seed}")


def stop():
    if _state["pid"] != os.getpid():
        return
    for proc in _state["procs"].values():
        proc.kill()
        proc.wait()
    _state["procs"].clear()
    if _state["dir"]:
        shutil.rmtree(_state["dir"], ignore_errors=True)
        _state["dir"] = None


def call(hash_seed, func, *args):
    """Run the function (given as 'module.name') in an interpreter with this hash seed."""
    if hash_seed not in _state["procs"]:
        raise HarnessError(f"no interpreter with hash seed {hash_seed} was started")
    end = time.time() + 60
    while True:
        sock = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        try:
            sock.connect(_path(hash_seed))
            break
        except OSError:
            sock.close()
            if time.time() > end:
                raise HarnessError("restarted interpreter does not answer") from None
            time.sleep(0.02)
    with sock, sock.makefile("rwb") as f:
        _write(f, pickle.dumps((func, args)))
        status, value = pickle.loads(_read(f))
    if status == "error":
        raise RemoteError(*value)
    return value


def _write(f, data):
    f.write(struct.pack("<Q", len(data)) + data)
    f.flush()


def _read(f):
    head = f.read(8)
    if len(head) < 8:
        raise HarnessError("restarted interpreter died")
    n = struct.unpack("<Q", head)[0]
    data = f.read(n)
    if len(data) < n:
        raise HarnessError("restarted interpreter died")
    return data


def serve(path, owner):
    """Main loop of a server."""
    boot.load()
    from . import core
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    srv = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
    srv.bind(path)
    srv.listen(64)
    srv.settimeout(2)
    while os.getppid() == owner:
        try:
            conn, _ = srv.accept()
        except TimeoutError:
            continue
        if os.fork():
            conn.close()
            continue
        srv.close()
        conn.settimeout(None)
        try:
            with conn, conn.makefile("rwb") as f:
                try:
                    func, args = pickle.loads(_read(f))
                    mod, name = func.rsplit(".", 1)
                    reply = ("ok", getattr(importlib.import_module(mod), name)(*args))
                    data = pickle.dumps(reply)
                except BaseException as e:  # pylint: disable=broad-except
                    data = pickle.dumps(("error", (type(e).__name__, traceback.format_exc()[-1500:],
                                                   core.in_repo(e.__traceback__))))
                _write(f, data)
        finally:
            os._exit(0)


if __name__ == "__main__":
    serve(sys.argv[1], int(sys.argv[2]))
