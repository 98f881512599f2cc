"""A persistent node process that parses and executes emitted scripts."""
import atexit
import json
import os
import shutil
import subprocess

from .core import HarnessError

_proc = None


def _start():
    global _proc
    node = shutil.which("node") or "/usr/bin/node"
    try:
        _proc = subprocess.Popen([node, "--expose-internals", "--stack-size=4000", os.path.join(os.path.dirname(os.path.abspath(__file__)), "jsread.js")],
                                 stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    except OSError as e:
        raise HarnessError(f"node does not start: {e}")
    atexit.register(_stop)


def _stop():
    global _proc
    if _proc is not None:
        _proc.kill()
        _proc.wait()
        _proc = None


def read(js, names):
    if _proc is None:
        _start()
    try:
        _proc.stdin.write((json.dumps({"js": js, "names": sorted(names)}) + "\n").encode())
        _proc.stdin.flush()
        line = _proc.stdout.readline()
    except OSError as e:
        line = b""
    if not line:
        _stop()
        raise HarnessError("node ended")
    r = json.loads(line)
    if "harness" in r:
        raise HarnessError(r["harness"])
    return r
