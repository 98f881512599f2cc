"""An interpreter that forks one child per request, so that every request starts from the state the
process had right after importing the library. `serve()` is the child-side main loop, `Zygote` the
handle: Zygote(module, function, env).call(arg) runs module.function(arg) in a fresh child."""
import importlib
import json
import os
import struct
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def _read(f, n):
    b = b""
    while len(b) < n:
        c = f.read(n - len(b))
        if not c:
            return None
        b += c
    return b


def _recv(f):
    h = _read(f, 4)
    return None if h is None else _read(f, struct.unpack("<I", h)[0])


def _send(f, data):
    f.write(struct.pack("<I", len(data)) + data)
    f.flush()


def serve(module, func):
    sys.path.insert(0, HERE)
    sys.path.insert(0, "/repo")
    sys.setrecursionlimit(5000)
    inp, out = sys.stdin.buffer, os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)  # whatever the code prints
    from vfw import guard

    guard.install(os.environ["ZYGOTE_SCRATCH"])
    fn = getattr(importlib.import_module(module), func)
    while True:
        req = _recv(inp)
        if req is None:
            return
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                import signal

                signal.alarm(60)
                try:
                    res = {"ok": fn(json.loads(req))}
                except BaseException as e:  # noqa: BLE001
                    import traceback

                    res = {"error": "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]}
                data = json.dumps(res).encode("ascii")
                with os.fdopen(w, "wb") as f:
                    f.write(data)
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        _send(out, data or b'{"error": "the process died"}')


class Zygote:
    def __init__(self, module, func, env, cwd=None):
        e = dict(os.environ)
        e.update(env)
        e["ZYGOTE_SCRATCH"] = os.path.realpath(os.getcwd())
        self.p = subprocess.Popen([sys.executable, os.path.abspath(__file__), module, func], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=e, cwd=cwd)

    def call(self, arg):
        self.send(arg)
        return self.recv()

    def send(self, arg):
        _send(self.p.stdin, json.dumps(arg).encode("ascii"))

    def recv(self):
        d = _recv(self.p.stdout)
        if d is None:
            raise RuntimeError("zygote died")
        return json.loads(d)


if __name__ == "__main__":
    serve(sys.argv[1], sys.argv[2])
