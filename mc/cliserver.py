"""Runs commands and tasks in forked children of a process that has the fault injector loaded.

server side:  python -m mc.cliserver (LD_PRELOAD=shim.so, reads one JSON request per line)
client side:  Server().run(...)
"""
import atexit
import ctypes
import json
import os
import signal
import subprocess
import sys
import tempfile
import shutil
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("TEALISH_REPO", "/repo")

FAIL, SHORT, KILL_BEFORE, KILL_AFTER, FAIL_FROM, KILL_TORN = 1, 2, 3, 4, 5, 6
MODES = {"fail": FAIL, "short": SHORT, "kill-before": KILL_BEFORE, "kill-after": KILL_AFTER, "fail-from": FAIL_FROM, "kill-torn": KILL_TORN, "partial": 7}


# ------------------------------------------------------------------ server
def child(req, shim):
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    signal.alarm(int(req.get("timeout", 20)))
    os.dup2(os.open(req["out"], os.O_WRONLY | os.O_CREAT | os.O_TRUNC), 1)
    os.dup2(os.open(req["err"], os.O_WRONLY | os.O_CREAT | os.O_TRUNC), 2)
    os.dup2(os.open("/dev/null", os.O_RDONLY), 0)
    sys.stdin = open(0, "r", closefd=False)
    sys.stdout = open(1, "w", closefd=False, encoding="utf-8")
    sys.stderr = open(2, "w", closefd=False, encoding="utf-8")
    os.environ.update(req.get("env", {}))
    os.chdir(req["cwd"])
    status = 0
    result = None
    if req.get("prefix"):
        shim.shim_arm(req["prefix"].encode(), req.get("k", -1), MODES.get(req.get("mode"), 0), req.get("errno", 5))
    if req.get("k2") is not None:
        shim.shim_arm2(req["k2"], MODES[req["mode2"]])
    try:
        if "task" in req:
            import importlib
            mod, name = req["task"].rsplit(".", 1)
            result = getattr(importlib.import_module(mod), name)(*req.get("args", []))
        else:
            from tealish.cli import cli
            cli.main(args=req["argv"], prog_name="tealish", standalone_mode=True)
    except SystemExit as e:
        status = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
        if not isinstance(e.code, int) and e.code is not None:
            print(e.code, file=sys.stderr)
    except BaseException:
        traceback.print_exc()
        status = 1
    shim.shim_disarm()
    try:
        sys.stdout.flush()
        sys.stderr.flush()
    except Exception:
        status = 120
    with open(req["res"], "w") as f:
        json.dump({"n": shim.shim_count(), "trace": shim.shim_trace().decode("utf8", "replace").splitlines(), "result": result}, f)
    os._exit(status & 255)


def serve():
    sys.dont_write_bytecode = True
    shim = ctypes.CDLL(os.environ["VERIF_SHIM"])
    shim.shim_trace.restype = ctypes.c_char_p
    if os.environ.get("VERIF_COLD") != "1":
        import tealish.cli      # noqa: F401
    else:
        import click, requests, textx.metamodel, algosdk, Cryptodome.Hash.SHA512   # noqa: F401,E401
        import algosdk.v2client.algod, algosdk.source_map   # noqa: F401,E401
        sys.path.insert(0, VERIF)
    import gc
    gc.collect()
    gc.freeze()
    for line in sys.stdin:
        req = json.loads(line)
        pid = os.fork()
        if pid == 0:
            try:
                child(req, shim)
            finally:
                os._exit(121)
        _, st = os.waitpid(pid, 0)
        code = os.waitstatus_to_exitcode(st)
        sys.stdout.write(json.dumps(code) + "\n")
        sys.stdout.flush()


# ------------------------------------------------------------------ client
_dir = None


def scratch():
    """folder of this process for everything the checks write"""
    global _dir
    if _dir is None or _dir[0] != os.getpid():
        _dir = (os.getpid(), tempfile.mkdtemp(prefix="w", dir=os.environ.get("VERIF_SCRATCH") or base_scratch()))
    return _dir[1]


def base_scratch():
    d = tempfile.mkdtemp(prefix="tlcheck")
    pid = os.getpid()

    def clean():
        if os.getpid() == pid:
            shutil.rmtree(d, ignore_errors=True)
    atexit.register(clean)
    return d


class Result:
    def __init__(self, status, out, err, n, trace, result):
        self.status, self.out, self.err, self.n, self.trace, self.result = status, out, err, n, trace, result

    @property
    def killed(self):
        return self.status == 99 and self.n is None


class Server:
    _by_pid = {}

    @classmethod
    def get(cls, cold=False):
        k = (os.getpid(), cold)
        if k not in cls._by_pid:
            cls._by_pid[k] = cls(cold)
        return cls._by_pid[k]

    def __init__(self, cold):
        self.dir = scratch()
        so = os.path.join(self.dir, "shim.so")
        if not os.path.exists(so):
            subprocess.check_call(["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", so, os.path.join(HERE, "native", "shim.c"), "-ldl"])
        env = dict(os.environ, LD_PRELOAD=so, VERIF_SHIM=so, PYTHONPATH=REPO + os.pathsep + VERIF, PYTHONDONTWRITEBYTECODE="1", VERIF_COLD="1" if cold else "0",
                   TEALISH_REPO=REPO, no_proxy="*", PYTHONUTF8="1")
        os.makedirs(os.path.join(self.dir, "cwd"), exist_ok=True)
        self.p = subprocess.Popen([sys.executable, os.path.join(HERE, "cliserver.py")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, text=True,
                                  cwd=os.path.join(self.dir, "cwd"))
        self.out, self.err, self.res = (os.path.join(self.dir, x + ("c" if cold else "w")) for x in ("out", "err", "res"))

    def run(self, cwd, argv=None, prefix=None, k=-1, mode=None, errno=5, env=None, timeout=20, task=None, args=(), k2=None, mode2=None):
        for f in (self.out, self.err, self.res):
            if os.path.exists(f):
                os.unlink(f)
        req = {"cwd": cwd, "prefix": prefix, "k": k, "mode": mode, "errno": errno, "env": env or {}, "k2": k2, "mode2": mode2, "timeout": timeout, "out": self.out, "err": self.err, "res": self.res}
        if task:
            req.update(task=task, args=list(args))
        else:
            req["argv"] = argv
        self.p.stdin.write(json.dumps(req) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("the server ended")
        status = json.loads(line)
        n, trace, result = None, [], None
        if os.path.exists(self.res):
            try:
                d = json.load(open(self.res))
                n, trace, result = d["n"], d["trace"], d["result"]
            except ValueError:
                pass
        return Result(status, open(self.out, errors="replace").read() if os.path.exists(self.out) else "", open(self.err, errors="replace").read() if os.path.exists(self.err) else "", n, trace, result)


if __name__ == "__main__":
    serve()
