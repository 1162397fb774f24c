"""C24: the build command with faulty assemblers, file system faults and histories of builds."""
import base64
import hashlib
import http.server
import json
import os
import threading
import time
from itertools import product

from .. import avm, cli, h
from ..cli import V1, V2, PARSE_ERR, COMPILE_ERR
from ..cliserver import scratch

ID = "C24"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of assembler behaviours (a stand-in goal executable and a local algod server), of file system faults and crash points of "
             "the build command, of directories with every subset of failing sources, and of build histories, on the real command line tool against a model of the build folder")
NOTE = "Complete for the listed assembler behaviours, every call index and fault kind of the scenarios, directories of up to three sources, histories up to length 3."
RULE = "assembler behaviours x sources x earlier outputs; call index x fault kind; subsets of failing sources; histories; distinct = distinct (scenario, behaviour, fault)"
ASSUMPTIONS = ["the assemblers are stand-ins which return prepared bytecode and source maps for exactly the TEAL of the library"]
SHARDS = 16

TRICKY = ("#pragma version 8\nint x = 1\nassert(x, \"a],b\")\nassert(x, \"}, [ \u00e9 // c\")\n# c\nassert(x, \"said 'no' ],\")\nassert(x)\nlog(\"],\")\nexit(1)\n").encode()
TWO = b"#pragma version 8\nint a = 5\nwhile a:\n    a = a - 1\n    assert(a, \"second\")\nend\nexit(f(a))\nfunc f(b: int) int:\n    return b + 1\nend\n"
SOURCES = {"v1": V1, "v2": V2, "tricky": TRICKY, "two": TWO}
GOAL = """#!/bin/sh
out=; prev=; src=
for a in "$@"; do
  case "$prev" in -o|--outfile) out="$a";; esac
  case "$a" in *.teal) src="$a";; esac
  prev="$a"
done
if [ -n "$src" ]; then cat "$src" > "$FAKE_DIR/in.$$"; else cat > "$FAKE_DIR/in.$$"; fi
m=$(md5sum < "$FAKE_DIR/in.$$" | cut -c1-32)
mode="$FAKE_MODE"
for x in $FAKE_FAIL; do [ "$x" = "$m" ] && mode="$FAKE_FAILMODE"; done
full() { cp "$FAKE_DIR/$m.tok" "$out" || exit 9; }
map() { cp "$FAKE_DIR/$m.map" "$out.map" || exit 9; }
case "$mode" in
 ok) full; map; echo "done";;
 exit1) echo "- : 3 errors: cannot assemble" >&2; exit 1;;
 exit1-files) full; map; echo "late error"; exit 1;;
 exit1-tok) full; exit 1;;
 exit2-part) printf 'abc' > "$out"; exit 2;;
 nofiles) ;;
 nomap) full;;
 notok) map;;
 badmap) full; head -c 40 "$FAKE_DIR/$m.map" > "$out.map";;
 emptymap) full; : > "$out.map";;
 objmap) full; echo '{}' > "$out.map";;
 listmap) full; echo '[]' > "$out.map";;
 kill) kill -9 $$;;
 killlate) full; kill -9 $$;;
esac
"""
GOAL_FAIL = ["exit1", "exit1-files", "exit1-tok", "exit2-part", "nofiles", "nomap", "notok", "badmap", "emptymap", "objmap", "listmap", "kill", "killlate", "absent", "notexec", "badexec", "emptyexec"]
ALGOD_FAIL = ["400", "500", "404", "notjson", "emptybody", "noresult", "nomap", "nullmap", "objmap", "badb64", "close", "half", "refused", "badurl", "list", "401"]


def bytecode(lines):
    """stands for the assembled program: any bytes"""
    m = hashlib.sha256("\n".join(lines).encode()).digest()
    return bytes(range(256)) + m + b"\r\n\n\x1a\0"


_asm = {}


def assembled(data):
    """(tok, source map dict, instructions) of a valid source"""
    if data not in _asm:
        lines = cli.compiled(data)[1]
        a = avm.assemble(lines)
        _asm[data] = (bytecode(lines), a.sourcemap(), a)
    return _asm[data]


_fake = {}


def fake_dir():
    pid = os.getpid()
    if pid not in _fake:
        d = os.path.join(scratch(), "fake")
        for sub in ("bin", "absent", "notexec", "badexec", "emptyexec"):
            os.makedirs(os.path.join(d, sub))
        for sub, text, mode in (("bin", GOAL, 0o755), ("notexec", GOAL, 0o644), ("badexec", "#!/nonexistent/interpreter\n", 0o755), ("emptyexec", "", 0o755)):
            p = os.path.join(d, sub, "goal")
            open(p, "w").write(text)
            os.chmod(p, mode)
        _fake[pid] = d
        for data in list(SOURCES.values()) + [V1.replace(b" 1\n", b" %d\n" % (i + 2)) for i in range(3)]:
            if cli.compiled(data) is None:
                continue
            teal = cli.compiled(data)[0]
            tok, sm, _ = assembled(data)
            for t in (teal, teal.rstrip(b"\n")):
                m = hashlib.md5(t).hexdigest()
                open(os.path.join(d, m + ".tok"), "wb").write(tok)
                json.dump(sm, open(os.path.join(d, m + ".map"), "w"))
                KNOWN[m] = data
    return _fake[pid]


KNOWN = {}          # md5 of the TEAL -> source


class Handler(http.server.BaseHTTPRequestHandler):
    def log_message(self, *a):
        pass

    def do_POST(self):
        srv = self.server
        body = self.rfile.read(int(self.headers.get("Content-Length") or 0))
        m = hashlib.md5(body).hexdigest()
        srv.requests.append((self.path, self.headers.get("X-Algo-API-Token"), body))
        data = KNOWN.get(m)
        mode = srv.mode
        if data is not None and data in srv.failing:
            mode = srv.failmode
        if data is None and mode == "ok":
            return self.reply(400, json.dumps({"message": "the input is not the compiled TEAL"}))
        tok, sm, _ = assembled(data) if data is not None else (b"", {}, None)
        doc = {"hash": "H", "result": base64.b64encode(tok).decode()}
        if "sourcemap=true" in self.path.lower():
            doc["sourcemap"] = sm
        if mode == "ok":
            if srv.token and self.headers.get("X-Algo-API-Token") != srv.token:
                return self.reply(401, json.dumps({"message": "Invalid API Token"}))
            return self.reply(200, json.dumps(doc))
        if mode in ("400", "500", "404", "401"):
            return self.reply(int(mode), json.dumps({"message": "3: unknown opcode"}) if mode != "500" else "oops")
        if mode == "notjson":
            return self.reply(200, "<html>")
        if mode == "emptybody":
            return self.reply(200, "")
        if mode == "list":
            return self.reply(200, "[]")
        if mode == "noresult":
            del doc["result"]
        if mode == "nomap":
            doc.pop("sourcemap", None)
        if mode == "nullmap":
            doc["sourcemap"] = None
        if mode == "objmap":
            doc["sourcemap"] = {}
        if mode == "badb64":
            doc["result"] = "A"
        if mode == "close":
            self.close_connection = True
            return
        if mode == "half":
            t = json.dumps(doc).encode()
            self.send_response(200)
            self.send_header("Content-Length", str(len(t)))
            self.end_headers()
            self.wfile.write(t[: len(t) // 2])
            self.close_connection = True
            return
        self.reply(200, json.dumps(doc))

    def reply(self, code, text):
        t = text.encode()
        self.send_response(code)
        self.send_header("Content-Type", "application/json")
        self.send_header("Content-Length", str(len(t)))
        self.end_headers()
        self.wfile.write(t)


_srv = {}


def algod():
    pid = os.getpid()
    if pid not in _srv:
        s = http.server.ThreadingHTTPServer(("127.0.0.1", 0), Handler)
        s.daemon_threads = True
        threading.Thread(target=s.serve_forever, daemon=True).start()
        s.mode, s.failing, s.failmode, s.requests, s.token = "ok", (), "400", [], ""
        _srv[pid] = s
    return _srv[pid]


def closed_port():
    import socket
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    p = s.getsockname()[1]
    s.close()
    return p


class Asm:
    """assembler configuration of one run"""

    def __init__(self, kind, mode="ok", failing=(), failmode=None, token=""):
        self.kind, self.mode, self.failing, self.failmode, self.token = kind, mode, tuple(failing), failmode, token

    def setup(self):
        env, args = {}, []
        d = fake_dir()
        if self.kind == "goal":
            sub = self.mode if self.mode in ("absent", "notexec", "badexec", "emptyexec") else "bin"
            env = {"PATH": os.path.join(d, sub) + (":/usr/bin:/bin"), "FAKE_DIR": d, "FAKE_MODE": self.mode, "FAKE_FAIL": "", "FAKE_FAILMODE": self.failmode or ""}
            env["FAKE_FAIL"] = " ".join(m for m, data in KNOWN.items() if data in self.failing)
            args = ["--goal"]
        elif self.kind == "algod":
            s = algod()
            s.mode, s.failing, s.failmode, s.token = self.mode, self.failing, self.failmode, self.token
            s.requests.clear()
            url = f"http://127.0.0.1:{s.server_address[1]}"
            if self.mode == "refused":
                url = f"http://127.0.0.1:{closed_port()}"
            if self.mode == "badurl":
                url = "nonsense"
            args = ["--algod-url", url + ("#" + self.token if self.token else "")]
            if self.token == "-":
                args = ["--algod"] + args
        elif self.kind == "sandbox":
            args = ["--sandbox"]
        return env, args


def outs(p):
    b = os.path.join(os.path.dirname(p), "build", cli.stem(os.path.basename(p)))
    return b + ".teal", b + ".teal.tok", b + ".map.json"


def map_of(data):
    """the combined map, from the library's own map (which C13 checks)"""
    T = h.T()
    m = T.TealishMap(json.loads(json.dumps(cli.compiled(data)[2].as_dict()))) if hasattr(T, "TealishMap") else None
    if m is None:
        from tealish.utils import TealishMap
        m = TealishMap(json.loads(json.dumps(cli.compiled(data)[2].as_dict())))
    m.update_from_teal_sourcemap(assembled(data)[1])
    return m


def map_good(raw, data):
    from tealish.utils import TealishMap
    try:
        got = TealishMap(json.loads(raw.decode("utf8")))
    except Exception as e:
        return f"the map cannot be loaded: {type(e).__name__}: {e}"
    exp = map_of(data)
    a = assembled(data)[2]
    for ins in a.instrs:
        pc = ins.pc
        for f in ("get_tealish_line_for_pc", "get_teal_line_for_pc", "get_error_for_pc"):
            x, y = getattr(got, f)(pc), getattr(exp, f)(pc)
            if x != y:
                return f"{f}({pc}) = {x!r}, expected {y!r}"
        if got.get_teal_line_for_pc(pc) != ins.line:
            return f"pc {pc} leads to TEAL line {got.get_teal_line_for_pc(pc)}, the instruction is on {ins.line}"
        if got.get_tealish_line_for_pc(pc) != cli.compiled(data)[2].get_tealish_line_for_teal(ins.line):
            return f"pc {pc} leads to line {got.get_tealish_line_for_pc(pc)}"
    return None


_map_cache = {}


def is_map(raw, data):
    k = (raw, data)
    if k not in _map_cache:
        _map_cache[k] = map_good(raw, data)
    return _map_cache[k]


class Run:
    def __init__(self, ctx, key, tree, asm, path=".", fault=None, second=None, d=None, quiet=False):
        self.ctx, self.key, self.asm, self.fault, self.second = ctx, key, asm, fault, second
        env, args = asm.setup()
        self.own = d is None
        self.d = d or cli.new_tree(tree)
        self.before = cli.snapshot(self.d)
        k, mode, errno = fault or (-1, None, 5)
        kw = {} if second is None else {"k2": second[0], "mode2": second[1]}
        self.argv = (["-q"] if quiet else []) + ["build", path] + args
        self.r = cli.server().run(self.d, self.argv, prefix=self.d, k=k, mode=mode, errno=errno, env=env, timeout=30, **kw)
        self.after = cli.snapshot(self.d)
        if self.own:
            cli.drop(self.d)
        ctx.traces += 1
        ctx.states += 1
        ctx.transitions += self.r.n or 1
        self.crashed = self.r.status == 99 and fault is not None
        self.loose = self.crashed or (fault is not None and (mode in ("fail-from", "short") or second is not None))

    def bad(self, what, **d):
        self.ctx.violation(self.key, what, command=repr(self.argv), assembler=repr((self.asm.kind, self.asm.mode, self.asm.failmode)), fault=repr((self.fault, self.second)), status=self.r.status, out=self.r.out[-600:],
                           err=self.r.err[-600:], trace="\n".join(self.r.trace),
                           changed=repr({p: (self.before.get(p), self.after.get(p)) for p in sorted(set(self.before) | set(self.after)) if self.before.get(p) != self.after.get(p)})[:3000], **d)
        return False


def judge(run, sources, asm_ok):
    """sources: path -> data; asm_ok(data): the assembler accepts this source"""
    r = run.r
    if not run.crashed:
        if r.status < 0:
            return run.bad("the command was killed or does not end")
        if r.status != 0 and not (r.err.strip() or r.out.strip()):
            return run.bad("the command fails without a message")
    allowed = set()
    for p in sources:
        allowed |= set(outs(p))
        allowed.add(os.path.join(os.path.dirname(p), "build"))
    for p in sorted(set(run.before) | set(run.after)):
        if run.before.get(p) != run.after.get(p) and p not in allowed:
            if run.loose and p not in run.before and os.path.basename(os.path.dirname(p)) == "build" and not p.endswith((".tl", ".teal", ".tok", ".map.json")):
                continue
            return run.bad(f"{p} changed, which is not an output of the command")
    good_all = True
    for p, data in sources.items():
        teal, tok, mp = outs(p)
        valid = cli.compiled(data) is not None
        ok = valid and asm_ok(data)
        good_all = good_all and ok

        def state(o, is_new):
            a, b = run.after.get(o), run.before.get(o)
            if a is not None and a[0] == "file" and is_new(a[1]):
                return "new" if a != b else "same"
            if a is None:
                return "absent"
            if a == b:
                return "old"
            return "WRONG"
        st = (state(teal, lambda x: valid and x == cli.compiled(data)[0]), state(tok, lambda x: valid and x == assembled(data)[0]), state(mp, lambda x: valid and is_map(x, data) is None))
        if "WRONG" in st:
            why = ""
            if st[2] == "WRONG" and valid:
                why = is_map(run.after[mp][1], data)
            return run.bad(f"the outputs for {p} (TEAL, bytecode, map) are {st}: {why}")
        if r.status == 0 and not run.crashed and (not ok or any(x not in ("new", "same") for x in st)):
            return run.bad(f"the command succeeds with outputs {st} for {p}" + ("" if ok else ", which cannot be built"))
        if not ok and (st[1] == "new" or st[2] == "new") and st[1] != "same":
            return run.bad(f"bytecode or map of a failed build is written: {st}")
        if (st[1] == "new" and st[2] == "old") or (st[1] == "old" and st[2] == "new"):
            return run.bad(f"bytecode and map do not belong together: {st}")
    if run.fault is None and r.status != 0 and good_all:
        return run.bad("the build of valid sources fails")
    return True


# ---------------------------------------------------------------- families
OLD = {"build/a.teal": b"old teal\n", "build/a.teal.tok": b"old tok", "build/a.map.json": b'{"pc_teal": {"1": 1}, "teal_tealish": {"1": 1}, "errors": {}}', "build/other.map.json": b"{}", "notes": b"n"}
SCEN = {
    "goal-new": ({"a.tl": V1}, "goal", {"a.tl": V1}),
    "goal-old": ({"a.tl": TRICKY, **OLD}, "goal", {"a.tl": TRICKY}),
    "algod-old": ({"a.tl": TWO, **OLD}, "algod", {"a.tl": TWO}),
    "goal-dir": ({"a.tl": V1, "b.tl": TWO, **OLD}, "goal", {"a.tl": V1, "b.tl": TWO}),
    "algod-big": ({"a.tl": V2, **OLD}, "algod", {"a.tl": V2}),
}
MODES = ["fail", "short", "kill-before", "kill-after", "kill-torn", "fail-from", "partial"]
STEPS = ["edit-v1", "edit-two", "edit-bad", "goal-ok", "goal-exit1", "goal-nomap", "goal-exit1-files", "algod-ok", "algod-400", "compile"]


def families(tier):
    t = tier == "thorough"
    return [("assembler", {}), ("dirs", {"n": 3}), ("fault", {"errnos": [5, 28] + ([13, 1, 2, 17, 30] if t else [])}), ("pair", {"scen": list(SCEN) if t else ["goal-old"]}), ("seq", {"len": 4 if t else 3}), ("options", {})]


def cases(fam, p):
    if fam == "assembler":
        for kind, modes in (("goal", ["ok"] + GOAL_FAIL), ("algod", ["ok"] + ALGOD_FAIL)):
            for mode in modes:
                for s in SOURCES:
                    for old in (0, 1):
                        yield ("assembler", kind, mode, s, old)
        for s in ("perr", "cerr"):
            for kind in ("goal", "algod"):
                for old in (0, 1):
                    yield ("assembler", kind, "ok", s, old)
    elif fam == "dirs":
        for n in range(p["n"] + 1):
            for ks in product(("ok", "asmfail", "bad"), repeat=n):
                for kind, fm in (("goal", "exit1"), ("goal", "nomap"), ("goal", "exit1-files"), ("algod", "400"), ("algod", "nomap")):
                    yield ("dirs", ks, kind, fm)
    elif fam == "fault":
        for s in SCEN:
            for m in MODES:
                for e in p["errnos"] if m in ("fail", "short", "fail-from") else [5]:
                    for part in range(3):
                        yield ("fault", s, m, e, part)
    elif fam == "pair":
        for s in p["scen"]:
            for m2 in ("fail", "kill-before", "kill-after", "kill-torn"):
                for k in range(30):
                    yield ("pair", s, k, m2)
    elif fam == "seq":
        for n in range(2, p["len"] + 1):
            for ops in product(STEPS, repeat=n):
                if ops[-1].startswith("edit") or any(a.startswith("edit") and b.startswith("edit") for a, b in zip(ops, ops[1:])):
                    continue
                yield ("seq", ops)
    elif fam == "options":
        for k in range(len(OPTIONS)):
            yield ("options", k)


def run_case(case, ctx):
    ctx.distinct(repr(case))
    RUN[case[0]](case, ctx)
    if ctx.n % 23 == 1:
        ctx.sample({"case": repr(case)[:300]})


def run_assembler(case, ctx):
    _, kind, mode, s, old = case
    data = SOURCES.get(s) or {"perr": PARSE_ERR, "cerr": COMPILE_ERR}[s]
    tree = {"a.tl": data}
    if old:
        tree.update(OLD)
    for path in ("a.tl", "."):
        run = Run(ctx, f"assembler:{kind}:{mode}:{s}:{old}:{path}", tree, Asm(kind, mode), path, quiet=path == ".")
        judge(run, {"a.tl": data}, lambda x: mode == "ok")
        if path == "." and mode == "ok" and run.r.status == 0 and (run.r.out or run.r.err):
            run.bad("a quiet command prints")


def run_dirs(case, ctx):
    _, ks, kind, fm = case
    srcs, tree, failing = {}, dict(OLD), []
    for i, k in enumerate(ks):
        data = COMPILE_ERR if k == "bad" else V1.replace(b" 1\n", b" %d\n" % (i + 2))
        if k == "asmfail":
            failing.append(data)
        srcs[f"{'abc'[i]}.tl"] = data
    tree.update(srcs)
    run = Run(ctx, f"dirs:{ks}:{kind}:{fm}", tree, Asm(kind, "ok", failing, fm))
    judge(run, srcs, lambda x: x not in failing)


def run_fault(case, ctx):
    _, s, mode, errno, part = case
    tree, kind, srcs = SCEN[s]
    base = Run(ctx, f"fault:{s}", tree, Asm(kind))
    if not judge(base, srcs, lambda x: True):
        return
    for k in range(part, base.r.n, 3):
        run = Run(ctx, f"fault:{s}:{mode}:{errno}:{k}", tree, Asm(kind), fault=(k, mode, errno))
        judge(run, srcs, lambda x: True)


def run_pair(case, ctx):
    _, s, k, m2 = case
    tree, kind, srcs = SCEN[s]
    for k2 in range(k + 1, k + 8):
        run = Run(ctx, f"pair:{s}:{k}:{m2}:{k2}", tree, Asm(kind), fault=(k, "fail", 28), second=(k2, m2))
        judge(run, srcs, lambda x: True)
        if run.r.n is not None and run.r.n <= k2:
            break


def run_seq(case, ctx):
    """histories: whenever bytecode and map are both there, they come from the same source"""
    ops = case[1]
    d = cli.new_tree({"a.tl": V1})
    cur = V1
    try:
        for i, op in enumerate(ops):
            key = f"seq:{ops[:i + 1]}"
            if op.startswith("edit"):
                cur = {"v1": V1, "two": TWO, "bad": COMPILE_ERR}[op[5:]]
                open(os.path.join(d, "a.tl"), "wb").write(cur)
                continue
            if op == "compile":
                r = cli.server().run(d, ["-q", "compile", "a.tl"], prefix=d)
                ctx.traces += 1
                ctx.states += 1
                if (r.status == 0) != (cli.compiled(cur) is not None):
                    ctx.violation(key, "compile status", status=r.status)
                    return
            else:
                kind, _, mode = op.partition("-")
                run = Run(ctx, key, None, Asm(kind, mode), "a.tl", d=d)
                if not judge(run, {"a.tl": cur}, lambda x: mode == "ok"):
                    return
            snap = cli.snapshot(d)
            tok, mp = snap.get("build/a.teal.tok"), snap.get("build/a.map.json")
            if tok and mp and not any(tok[1] == assembled(x)[0] and is_map(mp[1], x) is None for x in (V1, TWO)):
                ctx.violation(key, "bytecode and map in the build folder come from different sources", history=repr(ops[:i + 1]))
                return
            if tok and not any(tok[1] == assembled(x)[0] for x in (V1, TWO)):
                ctx.violation(key, "wrong bytecode in the build folder", history=repr(ops[:i + 1]))
                return
    finally:
        cli.drop(d)


OPTIONS = [("algod", "ok", "token123", True), ("algod", "ok", "-", True), ("sandbox", "ok", "", False), ("goal", "ok", "", True), ("algod", "ok", "", True)]


def run_options(case, ctx):
    kind, mode, token, ok = OPTIONS[case[1]]
    a = Asm(kind, mode, token="" if token == "-" else token)
    run = Run(ctx, f"options:{case[1]}", {"a.tl": TWO}, a, "a.tl")
    judge(run, {"a.tl": TWO}, lambda x: ok)
    if kind == "algod":
        req = algod().requests
        if len(req) != 1 or req[0][2].rstrip(b"\n") != cli.compiled(TWO)[0].rstrip(b"\n") or (token not in ("", "-") and req[0][1] != token):
            run.bad(f"algod received {len(req)} requests, not the compiled TEAL once with the token", requests=repr(req)[:600])


RUN = {"assembler": run_assembler, "dirs": run_dirs, "fault": run_fault, "pair": run_pair, "seq": run_seq, "options": run_options}
