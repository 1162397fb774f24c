"""C19: command line tools.  Trees of sources, all file system faults and crash points, histories of commands, against a model of the
file system."""
import json
import os
from itertools import product

from .. import cli
from ..cli import V1, V2, UNFMT, PARSE_ERR, COMPILE_ERR, BADUTF8, CRLF, NOEOL, EMPTY, FORMATTED, BADLATE

ID = "C19"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of source trees, command histories and file system faults: every system call of each command that touches the "
             "scratch tree is failed, cut short or made a crash point in turn (also pairs of faults), on the real command line tools; the resulting tree is compared with a model")
NOTE = "Complete for the listed scenarios over every call index and fault kind, directories of up to three sources of five kinds, and command histories up to length 3."
RULE = "trees x commands; scenario x call index x fault kind x errno; pairs of faults; histories of commands; distinct = distinct (scenario, fault)"
ASSUMPTIONS = ["faults are injected at the C library calls of the Python process; the kernel's own atomicity of rename is trusted"]
SHARDS = 16

KINDS = {"v1": V1, "v2": V2, "perr": PARSE_ERR, "cerr": COMPILE_ERR, "bad": BADUTF8}
# lines that begin like the keywords, the comments and the terminators that the tools look for
WORDS = b"""#pragma version 8
# comment
  # indented comment
int endpoint = 1
bytes end_ = "# x"
int ending = 2
if endpoint:
    endpoint = 2
    endless(1)
    end_ = "end"
else:
    elsewhere(endpoint)
end
  	 
int iffy = 1
int format = iffy
teal:
    // a comment of TEAL
    pushint 1
    pop // end
end
exit(ending)
func endless(a: int):
    log(itob(a))
    return
end
func elsewhere(endx: int):
    log(itob(endx))
    return
end
#end
"""
CONTENTS = {"v1": V1, "v2": V2, "unfmt": UNFMT, "perr": PARSE_ERR, "cerr": COMPILE_ERR, "bad": BADUTF8, "crlf": CRLF, "noeol": NOEOL, "empty": EMPTY, "fmt": FORMATTED, "late": BADLATE,
            "cr": V1.replace(b"\n", b"\r"), "bom": b"\xef\xbb\xbf" + V1, "nul": b"#pragma version 8\nexit(1)\n\0\n", "words": WORDS, "tabs": V1.replace(b"int x", b"int\tx"), "utf16": V1.decode().encode("utf-16")}
OTHER = {"notes.txt": b"keep", "sub/c.tl": V1, "sub/build/c.teal": b"old c", "build/other.teal": b"other", "build/a.teal.tok": b"tok", "build/a.map.json": b"{}", "lib.TL": V1, "langs.json": b"{}"}
NAMES = ["a.tl", "a.b.tl", "a.tl.tl", "prog", "my.tls.tl", "sp ace.tl", "\u00e9\u4f60.tl", "-x.tl", "a.TL", ".tl", "x.teal.tl", "tl", "atl", "a.tl.bak", "approval.tealish", "UPPER.tl", "a.map.tl"]


def snap_ok(ctx, key, what, **d):
    ctx.violation(key, what, **d)


class Run:
    """one command on one tree, judged"""

    def __init__(self, ctx, key, tree, argv, cwd="", fault=None, second=None):
        self.ctx, self.key = ctx, key
        self.tree, self.argv, self.fault = tree, argv, fault
        self.d = cli.new_tree(tree)
        self.before = cli.snapshot(self.d)
        k, mode, errno = fault or (-1, None, 5)
        kw = {} if second is None else {"k2": second[0], "mode2": second[1]}
        argv = [a.replace("@", self.d) for a in argv]
        self.r = cli.server().run(os.path.join(self.d, cwd), argv, prefix=self.d, k=k, mode=mode, errno=errno, **kw)
        self.after = cli.snapshot(self.d)
        cli.drop(self.d)
        ctx.traces += 1
        ctx.transitions += max(self.r.n or 0, 1)
        ctx.states += 1
        self.crashed = self.r.status == 99 and (fault is not None)
        self.loose = self.crashed or (fault is not None and (mode == "fail-from" or mode == "short" or second is not None))
        self.second = second

    def bad(self, what, **d):
        self.ctx.violation(self.key, what, command=repr(self.argv), fault=repr((self.fault, self.second)), status=self.r.status, out=self.r.out[-600:], err=self.r.err[-600:], trace="\n".join(self.r.trace),
                           changed=repr({p: (self.before.get(p), self.after.get(p)) for p in sorted(set(self.before) | set(self.after)) if self.before.get(p) != self.after.get(p)})[:3000], **d)
        return False

    def unchanged(self, allowed, leftovers_in=()):
        for p in sorted(set(self.before) | set(self.after)):
            if self.before.get(p) == self.after.get(p) or p in allowed:
                continue
            if self.loose and p not in self.before and os.path.dirname(p) in leftovers_in and not p.endswith((".tl", ".teal", ".tok", ".json")):
                continue        # a temporary file that could not be removed
            self.bad(f"{p} changed, which is not an output of the command")
            return False
        return True

    def status_ok(self):
        r = self.r
        if self.crashed:
            return True
        if r.status < 0:
            return self.bad("the command was killed or does not end")
        if r.status != 0 and not (r.err.strip() or r.out.strip()):
            return self.bad("the command fails without a message")
        return True


def judge_compile(run, sources, quiet=False):
    """sources: relative path -> data"""
    if not run.status_ok():
        return
    outs = {}
    for p, data in sources.items():
        outs[os.path.join(os.path.dirname(p), "build", cli.stem(os.path.basename(p)) + ".teal")] = data
    bdirs = {os.path.dirname(o) for o in outs}
    allowed = set(outs) | {b for b in bdirs if b not in run.before and run.after.get(b) == ("dir",)}
    if not run.unchanged(allowed, bdirs):
        return
    failing = [p for p, data in sources.items() if cli.compiled(data) is None]
    for o, data in outs.items():
        exp = cli.compiled(data)
        a, b = run.after.get(o), run.before.get(o)
        new = exp is not None and a is not None and a[0] == "file" and a[1] == exp[0]
        if run.r.status == 0 and not run.crashed and not new:
            return run.bad(f"the command succeeds but {o} is not the compiler's output")
        if not new and a != b and not (a is None and exp is None):
            return run.bad(f"{o} is neither the compiler's output nor as it was")
    if run.r.status == 0 and not run.crashed and failing:
        return run.bad(f"the command succeeds with the invalid source {failing}")
    if run.fault is None and run.r.status != 0 and not failing:
        return run.bad("the command fails on valid sources")
    if run.r.status == 0 and quiet and (run.r.out or run.r.err):
        return run.bad("a quiet command prints")
    return True


def judge_format(run, src):
    if not run.status_ok():
        return
    real = src
    while run.before.get(real, ("",))[0] == "link":
        real = os.path.normpath(os.path.join(os.path.dirname(real), run.before[real][1]))
    if not run.unchanged({real}, {os.path.dirname(real)}):
        return
    b, a = run.before[real], run.after.get(real)
    exp = cli.formatted(b[1])
    if a is None or a[0] != "file":
        return run.bad("the source file is gone")
    if a[1] not in (b[1], exp):
        return run.bad("the source file is neither as it was nor the formatted text", expected=repr(exp)[:800])
    if a[2] != b[2]:
        return run.bad("the permissions of the source file changed")
    if run.r.status == 0 and not run.crashed:
        if exp is None:
            return run.bad("the command succeeds on an invalid source")
        if a[1] != exp:
            return run.bad("the command succeeds without formatting the file")
    elif run.fault is None and not run.crashed and exp is not None:
        return run.bad("the command fails on a valid source")
    if run.fault is None and exp is None and a != b:
        return run.bad("an invalid source file changed")
    return True


def judge_print(run, kind, sources):
    if not run.status_ok() or not run.unchanged(set()):
        return
    if run.crashed:
        return True
    if kind == "inspect":
        data = next(iter(sources.values()))
        exp = cli.inspected(data)
        if run.r.status == 0:
            if exp is None:
                return run.bad("inspect succeeds on an invalid source")
            try:
                got = json.loads(run.r.out)
            except ValueError:
                return run.bad("inspect does not print JSON only")
            if got != json.loads(json.dumps(exp)):
                return run.bad("inspect prints another result than the library returns", expected=json.dumps(exp)[:800])
        elif run.fault is None and exp is not None:
            return run.bad("inspect fails on a valid source")
    else:
        counts = {}
        for p, data in sources.items():
            t = cli.text_of(data)
            if t is None:
                counts = None
                break
            counts[p] = sum(1 for x in t.split("\n") if x.strip() and x.strip() != "end" and not x.strip().startswith(("#", "//")))
        if run.r.status == 0:
            if counts is None:
                return run.bad("stats succeeds on a file that is not text")
            got = {}
            for x in run.r.out.splitlines():
                p, _, n = x.rpartition(": ")
                got[os.path.normpath(p)] = n
            exp = {os.path.normpath(p): f"{n} lines" for p, n in counts.items()}
            if got != exp:
                return run.bad("stats prints other counts", expected=repr(exp))
        elif run.fault is None and counts is not None:
            return run.bad("stats fails")
    return True


# ---------------------------------------------------------------- scenarios for fault injection
SCEN = {
    "compile-new": ({"a.tl": V1}, ["compile", "a.tl"], ("compile", {"a.tl": V1})),
    "compile-old": ({"a.tl": V1, "build/a.teal": b"old output\n", **OTHER}, ["compile", "a.tl"], ("compile", {"a.tl": V1})),
    "compile-big": ({"a.tl": V2, "build/a.teal": b"x" * 20000}, ["compile", "a.tl"], ("compile", {"a.tl": V2})),
    "compile-dir": ({"a.tl": V1, "b.tl": V1.replace(b" 1\n", b" 2\n"), "build/a.teal": b"old a\n"}, ["compile", "."], ("compile", {"a.tl": V1, "b.tl": V1.replace(b" 1\n", b" 2\n")})),
    "compile-bad": ({"a.tl": COMPILE_ERR, "b.tl": V1, "build/a.teal": b"old a\n"}, ["compile", "."], ("compile", {"a.tl": COMPILE_ERR, "b.tl": V1})),
    "compile-abs": ({"p/a.tl": V1}, ["-q", "compile", "@/p/a.tl"], ("compile", {"p/a.tl": V1})),
    "format": ({"a.tl": UNFMT, **OTHER}, ["format", "a.tl"], ("format", "a.tl")),
    "format-same": ({"a.tl": FORMATTED}, ["format", "a.tl"], ("format", "a.tl")),
    "format-big": ({"a.tl": V2.replace(b"    log", b"  log")}, ["format", "a.tl"], ("format", "a.tl")),
    "format-mode": ({"a.tl": (UNFMT, 0o600)}, ["format", "a.tl"], ("format", "a.tl")),
    "format-exec": ({"a.tl": (UNFMT, 0o755)}, ["format", "@/a.tl"], ("format", "a.tl")),
    "format-link": ({"real/a.tl": UNFMT, "a.tl": ("link", "real/a.tl")}, ["format", "a.tl"], ("format", "a.tl")),
    "format-bad": ({"a.tl": PARSE_ERR}, ["format", "a.tl"], ("format", "a.tl")),
    "inspect": ({"a.tl": V2}, ["inspect", "a.tl"], ("inspect", {"a.tl": V2})),
    "stats": ({"a.tl": V1, "b.tl": V2}, ["stats", "."], ("stats", {"a.tl": V1, "b.tl": V2})),
}
MODES = ["fail", "short", "kill-before", "kill-after", "kill-torn", "fail-from", "partial"]
ERRNOS = [5, 28, 13]


def families(tier):
    t = tier == "thorough"
    return [("tree", {}), ("name", {}), ("content", {}), ("args", {}), ("fault", {"errnos": ERRNOS + ([4, 2, 1, 17, 30] if t else [4])}), ("pair", {"scen": list(SCEN) if t else ["compile-old", "format", "format-mode", "compile-dir"]}),
            ("seq", {"len": 4 if t else 3}), ("obstacle", {})]


def cases(fam, p):
    if fam == "tree":
        for n in range(4):
            for ks in product(KINDS, repeat=n):
                for pre in ("none", "old"):
                    for q in ((0, 1) if pre == "none" else (0,)):
                        yield ("tree", ks, pre, q)
    elif fam == "name":
        for n in NAMES:
            for via in ("rel", "abs", "sub", "up", "link", "dir", "dirslash", "dirabs", "dot"):
                for cmd in ("compile", "format", "inspect", "stats"):
                    if via.startswith("dir") and cmd in ("format", "inspect"):
                        continue
                    yield ("name", n, via, cmd)
    elif fam == "content":
        for c in CONTENTS:
            for cmd in ("compile", "format", "inspect", "stats"):
                for q in (0, 1):
                    yield ("content", c, cmd, q)
    elif fam == "args":
        for k in range(len(ARGS)):
            yield ("args", k)
    elif fam == "fault":
        for s in SCEN:
            for m in MODES:
                for e in p["errnos"] if m in ("fail", "short", "fail-from") else [5]:
                    if m in ("fail-from", "short") and e == 4:
                        continue                        # interrupted calls are repeated
                    yield ("fault", s, m, e)
    elif fam == "pair":
        for s in p["scen"]:
            for m2 in ("fail", "kill-before", "kill-after", "kill-torn"):
                for k in range(14):
                    yield ("pair", s, k, m2)
    elif fam == "seq":
        for n in range(1, p["len"] + 1):
            for ops in product(STEPS, repeat=n):
                if n == p["len"] and ops[-1].startswith("edit"):
                    continue
                yield ("seq", ops)
    elif fam == "obstacle":
        for k in range(len(OBSTACLES)):
            yield ("obstacle", k)


def run_case(case, ctx):
    ctx.distinct(repr(case))
    RUN[case[0]](case, ctx)
    if ctx.n % 41 == 1:
        ctx.sample({"case": repr(case)[:300]})


def judge(run, what, quiet=False):
    kind, x = what
    if kind == "compile":
        return judge_compile(run, x, quiet)
    if kind == "format":
        return judge_format(run, x)
    return judge_print(run, kind, x)


def run_tree(case, ctx):
    _, ks, pre, q = case
    names = ["a.tl", "b.tl", "c.x.tl"]
    tree = {n: KINDS[k] for n, k in zip(names, ks)}
    if pre == "old":
        tree.update(OTHER)
        tree.update({"build/a.teal": b"old a", "build/c.x.teal": b"old c"})
    tree.setdefault("readme.md", b"r")
    src = {n: KINDS[k] for n, k in zip(names, ks)}
    judge_compile(Run(ctx, f"tree:{ks}:{pre}:{q}", tree, (["-q"] if q else []) + ["compile", "."]), src, q)


def run_name(case, ctx):
    _, n, via, cmd = case
    data = UNFMT if cmd == "format" else V1
    tree = {f"p/{n}": data, "p/other.txt": b"o", "z/z.tl": V1}
    cwd, arg, path = "p", n, f"p/{n}"
    if via == "abs":
        cwd, arg = "z", f"@/p/{n}"
    elif via == "sub":
        cwd, arg = "", f"p/{n}"
    elif via == "up":
        cwd, arg = "z", f"../p/{n}"
    elif via == "dot":
        arg = f"./{n}"
    elif via == "link":
        tree = {f"r/{n}": data, f"p/{n}": ("link", f"../r/{n}"), "z/z.tl": V1}
    elif via == "dir":
        cwd, arg = "", "p"
    elif via == "dirslash":
        cwd, arg = "", "p/"
    elif via == "dirabs":
        cwd, arg = "z", "@/p"
    if arg.startswith("-"):
        arg = "./" + arg
    argv = [cmd, arg]
    r = Run(ctx, f"name:{n}:{via}:{cmd}", tree, argv, cwd)
    src = {f"p/{n}": data}
    if via.startswith("dir") and not n.endswith(".tl"):
        src = {}
    if cmd == "compile":
        if cli.stem(n) == "":
            return
        judge_compile(r, src)
    elif cmd == "format":
        judge_format(r, f"p/{n}")
    elif cmd == "inspect":
        judge_print(r, "inspect", src)
    else:
        if cwd == "p":
            src = {os.path.relpath(k, "p"): v for k, v in src.items()}
        elif cwd == "z":
            src = {k: v for k, v in src.items()}
            r.r.out = r.r.out.replace(r.d + "/", "").replace("../", "")
        judge_print(r, "stats", src)


def run_content(case, ctx):
    _, c, cmd, q = case
    data = CONTENTS[c]
    r = Run(ctx, f"content:{c}:{cmd}:{q}", {"a.tl": data, "build/a.teal": b"old"}, (["-q"] if q else []) + [cmd, "a.tl"])
    judge(r, ("format", "a.tl") if cmd == "format" else (cmd, {"a.tl": data}), q and cmd != "inspect" and cmd != "stats")


ARGS = [(["compile"], 2), (["compile", "missing.tl"], 2), (["format", "missing.tl"], 2), (["format", "."], 2), (["inspect", "missing.tl"], 2), (["inspect", "."], 2), (["stats", "missing.tl"], 2), (["nonsense"], 2),
        (["format"], 2), (["inspect"], 2), (["stats"], 2), (["compile", "a.tl", "b.tl"], 2), (["format", "a.tl", "b.tl"], 2), (["compile", "--nope", "a.tl"], 2), (["build", "missing.tl"], 2), (["langspec"], None), (["--help"], 0), (["compile", "--help"], 0),
        (["format", "--help"], 0), (["-h"], 0), ([], None), (["langspec", "nonsense"], 2)]


def run_args(case, ctx):
    argv, status = ARGS[case[1]]
    r = Run(ctx, f"args:{argv}", {"a.tl": UNFMT, "b.tl": V1}, argv)
    if not r.unchanged(set()):
        return
    if status == 0 and r.r.status != 0:
        r.bad("help fails")
    if status == 2 and r.r.status == 0:
        r.bad("a wrong command line succeeds")
    if not (r.r.out + r.r.err).strip():
        r.bad("no message")


def run_fault(case, ctx):
    _, s, mode, errno = case
    tree, argv, what = SCEN[s]
    base = Run(ctx, f"fault:{s}", tree, argv)
    if judge(base, what) is None or base.r.n is None:
        if base.r.n is None:
            base.bad("no result")
        return
    n = base.r.n
    ctx.count("fault points", n)
    for k in range(n):
        r = Run(ctx, f"fault:{s}:{mode}:{errno}:{k}", tree, argv, fault=(k, mode, errno))
        judge(r, what)


def run_pair(case, ctx):
    _, s, k, m2 = case
    tree, argv, what = SCEN[s]
    for mode in ("fail", "short"):
        for k2 in range(k + 1, k + 10):
            r = Run(ctx, f"pair:{s}:{k}:{mode}:{m2}:{k2}", tree, argv, fault=(k, mode, 28), second=(k2, m2))
            judge(r, what)
            if r.r.n is not None and r.r.n <= k2:
                break


STEPS = ["edit-v1", "edit-v2", "edit-bad", "edit-unfmt", "compile", "compile-dir", "format", "inspect", "stats"]


def run_seq(case, ctx):
    """histories of commands in one folder against a model of the tree"""
    ops = case[1]
    d = cli.new_tree({"a.tl": V1, "b.tl": V2})
    model = {"a.tl": V1, "b.tl": V2}
    try:
        for i, op in enumerate(ops):
            key = f"seq:{ops[:i + 1]}"
            if op.startswith("edit"):
                data = {"v1": V1, "v2": V2, "bad": COMPILE_ERR, "unfmt": UNFMT}[op[5:]]
                model["a.tl"] = data
                open(os.path.join(d, "a.tl"), "wb").write(data)
                continue
            argv = {"compile": ["compile", "a.tl"], "compile-dir": ["compile", "."], "format": ["format", "a.tl"], "inspect": ["inspect", "a.tl"], "stats": ["stats", "."]}[op]
            r = cli.server().run(d, argv, prefix=d)
            ctx.traces += 1
            ctx.states += 1
            ctx.transitions += r.n or 1
            ok = True
            a = model["a.tl"]
            if op == "compile" or op == "compile-dir":
                ok = cli.compiled(a) is not None
                if ok:
                    model["build/a.teal"] = cli.compiled(a)[0]
            if op == "compile-dir" and ok:
                model["build/b.teal"] = cli.compiled(V2)[0]
            if op == "format":
                ok = cli.formatted(a) is not None
                if ok:
                    model["a.tl"] = cli.formatted(a)
            if op == "inspect":
                ok = cli.inspected(a) is not None
            snap = {p: v[1] for p, v in cli.snapshot(d).items() if v[0] == "file"}
            if op == "compile-dir" and not ok and snap.get("build/b.teal") == cli.compiled(V2)[0]:
                model["build/b.teal"] = snap["build/b.teal"]       # the other source may be compiled or not
            if (r.status == 0) != ok or snap != model:
                ctx.violation(key, "the command does not have exactly its effects", status=r.status, out=r.out[-500:], err=r.err[-500:], expected_ok=ok,
                              differs=repr({p: (model.get(p), snap.get(p)) for p in set(model) | set(snap) if model.get(p) != snap.get(p)})[:2000])
                return
    finally:
        cli.drop(d)


OBSTACLES = [
    ({"a.tl": V1, "build": b"a file"}, ["compile", "a.tl"]), ({"a.tl": V1, "build/a.teal": None}, ["compile", "a.tl"]), ({"a.tl": V1, "build/a.teal/x": b"keep"}, ["compile", "a.tl"]),
    ({"a.tl": V1, "b.tl": V1, "build/b.teal/x": b"keep"}, ["compile", "."]), ({"a.tl/x": b"dir"}, ["compile", "a.tl"]), ({"a.tl/b.tl": V1}, ["compile", "."]), ({"a.tl": ("link", "nowhere")}, ["compile", "."]),
    ({"a.tl": ("link", "nowhere")}, ["format", "a.tl"]), ({"a.tl": ("link", "a.tl")}, ["compile", "."])]


def run_obstacle(case, ctx):
    tree, argv = OBSTACLES[case[1]]
    r = Run(ctx, f"obstacle:{case[1]}", tree, argv)
    if not r.status_ok():
        return
    src = {p: d for p, d in tree.items() if p.endswith(".tl") and isinstance(d, bytes) and "/" not in p}
    allowed = {"build"} if "build" not in r.before else set()
    for p, data in src.items():
        o = f"build/{cli.stem(p)}.teal"
        if r.before.get(o, ("file",))[0] == "file":
            allowed.add(o)
            a = r.after.get(o)
            if a is not None and a[1] != cli.compiled(data)[0]:
                r.bad(f"{o} is wrong")
    if not r.unchanged(allowed):
        return
    if case[1] != 4 and r.r.status == 0:
        r.bad("the command succeeds although its output cannot be written")


RUN = {"tree": run_tree, "name": run_name, "content": run_content, "args": run_args, "fault": run_fault, "pair": run_pair, "seq": run_seq, "obstacle": run_obstacle}
