"""C16: every text is compiled or refused with a documented error.  All single edits (characters, tokens, lines) of a corpus with every
construct, all short sequences of lines and tokens, all nesting depths and list lengths up to beyond the interpreter's limits."""
import contextlib
import io
import re
import sys
from itertools import product

from .. import catalog, h

ID = "C16"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of the input texts within edit distance one of a corpus covering every construct, of all short line and token "
             "sequences and of all nesting depths, each run through the real compiler, formatter and inspector under a time limit")
NOTE = ("Complete for one edit of every corpus program from the listed edit alphabets, line sequences of length 3 and token sequences of length 3 (quick) or 4 "
        "over the listed vocabularies, depths 1 to 400. Texts further from the corpus than one edit are not covered.")
RULE = "corpus x edit kind x position x replacement; sequences over vocabularies; depth of each nesting construct; distinct = distinct texts"
ASSUMPTIONS = ["a run of more than 30 s counts as not terminating"]

F = ("compile_program", "reformat_program", "inspect_program")
CANARY = "#pragma version 8\nstruct Z:\n    a: int\nend\nint x = 1\nif x:\n    assert(x, \"m\")\nend\nexit(f(x))\nfunc f(p: int) int:\n    return p\nend\n"


class Tap(io.StringIO):
    pass


_canary = None


def canary():
    return repr([run(f, CANARY)[1:] for f in F])


def run(f, src):
    """(class, result text)"""
    tap = io.StringIO()
    err = io.StringIO()
    lim = sys.getrecursionlimit()
    sys.setrecursionlimit(1000)
    try:
        with contextlib.redirect_stdout(tap), contextlib.redirect_stderr(err):
            try:
                r = h.guarded(getattr(h.T(), f), src, limit=30)
                c = "ok"
                if f == "compile_program":
                    lines, m = r
                    r = (list(lines), m.as_dict())
                    if not all(isinstance(x, str) for x in lines):
                        c, r = "crash", "the result is not a list of lines"
                elif f == "reformat_program" and not isinstance(r, str):
                    c, r = "crash", f"the formatted text is a {type(r).__name__}"
            except h.Refused as e:
                c, r = "refused", type(e.exc).__name__
                if not str(e.exc).strip():
                    c, r = "crash", "an error without a message"
            except h.Crashed as e:
                c, r = "crash", f"{type(e.exc).__name__}: {str(e.exc)[:200]}"
    finally:
        sys.setrecursionlimit(lim)
    if tap.getvalue():
        c, r = "crash", "prints to standard output: " + tap.getvalue()[:100]
    return c, r


def norm(r):
    return re.sub(r"\d+", "N", str(r))[:100]


def check(ctx, src, fs=F):
    ctx.distinct(src)
    st = []
    for f in fs:
        c, r = run(f, src)
        ctx.traces += 1
        ctx.transitions += 1
        st.append(c)
        if c == "crash":
            ctx.violation(f"{f}:{norm(r)}:{ctx.case}", f"{f}: {r}", source=src)
    ctx.states += 1
    ctx.count("accepted" if st[0] == "ok" else "refused")
    if len(st) == 3 and ctx.kind not in ("nest", "big") and st[0] == "ok" and "refused" in st[1:]:
        ctx.violation(f"differ:{ctx.case}", f"compiled, but {F[1 + (st[1] == 'ok')]} refuses the text", source=src)


# ------------------------------------------------------------------ corpus
def corpus():
    C = catalog
    out = {}
    for k, s in C.STMTS.items():
        out[k] = C.program(C.plug(C.inst(s, 1), lambda j: ['log("@")']))
    for k, e in C.ENDS.items():
        if k not in ("exit",):
            out["end-" + k] = C.program([], end=k)
    out["func"] = C.program(["ia, ba = fj(iv, bv)"], "func")
    out["public"] = C.program(["fl(1)"], "public")
    out["blocks"] = C.program(["fl(1)"], "nestedblock")
    out["noversion"] = 'log("a")\nexit(1)\n'
    out["router"] = "#pragma version 8\nrouter:\n    m\n    g\nend\n@public()\nfunc m(a: int, b: bytes) int:\n    return a\nend\n@public(OnCompletion=OptIn)\nfunc g():\n    return\nend\n"
    out["everything"] = C.program(C.inst(C.STMTS["decl"], 1), full=True)
    return out


CORPUS = corpus()
CHARS = ['"', "'", "\\", "#", "(", ")", "[", "]", "{", "}", ":", ",", ".", ";", "=", "+", "-", "!", "<", "@", "_", " ", "\t", "\n", "\r", "\0", "\x0b", "\x1c", "\u2028", "\u00e9",
         "\U0001f600", "\ud800", "0", "1", "a", "A", "/", "%", "\u00a0", "\u0661"]
TOKENS = ['"', '""', '"s"', "'s'", "(", ")", "()", "[", "]", "[0]", ":", ",", ".", "=", "==", "+", "-", "!", "not ", "0", "1", "-1", "99999999999999999999", "0x", "0xAB", "iv", "bv", "KI", "OptIn",
          "st", "bx", "S1", "fl", "fl(1)", "fj", "fj(1, bv)", "log", "btoi", "Txn", "Txn.Fee", "Gtxn[", "Global.Round", "int", "bytes", "bytes[4]", "box<S1>", "uint8", "func", "if", "elif",
          "else", "for", "in", "while", "end", "exit", "return", "break", "jump", "switch", "router", "block", "struct", "const", "assert", "teal", "inner_txn", "inner_group", "@public", "_",
          "#", "//", "b+", "Cast", "SizeOf", "push", "pop", "error", "undeclared", "push(1)", "pop(x)", "b1", "fi", "assert(1)"]
LINES = ["", "# c", "end", "else:", "elif iv:", "if iv:", "while iv:", "while not iv:", "for q in 0:3:", "for _ in 0:3:", "block zz:", "func zz():", "func zz(p: int) int:", "@public()",
         "@public(OnCompletion=DeleteApplication)", "return", "return 1", "return 1, 2", "break", "exit(1)", "exit()", "jump b1", "jump nowhere", "switch iv:", "    1: b1", "    else: b1", "router:",
         "struct QQ:", "    a: int", "const int QQ = 1", "int qq", "int qq = 1", "box<S1> qq", "qq = 1", "st.fi = 1", "_ = 1", "log(\"a\")", "1", "\"a\"", "teal:", "inner_txn:", "inner_group:", "Fee: 1", "router",
         "assert(1)", "error()", "(", ")", "int", "=", "x = y = z", "#pragma version 9", "#pragma version", "pa", "    \t", "@", "push(1)", "pop(x)", "end end", "a b c", "fl(1)", "fl", "fi(1)", "ia, ba = fj(1, bv)"]
START = ["int x = 1", "x = x + 1", "if x:", "else:", "elif x:", "end", "while x:", "for _ in 0:2:", "for k in 0:x:", "break", "exit(1)", "return", "return x", "block a:", "jump a", "func f():", "func g(p: int) int:",
         "f()", "x = g(x)", "@public()", "router:", "    f", "switch x:", "    1: a", "inner_txn:", "    Fee: x", "inner_group:", "struct S:", "    p: int", "S s", "s.p = 1", "teal:", "const int K = 1", "# c", "", "#pragma version 8"]
TOK = ["x", "1", '"s"', "(", ")", "[", "]", "=", ",", ".", ":", "+", "-", "!", "int", "f", "_", "Txn", "Fee", "if", "return", "exit", "not", "K", "log", "@", "#", "end", "s", "==", "Gtxn", "b+", "const", "box<S>", "bytes[", "'"]

SPECIAL = ["", "\n", " ", "\0", "\ufeff", "\r", "\r\n", "\x1a", "#", "#pragma", "#pragma version 8", "#pragma version x", "#pragma version -1", "#pragma version 999999", "#pragma version 08", "#pragma typetrack false", "\\", "end", "@", ":", "\t\n\t",
                  "exit(1)", "exit(1)\r\n", "exit(1)\x0c", "exit(1)\x85exit(1)", "\ufeffexit(1)\n", "a" * 100000, "(" * 100000, "\n" * 20000, '"' * 100001, "exit(1)\n" + "#" * 100000, "#" + "a" * 100000 + "\nexit(1)", "\ud800", "exit(1) # \ud800"]
WORD = re.compile(r"\"(?:[^\"\\]|\\.)*\"|'(?:[^'\\]|\\.)*'|\w+|[^\w\s]|\s+")


def nest(kind, n):
    p = "#pragma version 8\n"
    ind = lambda k: "" if n > 60 else "    " * k
    if kind in EXPRS:
        a, m, b = EXPRS[kind]
        return p + "int x = 1\nbytes y = \"\"\n" + f"x = {a * n}{m}{b * n}\nexit(x)\nfunc f(p: int) int:\n    return p\nend\n"
    if kind in STMT:
        o, c = STMT[kind]
        return p + "int x = 1\n" + "\n".join(ind(i) + o.replace("@", f"v{i}") for i in range(n)) + "\n" + "\n".join(ind(n - 1 - i) + c for i in range(n)) + "\nexit(x)\n"
    if kind == "block":
        return p + "".join(f"jump b{i}\nblock b{i}:\n" for i in range(n)) + "exit(1)\n" + "end\n" * n
    if kind == "func":
        return p + "f0()\nexit(1)\n" + "".join(f"func f{i}():\nreturn\n" for i in range(n)) + "end\n" * n
    if kind == "chain":
        return p + "exit(f0(1))\n" + "".join(f"func f{i}(p: int) int:\n    return f{i + 1}(p)\nend\n" for i in range(n)) + f"func f{n}(p: int) int:\n    return p\nend\n"
    if kind == "mutual":
        return p + "exit(f0(1))\n" + "".join(f"func f{i}(p: int) int:\n    return f{(i + 1) % n}(p)\nend\n" for i in range(n))
    if kind == "elif":
        return p + "int x = 1\nif x == 0:\n" + "".join(f"elif x == {i}:\n    log(\"a\")\n" for i in range(n)) + "end\nexit(1)\n"
    if kind == "stmts":
        return p + "int x = 1\n" + "x = x + 1\n" * n + "exit(1)\n"
    if kind == "vars":
        return p + "".join(f"int x{i} = 1\n" for i in range(n)) + "exit(1)\n"
    if kind == "funcvars":
        return p + "f()\nexit(1)\nfunc f():\n" + "".join(f"int x{i} = 1\n" for i in range(n)) + "return\nend\n"
    if kind == "consts":
        return p + "".join(f"const int C{i} = 1\n" for i in range(n)) + "exit(1)\n"
    if kind == "params":
        return p + "exit(f(" + ", ".join(["1"] * n) + "))\nfunc f(" + ", ".join(f"p{i}: int" for i in range(n)) + ") int:\n    return p0\nend\n"
    if kind == "rets":
        return p + ", ".join(["_"] * n) + " = f()\nexit(1)\nfunc f() " + ", ".join(["int"] * n) + ":\n    return " + ", ".join(["1"] * n) + "\nend\n"
    if kind == "args":
        return p + "log(Concat(" + ", ".join(['"a"'] * n) + "))\nexit(1)\n"
    if kind == "struct":
        return p + "struct S:\n" + "".join(f"    f{i}: bytes[{i + 1}]\n" for i in range(n)) + "end\nexit(1)\n"
    if kind == "structs":
        return p + "struct S0:\n    a: int\nend\n" + "".join(f"struct S{i + 1}:\n    a: S{i}\nend\n" for i in range(n)) + "exit(1)\n"
    if kind == "router":
        return p + "router:\n" + "".join(f"    f{i}\n" for i in range(n)) + "end\n" + "".join(f"@public()\nfunc f{i}():\n    return\nend\n" for i in range(n))
    if kind == "switch":
        return p + "int x = 1\nswitch x:\n" + "".join(f"    {i}: b\n" for i in range(n)) + "    else: b\nend\nblock b:\n    exit(1)\nend\n"
    if kind == "fields":
        return p + "inner_txn:\n    TypeEnum: Pay\n" + "".join(f"    ApplicationArgs[{i}]: \"a\"\n" for i in range(n)) + "end\nexit(1)\n"
    if kind == "comments":
        return p + "# c\n" * n + "exit(1)\n"
    if kind == "blank":
        return p + "\n" * n + "exit(1)\n" + "\n" * n
    if kind == "teal":
        return p + "teal:\n" + "    pushint 1; pop\n" * n + "end\nexit(1)\n"
    if kind == "digits":
        return p + "int x = " + "1" * n + "\nexit(x)\n"
    if kind == "string":
        return p + 'log("' + "a" * (n * 16) + '")\nexit(1)\n'
    if kind == "escapes":
        return p + 'log("' + '\\"' * n + '")\nexit(1)\n'
    if kind == "spaces":
        return p + "int x = 1" + " " * n + "+" + " " * n + "1\nexit(x)\n"
    if kind == "quotes":
        return p + "log(" + '"' * n + ")\nexit(1)\n"
    if kind == "name":
        return p + f"int {'v' * n} = 1\nexit({'v' * n})\n"
    if kind == "commas":
        return p + "int x = f(" + "," * n + ")\nexit(x)\n"
    if kind == "brackets":
        return p + "int x = " + "[" * n + "]" * n + "\nexit(x)\n"
    if kind == "dots":
        return p + "int x = Txn" + ".Fee" * n + "\nexit(x)\n"
    raise AssertionError(kind)


EXPRS = {"grp": ("(", "1 + 1", ")"), "grpl": ("(", "1", " + 1)"), "grpr": ("(1 + ", "1", ")"), "not": ("!", "x", ""), "notg": ("!(1 + ", "x", ")"), "call": ("f(", "x", ")"), "op": ("btoi(itob(", "x", "))"),
         "index": ("btoi(Txn.ApplicationArgs[", "x", "])"), "gindex": ("Gtxn[", "x", "].Fee"), "neg": ("-", "1", ""), "plus": ("", "1", " + 1"), "openp": ("(", "x", ""), "closep": ("", "x", ")"), "openc": ("f(", "x", ""),
         "cast": ("Cast(", "x", ", int)"), "opens": ("len(concat(y, \"", "", "")}
STMT = {"if": ("if x:", "end"), "ifnot": ("if not x:", "end"), "ifelse": ("if x:", "else:\nlog(\"a\")\nend"), "while": ("while x:", "end"), "for": ("for @ in 0:2:", "end"), "for_": ("for _ in 0:2:", "end"), "group": ("inner_group:", "end"),
        "unclosed": ("if x:", "# no end")}
LISTS = ["elif", "stmts", "vars", "funcvars", "consts", "params", "rets", "args", "struct", "structs", "router", "switch", "fields", "comments", "blank", "teal", "digits", "string", "escapes", "spaces", "quotes",
         "name", "commas", "brackets", "dots", "chain", "mutual", "block", "func"]


# statements whose text is edited at every character and token in the quick tier (one per node type); all in the thorough tier
QUICK = [k for k in CORPUS if k not in ("declb", "declx", "declu8", "decla", "asgb", "asg_", "asg__", "sfb", "sfu", "bfb", "logc", "emptyif", "emptyelse", "whilenot", "field2", "field3", "field4", "grp2", "un", "bop", "bun", "commentn",
                                        "comment2", "opst", "assertc", "boxcreate", "box", "noversion", "end-exitx")]


def families(tier):
    t = tier == "thorough"
    return [("chars", {"sub": CHARS if t else CHARS[:0], "shards": 64}), ("tokens", {"full": t, "shards": 64}), ("lines", {"full": t, "shards": 64}), ("seq", {"n": 3, "full": t, "shards": 64}),
            ("tok", {"n": 4 if t else 3, "shards": 64}), ("nest", {"max": 420 if t else 130, "shards": 64}), ("special", {})]


def chunks(xs, n=200):
    for i in range(0, len(xs), n):
        yield xs[i:i + n]


def cases(fam, p):
    if fam == "chars":
        for k, src in CORPUS.items():
            if not p["sub"] and k not in QUICK:
                continue
            yield ("trunc", k)
            for i in range(0, len(src), 12):
                yield ("char", k, i, i + 12)
    elif fam == "tokens":
        for k, src in CORPUS.items():
            if not p["full"] and k not in QUICK:
                continue
            n = len(WORD.findall(src))
            for i in range(n):
                yield ("token", k, i, p["full"])
    elif fam == "lines":
        for k, src in CORPUS.items():
            for i in range(src.count("\n") + 1):
                yield ("line", k, i, p["full"])
    elif fam == "seq":
        for a in product(range(len(START)), repeat=2):
            yield ("seq", a, p["full"])
    elif fam == "tok":
        for a in product(range(len(TOK)), repeat=p["n"] - 1):
            yield ("tok", a)
    elif fam == "nest":
        for k in list(EXPRS) + list(STMT) + LISTS:
            ds = list(range(0, p["max"], 2))
            if p["max"] < 200:
                ds = ds[:8] + [32, 64, 100, 160, 240, 320]
            for n in ds:
                yield ("nest", k, n)
        for k in list(EXPRS) + list(STMT) + LISTS:
            for n in (500, 1000, 3000) if p["max"] > 200 else (600,) if k in ("grp", "call", "group", "rets", "params", "quotes", "string", "block", "if") else ():
                if not (k in ("stmts", "elif", "chain", "mutual", "router", "while", "for", "ifelse", "if", "for_", "ifnot") and n > 600 and k != "if"):
                    yield ("big", k, n)
    elif fam == "special":
        for i in range(len(SPECIAL)):
            yield ("special", i)


# in the quick tier one replacement character per class
QCHARS = ['"', "\\", "#", "(", ",", "\n", "1"]
QTOK = ["(", ":", "0", '"s"', "99999999999999999999", "st", "fl", "btoi", "Txn", "int", "_", "undeclared", "fj(1, bv)"]
QLINES = ["", "# c", "end", "else:", "if iv:", "for _ in 0:3:", "block zz:", "func zz():", "@public()", "return 1", "break", "exit(1)", "jump b1", "switch iv:", "    1: b1", "router:", "struct QQ:", "    a: int", "qq = 1", "1", "teal:",
          "inner_txn:", "inner_group:", "(", "x = y = z", "#pragma version 9", "fl"]


def run_case(case, ctx):
    global _canary
    if _canary is None:
        _canary = canary()
    kind = ctx.kind = case[0]
    ctx.case = repr(case[:3])[:120]
    full = case[-1] is True
    fs = F if full or kind in ("nest", "big", "special", "trunc", "line") else F[:1] if kind in ("tok", "token") else (F[0], F[1])
    if kind == "trunc":
        src = CORPUS[case[1]]
        for i in range(len(src)):
            check(ctx, src[:i], fs)
        for i in range(0, len(src), 3):
            check(ctx, src[i:], F[:1])
    elif kind == "char":
        src = CORPUS[case[1]]
        chars = CHARS if ctx.tier == "thorough" else QCHARS
        # the shared declarations are edited once, with the program of all of them
        for i in range(case[2], min(case[3], len(src))):
            if ctx.tier != "thorough" and case[1] not in ("everything", "router", "func") and i < shared(case[1]):
                continue
            check(ctx, src[:i] + src[i + 1:], F[:2])
            for c in chars:
                check(ctx, src[:i] + c + src[i:], F[:1])
                if ctx.tier == "thorough":
                    check(ctx, src[:i] + c + src[i + 1:], F)
    elif kind == "token":
        src = CORPUS[case[1]]
        ws = WORD.findall(src)
        i = case[2]
        if not full and case[1] not in ("everything", "router", "func") and sum(map(len, ws[:i])) < shared(case[1]):
            return
        cut = lambda x: "".join(ws[:i]) + x + "".join(ws[i + 1:])
        check(ctx, cut(""), fs)
        check(ctx, cut(ws[i] * 2), fs)
        check(ctx, cut(ws[i] + " " + ws[i]), fs)
        if i + 1 < len(ws):
            check(ctx, "".join(ws[:i]) + ws[i + 1] + ws[i] + "".join(ws[i + 2:]), fs)
        if i + 2 < len(ws):
            check(ctx, "".join(ws[:i]) + ws[i + 2] + ws[i + 1] + ws[i] + "".join(ws[i + 3:]), fs)
        for t in TOKENS if full else QTOK:
            check(ctx, cut(t), fs)
            if full:
                check(ctx, cut(ws[i] + t), fs)
    elif kind == "line":
        ls = CORPUS[case[1]].split("\n")
        i = case[2]
        j = lambda xs: "\n".join(xs)
        check(ctx, j(ls[:i] + ls[i + 1:]), fs)
        if i + 1 < len(ls):
            check(ctx, j(ls[:i] + [ls[i], ls[i]] + ls[i + 1:]), fs)
            check(ctx, j(ls[:i] + [ls[i + 1], ls[i]] + ls[i + 2:]), fs)
            check(ctx, j(ls[:i] + [ls[i] + " " + ls[i + 1].strip()] + ls[i + 2:]), fs)
            check(ctx, j(ls[:i + 1] + [ls[0]] + ls[i + 1:]), fs)
        for x in LINES if full else QLINES:
            check(ctx, j(ls[:i] + [x] + ls[i + 1:]), fs if full else F[:1])
            check(ctx, j(ls[:i] + [x] + ls[i:]), fs if full else F[:1])
    elif kind == "seq":
        for c in range(len(START)):
            ls = [START[x] for x in case[1]] + [START[c]]
            check(ctx, "\n".join(ls), fs if full else F[1:2])
            check(ctx, "\n".join(["int x = 1"] + ls + ["end", "exit(1)"]), F[:1])
            if full:
                check(ctx, "\n".join(ls + ["exit(1)", "block a:", "exit(1)", "end", "func f():", "return", "end"]), F[:1])
    elif kind == "tok":
        pre = "struct S:\n    a: int\nend\nS s\nint x = 1\nconst int K = 1\n"
        post = "\nexit(1)\nfunc f() int:\n    return 1\nend\n"
        for c in TOK:
            for sep in (" ", ""):
                check(ctx, pre + sep.join([TOK[i] for i in case[1]] + [c]) + post, fs)
    elif kind in ("nest", "big"):
        for n in ((case[2], case[2] + 1) if kind == "nest" else (case[2],)):
            ctx.case = repr((kind, case[1], n))
            check(ctx, nest(case[1], n), F)
    elif kind == "special":
        s = SPECIAL[case[1]]
        ctx.case = "special:" + repr(s[:40])
        check(ctx, s, F)
        check(ctx, CORPUS["asg"] + s, F)
    if canary() != _canary:
        ctx.violation(f"canary:{ctx.case}", "a valid program is compiled differently after these inputs", case=repr(case))
        _canary = canary()


_shared = {}


def shared(k):
    """length of the text before the statement of a corpus program"""
    if k not in _shared:
        src = CORPUS[k]
        if k in catalog.STMTS:
            first = catalog.inst(catalog.STMTS[k], 1)[0]
            _shared[k] = max(src.find("\n" + first), 0)
        else:
            _shared[k] = 0
    return _shared[k]
