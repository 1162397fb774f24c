"""C12: the formatter.  Every statement form in every context and nesting, every comment/blank placement, every spacing of expressions;
the formatted program must compile to the same instructions (or behave the same), keep comments and statements, and be a fixed point."""
import contextlib
import glob
import io
import os
from itertools import product

from ..h import T, Refused, Crashed, guarded, try_compile
from .. import atoms, avm, catalog, runner
from ..catalog import ENDS, STMTS, CTXS, ind, inst, plug, program

ID = "C12"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of programs (statement forms x contexts x nesting, pairs, all comment and blank line placements, all spacings "
             "of expressions); the formatted text is compiled and its instruction sequence compared, behaviours being executed when it differs")
NOTE = ("Complete for all single statements and pairs of nested control structures in 5 contexts, all ordered statement pairs in main, all gaps of all "
        "catalogue and repository programs with 6 insertions. Comments behind a statement on the same line are not documented and not judged.")
RULE = "programs x layouts; distinct = distinct source texts"
ASSUMPTIONS = ["equal assembled instruction sequences behave equally", "AVM model of mc/avm.py where they differ"]


def reformat(src, limit=10):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return guarded(T().reformat_program, src, limit=limit)


def instrs(lines):
    """assembled instructions with numeric targets, without line numbers"""
    a = avm.assemble(lines)
    return [(i.op, tuple(map(str, i.imm)) if isinstance(i.imm, (list, tuple)) else str(i.imm)) for i in a.instrs]


def comments(text):
    out, teal = [], False
    for l in text.split("\n"):
        s = l.strip()
        if teal:
            teal = s != "end"
        elif s == "teal:":
            teal = True
        elif s.startswith("#") and not s.startswith("#pragma"):
            out.append(s)
    return out


def squeeze(line):
    """a line without white space outside of string literals"""
    out, q, i = "", None, 0
    while i < len(line):
        c = line[i]
        if q:
            out += c
            if c == "\\" and i + 1 < len(line):
                out += line[i + 1]
                i += 1
            elif c == q:
                q = None
        elif c in "\"'":
            q = c
            out += c
        elif not c.isspace():
            out += c
        i += 1
    return out


def statements(text):
    return [squeeze(l) for l in text.split("\n") if l.strip() and not l.strip().startswith("#")]


def envs():
    return [atoms.env(0, b"a", 0), atoms.env(1, b"kb", 2), atoms.env(2, b"\xff\xff", 2 ** 64 - 1), atoms.env(7, b"", 5), atoms.env(77, b"a: b", 1), atoms.env(300, b"zz", 1),
            avm.Env(args=[b"pa", b"\5", b"q"], fields={"OnCompletion": 0}), avm.Env(args=[b"pb"], fields={"OnCompletion": 1}), avm.Env(args=[b"loc", b"x"], fields={"OnCompletion": 0})]


def judge(src, ctx, key, must=False, canonical=False):
    """one program"""
    ctx.distinct(src)
    st, lines, m = try_compile(src)
    if st != "ok":
        if must:
            ctx.violation("refused:" + key, f"a valid program is not compiled: {lines!r}"[:300], source=src)
        ctx.count("refused")
        return
    def bad(kind, what, **kw):
        ctx.violation(f"{kind}:{key}", what, source=src, **kw)
    try:
        f = reformat(src)
    except (Refused, Crashed) as e:
        return bad("fail", f"a valid program cannot be formatted: {e}")
    st2, lines2, m2 = try_compile(f)
    if st2 != "ok":
        return bad("invalid", f"the formatted program is not valid: {lines2!r}"[:300], formatted=f)
    try:
        a, b = instrs(lines), instrs(lines2)
    except avm.AsmError as e:
        if must or canonical and "teal:" not in src:
            return bad("asm", f"emitted TEAL does not assemble: {e}", formatted=f)
        a = b = []          # inline TEAL that is none
    ctx.traces += 1
    ctx.states += len(a)
    ctx.transitions += len(a)
    if a != b:
        x, y = avm.assemble(lines), avm.assemble(lines2)
        ctx.count("compared_by_execution")
        for env in envs():
            if avm.outcome(avm.execute(x, env, 5000)) != avm.outcome(avm.execute(y, env, 5000)):
                return bad("behaviour", "the formatted program behaves differently", formatted=f, env=repr(env.args))
    if canonical and a != b:
        return bad("code", "the formatted program has other instructions", formatted=f)
    if comments(f) != comments(src):
        return bad("comments", "comments are lost, changed or moved", formatted=f)
    if canonical and statements(f) != statements(src):
        return bad("statements", "statements are lost, changed or reordered", formatted=f)
    e1, e2 = sorted(m.errors.values()) if hasattr(m, "errors") and isinstance(m.errors, dict) else None, None
    if e1 is not None:
        e2 = sorted(m2.errors.values())
        if e1 != e2:
            return bad("messages", "assertion messages change", formatted=f, before=e1, after=e2)
    try:
        g = reformat(f)
    except (Refused, Crashed) as e:
        return bad("refail", f"the formatted program cannot be formatted: {e}", formatted=f)
    if g != f:
        return bad("idempotent", "formatting again changes the program", formatted=f, again=g)
    # every statement is followed by its own comments: the k-th comment stands before the same statement
    if canonical:
        def order(t):
            out = []
            teal = False
            for l in t.split("\n"):
                s = l.strip()
                if s:
                    out.append("#" if s.startswith("#") and not s.startswith("#pragma") else "s")
            return out
        if order(f) != order(src):
            return bad("order", "comments and statements change places", formatted=f)


NEST = [k for k, s in STMTS.items() if any(l.strip() == "@" for l in s)]
INSERT = ("# c", "#", "", "\n", "#x = 1 \"y", "   # end:")
REPO_PROGRAMS = ("tests/everything.tl", "examples/*.tl", "examples/*/*.tl")


def corpus():
    out = []
    for pat in REPO_PROGRAMS:
        for f in sorted(glob.glob(os.path.join(runner.REPO, pat))):
            out.append(os.path.relpath(f, runner.REPO))
    return out


BIN = ["+", "-", "*", "/", "%", "==", ">=", "<=", ">", "<", "!=", "&&", "||", "|", "&", "^"]
BBIN = ["b+", "b-", "b/", "b*", "b%", "b==", "b!=", "b>=", "b<=", "b>", "b<", "b|", "b&", "b^"]


def families(tier):
    q = tier == "quick"
    return [("one", {}), ("nest", {"shards": 64}), ("nest3", {"shards": 64, "all": not q}), ("ends", {}), ("pairs", {"shards": 64, "ctx": ("main",) if q else CTXS}), ("layout", {"shards": 32}), ("gaps", {"shards": 64}),
            ("repo", {"shards": 64, "all": not q}), ("expr1", {"shards": 64, "all": not q}), ("expr2", {"shards": 64, "all": not q}), ("space", {"shards": 64}), ("text", {}), ("strings", {"shards": 32, "n": 2 if q else 3})]


def cases(fam, p):
    if fam == "one":
        for c in CTXS:
            for k in STMTS:
                yield ("one", c, k)
    elif fam == "nest":
        for c in CTXS:
            for a in NEST:
                for k in STMTS:
                    yield ("nest", c, a, k)
    elif fam == "nest3":
        for c in CTXS if p["all"] else ("main",):
            for a, b in product(NEST, repeat=2):
                for k in ("log", "comment", "blank", "itxn", "group", "teal", "ifelse", "elif", "switch", "decl", "break", "asg2"):
                    if k in STMTS:
                        yield ("nest3", c, a, b, k)
    elif fam == "ends":
        for c in ("main", "block", "nestedblock"):
            for e in ENDS:
                for k in ("comment", "blank", "log", "if", "for_"):
                    yield ("ends", c, e, k)
    elif fam == "pairs":
        for c in p["ctx"]:
            for a, b in product(STMTS, repeat=2):
                yield ("pairs", c, a, b)
    elif fam == "layout":
        for c in CTXS:
            for k in list(STMTS) + ["*"]:
                for lay in range(6):
                    yield ("layout", c, k, lay)
    elif fam == "gaps":
        for k in list(STMTS) + ["e:" + e for e in ENDS] + ["pub", "pre"]:
            for ins in range(len(INSERT)):
                yield ("gaps", k, ins)
    elif fam == "repo":
        for f in corpus():
            yield ("repo", f, None, 0)
            for i in range(len(INSERT)):
                yield ("repo", f, "all", i)
            n = open(os.path.join(runner.REPO, f)).read().count("\n")
            for g in range(n + 1 if p["all"] else 0):
                for i in range(len(INSERT)):
                    yield ("repo", f, g, i)
    elif fam == "expr1":
        for i, o in product(range(len(atoms.int_atoms())), BIN if p["all"] else ("-", "==", "&&")):
            yield ("expr1", "i", i, o)
        for i, o in product(range(len(atoms.bytes_atoms())), BBIN + ["==", "!="] if p["all"] else ("b-", "==")):
            yield ("expr1", "b", i, o)
    elif fam == "expr2":
        for o1, o2 in product(BIN, repeat=2):
            yield ("expr2", o1, o2, p["all"])
        for o1, o2 in product(BBIN, repeat=2):
            yield ("expr2b", o1, o2, p["all"])
    elif fam == "space":
        for k in STMTS:
            for a, b in SPACINGS:
                yield ("space", k, a, b)
    elif fam == "text":
        for k in range(len(TEXTS)):
            yield ("text", k)
    elif fam == "strings":
        from .c11 import PIECES, decode
        for n in range(0, p["n"] + 1):
            for c in product(PIECES if n < 3 else PIECES[:26], repeat=n):
                yield ("strings", "".join(c))


SPACINGS = [(", ", ","), (", ", " ,  "), ("(", "( "), (")", " )"), (" + ", "+"), (" * ", "  *  "), (" == ", "=="), (" - ", "-"), (" b| ", "b|"), (" b+ ", "   b+ "), (" && ", "&&"), ("[", "[ "), ("]", " ]"), (" % ", "%"), ("~", "~ "), ("!", "! "), (" < ", "<"), (" | ", "|"), ("(iv)", "((iv + 0))"), ("\"", "'")]
H = "#pragma version 8\n"
TEXTS = ["exit(1)\n", "exit(1)", "\n\nexit(1)\n\n\n", "# only comment\n\n# two\nexit(1)\n", H + "exit(1)", H + "\n\n\nexit(1)\n", H + "   exit(1)\t\n", H + "\texit(1)\r\n".replace("\r", ""), "#pragma version 8\n# c\n", "#pragma version 8", "#pragma version 8\n", "", "\n", "# c", "#",
         "#pragma version 6\nexit(1)\n", "#pragma version 7\nint x = 1\nexit(x)\n", H + "if 1:\nexit(1)\nend\nexit(0)\n", H + "block a:\nexit(1)\nend\n".replace("block a", "jump a\nblock a"), H + "int x\nx = 1\nexit(x)\n",
         H + "teal:\n  int 1\n    return\nend\n", H + "teal:\n  #define X 1\n  int 1\nend\nexit(1)\n", H + "teal:\n\n  int 1\n\n  pop\nend\nexit(1)\n", H + "teal:\n// c\npushbytes \"a  b\" // d\npop\nend\nexit(1)\n", H + "teal:\nl1:\nint 1\nbnz l2\nb l1\nl2:\nend\nexit(1)\n",
         H + "struct A:\n# c\na: int\n# d\nb: bytes[3]\n# e\nend\nstruct B:\nx: A\nend\nexit(1)\n", H + "inner_txn:\n# a\nFee: 1\n# b\nNote: \"#: x\"\n# c\nend\nexit(1)\n", H + "inner_group:\n# a\ninner_txn:\nFee: 1\nend\n\n# b\nend\nexit(1)\n",
         H + "switch 1:\n# a\n1: a\n# b\nelse: b\n# c\nend\nblock a:\nexit(1)\nend\nblock b:\n exit(2)\nend\n", H + "if 1:\n# a\nelif 2:\n# b\nelse:\n# c\nend\n# d\nexit(1)\n", H + "while 0:\n# a\nend\nfor i in 0:1:\n# b\nend\nfor _ in 0:1:\n# c\nend\nexit(1)\n",
         H + "func f(a: int, b: bytes[4]) int, bytes[4]:\n# a\nreturn a, b\n# b\nend\n".replace("func", "exit(1)\nfunc", 1), H + "exit(1)\nfunc f():\nreturn\nfunc g():\nreturn\nend\nend\n", H + "exit(1)\n@public(OnCompletion=CreateApplication)\nfunc f():\nreturn\nend\n", H + "router:\nf\nend\n@public()\nfunc f(x:int,y :bytes):\nreturn\nend\n",
         H + "exit(1)\nfunc f( a:int , b: int )  int:\nreturn a\nend\n", H + "exit(1)\nfunc f(a:int)int:\nreturn a\nend\n", H + "int x=1\nexit(x)\n", H + "int  x = 1\nexit(x)\n", H + "int x = 1 + 2\nint y = (x)\nexit(y)\n", H + "int x = ((1 + 2))\nexit(x)\n", H + "int x = (((1 + 2)) * 3)\nexit(x)\n",
         H + "int a = 1\nint b = 2\na , b = addw( a,b )\nexit(a)\n", H + "int a\nint b\na,b = addw(1, 2)\nexit(a)\n", H + "int a = 007\nint b = 1_000\nexit(a + b)\n", H + "const int AB = 007\nconst bytes CD = 0xAb\nexit(AB)\n", H + "exit( 1 )\n", H + "assert( 1 , \"m\" )\nexit(1)\n", H + "assert(1,\"m\")\nexit(1)\n", H + "assert(1, \"m # n\")\nexit(1)\n",
         H + "assert(1, \"\")\nexit(1)\n", H + "log('a\"b')\nexit(1)\n", H + "int x = Gtxn[ 1 ].Fee\nint y = Gtxn[ -1 ].Fee\nint z = Gtxn[+ 1].Fee\nexit(x)\n", H + "int x = 1\nint y = Gtxn[x + 1].Fee\nexit(y)\n", H + "bytes b = Txn . ApplicationArgs[0]\nexit(1)\n", H + "exit(! 1)\n", H + "exit(!(!1))\n", H + "exit(~(1 + 2) * 3)\n", H + "exit(!1 + !2)\n",
         H + "for  i  in  0 : 3 :\nend\nexit(1)\n", H + "for i in 0:3:\nend\nexit(1)\n", H + "while not  1:\nend\nexit(1)\n", H + "if  not 1:\nend\nexit(1)\n", H + "if not(1 + 1):\nend\nexit(1)\n", H + "if nota:\nend\nexit(1)\n".replace("if nota", "int nota = 1\nif nota"), H + "box<A>  b = CreateBox( \"k\" )\nexit(1)\n".replace("box", "struct A:\na: int\nend\nbox", 1), H + "struct A:\na:int\nb : bytes[4]\nend\nexit(1)\n", H + "jump  a\nblock a:\nexit(1)\nend\n",
         H + "return_x = 1\nexit(1)\n", H + "int end_x = 1\nend_x = 2\nexit(end_x)\n", H + "int return_v = 1\nreturn_v = 2\nexit(1)\n", H + "int break_x = 1\nbreak_x = 3\nexit(1)\n", H + "int if_x = 1\nif_x = 3\nexit(1)\n", H + "int for_x = 1\nfor_x = 2\nexit(1)\n"]


def run_layout(case, ctx):
    _, c, k, lay = case
    if k == "*":
        st = []
        for n, s in enumerate(v for k2, v in STMTS.items() if k2 != "sq"):
            st += plug(inst(s, n), None)
    else:
        st = plug(inst(STMTS[k], 1), lambda i: inst(STMTS["elif"], 2 + i))
        st = plug(st, None)
    lines = program(st, c).split("\n")
    teal = False
    out = []
    for i, l in enumerate(lines):
        s = l.strip()
        was = teal
        teal = (s != "end") if teal else s == "teal:"
        if i == 0 or was and s != "end":
            out.append(l)
        elif lay == 0:
            out.append(s)
        elif lay == 1:
            out.append("\t" * (i % 5) + s)
        elif lay == 2:
            out.append(" " * (i * 3 % 17) + s + "  ")
    if lay in (3, 4, 5):
        out = []
        gs = set(catalog.gaps(lines))
        for i, l in enumerate(lines):
            if i in gs:
                out += {3: [f"# c{i}"], 4: [""], 5: [f"    # c{i}", "", f"#{i}"]}[lay]
            out.append(l)
    judge("\n".join(out), ctx, f"layout:{c}:{k}:{lay}", must=True, canonical=k != "sq")


def gap_program(k):
    if k.startswith("e:"):
        return program(inst(STMTS["log"], 1), "main", k[2:])
    if k == "pub":
        return program([], "public")
    if k == "pre":
        return program([])
    return "\n".join(["#pragma version 8"] + [l for l in program(plug(inst(STMTS[k], 1), lambda i: ['log("in")'])).split("\n")[1:]])


def run_case(case, ctx):
    kind = case[0]
    if kind == "one":
        judge(program(plug(inst(STMTS[case[2]], 1), None), case[1]), ctx, f"one:{case[1]}:{case[2]}", must=True, canonical=case[2] not in ("sq",))
    elif kind == "nest":
        _, c, a, k = case
        n = [1]

        def inner(i):
            n[0] += 1
            return plug(inst(STMTS[k], n[0]), None)
        judge(program(plug(inst(STMTS[a], 1), inner), c), ctx, f"nest:{c}:{a}:{k}", must=k not in ("const",), canonical=k not in ("sq",))
    elif kind == "nest3":
        _, c, a, b, k = case
        n = [10]

        def inner2(i):
            n[0] += 1
            return plug(inst(STMTS[k], n[0]), None)

        def inner1(i):
            n[0] += 1
            return plug(inst(STMTS[b], n[0]), inner2)
        judge(program(plug(inst(STMTS[a], 1), inner1), c), ctx, f"nest3:{c}:{a}:{b}:{k}", must=True, canonical=True)
    elif kind == "ends":
        _, c, e, k = case
        judge(program(plug(inst(STMTS[k], 1), lambda i: ENDS[e]), c, e), ctx, f"ends:{c}:{e}:{k}", must=True, canonical=True)
    elif kind == "pairs":
        _, c, a, b = case
        judge(program(plug(inst(STMTS[a], 1), None) + plug(inst(STMTS[b], 2), None), c), ctx, f"pairs:{c}:{a}:{b}", must=True, canonical="sq" not in (a, b))
    elif kind == "layout":
        run_layout(case, ctx)
    elif kind == "gaps":
        _, k, i = case
        lines = gap_program(k).split("\n")
        for g in range(1, len(lines) + 1):
            judge("\n".join(lines[:g] + [INSERT[i]] + lines[g:]), ctx, f"gaps:{k}:{i}:{g}", canonical=k != "sq")
    elif kind == "repo":
        _, f, g, i = case
        lines = open(os.path.join(runner.REPO, f)).read().split("\n")
        if g == "all":
            gs = catalog.gaps(lines)
            for k in reversed(gs):
                lines[k:k] = INSERT[i].split("\n")
        elif g is not None:
            lines = lines[:g] + [INSERT[i]] + lines[g:]
        judge("\n".join(lines), ctx, f"repo:{f}:{g}:{i}", canonical=f == "tests/everything.tl" and g is None)
    elif kind == "expr1":
        _, t, i, o = case
        at = atoms.int_atoms() if t == "i" else atoms.bytes_atoms()
        lines = []
        for _, e in at:
            lines.append(f"assert((({at[i][1].src()}) {o} {e.src()}) == 1)" if False else f"_ = {at[i][1].src() if not wrap(at[i][1]) else '(' + at[i][1].src() + ')'} {o} {'(' + e.src() + ')' if wrap(e) else e.src()}")
        src = "#pragma version 8\n" + "\n".join(expr_prelude() + lines) + "\nexit(1)\n" + expr_funcs()
        judge(src, ctx, f"expr1:{t}:{i}:{o}", must=True, canonical=True)
    elif kind in ("expr2", "expr2b"):
        o1, o2 = case[1], case[2]
        if kind == "expr2":
            xs = ["iv", "3", "!ia", "fi(ia)", "KI", "Txn.Fee", "st.fi", "(ia - 1)"] if case[3] else ["iv", "fi(ia)"]
        else:
            xs = ["bv", '"a"', "b~ba", "KB", "fb(bv)"] if case[3] else ["bv", "b~ba"]
        lines = []
        for a, b, c in product(xs, repeat=3):
            lines += [f"_ = ({a} {o1} {b}) {o2} {c}", f"_ = {a} {o1} ({b} {o2} {c})"]
        if kind == "expr2":
            lines += [f"_ = !(iv {o1} ia) {o2} 1", f"_ = ~((iv {o1} ia) {o2} (ia {o1} (ia {o2} 5)))", f"_ = fi(iv {o1} fi(ia {o2} 4))", f"_ = Gtxn[iv {o1} ia].Fee {o2} 1"]
            src = "#pragma version 8\n" + "\n".join(expr_prelude() + lines) + "\nexit(1)\n" + expr_funcs()
            judge(src, ctx, f"expr2:{o1}:{o2}", must=True, canonical=True)
        else:
            ok = [l for l in lines]
            src = "#pragma version 8\n" + "\n".join(expr_prelude() + ok) + "\nexit(1)\n" + expr_funcs()
            judge(src, ctx, f"expr2b:{o1}:{o2}", canonical=True)
    elif kind == "space":
        _, k, a, b = case
        st = plug(inst(STMTS[k], 1), None)
        new = [l.replace(a, b) for l in st]
        if new != st:
            judge(program(new), ctx, f"space:{k}:{a}:{b}")
    elif kind == "text":
        judge(TEXTS[case[1]], ctx, f"text:{TEXTS[case[1]]}")
    elif kind == "strings":
        from .c11 import decode
        b = case[1]
        v = decode(b)
        if v is None:
            return
        s = b.replace("'", "\\'")
        src = H + (f'const bytes LIT = "{b}"\n' if v else "") + f'bytes z = "{b}"\nlog(concat("{b}", z))\nlog(\'{s}\')\nassert(z == "{b}", "{b}")\nif z == "{b}":\n    log("{b}")\nend\ninner_txn:\n    Note: "{b}"\nend\nswitch z:\n    "{b}": b1\nend\nblock b1:\n    exit(1)\nend\nfunc f() bytes, bytes:\n    return "{b}", concat("{b}", "{b}")\nend\n'
        judge(src, ctx, f"strings:{b}", must=True)
    if ctx.n % 97 == 1:
        ctx.sample({"case": repr(case)})


def wrap(e):
    return type(e).__name__ == "Bin"


def expr_prelude():
    from ..ref import emit_all
    out = []
    out += atoms.S1.lines()
    emit_all(atoms.prelude(), out, 0)
    return out


def expr_funcs():
    from ..ref import emit_all
    out = []
    emit_all(atoms.FUNCS, out, 0)
    return "\n".join(out) + "\n"
