"""C13: source maps.  For every enumerated program: every instruction line is mapped into the statement that produced it (removing the
statement removes exactly the instructions mapped into it), executed effects and failures lead to the line the reference interpreter
executes, program counters lead to lines and assertion messages, and serialised maps answer alike."""
import glob
import json
import os
import re
from itertools import product

from ..ref import (Assert, Assign, Bin, Blank, Block, BoxDecl, Break, Call, Comment, Const, ConstDef, Decl, Exit, Expr, Fld, For, Func, If, InnerGroup, InnerTxn, Int, Jump, Log, Op, Prog, RT, Raw, Return,
                   Router, SF, SetField, Std, Str, Struct, Switch, Teal, Var, While)
from ..h import T, Chooser, cond, next_prefix, try_compile
from .. import atoms, avm, catalog, ref, runner
from ..catalog import CTXS, ENDS, STMTS, ind, inst, plug, program

ID = "C13"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of programs (statement forms x contexts x nesting); every instruction's map entry is decided by removing each "
             "statement in turn, and every execution path over nondeterministic conditions is traced through the map and compared with the lines "
             "a reference interpreter executes; every failure site is driven to fail and looked up by program counter")
NOTE = ("Complete for every statement form in 5 contexts, all two-level nestings, all paths of the traced programs with up to 6 choices; the pc side "
        "uses the instruction sizes of the AVM model's assembler and the map format of algod.")
RULE = "programs x removed statement; programs x paths; failure sites x contexts; maps x serialisations; distinct = distinct sources"
ASSUMPTIONS = ["AVM model of mc/avm.py (instruction encoding sizes included)", "removing a statement changes no instructions of other statements except slot numbers and branch targets"]


# ------------------------------------------------------------------ instruction lines
def comp(src):
    st, lines, m = try_compile(src)
    if st != "ok":
        return None
    return lines, m


NOSLOT = {"load", "store", "b", "bz", "bnz", "callsub", "switch", "match"}


def instr_lines(asm):
    return [((i.op,) if i.op in NOSLOT else (i.op, repr(i.imm)), i.line) for i in asm.instrs]


def ranges(lines):
    """(first, last) line numbers (from 1) of every statement, nested ones included, in source order"""
    out, stack = [], []
    for n, l in enumerate(lines, 1):
        s = l.strip()
        top = stack[-1] if stack else None
        if top and top[0] == "teal" and s != "end":
            out.append((n, n))
            continue
        if not s or s.startswith("#") or s.startswith("@"):
            continue
        m = re.match(r"(struct|router|teal|switch|inner_txn|inner_group|if|while|for|block|func)\b.*:$", s)
        if s == "end":
            k, a = stack.pop()
            out.append((a, n))
        elif m and (m.group(1) not in ("if", "while", "for") or s.endswith(":")):
            stack.append((m.group(1), n))
        elif s.startswith(("elif ", "else:")) and top and top[0] == "if":
            pass
        elif top and top[0] in ("struct", "router", "switch", "inner_txn"):
            pass
        else:
            out.append((n, n))
    return sorted(out)


def check_map(src, lines, m, ctx, key):
    """coverage, agreement of the lookups, serialisation; returns the assembled program"""
    n_src = src.count("\n") + 1
    try:
        asm = avm.assemble(lines)
    except avm.AsmError as e:
        ctx.violation("asm:" + key, f"emitted TEAL does not assemble: {e}", source=src)
        return None
    text = src.split("\n")
    for i in asm.instrs:
        s = m.get_tealish_line_for_teal(i.line)
        if not isinstance(s, int) or not 1 <= s <= n_src:
            ctx.violation("unmapped:" + key, f"TEAL line {i.line} ({lines[i.line - 1].strip()}) is mapped to {s!r}", source=src)
            return None
        t = text[s - 1].strip()
        if not t or t.startswith("#") or t in ("end", "else:") and False:
            ctx.violation("blankline:" + key, f"TEAL line {i.line} ({lines[i.line - 1].strip()}) is mapped to line {s} which holds no statement", source=src)
            return None
    for t in range(0, len(lines) + 3):
        s = m.get_tealish_line_for_teal(t)
        if s is not None and t not in m.get_teal_lines_for_tealish(s):
            ctx.violation("inverse:" + key, f"TEAL line {t} leads to line {s} but not back", source=src)
            return asm
    for s in range(0, n_src + 3):
        ts = m.get_teal_lines_for_tealish(s)
        if len(set(ts)) != len(ts) or any(m.get_tealish_line_for_teal(t) != s for t in ts):
            ctx.violation("inverse:" + key, f"line {s} leads to TEAL lines {ts} which do not lead back", source=src)
            return asm
    sm = asm.sourcemap()
    from algosdk.source_map import SourceMap
    m2 = T().TealishMap(json.loads(json.dumps(m.as_dict())))
    m3 = T().TealishMap(m.as_dict())
    m4 = T().TealishMap(m.as_dict())
    m3.update_from_teal_sourcemap(sm)
    m4.update_from_teal_sourcemap(SourceMap(sm))
    m5 = T().TealishMap(json.loads(json.dumps(m3.as_dict())))
    ctx.states += len(asm.instrs)
    errs = m.errors if isinstance(m.errors, dict) else {}
    pcs = list(range(0, asm.instrs[-1].pc + asm.instrs[-1].size + 2)) if asm.instrs else []
    answers = lambda x: ([x.get_tealish_line_for_teal(t) for t in range(len(lines) + 3)], [list(x.get_teal_lines_for_tealish(s)) for s in range(n_src + 3)])
    if answers(m) != answers(m2):
        ctx.violation("json:" + key, "the reloaded map answers differently", source=src)
    pa = lambda x: [(x.get_teal_line_for_pc(p), x.get_tealish_line_for_pc(p), x.get_error_for_pc(p)) for p in pcs]
    a3 = pa(m3)
    if a3 != pa(m4) or a3 != pa(m5) or answers(m5) != answers(m):
        ctx.violation("jsonpc:" + key, "the reloaded map answers differently for program counters", source=src)
    for i in asm.instrs:
        if a3[i.pc][:2] != (i.line, m.get_tealish_line_for_teal(i.line)):
            ctx.violation("pc:" + key, f"pc {i.pc} of TEAL line {i.line} leads to {a3[i.pc]}", source=src)
            break
    asm_map = (asm, m3)
    return asm_map


def segment(src, ctx, key, must=False):
    ctx.distinct(src)
    r = comp(src)
    if r is None:
        if must:
            ctx.violation("refused:" + key, "a valid program is refused", source=src)
        return
    am = check_map(src, r[0], r[1], ctx, key)
    if am is None:
        return
    asm, m = am
    text = src.split("\n")
    mine = [(x, m.get_tealish_line_for_teal(l)) for x, l in instr_lines(asm)]
    for a, b in ranges(text):
        if any(l.strip() == "inner_group:" for l in text[a - 1:b]):
            # without its groups a program submits inner transactions by other instructions
            continue
        new = text[:a - 1] + [""] * (b - a + 1) + text[b:]
        r2 = comp("\n".join(new))
        if r2 is None:
            # a body may not be blank, e.g. of struct, or a declaration is needed
            continue
        try:
            a2 = avm.assemble(r2[0])
        except avm.AsmError:
            continue
        ctx.traces += 1
        ctx.transitions += len(a2.instrs)
        rest = [(x, r2[1].get_tealish_line_for_teal(l)) for x, l in instr_lines(a2)]
        want = [(x, s) for x, s in mine if not a <= s <= b]
        if rest != want:
            extra = [x for x in rest if x not in want][:3]
            lost = [x for x in want if x not in rest][:3]
            ctx.violation("segment:" + key, f"removing lines {a}-{b} does not remove exactly the instructions mapped to them: left over {lost}, missing {extra}", source=src)
            return


# ------------------------------------------------------------------ traced programs
class TraceList(list):
    def __init__(self, m):
        self.m, self.at = m, []

    def append(self, x):
        list.append(self, x)
        self.at.append(self.m.failins.line)


def run_traced(prog, asm, m, ch, ctx, env, kinds):
    """kinds: the lines of inner groups, which share the instructions that submit them;
    ((effects, lines) of the reference, of the implementation)"""
    out = []
    for side in (0, 1):
        c = Chooser(ch.prefix, ch.limit, 0)
        log = []

        def oracle(mm, op, imm, args, c=c, log=log):
            if op == "balance":
                v = c.choose(2, args[0] % 2)
                log.append((("balance", args[0]), mm.failins.line))
                return [v]
            if op == "min_balance":
                log.append((("mark", args[0]), mm.failins.line))
                return [args[0]]
            return None
        e = avm.Env(oracle=oracle, **env)
        if side == 0:
            rt = RT(prog, e, 3000)
            orig = rt.op

            def op(name, imm, args, rt=rt, orig=orig):
                rt.m.failins = avm.Instr(name, imm, rt.line)
                return orig(name, imm, args)
            rt.op = op
            mach = rt.m
            mach.effects = TraceList(mach)
            rt.run()
            at = lambda l: l
            fail = rt.line
            ch.log = c.log
        else:
            mach = avm.Machine(asm, e, 20000)
            mach.effects = TraceList(mach)
            mach.run()
            at = lambda l: m.get_tealish_line_for_teal(l)
            fail = at(mach.failins.line)
            ctx.states += mach.steps
            ctx.transitions += mach.steps
        if kinds:
            at = lambda l, at=at: kinds.get(at(l), at(l))
        eff = [(repr(x), at(l)) for x, l in zip(mach.effects, mach.effects.at)]
        out.append(([(k, at(l)) for k, l in log], eff, mach.status, fail if mach.status == "fail" else None, mach))
    ctx.traces += 1
    return out


def trace(prog, ctx, key, limit=6, env=None):
    src = prog.source()
    ctx.distinct(src)
    r = comp(src)
    if r is None:
        ctx.violation("refused:" + key, "a valid program is refused", source=src, error=repr(try_compile(src)[1])[:300])
        return
    am = check_map(src, r[0], r[1], ctx, key)
    if am is None:
        return
    asm, m = am
    prefix = []
    kinds = {n: "inner_group" for n, l in enumerate(src.split("\n"), 1) if l.strip() == "inner_group:"}
    while prefix is not None:
        ch = Chooser(prefix, limit, 0)
        a, b = run_traced(prog, asm, m, ch, ctx, env or {}, kinds)
        if a[:4] != b[:4]:
            d = [(x, y) for x, y in zip(a[0] + a[1], b[0] + b[1]) if x != y][:3]
            ctx.violation("trace:" + key, f"an effect or failure leads to another line: {d or (a[2:4], b[2:4])}", source=src, expected=repr(a[:4])[:1500], actual=repr(b[:4])[:1500], teal="\n".join(r[0]))
            return
        if b[2] == "fail":
            mach = b[4]
            pc = mach.failins.pc
            if m.get_tealish_line_for_pc(pc) != a[3]:
                ctx.violation("failpc:" + key, f"the failure at pc {pc} leads to line {m.get_tealish_line_for_pc(pc)} instead of {a[3]}", source=src)
                return
            msg = messages(prog).get(a[3])
            got = m.get_error_for_pc(pc)
            if got != msg:
                ctx.violation("message:" + key, f"the failure at line {a[3]} leads to message {got!r} instead of {msg!r}", source=src)
                return
        prefix = next_prefix(ch.log)


def messages(prog):
    """line -> message of the asserts of a program"""
    out = {}

    def walk(x):
        if isinstance(x, Assert) and x.msg is not None:
            out[x.line_no] = x.msg
        for v in vars(x).values() if hasattr(x, "__dict__") else ():
            for y in v if isinstance(v, (list, tuple)) else [v]:
                if isinstance(y, ref.S):
                    walk(y)
                elif isinstance(y, tuple):
                    for z in y:
                        for w in z if isinstance(z, list) else [z]:
                            if isinstance(w, ref.S):
                                walk(w)
                elif isinstance(y, list):
                    for w in y:
                        if isinstance(w, ref.S):
                            walk(w)
    for s in prog.body:
        walk(s)
    return out


_n = [100]


def mk():
    _n[0] += 1
    return Op("min_balance", [Int(_n[0])])


def c():
    """a choice"""
    _n[0] += 2
    return Op("balance", [Int(_n[0] // 2 * 2)])


def L():
    _n[0] += 1
    return Log(Str(f"L{_n[0]}"))


class Inner(list):
    maker = None


def again(i):
    """fresh statements of the same form (every statement object stands on one line)"""
    return i.maker() if isinstance(i, Inner) else []


# statement makers for traced programs; inner: list of statements to nest
def t_decl(n, i): return [Decl("int", f"d{n}", Bin("+", mk(), mk())), Assign(f"d{n}", Bin("*", mk(), Call("f", [mk()])))]
def t_multi(n, i): return [Assign(["_", "_"], Call("f2", [mk(), mk()])), Assign(["_", "_"], Op("addw", [mk(), Call("f", [mk()])]))]
def t_sf(n, i): return [SetField("st", "fi", mk()), SetField("st", "fu", Std("Cast", Bin("%", mk(), Int(3)), "uint8")), Log(SF("st", "fb")), SetField("bx", "fi", mk()), SetField("bx", "fb", Std("Convert", mk(), "bytes[4]"))]
def t_box(n, i): return [BoxDecl("S1", f"b{n}", Op("itob", [mk()]), "Create"), SetField(f"b{n}", "fi", mk()), L()]
def t_if(n, i): return [If([(c(), False, [L()] + i)]), L()]
def t_ifnot(n, i): return [If([(c(), True, i + [L()])], [L()] + again(i))]
def t_elif(n, i): return [If([(c(), False, i + [L()]), (Bin("&&", c(), mk()), True, [L()] + again(i)), (Call("f", [c()]), False, [L()])], [L()])]
def t_elifs(n, i): return [If([(Bin("&&", c(), mk()), False, []), (Bin("&&", c(), mk()), False, []), (Bin("&&", c(), mk()), True, i), (Bin("&&", c(), mk()), False, [])]), If([(c(), True, []), (Bin("&&", c(), mk()), False, [])], [])]
def t_while(n, i): return [Decl("int", f"w{n}", Int(0)), While(Bin("&&", Bin("<", Var(f"w{n}"), Int(2)), mk()), [Assign(f"w{n}", Bin("+", Var(f"w{n}"), Int(1))), L()] + i), L()]
def t_break(n, i): return [While(mk(), [L(), If([(c(), False, i + [Break()])], [L(), Break()])]), L()]
def t_for(n, i): return [For(f"k{n}", Int(0), Int(2), [L()] + i), L()]
def t_for_(n, i): return [For(None, Int(0), Int(2), i + [L()]), L()]
def t_itxn(n, i): return [InnerTxn([("TypeEnum", None, Int(1)), ("Amount", None, mk()), ("Fee", None, Bin("+", mk(), Call("f", [mk()]))), ("Note", None, Op("itob", [mk()]))]), L()]
def t_group(n, i): return [InnerGroup([InnerTxn([("Fee", None, mk())]), If([(c(), False, [InnerTxn([("Amount", None, mk())])])]), L()]), L()]
def t_call(n, i): return [Expr(Call("p", [mk(), Call("f", [mk()])])), Log(Op("itob", [Call("f", [Call("f", [mk()])])]))]
def t_assert(n, i): return [Assert(mk()), Assert(Bin("||", c(), c()), f"message {n}"), L(), Assert(Call("f", [c()])), Assert(Bin("<", c(), mk()), f"other {n}")]
def t_field(n, i): return [Log(Fld("Txn", "ApplicationArgs", Bin("%", mk(), Int(2)))), Log(Op("itob", [Fld("Gtxn", "Fee", g=Bin("%", mk(), Int(3)))]))]
def t_std(n, i): return [Log(Std("Convert", mk(), "bytes[2]")), Log(Std("Rpad", Op("itob", [mk()]), Int(9))), Log(Std("ToBytes", mk(), Int(2))), Log(Std("Concat", Op("itob", [mk()]), Op("itob", [mk()])))]
def t_fail(n, i): return [L(), Log(Std("Convert", Bin("*", c(), Int(300)), "bytes[1]")), Log(Op("itob", [Bin("/", mk(), Bin("-", Int(1), c()))])), BoxDecl("S1", f"bo{n}", Op("substring", [Str("k?")], [0, 1]), "Open"), L()]
def t_failbox(n, i): return [If([(c(), False, [BoxDecl("S1", f"bf{n}", Str("missing"), "Open"), L()])]), If([(c(), False, [BoxDecl("S1", f"bg{n}", Str("k"), "Create"), L()])]), L()]
def t_teal(n, i): return [Comment(" before"), Blank(), L(), Comment(), L()]


TR = {f.__name__[2:]: f for f in (t_decl, t_multi, t_sf, t_box, t_if, t_ifnot, t_elif, t_elifs, t_while, t_break, t_for, t_for_, t_itxn, t_group, t_call, t_assert, t_field, t_std, t_fail, t_failbox, t_teal)}
TNEST = ("if", "ifnot", "elif", "while", "break", "for", "for_")
TCTX = ("main", "block", "func", "switch", "router", "funcinfor_")
ENV = {"args": [b"a0", b"a1"], "fields": {"OnCompletion": 0, "ApplicationID": 5}}


def funcs():
    return [Func("f", [("q", "int")], ["int"], [L(), Comment(" in f"), Return(Bin("+", mk(), Var("q")))]), Blank(), Func("f2", [("q", "int"), ("r", "int")], ["int", "int"], [Return(Bin("+", Var("q"), mk()), Bin("+", Var("r"), mk()))]),
            Func("p", [("q", "int"), ("r", "int")], [], [Log(Op("itob", [Var("q")])), If([(Bin("==", Var("q"), Int(0)), False, [L(), Return()])]), L(), Return()])]


def tprogram(c_, stmts):
    pre = [Comment(" program"), Decl("S1", "st", Op("bzero", [Int(13)])), Blank(), BoxDecl("S1", "bx", Str("k"), "Create")]
    end = [L(), Exit(mk())]
    S1 = [atoms.S1]
    if c_ == "main":
        return Prog(pre + stmts + end + funcs(), S1)
    if c_ == "block":
        return Prog(pre + [Jump("b"), Block("other", [L(), Exit(Int(1))]), Comment(), Block("b", stmts + end)] + funcs(), S1)
    if c_ == "func":
        return Prog([Expr(Call("loc")), L(), Exit(mk()), Func("loc", [], [], pre + stmts + [L(), Return()])] + funcs(), S1)
    if c_ == "funcinfor_":
        return Prog([For(None, Int(0), Int(2), [Expr(Call("loc")), L()]), Exit(mk()), Func("loc", [], [], pre[:2] + [BoxDecl("S1", "bx", Str("k"), "")] + stmts + [L(), Return()])] + funcs(), S1)
    if c_ == "switch":
        return Prog(pre + [Switch(mk(), [(Int(1), "other"), (mk(), "other"), (Bin("-", mk(), Int(1)), "b")], "b"), Block("other", [L(), Exit(Int(1))]), Block("b", stmts + end)] + funcs(), S1)
    if c_ == "router":
        return Prog([Router(["x", "a0"]), Func("x", [], [], [L(), Return()], public=""), Func("a0", [("z", "bytes")], ["int", "bytes"], pre + stmts + [L(), Return(mk(), Op("itob", [mk()]))], public="")] + funcs(), S1)
    raise AssertionError(c_)


MSGS = ["m", "", "a b  c", "no # comment", "// x", "quote \\\" here", "back\\\\slash", "é日", ", \\\"", ")", "(", "tab\\t", "'", "x\\x41", "a:b", "{}", "%s", "0", "end", "assert(1, x)", " lead", "trail "]


def families(tier):
    q = tier == "quick"
    return [("seg1", {"shards": 64}), ("seg2", {"shards": 64, "ctx": ("main", "func") if q else CTXS}), ("segpair", {"shards": 64, "all": not q}), ("ends", {}), ("repo", {"all": not q}), ("trace1", {"shards": 64}), ("trace2", {"shards": 64, "all": not q}), ("trace3", {"shards": 64, "all": not q}),
            ("where", {"shards": 64}), ("msg", {}), ("many", {}), ("maps", {"shards": 32}), ("same", {})]


def cases(fam, p):
    if fam == "seg1":
        for c_ in CTXS:
            for k in STMTS:
                yield ("seg1", c_, k)
    elif fam == "seg2":
        for c_ in p["ctx"]:
            for a in [k for k, s in STMTS.items() if any(l.strip() == "@" for l in s)]:
                for k in STMTS if p["ctx"] == CTXS else SEGK:
                    yield ("seg2", c_, a, k)
    elif fam == "segpair":
        for a, b in product(STMTS if p["all"] else SEGK, repeat=2):
            yield ("segpair", a, b)
    elif fam == "ends":
        for c_ in ("main", "block", "nestedblock"):
            for e in ENDS:
                yield ("ends", c_, e)
    elif fam == "repo":
        from .c12 import corpus
        for f in corpus():
            if p["all"] or f != "tests/everything.tl":
                yield ("repo", f)
    elif fam == "trace1":
        for c_ in TCTX:
            for k in TR:
                yield ("trace", c_, (k,))
    elif fam == "trace2":
        for c_ in TCTX if p["all"] else ("main", "func", "router"):
            for a in TNEST:
                for b in TR:
                    yield ("trace", c_, (a, b))
    elif fam == "trace3":
        for a, b in product(TNEST, repeat=2):
            for k in TR if p["all"] else ("assert", "group", "call", "break", "elif", "sf"):
                yield ("trace", "main", (a, b, k))
    elif fam == "where":
        for k in WHERE:
            for pre in range(4):
                yield ("where", k, pre)
    elif fam == "msg":
        for m in MSGS:
            for m2 in MSGS[:6]:
                yield ("msg", m, m2)
    elif fam == "many":
        for n in (1, 2, 9, 10, 11, 50, 200, 600):
            yield ("many", n)
    elif fam == "maps":
        for a in product((None, 1, 2, 5), repeat=3):
            for e in product((None, "x", ""), repeat=2):
                for keys in (int, str):
                    yield ("maps", a, e, keys.__name__)
    elif fam == "same":
        for k in range(6):
            yield ("same", k)


SEGK = ("declx", "boxopen", "boxcreate", "asg2", "sf", "bfb", "call", "logc", "std2", "event", "assertm", "elif", "ifelse", "while", "break", "for", "for_", "itxn", "group", "teal", "field2", "comment", "blank2", "nest", "const", "emptyelse")

# failing sites: source text of the failing statement, expected to fail at its (first) line
WHERE = {"assert": ['assert(zero, "the message")'], "assertnm": ["assert(zero)"], "assertx": ['assert(!(one + (one / one)), "the message")'], "err": ["Error()"], "div": ["one = one / zero"], "sub": ["one = zero - one"], "btoi": ['one = btoi("123456789")'], "arg": ["log(Txn.ApplicationArgs[9])"],
         "cast": ["uint8 u = Cast(one * 256, uint8)"], "castb": ['bytes[2] u = Cast(bb, bytes[2])'], "conv": ["bytes[1] u = Convert(one * 999, bytes[1])"], "ensure": ["bytes[9] u = EnsureType(bb, bytes[9])"], "rpad": ["bytes u = Rpad(bb, 2)"], "lpad": ["bytes u = Lpad(bb, 2)"], "tobytes": ["bytes u = ToBytes(one * 99999, 2)"],
         "open": ['box<Sx> u = OpenBox("nobox")'], "create": ['box<Sx> u = CreateBox("k")', 'box<Sx> u2 = CreateBox("k")'], "field": ['box<Sx> u = Box("nobox")', "log(itob(u.a))"], "bset": ['box<Sx> u = Box("nobox")', "u.a = 5"], "sset": ["Sx u = Cast(bzero(9), Sx)", "u.b = Cast(one * 300, uint8)"],
         "exit": ["if one:", "    exit(one / zero)", "end"], "cond": ["if one / zero:", '    log("x")', "end"], "elifc": ["if zero:", '    log("a")', "elif one / zero:", '    log("b")', "end"], "elsec": ["if zero:", '    log("a")', "else:", "    Error()", "end"], "while": ["while one / zero:", '    log("x")', "end"], "while2": ["while one:", "    one = zero", '    log("x")', "    assert(one)", "end"],
         "for": ["for i in 0:3:", '    assert(i != 2, "the message")', "end"], "for_": ["for _ in 0:3:", "    zero = zero + 1", '    assert(zero != 3, "the message")', "end"], "itxnf": ["inner_txn:", "    TypeEnum: Pay", "    Amount: 1", "    Fee: one / zero", "end"], "callf": ["log(itob(fz(zero)))"], "calla": ["log(itob(fo(one / zero)))"], "callm": ["_ = fo(fz(zero))"], "std": ["log(Concat(bb, Txn.ApplicationArgs[8]))"], "group": ["inner_group:", "    inner_txn:", "        Fee: 1", "    end", '    assert(zero, "the message")', "end"]}
WLINE = {"create": 2, "field": 2, "bset": 2, "sset": 2, "exit": 2, "elifc": 3, "elsec": 4, "while2": 4, "for": 2, "for_": 3, "itxnf": 4, "callf": "fz", "callm": "fz", "group": 5}
WMSG = {k for k, v in WHERE.items() if any("the message" in l for l in v)}
WPRE = ["#pragma version 8", "struct Sx:", "    a: int", "    b: uint8", "end", "int zero = 0", "int one = 1", 'bytes bb = "abc"']
WFUN = ["func fz(x: int) int:", "    # failing", '    log("fz")', "    return 1 / x", "end", "func fo(x: int) int:", "    return x", "end"]


def run_where(case, ctx):
    _, k, pre = case
    st = WHERE[k]
    extra = [[], ["# c", ""], ["", "teal:", "    pushint 1", "    pop", "end", "", "if one:", "    # c", "    log(bb)", "else:", "    log(bb)", "end"], ["inner_txn:", "    Fee: 1", "    # c", "    Note: bb", "end", 'assert(one, "another")', "assert(one)"]][pre]
    for c_ in ("main", "block", "func", "nested", "last"):
        if c_ == "func":
            if "one = " in " ".join(st) or "zero = " in " ".join(st):
                pass
            src = WPRE[:5] + ["loc()", "exit(1)", "func loc():"] + ind(WPRE[5:] + extra + st + ["return"]) + ["end"] + WFUN
        elif c_ == "main":
            src = WPRE + extra + st + ["exit(1)"] + WFUN
        elif c_ == "last":
            src = WPRE + extra + st + ['log("x")', 'assert(one, "tail")', "exit(1)"] + WFUN
        elif c_ == "block":
            src = WPRE + ["jump b", "block a:", "    exit(1)", "end", "block b:"] + ind(extra + st + ["exit(1)"]) + ["end"] + WFUN
        else:
            src = WPRE + ["if one:", "    while one:", "        for k in 0:2:"] + ind(extra + st, 3) + ["        end", "    end", "end", "exit(1)"] + WFUN
        # line of the failing statement: the last occurrence of its text
        text = [l.strip() for l in src]
        w = WLINE.get(k, 1)
        if w == "fz":
            want = text.index("return 1 / x") + 1
        else:
            pos = [i for i in range(len(text)) if text[i:i + len(st)] == [l.strip() for l in st]][0]
            want = pos + w
        s = "\n".join(src) + "\n"
        key = f"where:{k}:{pre}:{c_}"
        ctx.distinct(s)
        r = comp(s)
        if r is None:
            ctx.violation("refused:" + key, "a valid program is refused", source=s, error=repr(try_compile(s)[1])[:300])
            return
        am = check_map(s, r[0], r[1], ctx, key)
        if am is None:
            return
        asm, m = am
        mach = avm.execute(asm, avm.Env(args=[b"x", b"y"]))
        ctx.traces += 1
        ctx.states += mach.steps
        ctx.transitions += mach.steps
        if mach.status != "fail":
            ctx.violation(key, "the program does not fail", source=s)
            return
        pc = mach.failins.pc
        msg = "the message" if k in WMSG else None
        got = (m.get_tealish_line_for_pc(pc), m.get_error_for_pc(pc))
        if got != (want, msg):
            ctx.violation(key, f"the failing pc {pc} leads to {got} instead of {(want, msg)}", source=s, teal="\n".join(r[0]))
            return


def unescape(t):
    from .c11 import decode
    v = decode(t)
    return v.decode("utf8", "surrogateescape") if v is not None else t


def run_msg(case, ctx):
    _, m1, m2 = case
    s = f'#pragma version 8\nint x = Txn.Fee\n# c\nassert(x != 1, "{m1}")\nassert(x != 2)\nif x == 3:\n    assert(x != 3, "{m2}")\nend\nf(x)\nexit(1)\nfunc f(y: int):\n    assert(y != 4, "{m1}")\n    return\nend\n'
    ctx.distinct(s)
    r = comp(s)
    if r is None:
        ctx.violation(f"msg:{m1}:{m2}", "a valid program is refused", source=s)
        return
    am = check_map(s, r[0], r[1], ctx, f"msg:{m1}:{m2}")
    if am is None:
        return
    asm, m = am
    for fee, line, want in ((1, 4, m1), (2, 5, None), (3, 7, m2), (4, 12, m1)):
        mach = avm.execute(asm, avm.Env(fields={"Fee": fee}))
        ctx.traces += 1
        ctx.states += mach.steps
        ctx.transitions += mach.steps
        pc = mach.failins.pc
        got = m.get_error_for_pc(pc)
        ok = got in (want, unescape(want)) if want else got in (None, "")
        if mach.status != "fail" or m.get_tealish_line_for_pc(pc) != line or not ok:
            ctx.violation(f"msg:{m1}:{m2}", f"failing assertion at line {line} leads to line {m.get_tealish_line_for_pc(pc)} and message {got!r} instead of {want!r}", source=s)
            return


def run_many(case, ctx):
    """long programs: line numbers of several digits"""
    n = case[1]
    body = []
    for k in range(n):
        body += [Assert(Bin("!=", Fld("Txn", "Fee"), Int(k + 1)), f"m{k}")] + ([Blank()] if k % 3 == 0 else []) + ([Comment(f" {k}")] if k % 5 == 0 else [])
    p = Prog(body + [Exit(Int(1))])
    s = p.source()
    r = comp(s)
    if r is None:
        ctx.violation(f"many:{n}", "a valid program is refused", source=s[:2000])
        return
    am = check_map(s, r[0], r[1], ctx, f"many:{n}")
    if am is None:
        return
    asm, m = am
    msgs = messages(p)
    for k in range(n):
        mach = avm.execute(asm, avm.Env(fields={"Fee": k + 1}))
        ctx.traces += 1
        ctx.states += mach.steps
        ctx.transitions += mach.steps
        line = next(l for l, t in msgs.items() if t == f"m{k}")
        got = (m.get_tealish_line_for_pc(mach.failins.pc), m.get_error_for_pc(mach.failins.pc))
        if got != (line, f"m{k}"):
            ctx.violation(f"many:{n}", f"failing assertion {k} leads to {got} instead of {(line, f'm{k}')}", source=s[:2000])
            return


def run_maps(case, ctx):
    """hand-made maps: every answer survives serialisation"""
    _, a, e, kt = case
    K = int if kt == "int" else str
    TM = T().TealishMap
    d = {"teal_tealish": {K(i + 1): v for i, v in enumerate(a) if v is not None}, "errors": {K(k): v for k, v in zip((1, 5), e) if v is not None}, "pc_teal": {K(i * 3 + 1): i + 1 for i in range(3)}}
    for drop in (None, "errors", "pc_teal", "teal_tealish"):
        dd = {k: v for k, v in d.items() if k != drop}
        x = TM(dd)
        y = TM(json.loads(json.dumps(x.as_dict())))
        z = TM(x.as_dict())
        tt = {int(k): v for k, v in dd.get("teal_tealish", {}).items()}
        er = {int(k): v for k, v in dd.get("errors", {}).items()}
        pt = {int(k): v for k, v in dd.get("pc_teal", {}).items()}
        ctx.traces += 1
        for m in (x, y, z):
            for t in range(-1, 7):
                ok = m.get_tealish_line_for_teal(t) == tt.get(t) and m.get_teal_line_for_pc(t) == pt.get(t) and sorted(m.get_teal_lines_for_tealish(t)) == sorted(k for k, v in tt.items() if v == t) \
                    and m.get_tealish_line_for_pc(t) == tt.get(pt.get(t)) and m.get_error_for_pc(t) == er.get(tt.get(pt.get(t)))
                ctx.states += 1
                ctx.transitions += 1
                if not ok:
                    ctx.violation(f"maps:{a}:{e}:{kt}:{drop}", f"a map answers wrongly for {t}", map=repr(dd))
                    return
    ctx.distinct(repr(case))


def run_same(case, ctx):
    """the same statement text on several lines: each occurrence has its own instructions"""
    k = case[1]
    st = ['log("a")', "assert(x)", 'assert(x, "m")', "x = x + 1", "f(x)", "x = g(x)"][k]
    body = [st, st, "if x:", "    " + st, "    " + st, "else:", "    " + st, "end", st]
    src = "\n".join(["#pragma version 8", "int x = 1"] + body + ["exit(x)", "func f(y: int):", '    log("a")', "    return", "end", "func g(y: int) int:", "    return y", "end"]) + "\n"
    segment(src, ctx, f"same:{k}", must=True)


def run_case(case, ctx):
    kind = case[0]
    _n[0] = 100
    if kind == "seg1":
        segment(program(plug(inst(STMTS[case[2]], 1), None), case[1]), ctx, f"seg1:{case[1]}:{case[2]}", must=True)
    elif kind == "seg2":
        n = [1]

        def inner(i):
            n[0] += 1
            return plug(inst(STMTS[case[3]], n[0]), None)
        segment(program(plug(inst(STMTS[case[2]], 1), inner), case[1]), ctx, f"seg2:{case[1:]}")
    elif kind == "segpair":
        segment(program(plug(inst(STMTS[case[1]], 1), None) + ["# between"] + plug(inst(STMTS[case[2]], 2), None)), ctx, f"segpair:{case[1:]}")
    elif kind == "ends":
        segment(program(inst(STMTS["elif"], 1)[:1] + ["    " + l for l in ENDS[case[2]]] + ["end"], case[1], case[2]), ctx, f"ends:{case[1:]}")
    elif kind == "repo":
        src = open(os.path.join(runner.REPO, case[1])).read()
        segment(src, ctx, f"repo:{case[1]}")
    elif kind == "trace":
        st = []
        names = case[2]
        k = [0]

        def build(i):
            k[0] += 1
            if i + 1 == len(names):
                return TR[names[i]](k[0], [])
            n = k[0]
            nested = Inner(build(i + 1))
            nested.maker = lambda: build(i + 1)
            return TR[names[i]](n, nested)
        trace(tprogram(case[1], build(0)), ctx, f"{case[1]}:{'/'.join(names)}", env=ENV)
    elif kind == "where":
        run_where(case, ctx)
    elif kind == "msg":
        run_msg(case, ctx)
    elif kind == "many":
        run_many(case, ctx)
    elif kind == "maps":
        run_maps(case, ctx)
    else:
        run_same(case, ctx)
    if ctx.n % 41 == 1:
        ctx.sample({"case": repr(case)})
