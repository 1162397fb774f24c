"""C02: structured control flow.  Every statement tree up to a size bound, placed at top level, in a
function, in a block and in a function called from a loop; every sequence of condition outcomes."""
from itertools import product

from ..ref import (Assert, Block, Break, Call, Const, ConstDef, Decl, Exit, Expr, For, Func, If, Int, Jump, Log, Prog, Return, Str,
                   Var, While, Assign, Bin, Op, Comment, Blank, Raw)
from ..h import Unit, cond
from .. import avm

ID = "C02"
LEVEL = "model_checking"
RULE = ("all statement trees over {log, assert, exit, break, return, if, if not, if/else, if/elif, if/elif/else, "
        "while, while not, for, for _} up to the size bound in 4 placements, executed under every sequence of "
        "condition outcomes up to the choice bound; all for-range bounds; states are AVM configurations, transitions are "
        "executed TEAL instructions; distinct = distinct source programs")
TECHNIQUE = ("explicit-state model checking: exhaustive enumeration of bounded programs and of all sequences of condition "
             "outcomes; every reference behaviour replayed on the TEAL emitted by the real compiler, run on an AVM model")
NOTE = ("All control-flow trees up to 3-5 statements in 4 placements are compiled by the real compiler; every path is executed "
        "and compared with a direct interpreter of the source. Larger programs are covered only by composition.")
ASSUMPTIONS = ["AVM model of mc/avm.py (opcode semantics transcribed from the AVM specification)",
               "loops are cut by forcing conditions after the choice bound"]

FULL = ("log", "assert", "exit", "break", "if", "ifn", "ifelse", "ifelif", "ifelifelse", "ifnelifn", "while", "whilen", "for", "for_")
MID = ("log", "break", "exit", "if", "ifelse", "ifelif", "while", "for", "for_")
SMALL = ("log", "break", "ifelse", "while", "for_")

LEAVES = {"log", "assert", "exit", "break"}
ARITY = {"if": 1, "ifn": 1, "ifelse": 2, "ifelif": 2, "ifelifelse": 3, "ifnelifn": 2, "while": 1, "whilen": 1, "for": 1, "for_": 1}

_memo = {}


def seqs(n, alpha, loop):
    """all statement sequences with exactly n nodes (as nested tuples)"""
    k = (n, alpha, loop)
    if k in _memo:
        return _memo[k]
    if n == 0:
        out = [()]
    else:
        out = []
        for s in range(1, n + 1):
            for st in stmts(s, alpha, loop):
                for rest in seqs(n - s, alpha, loop):
                    out.append((st,) + rest)
    _memo[k] = out
    return out


def parts(n, k):
    if k == 1:
        yield (n,)
        return
    for a in range(n + 1):
        for r in parts(n - a, k - 1):
            yield (a,) + r


def stmts(n, alpha, loop):
    for kind in alpha:
        if kind in LEAVES:
            if n == 1 and (kind != "break" or loop):
                yield (kind,)
        else:
            inner = loop or kind in ("while", "whilen")
            for p in parts(n - 1, ARITY[kind]):
                for bodies in product(*[seqs(x, alpha, inner) for x in p]):
                    yield (kind,) + bodies


class Build:
    def __init__(self, infunc):
        self.k = 0
        self.infunc = infunc

    def c(self, neg=0):
        self.k += 1
        return cond(self.k, neg)

    def mark(self):
        self.k += 1
        return Log(Str(f"s{self.k}"))

    def body(self, seq):
        return [x for s in seq for x in self.st(s)]

    def st(self, s):
        k = s[0]
        if k == "log":
            return [self.mark()]
        if k == "assert":
            return [Assert(self.c(1))]
        if k == "exit":
            self.k += 1
            if self.infunc and self.k % 2:
                return [Return(Int(self.k))]
            return [Exit(Int(self.k))]
        if k == "break":
            return [Break()]
        if k in ("if", "ifn"):
            neg = k == "ifn"
            c = self.c()
            return [If([(c, neg, self.body(s[1]))])]
        if k == "ifelse":
            c = self.c()
            return [If([(c, False, self.body(s[1]))], self.body(s[2]))]
        if k in ("ifelif", "ifnelifn"):
            neg = k == "ifnelifn"
            c, b, c2 = self.c(), self.body(s[1]), self.c()
            return [If([(c, neg, b), (c2, neg, self.body(s[2]))])]
        if k == "ifelifelse":
            c, b, c2 = self.c(), self.body(s[1]), self.c()
            return [If([(c, False, b), (c2, False, self.body(s[2]))], self.body(s[3]))]
        if k in ("while", "whilen"):
            neg = k == "whilen"
            c = self.c(neg)
            return [While(c, self.body(s[1]), neg)]
        if k == "for":
            self.k += 1
            v = f"i{self.k}"
            return [For(v, Int(0), Int(2), [Log(Op("itob", [Var(v)]))] + self.body(s[1]))]
        if k == "for_":
            return [For(None, Int(1), Int(3), self.body(s[1]))]
        raise AssertionError(k)


def top_exit(seq):
    """exit as a statement of the outermost level ends the statement list there"""
    return any(s[0] == "exit" for s in seq)


def make(seq, place):
    tail = [] if top_exit(seq) else None
    if place == "main":
        b = Build(False)
        return Prog(b.body(seq) + (tail if tail is not None else [Log(Str("after")), Exit(Int(1))]))
    if place == "func":
        b = Build(True)
        return Prog([Decl("int", "x", Call("f")), Log(Op("itob", [Var("x")])), Exit(Var("x")),
                     Func("f", [], ["int"], b.body(seq) + [Log(Str("after")), Return(Int(99))])])
    if place == "block":
        b = Build(False)
        return Prog([Log(Str("m")), Jump("b"),
                     Block("a", [Log(Str("wrong")), Exit(Int(7))]),
                     Block("b", b.body(seq) + (tail if tail is not None else [Log(Str("after")), Exit(Int(1))]))])
    if place == "loopfunc":
        b = Build(True)
        return Prog([Decl("int", "n", Int(0)), For("q", Int(0), Int(2), [Assign("n", Bin("+", Var("n"), Call("f")))]),
                     Log(Op("itob", [Var("n")])), Exit(Int(1)),
                     Func("f", [], ["int"], b.body(seq) + [Return(Int(3))])])


def around(body, place):
    if place == "main":
        return Prog(body + [Exit(Int(1))])
    if place == "func":
        return Prog([Expr(Call("f")), Exit(Int(1)), Func("f", [], [], body + [Return()])])
    return Prog([For(None, Int(0), Int(2), [Expr(Call("f"))]), Exit(Int(1)), Func("f", [], [], body + [Return()])])


def families(tier):
    if tier == "quick":
        return [("trees", {"sizes": (1, 2), "alpha": FULL, "places": ("main", "func", "block", "loopfunc"), "choices": 6}),
                ("trees3", {"sizes": (3,), "alpha": MID, "places": ("main",), "choices": 6}),
                ("trees3f", {"sizes": (3,), "alpha": SMALL, "places": ("func", "loopfunc"), "choices": 5}),
                ("trees4", {"sizes": (4,), "alpha": SMALL, "places": ("main",), "choices": 5}),
                ("chains", {"n": 3}), ("ranges", {"hi": 4}), ("negative", {}), ("layout", {}), ("for_nested", {})]
    return [("trees", {"sizes": (1, 2, 3), "alpha": FULL, "places": ("main", "func", "block", "loopfunc"), "choices": 7}),
            ("trees4", {"sizes": (4,), "alpha": FULL, "places": ("main",), "choices": 7}),
            ("trees4f", {"sizes": (4,), "alpha": MID, "places": ("func", "loopfunc"), "choices": 6}),
            ("trees5", {"sizes": (5,), "alpha": SMALL, "places": ("main", "func"), "choices": 6}),
            ("chains", {"n": 5}), ("ranges", {"hi": 8}), ("negative", {}), ("layout", {}), ("for_nested", {})]


def cases(fam, p):
    if fam.startswith("trees"):
        for n in p["sizes"]:
            for seq in seqs(n, p["alpha"], False):
                if top_exit(seq) and (seq[-1][0] != "exit" or top_exit(seq[:-1])):
                    continue
                for place in p["places"]:
                    yield ("tree", seq, place, p["choices"])
    elif fam == "chains":
        for n in range(p["n"] + 1):
            for els in (None, 0, 1, 2):
                for neg in ("none", "all", "odd", "even"):
                    for bodies in product((0, 1), repeat=n + 1) if n < 4 else [(1,) * (n + 1), (0,) * (n + 1), (0, 1) * 3, (1, 0) * 3]:
                        for place in ("main", "func", "loopfunc") if sum(bodies) == len(bodies) else ("main",):
                            yield ("chain", els, neg, bodies[:n + 1], place)
            for kind in ("if", "while", "break", "exit"):
                for at in range(n + 1):
                    yield ("chainin", n, kind, at)
    elif fam == "ranges":
        hi = p["hi"]
        for a in range(hi):
            for b in range(a, hi):
                for ka, kb in product(("lit", "var", "const"), repeat=2):
                    for us in (0, 1):
                        for nest in (0, 1):
                            yield ("range", a, b, ka, kb, us, nest)
        # bodies that change the counter or the bound
        for a, b in product(range(3), range(3, 6)):
            for mod in ("counter", "bound", "shadowed", "both"):
                yield ("mod", a, b, mod)
    elif fam == "for_nested":
        for k, body in enumerate(("for_", "if_for_", "while_for_", "for_for_", "break_for_")):
            yield ("for_nested", body)
    elif fam == "negative":
        for ctxk in ("main", "if", "else", "elif", "for", "for_", "func", "func_in_while", "block", "after_while", "if_after_while"):
            yield ("neg", ctxk)
    elif fam == "layout":
        # the same construct with comments, blank lines and empty bodies in every gap
        for kind in ("if", "ifelse", "ifelif", "ifelifelse", "while", "whilen", "for", "for_"):
            for filler in ("comment", "blank", "both", "none"):
                for bodylen in (0, 1, 2):
                    yield ("layout", kind, filler, bodylen)


def rng(kind, v, pre, name):
    if kind == "lit":
        return Int(v)
    if kind == "var":
        pre.append(Decl("int", name, Int(v)))
        return Var(name)
    pre.insert(0, ConstDef("int", "K" + name.upper(), str(v), v))
    return Const("K" + name.upper())


def run_case(case, ctx):
    if case[0] == "tree":
        _, seq, place, choices = case
        u = Unit(make(seq, place), ctx)
        u.check_dfs(choices)
        if ctx.n % 997 == 1:
            ctx.sample({"source": u.src, "place": place})
    elif case[0] == "chain":
        _, els, neg, bodies, place = case
        b = Build(False)
        br = [(b.c(), {"none": False, "all": True, "odd": k % 2 == 1, "even": k % 2 == 0}[neg], [b.mark()] * n) for k, n in enumerate(bodies)]
        st = If(br, None if els is None else [b.mark() for _ in range(els)])
        u = Unit(around([st, b.mark()], place), ctx)
        u.check_dfs(len(bodies) + 2)
    elif case[0] == "chainin":
        _, n, kind, at = case
        b = Build(False)
        br = []
        for k in range(n + 1):
            c = b.c()
            inner = []
            if k == at:
                inner = {"if": lambda: [If([(b.c(), False, [b.mark()]), (b.c(), True, [])])], "while": lambda: [While(b.c(), [b.mark()])], "break": lambda: [Break()], "exit": lambda: [Exit(Int(k + 5))]}[kind]()
            br.append((c, k % 2 == 1, ([b.mark()] if kind == "if" else []) + inner))
        u = Unit(Prog([While(b.c(), [If(br, [b.mark()]), b.mark()]), b.mark(), Exit(Int(1))]), ctx)
        u.check_dfs(n + 5)
    elif case[0] == "range":
        _, a, b, ka, kb, us, nest = case
        pre = []
        A, B = rng(ka, a, pre, "va"), rng(kb, b, pre, "vb")
        inner = [Log(Str("b")) if us else Log(Op("itob", [Var("i")]))]
        if nest:
            inner.append(For("j", Int(0), Var("i") if not us else Int(1), [Log(Op("itob", [Var("j")]))]))
        u = Unit(Prog(pre + [For(None if us else "i", A, B, inner), Log(Str("z")), Exit(Int(1))]), ctx)
        u.check(avm.Env())
    elif case[0] == "mod":
        _, a, b, mod = case
        body = [Log(Op("itob", [Var("i")]))]
        if mod in ("counter", "both"):
            body.append(Assign("i", Bin("+", Var("i"), Bin("%", Var("i"), Int(2)))))
        if mod in ("bound", "both"):
            body.append(If([(Bin("<", Var("e"), Int(7)), False, [Assign("e", Bin("+", Var("e"), Int(1)))])]))
        if mod == "shadowed":
            body.append(Decl("int", "t", Bin("*", Var("i"), Int(3))))
            body.append(Log(Op("itob", [Var("t")])))
        u = Unit(Prog([Decl("int", "e", Int(b)), For("i", Int(a), Var("e"), body), Log(Str("z")), Exit(Int(1))]), ctx)
        u.check(avm.Env())
    elif case[0] == "for_nested":
        k = case[1]
        L = Log(Str("x"))
        inner = For(None, Int(0), Int(2), [L])
        if k == "break_for_":
            body = [While(cond(1), [For(None, Int(0), Int(2), [Break()])])]
        else:
            body = {"for_": [inner], "if_for_": [If([(cond(1), False, [inner])])], "while_for_": [While(cond(1), [inner])],
                    "for_for_": [For("i", Int(0), Int(1), [inner])]}[k]
        u = Unit(Prog([For(None, Int(0), Int(2), body), Log(Str("z")), Exit(Int(1))]), ctx, key="for_nested:" + k)
        u.check_dfs(4)
    elif case[0] == "neg":
        B = Break()
        k = case[1]
        one = Int(1)
        w = While(cond(1), [Log(Str("w"))])
        body = {"main": [B], "if": [If([(one, False, [B])])], "else": [If([(one, False, [])], [B])],
                "elif": [If([(one, False, []), (one, False, [B])])],
                "for": [For("i", Int(0), Int(2), [B])], "for_": [For(None, Int(0), Int(2), [B])],
                "after_while": [w, B], "if_after_while": [w, If([(one, False, [B])])]}.get(k)
        if body is not None:
            prog = Prog(body + [Exit(one)])
        elif k == "func":
            prog = Prog([Expr(Call("f")), Exit(one), Func("f", [], [], [B, Return()])])
        elif k == "func_in_while":
            prog = Prog([While(cond(1), [Expr(Call("f"))]), Exit(one), Func("f", [], [], [B, Return()])])
        else:
            prog = Prog([Jump("b"), Block("b", [B, Exit(one)])])
        Unit(prog, ctx, expect="refused")
    elif case[0] == "layout":
        _, kind, filler, n = case
        fill = lambda: {"comment": [Comment(" c: end")], "blank": [Blank()], "both": [Blank(), Comment(" x"), Blank()], "none": []}[filler]
        b = Build(False)

        def body():
            out = fill()
            for _ in range(n):
                out.append(b.mark())
                out += fill()
            return out
        st = {"if": lambda: If([(b.c(), False, body())]),
              "ifelse": lambda: If([(b.c(), False, body())], body()),
              "ifelif": lambda: If([(b.c(), False, body()), (b.c(), True, body())]),
              "ifelifelse": lambda: If([(b.c(), True, body()), (b.c(), False, body()), (b.c(), False, body())], body()),
              "while": lambda: While(b.c(), body()), "whilen": lambda: While(b.c(1), body(), True),
              "for": lambda: For("i", Int(0), Int(2), body()), "for_": lambda: For(None, Int(0), Int(2), body())}[kind]
        u = Unit(Prog(fill() + [st()] + fill() + [st()] + fill() + [b.mark(), Exit(Int(1))] + fill()), ctx)
        u.check_dfs(6)
