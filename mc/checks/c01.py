"""C01: expressions.  Every operator on a grid of run-time values, every tree of operators up to a bound,
every kind of expression in every position of every kind of statement and in every location."""
from itertools import product

from ..ref import (Assert, Assign, Bin, Block, BoxDecl, Break, Call, Const, Decl, Exit, Expr, Fld, Func, Grp, If, InnerTxn, Int, Jump,
                   Log, Op, Prog, Return, SF, SetField, Std, Str, Switch, Un, Var, While, Raw)
from ..h import Unit, describe, same, try_compile
from .. import atoms, avm, ref

ID = "C01"
LEVEL = "model_checking"
TECHNIQUE = ("explicit-state model checking: exhaustive enumeration of expression trees, positions and run-time values; each "
             "program compiled by the real compiler, run on an AVM model and compared with direct evaluation of the source")
NOTE = ("Complete for all operators on the value grid, all operator trees of up to 3 operators (4 in the thorough tier) and all pairs of "
        "expression kind and position; values outside the grids and larger trees are not executed.")
RULE = ("operators x operand kinds x value grid; operator trees up to the bound x value tuples; pairs of side-effecting operands for "
        "evaluation order; expression kind x position x location x argument values; distinct = distinct source programs")
ASSUMPTIONS = ["AVM model of mc/avm.py gives the semantics of each operator",
               "fields and opcodes without a model return fixed distinct values"]

IOPS = ["+", "-", "*", "/", "%", "|", "&", "^", "==", "!=", "<", ">", "<=", ">=", "&&", "||"]
BOPS = ["b+", "b-", "b*", "b/", "b%", "b|", "b&", "b^"]
BCMP = ["b==", "b!=", "b<", "b>", "b<=", "b>="]
IVALS = [0, 1, 2, 3, 7, 63, 64, 255, 256, 2**32 - 1, 2**32, 2**63, 2**64 - 2, 2**64 - 1]
BVALS = [b"", b"\0", b"\1", b"\2", b"\xff", b"\0\1", b"\1\0", b"\xff\xff", b"\7" * 9, b"\xff" * 33, b"\0" * 40, b"\xfe" * 64, b"\1" * 65]


def ia(k):
    return Op("btoi", [Fld("Txn", "ApplicationArgs", Int(k))])


def ba(k):
    return Fld("Txn", "ApplicationArgs", Int(k))


def show(e, t):
    return Log(Op("itob", [e])) if t == "i" else Log(e)


LOGF = [Func("li", [("x", "int")], ["int"], [Log(Op("itob", [Var("x")])), Return(Var("x"))]),
        Func("lb", [("x", "bytes")], ["bytes"], [Log(Var("x")), Return(Var("x"))])]


# ------------------------------------------------------------------ trees
def shapes(n):
    """binary tree shapes with n operators; leaves are None"""
    if n == 0:
        return [None]
    return [(a, b) for k in range(n) for a in shapes(k) for b in shapes(n - 1 - k)]


def build(shape, ops, leaves):
    if shape is None:
        return next(leaves)
    op = next(ops)
    a = build(shape[0], ops, leaves)
    b = build(shape[1], ops, leaves)
    return Bin(op, a, b)


TREE_OPS = ["-", "/", "%", "<", "<=", "&&", "|", "=="]
TREE_OPS_SMALL = ["-", "/", "<", "||"]
TREE_VALS = [(50, 7, 3, 2, 4), (9, 8, 7, 1, 5), (1, 1, 0, 1, 0), (2**64 - 1, 2, 2**63, 3, 1), (100, 5, 10, 4, 2), (6, 6, 3, 2, 1)]


def families(tier):
    q = tier == "quick"
    return [("ops", {}), ("bops", {}), ("unary", {}),
            ("trees", {"sizes": (2, 3) if q else (2, 3, 4), "shards": 64}),
            ("untrees", {}), ("btrees", {}),
            ("order", {}), ("order3", {}),
            ("chains", {"depth": 6 if q else 9}),
            ("spacing", {}),
            ("positions", {"locs": ("main", "func") if q else atoms.LOCS, "nenv": 3 if q else 6, "shards": 64}),
            ("locations", {"nenv": 2}), ("switchonce", {})]


def cases(fam, p):
    if fam == "ops":
        for op in IOPS:
            for ka, kb in product(("var", "arg", "lit", "call"), repeat=2):
                yield ("op", op, ka, kb)
    elif fam == "bops":
        for op in BOPS + BCMP + ["==", "!="]:
            for ka, kb in product(("var", "arg", "call"), repeat=2):
                yield ("bop", op, ka, kb)
    elif fam == "unary":
        for op in ("!", "~", "b~"):
            for k in ("var", "arg", "lit", "call", "grp", "un", "un2"):
                yield ("un", op, k)
    elif fam == "trees":
        for n in p["sizes"]:
            ops = {2: IOPS, 3: TREE_OPS, 4: TREE_OPS_SMALL}[n]
            for sh in shapes(n):
                for os in product(ops, repeat=n):
                    yield ("tree", sh, os)
    elif fam == "untrees":
        # unary operators at every place of a two-operator tree
        for sh in shapes(2):
            for os in product(TREE_OPS, repeat=2):
                for mask in range(1, 16):
                    yield ("untree", sh, os, mask)
    elif fam == "btrees":
        for sh in shapes(2):
            for os in product(BOPS, BOPS + BCMP):
                yield ("btree", sh, os)
    elif fam == "order":
        for a, b in product(range(7), repeat=2):
            for holder in ("bin", "op2", "fn2", "std", "cmp", "bbin"):
                yield ("order", a, b, holder)
    elif fam == "order3":
        for holder in ("fn3", "op3", "concat", "bin3l", "bin3r", "substring", "nested", "select"):
            for perm in range(8):
                yield ("order3", holder, perm)
    elif fam == "chains":
        for d in range(1, p["depth"] + 1):
            for kind in ("grpl", "grpr", "not", "inv", "call", "op", "mix", "std", "index"):
                yield ("chain", kind, d)
    elif fam == "spacing":
        for k in range(len(SPACED)):
            yield ("space", k)
    elif fam == "positions":
        for name, t, _ in all_atoms():
            for pos in POS[t]:
                for loc in p["locs"]:
                    yield ("pos", name, pos, loc, p["nenv"])
    elif fam == "locations":
        for name in ("bin2", "nest", "bcall2", "cmpb", "gtxnx", "bgargsx", "bfield", "call2"):
            t = dict((n, t) for n, t, _ in all_atoms())[name]
            for pos in POS[t]:
                for loc in atoms.LOCS:
                    yield ("pos", name, pos, loc, p["nenv"])
    elif fam == "switchonce":
        for k in ("call", "op", "std", "sfield", "bfield", "txnas", "gtxns"):
            for n in (1, 2, 3):
                yield ("switch", k, n)


def opnd(kind, k, v, t):
    """operand of the given kind denoting argument k (whose value is v for literals)"""
    if t == "i":
        return {"var": lambda: Var("ab"[k] + "v"), "arg": lambda: ia(k), "lit": lambda: Int(v), "call": lambda: Call("li", [ia(k)])}[kind]()
    return {"var": lambda: Var("ab"[k] + "v"), "arg": lambda: ba(k), "call": lambda: Call("lb", [ba(k)])}[kind]()


def run_op(case, ctx):
    _, op, ka, kb = case
    t = "i"
    lits_a = [1, 255, 2**64 - 1] if ka == "lit" else [None]
    lits_b = [0, 3, 64] if kb == "lit" else [None]
    for la, lb in product(lits_a, lits_b):
        e = Bin(op, opnd(ka, 0, la, t), opnd(kb, 1, lb, t))
        u = Unit(Prog([Decl("int", "av", ia(0)), Decl("int", "bv", ia(1)), show(e, "i"), Exit(Int(1))] + LOGF), ctx)
        for x, y in product(IVALS, IVALS):
            if not u.check(avm.Env(args=[x.to_bytes(8, "big"), y.to_bytes(8, "big")])):
                return
            if ka == "lit" and kb == "lit":
                break


def run_bop(case, ctx):
    _, op, ka, kb = case
    e = Bin(op, opnd(ka, 0, None, "b"), opnd(kb, 1, None, "b"))
    t = "i" if op in BCMP + ["==", "!="] else "b"
    u = Unit(Prog([Decl("bytes", "av", ba(0)), Decl("bytes", "bv", ba(1)), show(e, t), Exit(Int(1))] + LOGF), ctx)
    for x, y in product(BVALS, BVALS):
        if not u.check(avm.Env(args=[x, y])):
            return


def run_un(case, ctx):
    _, op, k = case
    if op == "b~":
        if k == "lit":
            e, t = Un(op, Str("\x01\x02", "\\x01\\x02")), "b"
        elif k == "grp":
            e, t = Un(op, Bin("b+", Var("av"), Str("\x01", "\\x01"))), "b"
        elif k == "un":
            e, t = Un(op, Un(op, Var("av"))), "b"
        elif k == "un2":
            e, t = Bin("b|", Un(op, Var("av")), Un(op, Var("av"))), "b"
        else:
            e, t = Un(op, opnd(k, 0, None, "b")), "b"
        u = Unit(Prog([Decl("bytes", "av", ba(0)), show(e, "b"), Exit(Int(1))] + LOGF), ctx)
        for x in BVALS:
            u.check(avm.Env(args=[x]))
        return
    if k == "grp":
        e = Un(op, Bin("-", Var("av"), Int(1)))
    elif k == "un":
        e = Un(op, Un(op, Var("av")))
    elif k == "un2":
        e = Bin("==", Un(op, Var("av")), Un("!" if op == "~" else "~", Var("av")))
    else:
        e = Un(op, opnd(k, 0, 3, "i"))
    u = Unit(Prog([Decl("int", "av", ia(0)), show(e, "i"), Exit(Int(1))] + LOGF), ctx)
    for x in IVALS:
        u.check(avm.Env(args=[x.to_bytes(8, "big")]))


def run_tree(case, ctx):
    _, sh, os = case
    n = len(os)
    e = build(sh, iter(os), iter([ia(k) for k in range(n + 1)]))
    u = Unit(Prog([show(e, "i"), Exit(Int(1))]), ctx)
    for vals in TREE_VALS:
        if not u.check(avm.Env(args=[v.to_bytes(8, "big") for v in vals])):
            return


def run_untree(case, ctx):
    _, sh, os, mask = case
    leaves = [Var("v%d" % k) for k in range(3)]
    leaves = [Un("!" if k % 2 else "~", x) if mask >> k & 1 else x for k, x in enumerate(leaves)]
    if mask >> 3:
        # negate the inner group instead of the whole
        if sh[0] is not None:
            e = Bin(os[0], Un("!", Bin(os[1], leaves[0], leaves[1])), leaves[2])
        else:
            e = Bin(os[0], leaves[0], Un("!", Bin(os[1], leaves[1], leaves[2])))
    else:
        e = build(sh, iter(os), iter(leaves))
    u = Unit(Prog([Decl("int", "v%d" % k, ia(k)) for k in range(3)] + [show(e, "i"), Exit(Int(1))]), ctx)
    for vals in TREE_VALS[:4] + [(0, 0, 0), (0, 3, 5)]:
        if not u.check(avm.Env(args=[v.to_bytes(8, "big") for v in vals])):
            return


def run_btree(case, ctx):
    _, sh, (o1, o2) = case
    # the outer operator may be a comparison, the inner one yields bytes
    outer, inner = o2, o1
    if sh[0] is not None:
        e = Bin(outer, Bin(inner, ba(0), ba(1)), ba(2))
    else:
        e = Bin(outer, ba(0), Bin(inner, ba(1), ba(2)))
    u = Unit(Prog([show(e, "i" if outer in BCMP else "b"), Exit(Int(1))]), ctx)
    for vals in ([b"\x50", b"\x07", b"\x03"], [b"\1\0\0", b"\xff", b"\2"], [b"", b"\1", b"\0\0\5"], [b"\7" * 9, b"\3" * 4, b"\1"]):
        if not u.check(avm.Env(args=vals)):
            return


def run_order(case, ctx):
    _, a, b, holder = case

    def leaf(k, i, t):
        v = 10 * i + k
        if t == "i":
            return [lambda: Call("li", [Int(v)]), lambda: Bin("+", Call("li", [Int(v)]), Int(1)), lambda: Un("~", Call("li", [Int(v)])),
                    lambda: Op("btoi", [Call("lb", [Str("%d" % v)])]), lambda: Bin("-", Int(99), Call("li", [Int(v)])),
                    lambda: Std("Cast", Call("li", [Int(v)]), "int"), lambda: Call("li", [Call("li", [Int(v)])])][k]()
        return [lambda: Call("lb", [Str("%d" % v)]), lambda: Op("concat", [Call("lb", [Str("%d" % v)]), Str("x")]), lambda: Un("b~", Call("lb", [Str("%d" % v)])),
                lambda: Op("itob", [Call("li", [Int(v)])]), lambda: Op("concat", [Str("y"), Call("lb", [Str("%d" % v)])]),
                lambda: Std("Concat", Call("lb", [Str("%d" % v)]), Str("z")), lambda: Call("lb", [Call("lb", [Str("%d" % v)])])][k]()
    if holder in ("bin", "cmp"):
        e, t = Bin("-" if holder == "bin" else "<", leaf(a, 1, "i"), leaf(b, 2, "i")), "i"
    elif holder == "bbin":
        e, t = Bin("b>", leaf(a, 1, "b"), leaf(b, 2, "b")), "i"
    elif holder == "op2":
        e, t = Op("concat", [leaf(a, 1, "b"), leaf(b, 2, "b")]), "b"
    elif holder == "fn2":
        e, t = Call("two", [leaf(a, 1, "i"), leaf(b, 2, "b")]), "b"
    else:
        e, t = Std("Concat", leaf(a, 1, "b"), leaf(b, 2, "b")), "b"
    two = Func("two", [("x", "int"), ("y", "bytes")], ["bytes"], [Return(Op("concat", [Var("y"), Op("itob", [Var("x")])]))])
    u = Unit(Prog([show(e, t), Exit(Int(1)), two] + LOGF), ctx)
    u.check(avm.Env())


def run_order3(case, ctx):
    _, holder, perm = case
    ks = [perm & 1, perm >> 1 & 1, perm >> 2 & 1]
    L = [Call("li", [Int(i + 1)]) if k else Int(i + 1) for i, k in enumerate(ks)]
    LB = [Call("lb", [Str("abc"[i] * 3)]) if k else Str("abc"[i] * 3) for i, k in enumerate(ks)]
    f3 = Func("three", [("x", "int"), ("y", "int"), ("w", "int")], ["int"],
              [Return(Bin("+", Bin("*", Bin("+", Bin("*", Var("x"), Int(10)), Var("y")), Int(10)), Var("w")))])
    e, t = {"fn3": lambda: (Call("three", L), "i"), "op3": lambda: (Op("setbyte", [LB[0], L[1], L[2]]), "b"),
            "concat": lambda: (Std("Concat", *LB), "b"), "bin3l": lambda: (Bin("-", Bin("*", Call("li", [Int(50)]), L[0]), L[1]), "i"),
            "bin3r": lambda: (Bin("-", L[2], Bin("/", L[1], L[0])), "i"),
            "substring": lambda: (Op("substring3", [Call("lb", [Str("0123456789")]), L[1], L[2]]), "b"),
            "nested": lambda: (Call("three", [Call("three", L), Bin("-", L[2], L[1]), L[0]]), "i"),
            "select": lambda: (Op("select", L), "i")}[holder]()
    u = Unit(Prog([show(e, t), Exit(Int(1)), f3] + LOGF), ctx)
    u.check(avm.Env())


def run_chain(case, ctx):
    _, kind, d = case
    e = Var("v")
    for k in range(d):
        if kind == "grpl":
            e = Bin("-", e, Int(k))
        elif kind == "grpr":
            e = Bin("-", Int(1000 * (k + 1)), e)
        elif kind == "not":
            e = Un("!", e)
        elif kind == "inv":
            e = Un("~", e)
        elif kind == "call":
            e = Call("li", [Bin("+", e, Int(k))])
        elif kind == "op":
            e = Op("btoi", [Op("itob", [e])])
        elif kind == "mix":
            e = [lambda: Bin("*", Call("li", [e]), Int(3)), lambda: Un("~", e), lambda: Bin("-", Int(2**64 - 1), e), lambda: Op("btoi", [Op("itob", [e])])][k % 4]()
        elif kind == "std":
            e = Std("Cast", e, "int")
        else:
            # index of an index of an index
            e = Op("btoi", [Fld("Txn", "ApplicationArgs", e)])
    u = Unit(Prog([Decl("int", "v", ia(0)), show(e, "i"), Exit(Int(1))] + LOGF), ctx)
    for x in (0, 1, 2, 300, 2**64 - 1):
        if not u.check(avm.Env(args=[x.to_bytes(8, "big"), b"\2", b"\3", b"\0"])):
            return


S3 = (Bin("-", Bin("*", Var("v"), Int(3)), Int(1)), "i")
SPACED = [
    ("v * 3", "v*3"), ("v * 3", "v  *  3"), ("v * 3", "v* 3"), ("v * 3", "v *3"), ("(v * 3) - 1", "(v*3)-1"), ("(v * 3) - 1", "( v * 3 ) - 1"),
    ("v && 3", "v&&3"), ("v || 0", "v||0"), ("v <= 3", "v<=3"), ("v >= 3", "v>=3"), ("v == 3", "v==3"), ("v != 3", "v!=3"), ("v < 3", "v<3"), ("v > 3", "v>3"),
    ("!v", "! v"), ("~v", "~ v"), ("v & 3", "v&3"), ("v | 3", "v|3"), ("v ^ 3", "v^3"), ("v % 3", "v%3"), ("v / 3", "v/3"), ("v + 3", "v+3"), ("v - 3", "v-3"),
    ("li(v)", "li( v )"), ("three(v, 2, 3)", "three(v,2,3)"), ("three(v, 2, 3)", "three( v , 2 , 3 )"), ("three(v, (2 * v), 3)", "three(v,(2*v),3)"),
    ("btoi(Txn.ApplicationArgs[v])", "btoi( Txn.ApplicationArgs[ v ] )"), ("btoi(Txn.ApplicationArgs[(v - 1)])", "btoi(Txn.ApplicationArgs[v-1])"),
    ("btoi(Txn.ApplicationArgs[v - 1])", "btoi(Txn.ApplicationArgs[ v - 1 ])"),
]


def run_space(case, ctx):
    a, b = SPACED[case[1]]

    def src(e):
        return ("#pragma version 8\nint v = btoi(Txn.ApplicationArgs[0])\nlog(itob(" + e + "))\nexit(1)\n"
                "func li(x: int) int:\n    return x + 7\nend\n"
                "func three(x: int, y: int, w: int) int:\n    return ((x * 100) + (y * 10)) + w\nend\n")
    ctx.distinct(src(b))
    out = []
    for e in (a, b):
        st, lines, _ = try_compile(src(e))
        if st != "ok":
            ctx.violation("space:" + b, f"{e!r} is refused but only spacing differs from a valid expression: {lines}", source=src(e))
            return
        asm = avm.assemble(lines)
        res = []
        for x in (1, 2, 3):
            m = avm.execute(asm, avm.Env(args=[x.to_bytes(8, "big"), b"\2", b"\3", b"\x04"]))
            ctx.traces += 1
            ctx.states += m.steps
            ctx.transitions += m.steps
            res.append(avm.outcome(m))
        out.append(res)
    if out[0] != out[1]:
        ctx.violation("space:" + b, "spacing changes the value", source=src(b), expected=repr(out[0]), actual=repr(out[1]))


# ------------------------------------------------------------------ positions
def all_atoms():
    return [(n, "i", e) for n, e in atoms.int_atoms()] + [(n, "b", e) for n, e in atoms.bytes_atoms()]


ATOMS = None
Z = Log(Str("z"))


def T(s):
    return [Log(Str(s))]


def pos_stmts(pos, e, t):
    """(statements, extra functions/blocks) using e at the position"""
    iv = Var("iv")
    r = Var("r")
    ty = "int" if t == "i" else "bytes"
    if pos == "decl":
        return [Decl(ty, "r", e), show(r, t)], []
    if pos == "assign":
        return [Decl(ty, "r"), Assign("r", e), show(r, t)], []
    if pos == "assign2":
        return [Decl(ty, "r", e), Assign("r", e), show(r, t)], []
    if pos == "stmt":
        return [Log(e) if t == "b" else Expr(Call("fl", [e]))], []
    if pos == "fnarg":
        return [Log(Op("itob", [Call("fi", [e])])) if t == "i" else Log(Call("fb", [e]))], []
    if pos == "fnarg1":
        return [Log(Op("itob", [Call("fj", [e, iv])]))], []
    if pos == "fnarg2":
        return [Log(Op("itob", [Call("fj", [iv, e])]))], []
    if pos == "oparg":
        return [show(e, t)] if t == "i" else [Log(Op("itob", [Op("len", [e])])), Log(Op("concat", [e, Str("!")])), Log(Op("concat", [Str("!"), e]))], []
    if pos == "oparg3":
        return [Log(Op("itob", [Op("select", [iv, Int(5), e])])), Log(Op("itob", [Op("select", [e, Int(5), Int(6)])]))], []
    if pos == "stdarg":
        return [Log(Std("Convert", e, "bytes"))] if t == "i" else [Log(Std("Concat", Str("a"), e, Str("b"))), Log(Std("Concat", e, e))], []
    if pos == "binl":
        return [show(Bin("-", e, Int(1)), "i")] if t == "i" else [show(Bin("==", e, Str("kb")), "i")], []
    if pos == "binr":
        return [show(Bin("-", Int(2**64 - 1), e), "i")] if t == "i" else [show(Bin("b|", Str("\x01", "\\x01"), e), "b")], []
    if pos == "un":
        return [show(Un("!", e), "i")] if t == "i" else [show(Un("b~", e), "b")], []
    if pos == "if":
        return [If([(e, False, T("t"))], T("f"))], []
    if pos == "ifnot":
        return [If([(e, True, T("t"))], T("f"))], []
    if pos == "elif":
        return [If([(Int(0), False, T("1")), (e, False, T("2")), (Int(1), False, T("3"))])], []
    if pos == "elifnot":
        return [If([(Int(0), False, T("1")), (e, True, T("2"))], T("4"))], []
    if pos == "while":
        return [While(e, T("w") + [Break()])], []
    if pos == "whilenot":
        return [While(e, T("w") + [Break()], True)], []
    if pos == "assert":
        return [Assert(e)], []
    if pos == "assertm":
        return [Assert(e, "must hold")], []
    if pos == "ret":
        return [show(Call("rf"), t)], [Func("rf", [], [ty], [Return(e)])]
    if pos == "ret2":
        return [Decl("int", "x1"), Decl(ty, "x2"), Assign(["x1", "x2"], Call("rf")), show(Var("x1"), "i"), show(Var("x2"), t)], \
            [Func("rf", [], ["int", ty], [Return(Int(77), e)])]
    if pos == "ret1":
        return [Decl("int", "x1"), Decl(ty, "x2"), Assign(["x2", "x1"], Call("rf")), show(Var("x1"), "i"), show(Var("x2"), t)], \
            [Func("rf", [], [ty, "int"], [Return(e, Int(77))])]
    if pos == "exit":
        return [If([(Int(1), False, [Exit(e)])])], []
    if pos == "txnas":
        return [Log(Fld("Txn", "ApplicationArgs", e))], []
    if pos == "gtxns":
        return [Log(Op("itob", [Fld("Gtxn", "Fee", g=e)]))], []
    if pos == "gtxnsa":
        return [Log(Fld("Gtxn", "ApplicationArgs", Int(2), g=e))], []
    if pos == "gtxnas":
        return [Log(Fld("Gtxn", "ApplicationArgs", e, g=Int(2)))], []
    if pos == "gtxnsas":
        return [Log(Fld("Gtxn", "ApplicationArgs", iv, g=e))], []
    if pos == "gtxnsas2":
        return [Log(Fld("Gtxn", "ApplicationArgs", e, g=iv))], []
    if pos == "gtxnpas":
        return [Log(Fld("Gtxn", "ApplicationArgs", e, g="+1"))], []
    if pos == "itxf":
        return [InnerTxn([("TypeEnum", None, Int(1)), ("Fee", None, e)] if t == "i" else [("TypeEnum", None, Int(1)), ("Note", None, e), ("Fee", None, Int(0))])], []
    if pos == "itxarr":
        return [InnerTxn([("TypeEnum", None, Int(6)), ("ApplicationArgs", 0, Str("m")), ("ApplicationArgs", 1, e), ("Fee", None, Int(0))])], []
    if pos == "setf":
        return [SetField("st", "fi", e), Log(Var("st"))] if t == "i" else None, []
    if pos == "setbox":
        return [SetField("bx", "fi", e), Log(Op("itob", [SF("bx", "fi")]))] if t == "i" else None, []
    if pos == "boxkey":
        return [BoxDecl("S1", "by", e, "Create"), SetField("by", "fi", Int(3)), Log(Op("itob", [SF("by", "fi")]))], []
    if pos == "swopt":
        return [Jump("swblk")], [Block("swblk", [Switch(Int(1), [(e, "b1"), (Int(1), "b2")], "b3")])] + blocks()
    if pos == "swexpr":
        return [Jump("swblk")], [Block("swblk", [Switch(e, [(Int(0), "b1"), (Int(1), "b2")], "b3")] if t == "i" else
                                       [Switch(e, [(Str("kb"), "b1"), (Str("a"), "b2")], "b3")])] + blocks()
    if pos == "swoptb":
        return [Jump("swblk")], [Block("swblk", [Switch(Var("bv"), [(e, "b1"), (Str("a"), "b2")], "b3")])] + blocks()
    raise AssertionError(pos)


def blocks():
    return [Block(b, T(b) + [Exit(Int(1))]) for b in ("b1", "b2", "b3")]


COMMON = ["decl", "assign", "assign2", "stmt", "fnarg", "oparg", "stdarg", "binl", "binr", "un", "ret", "ret1", "ret2", "itxf", "swexpr"]
POS = {"i": COMMON + ["fnarg1", "fnarg2", "oparg3", "if", "ifnot", "elif", "elifnot", "while", "whilenot", "assert", "assertm", "exit", "txnas", "gtxns",
                      "gtxnsa", "gtxnas", "gtxnsas", "gtxnsas2", "gtxnpas", "setf", "setbox", "swopt"],
       "b": COMMON + ["itxarr", "boxkey", "swoptb"]}


def lit_only(pos, e):
    """immediate indices are a different (checked at compile time) thing: C23"""
    return isinstance(e, (Int, ref.EnumC)) and pos in ("gtxns", "gtxnsa", "gtxnsas", "txnas", "gtxnas", "gtxnsas2", "gtxnpas")


def run_pos(case, ctx):
    _, name, pos, loc, nenv = case
    t, e = next((t, e) for n, t, e in all_atoms() if n == name)
    if lit_only(pos, e):
        return
    stmts, tail = pos_stmts(pos, e, t)
    if pos.startswith("sw") and loc != "main":
        return
    prog = atoms.in_loc(loc, stmts, tail)
    if pos in ("swexpr", "swopt", "swoptb"):
        # the statement list ends with the jump
        prog = Prog(atoms.prelude() + stmts + tail + atoms.FUNCS, [atoms.S1])
    if loc in ("while", "for", "for_") and pos in ("boxkey",):
        return     # the second iteration creates the same box: fails by design, covered by C07
    u = Unit(prog, ctx, key=f"{name}:{pos}:{loc}")
    for env in atoms.envs(nenv):
        if not u.check(env):
            return
    if ctx.n % 211 == 1:
        ctx.sample({"source": u.src})


def run_switch(case, ctx):
    """the expression of a switch with effects or a changing value is evaluated once"""
    _, k, n = case
    pre = atoms.prelude()
    side = Func("side", [], ["int"], [Log(Str("side")), Return(Int(2))])
    e = {"call": Call("side"), "op": Op("btoi", [Call("fb", [Str("")])]), "std": Std("Cast", Call("side"), "int"),
         "sfield": SF("st", "fu"), "bfield": SF("bx", "fi"),
         "txnas": Op("btoi", [Fld("Txn", "ApplicationArgs", Call("side"))]), "gtxns": Fld("Gtxn", "Fee", g=Call("side"))}[k]
    opts = [(Int(10 + i), "b1") for i in range(n - 1)] + [(Int(2), "b2")]
    u = Unit(Prog(pre + [Switch(e, opts, "b3")] + blocks() + atoms.FUNCS + [side], [atoms.S1]), ctx, key=f"switch:{k}:{n}")
    for env in atoms.envs(3):
        u.check(env)


RUN = {"op": run_op, "bop": run_bop, "un": run_un, "tree": run_tree, "untree": run_untree, "btree": run_btree, "order": run_order,
       "order3": run_order3, "chain": run_chain, "space": run_space, "pos": run_pos, "switch": run_switch}


def run_case(case, ctx):
    RUN[case[0]](case, ctx)
