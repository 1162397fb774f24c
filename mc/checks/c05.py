"""C05: blocks, jumps, switches and the layout rules.  Every arrangement of statements, exits, blocks and functions
up to a bound; every tree of nested blocks with every transfer; every switch over small value sets."""
from itertools import product

from ..ref import (Assert, Assign, Bin, Block, Break, Call, Comment, Const, ConstDef, Decl, Error, Exit, Expr, Fld, For, Func, If, InnerTxn, Int, Jump, Log,
                   Op, Prog, Raw, Return, Router, Std, Str, Switch, Un, Var, While)
from ..h import Unit, cond
from .. import avm

ID = "C05"
LEVEL = "model_checking"
TECHNIQUE = ("explicit-state model checking: all program layouts up to a bound against an independent layout rule, all small trees of nested "
             "blocks with all transfers, all switches over small value sets; accepted programs are executed on an AVM model along every path")
NOTE = ("Complete for layouts of up to 4 (quick) or 5 (thorough) items from 17 kinds, block trees of up to 3 blocks with 2 names, switches of "
        "up to 3 options. Deeper nesting is covered only by composition.")
RULE = ("layout sequences; block trees x transfers x condition outcomes; switches x placements x values; distinct = distinct source programs")
ASSUMPTIONS = ["AVM model of mc/avm.py", "programs whose main part has no exit statement are out of scope unless blocks or functions follow"]

X = lambda: Exit(Int(1))


def items():
    """kind -> (constructor, class); classes: s statement, x exit, d definition, n never valid here, c comment"""
    c = lambda: cond(1)
    return {
        "L": (lambda k: Log(Str(f"l{k}")), "s"), "X": (lambda k: Exit(Int(1)), "x"), "J": (lambda k: Jump("b1"), "x"),
        "W": (lambda k: Switch(Op("balance", [Int(0)]), [(Int(0), "b1"), (Int(1), "b2")], "b1"), "x"),
        "I": (lambda k: If([(c(), False, [Exit(Int(1))])], [Exit(Int(2))]), "s"),
        "IJ": (lambda k: If([(c(), False, [Jump("b2")])]), "s"),
        "E": (lambda k: Error(), "s"),
        "C": (lambda k: Comment(" exit(1)"), "c"),
        "B1": (lambda k: Block("b1", [Log(Str("b1")), Exit(Int(1))]), "d"),
        "B2": (lambda k: Block("b2", [Log(Str("b2")), Exit(Int(1))]), "d"),
        "BN": (lambda k: Block(f"bn{k}", [Log(Str("bn"))]), "n"),
        "BI": (lambda k: Block(f"bi{k}", [If([(c(), False, [Exit(Int(1))])], [Exit(Int(1))])]), "n"),
        "BF": (lambda k: Block(f"bf{k}", [Func(f"g{k}", [], [], [Log(Str("g")), Return()]), Exit(Int(1))]), "n"),
        "BX": (lambda k: Block(f"bx{k}", [Exit(Int(1)), Func(f"g{k}", [], [], [Return()]), Block(f"bb{k}", [Exit(Int(1))])]), "d"),
        "BL": (lambda k: Block(f"bl{k}", [Exit(Int(1)), Log(Str("no"))]), "n"),
        "F": (lambda k: Func(f"f{k}", [], [], [Log(Str("f")), Return()]), "d"),
        "FN": (lambda k: Func(f"f{k}", [], [], [Log(Str("f"))]), "n"),
        "FI": (lambda k: Func(f"f{k}", [], [], [If([(c(), False, [Return()])])]), "n"),
        "FF": (lambda k: Func(f"f{k}", [], [], [Log(Str("f")), Return(), Func(f"h{k}", [], [], [Return()])]), "d"),
        "FE": (lambda k: Func(f"f{k}", [], [], [Func(f"h{k}", [], [], [Return()]), Log(Str("f")), Return()]), "n"),
        "FB": (lambda k: Func(f"f{k}", [], [], [Return(), Block(f"hb{k}", [Exit(Int(1))])]), "n"),
        "D": (lambda k: Func(f"d{k}", [], [], [Log(Str("d")), Return()], public=""), "d"),
        "IF": (lambda k: If([(c(), False, [Func(f"f{k}", [], [], [Return()])])]), "n"),
        "IEF": (lambda k: If([(c(), False, [Log(Str("i"))])], [Exit(Int(1)), Func(f"f{k}", [], [], [Return()])]), "n"),
        "IB": (lambda k: If([(c(), False, [Exit(Int(1)), Block(f"ib{k}", [Exit(Int(1))])])]), "n"),
        "WF": (lambda k: While(c(), [Func(f"f{k}", [], [], [Return()])]), "n"),
        "RF": (lambda k: For(f"i{k}", Int(0), Int(2), [Break(), Func(f"f{k}", [], [], [Return()])]), "n"),
        "UF": (lambda k: For(None, Int(0), Int(2), [Func(f"f{k}", [], [], [Return()])]), "n"),
        "GF": (lambda k: Raw(f"inner_group:\n    func f{k}():\n        return\n    end\nend"), "n"),
        "ID": (lambda k: If([(c(), False, [Exit(Int(1)), Func(f"f{k}", [], [], [Return()], public="")])]), "n"),
        "ret": (lambda k: Return(), "n"),
        "brk": (lambda k: Break(), "n"),
    }


ITEMS = items()
CORE = ["L", "X", "J", "IJ", "B1", "B2", "F", "D", "BX", "FF", "C"]


def layout_ok(seq):
    """the documented rule: statements up to an exit statement, then only blocks and functions"""
    exited = False
    for k in seq:
        cl = ITEMS[k][1]
        if cl == "n":
            return False
        if cl == "d" and not exited:
            return False
        if cl in "sx" and exited:
            return False
        if cl == "x":
            exited = True
    need = set()
    for k in seq:
        need |= {"J": {"B1"}, "W": {"B1", "B2"}, "IJ": {"B2"}}.get(k, set())
    if need - set(seq):
        return False
    for b in ("B1", "B2"):
        if seq.count(b) > 1:
            return False
    return exited


def families(tier):
    q = tier == "quick"
    return [("layout", {"n": 4 if q else 5, "shards": 64}), ("layoutall", {"n": 3}), ("inblock", {"n": 4, "shards": 64}),
            ("infunc", {"n": 3}), ("trees", {"n": 3, "shards": 64}), ("switch", {}), ("switchpos", {}), ("switchhost", {}), ("jumppos", {}),
            ("chain", {"n": 4 if q else 6})]


def cases(fam, p):
    if fam == "layout":
        for n in range(1, p["n"] + 1):
            for seq in product(CORE, repeat=n):
                if not any(ITEMS[k][1] == "x" for k in seq) and not any(ITEMS[k][1] == "d" for k in seq):
                    continue        # no exit statement and nothing to run into
                yield ("layout", seq)
    elif fam == "layoutall":
        for k in ITEMS:
            for pre in ((), ("L",), ("I",), ("X",), ("L", "X"), ("X", "B1"), ("X", "F"), ("J", "B1"), ("W", "B1", "B2"), ("E",)):
                for post in ((), ("X",), ("B1",), ("L",), ("F",), ("L", "X"), ("X", "B1")):
                    seq = pre + (k,) + post
                    if not any(ITEMS[j][1] == "x" for j in seq) and not any(ITEMS[j][1] in "dn" for j in seq):
                        continue
                    yield ("layout", seq)
    elif fam == "inblock":
        for n in range(1, p["n"] + 1):
            for seq in product(["L", "X", "J", "B1", "F", "FF", "D", "C"] if n > 3 else CORE, repeat=n):
                yield ("inblock", seq)
    elif fam == "infunc":
        for n in range(1, p["n"] + 1):
            for seq in product(["L", "R", "I", "H", "Bk", "W", "D", "X"], repeat=n):
                yield ("infunc", seq)
    elif fam == "trees":
        for shape in TREES:
            for names in product("ab", repeat=len(shape)):
                for tr in product(("x", "a", "b"), repeat=len(shape) + 1):
                    yield ("tree", shape, names, tr)
    elif fam == "switch":
        for t in ("int", "bytes"):
            for n in range(4):
                for opts in product(range(3), repeat=n):
                    for els in (0, 1):
                        for okind in ("lit", "var", "const", "expr"):
                            yield ("switch", t, opts, els, okind)
        for k in range(len(TEXTS)):
            yield ("switchtext", k)
        for v in (0, 1, 255, 256, 2**32, 2**64 - 1):
            yield ("switchval", v)
    elif fam == "switchpos":
        for n in (1, 2, 3):
            for wraps in product(("if", "else", "while", "for", "for_", "func"), repeat=n):
                for els in (0, 1):
                    yield ("switchpos", wraps, els)
    elif fam == "switchhost":
        for host in HOSTS:
            for n in range(4):
                for targets in product("ab", repeat=n):
                    for els in (None, "els", "a"):
                        for ex in ("var", "call", "op"):
                            yield ("switchhost", host, targets, els, ex)
    elif fam == "jumppos":
        for n in (1, 2, 3):
            for wraps in product(("if", "elif", "else", "while", "for", "for_", "func"), repeat=n):
                yield ("jumppos", wraps)
    elif fam == "chain":
        n = p["n"]
        for perm in product(range(n + 1), repeat=n):
            yield ("chain", perm)


def run_layout(case, ctx):
    _, seq = case
    ok = layout_ok(seq)
    prog = Prog([ITEMS[k][0](i) for i, k in enumerate(seq)])
    u = Unit(prog, ctx, expect="ok" if ok else "refused", key="layout:" + ",".join(seq))
    ctx.count("accepted" if ok else "refused_as_required")
    if ok:
        u.check_dfs(3)


def run_inblock(case, ctx):
    """the same rule inside a block; `J` jumps to a sibling visible from there"""
    _, seq = case
    need = seq
    ok = layout_ok(tuple(k for k in seq) + ()) if "J" not in seq and "IJ" not in seq and "W" not in seq else None
    if ok is None:
        # blocks b1 and b2 of the program are visible as well
        base = tuple({"J": "X", "IJ": "L", "W": "X"}.get(k, k) for k in seq)
        ok = layout_ok(base)
    prog = Prog([Log(Str("m")), Jump("o"), Block("b1", [Log(Str("outer b1")), X()]), Block("b2", [Log(Str("outer b2")), X()]),
                 Block("o", [ITEMS[k][0](i) for i, k in enumerate(seq)])])
    u = Unit(prog, ctx, expect="ok" if ok else "refused", key="inblock:" + ",".join(seq))
    if ok:
        u.check_dfs(3)


def run_infunc(case, ctx):
    _, seq = case
    mk = {"L": lambda k: Log(Str(f"l{k}")), "R": lambda k: Return(), "I": lambda k: If([(cond(k), False, [Return()])]),
          "H": lambda k: Func(f"h{k}", [], [], [Log(Str("h")), Return()]), "Bk": lambda k: Block(f"k{k}", [X()]),
          "W": lambda k: For(None, Int(0), Int(2), [If([(cond(k), False, [Return()])]), Log(Str("w"))]),
          "D": lambda k: Func(f"d{k}", [], [], [Return()], public=""), "X": lambda k: Exit(Int(1))}
    # the last statement must be a return; nested functions only directly after a return (or another such function)
    last = None
    ok = True
    for k in seq:
        if k in ("Bk", "D"):
            ok = False
        if k == "H":
            if last != "R":
                ok = False
        else:
            last = k
    if last != "R":
        ok = False
    calls_nested = [i for i, k in enumerate(seq) if k == "H"] and False
    f = Func("f", [], [], [mk[k](i + 1) for i, k in enumerate(seq)])
    u = Unit(Prog([Expr(Call("f")), Log(Str("z")), X(), f]), ctx, expect="ok" if ok else "refused", key="infunc:" + ",".join(seq))
    if ok:
        u.check_dfs(4)


# shapes of up to three blocks: parent index of each block (-1: program)
TREES = [(-1,), (-1, -1), (-1, 0), (-1, -1, -1), (-1, -1, 0), (-1, -1, 1), (-1, 0, -1), (-1, 0, 0), (-1, 0, 1)]


def run_tree(case, ctx):
    _, shape, names, tr = case
    n = len(shape)
    # duplicates in one scope are refused
    sib = [(shape[i], names[i]) for i in range(n)]
    ok = len(set(sib)) == n

    def visible(loc, name):
        # loc: index of the block holding the jump or -1; nearest scope that declares the name
        while True:
            for i in range(n):
                if shape[i] == loc and names[i] == name:
                    return i
            if loc == -1:
                return None
            loc = shape[loc]
    for i in range(-1, n):
        t = tr[i + 1]
        if t != "x" and visible(i, t) is None:
            ok = False

    def transfer(i):
        t = tr[i + 1]
        if t == "x":
            return [X()]
        # a condition keeps cyclic jumps finite
        return [If([(cond(i + 2), False, [Exit(Int(3))])]), Jump(t)]

    def body(i):
        out = [Log(Str(f"in{i}"))] + transfer(i)
        for j in range(n):
            if shape[j] == i:
                out.append(Block(names[j], body(j)))
        return out
    u = Unit(Prog(body(-1)), ctx, expect="ok" if ok else "refused", key=f"tree:{shape}:{names}:{tr}")
    if ok:
        u.check_dfs(4)


def blocks(n):
    return [Block(f"b{i}", [Log(Str(f"b{i}")), X()]) for i in range(n)] + [Block("els", [Log(Str("els")), X()])]


def run_switch(case, ctx):
    _, t, opts, els, okind = case
    lit = (lambda v: Int(v)) if t == "int" else (lambda v: Str("v%d" % v))
    pre = [Decl(t, "e", Op("btoi", [Fld("Txn", "ApplicationArgs", Int(0))]) if t == "int" else Fld("Txn", "ApplicationArgs", Int(0)))]
    o = []
    for j, v in enumerate(opts):
        if okind == "lit":
            o.append(lit(v))
        elif okind == "var":
            pre.append(Decl(t, f"o{j}", lit(v)))
            o.append(Var(f"o{j}"))
        elif okind == "const":
            pre.insert(0, ConstDef(t, f"KO{j}", str(v) if t == "int" else f'"v{v}"', v if t == "int" else b"v%d" % v))
            o.append(Const(f"KO{j}"))
        else:
            o.append(Call("id", [lit(v)]))
    f = [Func("id", [("x", t)], [t], [Log(Op("itob", [Var("x")]) if t == "int" else Var("x")), Return(Var("x"))])]
    p = pre + [Switch(Var("e"), [(x, f"b{j}") for j, x in enumerate(o)], "els" if els else None)]
    u = Unit(Prog(p + blocks(len(opts)) + (f if okind == "expr" else [])), ctx)
    for v in range(4):
        arg = v.to_bytes(8, "big") if t == "int" else b"v%d" % v
        u.check(avm.Env(args=[arg]))


TEXTS = ["a: b", "else: x", "x:", ": ", "end", "a\\\"b: c", "#", "//", "a; b", "(", "switch x:"]


def run_switchtext(case, ctx):
    """options whose text resembles the syntax of a switch"""
    _, k = case
    text = TEXTS[k]
    val = text.replace('\\"', '"').encode()
    e = Str(val, text)
    p = [Switch(Fld("Txn", "ApplicationArgs", Int(0)), [(Str("first"), "b0"), (e, "b1")], "els")]
    u = Unit(Prog(p + blocks(2)), ctx)
    for a in (val, b"first", b"other", b""):
        u.check(avm.Env(args=[a]))
    p = [If([(Bin("==", e, Fld("Txn", "ApplicationArgs", Int(0))), False, [Jump("b0")])]), Switch(e, [(Fld("Txn", "ApplicationArgs", Int(1)), "b1")], "els")]
    u = Unit(Prog(p + blocks(2)), ctx)
    for a, b in product((val, b"x"), repeat=2):
        u.check(avm.Env(args=[a, b]))


def run_switchval(case, ctx):
    _, v = case
    p = [Switch(Op("btoi", [Fld("Txn", "ApplicationArgs", Int(0))]), [(Int(v), "b0"), (Bin("+", Int(v), Int(0)), "b1")])]
    u = Unit(Prog(p + blocks(2)), ctx)
    for w in {0, 1, 255, 256, 2**32, 2**64 - 1, v}:
        u.check(avm.Env(args=[w.to_bytes(8, "big")]))


def wrap(wraps, inner, fs):
    """inner statements within nested constructs that are all entered"""
    body = inner
    for i, w in enumerate(reversed(wraps)):
        if w == "if":
            body = [If([(cond(10 + i), False, body)])]
        elif w == "else":
            body = [If([(cond(10 + i), False, [Log(Str("t"))])], body)]
        elif w == "elif":
            body = [If([(cond(10 + i), False, [Log(Str("t"))]), (Int(1), False, body)])]
        elif w == "while":
            body = [While(cond(10 + i), body + [Log(Str("w"))])]
        elif w == "for":
            body = [For(f"fi{i}", Int(0), Int(2), body + [Log(Op("itob", [Var(f"fi{i}")]))])]
        elif w == "for_":
            body = [For(None, Int(0), Int(2), body + [Log(Str("u"))])]
        else:
            nm = f"w{len(fs)}"
            fs.append(Func(nm, [], [], body + [Return()]))
            body = [Expr(Call(nm))]
    return body


def run_switchpos(case, ctx):
    _, wraps, els = case
    fs = []
    sw = If([(cond(1), False, [Log(Str("go")), Switch(Op("balance", [Int(4)]), [(Int(0), "b0"), (Int(1), "b1")], "els" if els else None)])])
    body = wrap(wraps, [sw], fs)
    p = body + [Log(Str("after")), Jump("b1"), Block("b0", [Log(Str("b0")), If([(cond(3), False, [Jump("b1")])])] + [For(None, Int(0), Int(2), [Log(Str("q"))]), X()]),
                Block("b1", [For("k", Int(0), Int(2), [Log(Op("itob", [Var("k")]))]), X()]), Block("els", [X()])]
    Unit(Prog(p + fs), ctx).check_dfs(6)


HOSTS = [(), ("B",), ("B", "B"), ("B", "B", "B"), ("if",), ("else",), ("elif",), ("while",), ("for",), ("for_",), ("func",), ("func", "if"),
         ("func", "for_"), ("B", "if"), ("B", "else"), ("B", "for"), ("B", "for_"), ("B", "while"), ("B", "B", "if"), ("B", "B", "for_"),
         ("B", "func"), ("if", "if"), ("for_", "for_"), ("BF",), ("B", "BF"), ("BF", "if")]


def run_switchhost(case, ctx):
    """a switch of every shape at every kind of place: directly in the program, in (nested) blocks, in statements, in functions
    of the program (func) or of a block (BF); whatever follows must not be reached unless it is a target"""
    _, host, targets, els, ex = case
    fs = []
    e = {"var": Var("v"), "call": Call("val"), "op": Op("balance", [Int(4)])}[ex]
    sw = Switch(e, [(Int(j), t) for j, t in enumerate(targets)], els)
    inner = [k for k in host if k not in ("B", "BF")]
    body = ([Decl("int", "v", Op("balance", [Int(4)]))] if ex == "var" else []) + [Log(Str("go")), sw]
    # the layout rule: a switch that is not an exit of the program or block itself needs something after it
    bl = lambda tag: [Log(Str(tag)), X()]
    targets_ = [Block("a", bl("a")), Block("b", bl("b")), Block("els", bl("els"))]
    if ex == "call":
        fs.append(Func("val", [], ["int"], [Log(Str("val")), Return(Op("balance", [Int(4)]))]))
    if inner:
        body = wrap(inner, body, fs) + [Log(Str("after")), X()]
    for d, k in enumerate(reversed([k for k in host if k in ("B", "BF")])):
        if k == "BF":
            nm = f"bf{d}"
            # a function of the block; the switch is its last statement but one
            body = [Expr(Call(nm)), Log(Str("after")), X(), Func(nm, [], [], [s for s in body if not isinstance(s, Exit)] + [Return()])]
        else:
            body = [Jump(f"o{d}"), Block(f"o{d}", body)]
        # something to fall into
        body = body + [Block(f"next{d}", bl(f"next{d}"))]
    u = Unit(Prog(body + targets_ + fs), ctx, key=f"switchhost:{host}:{targets}:{els}:{ex}")
    for v in range(4):
        def oracle(m, op, imm, args, v=v):
            if op == "balance":
                return [v if args[0] == 4 else args[0] % 2]
            return None
        u.check(avm.Env(oracle=oracle))


def run_jumppos(case, ctx):
    _, wraps = case
    fs = []
    body = wrap(wraps, [If([(cond(1), False, [Jump("b0")])], [Log(Str("stay"))])], fs)
    p = body + [Log(Str("after")), X(), Block("b0", [Log(Str("b0")), For(None, Int(0), Int(2), [Log(Str("q"))]), X()])]
    Unit(Prog(p + fs), ctx).check_dfs(6)


def run_chain(case, ctx):
    """n blocks in a row; block i goes to perm[i] (n: exits); cycles are cut by a condition"""
    _, perm = case
    n = len(perm)
    bl = []
    for i, t in enumerate(perm):
        bl.append(Block(f"k{i}", [Log(Str(f"k{i}")), If([(cond(i + 1), False, [Exit(Int(2))])]), Jump(f"k{t}") if t < n else Exit(Int(1))]))
    Unit(Prog([Jump(f"k{perm[0] if perm[0] < n else 0}")] + bl), ctx).check_dfs(4)


RUN = {"layout": run_layout, "inblock": run_inblock, "infunc": run_infunc, "tree": run_tree, "switch": run_switch, "switchtext": run_switchtext,
       "switchval": run_switchval, "switchpos": run_switchpos, "switchhost": run_switchhost, "jumppos": run_jumppos, "chain": run_chain}


def run_case(case, ctx):
    RUN[case[0]](case, ctx)
    if ctx.n % 499 == 1:
        ctx.sample({"case": repr(case)})
