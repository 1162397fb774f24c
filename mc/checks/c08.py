"""C08: inner transactions and inner groups.  Every sequence of inner transactions, groups, conditionals, loops and calls up
to a bound, along every path; every settable field; every way of leaving a group; reads of the last inner transaction."""
from itertools import product

from ..ref import (Assert, Assign, Bin, Block, Break, Call, Comment, Const, ConstDef, Decl, Error, Exit, Expr, Fld, For, Func, If, InnerGroup, InnerTxn,
                   Int, Jump, Log, Op, Prog, Raw, Return, SF, SetField, Std, Str, Struct, Switch, Teal, Un, Var, While)
from ..h import Unit, cond, try_compile
from .. import atoms, avm

ID = "C08"
LEVEL = "model_checking"
TECHNIQUE = ("explicit-state model checking: all statement sequences with inner transactions and groups up to a bound, executed along all paths on an "
             "AVM model that records submitted groups; all settable fields, all ways to leave a group")
NOTE = ("Complete for sequences of up to 2 (quick) or 3 (thorough) items from 16 kinds around and inside groups, two nesting levels, functions "
        "that submit singly or grouped. Nested inner transactions (a field expression that itself submits) are excluded: the AVM has none.")
RULE = "sequences of items x group bodies x condition outcomes; fields x value kinds; leaving statements x contexts; distinct = distinct source programs"
ASSUMPTIONS = ["AVM model of mc/avm.py: itxn_begin/next/field/submit semantics, fields of array type append",
               "fields of one inner transaction do not call functions that submit inner transactions themselves"]


def T(k, *more):
    return InnerTxn([("TypeEnum", None, Int(1)), ("Amount", None, Int(k)), *more])


def counter():
    c = [100]

    def nxt():
        c[0] += 1
        return c[0]
    return nxt


FUNCS = lambda: [
    Func("ft", [("p", "int")], [], [InnerTxn([("Amount", None, Var("p")), ("Fee", None, Int(0))]), Return()]),
    Func("ftt", [("p", "int")], ["int"], [InnerTxn([("Amount", None, Var("p"))]), Log(Str("ftt")), InnerTxn([("Amount", None, Bin("+", Var("p"), Int(1)))]), Return(Bin("+", Var("p"), Int(2)))]),
    Func("fg", [("p", "int")], [], [InnerGroup([InnerTxn([("Amount", None, Var("p"))]), InnerTxn([("Fee", None, Var("p"))])]), Log(Str("fg")), Return()]),
    Func("fc", [("p", "int")], [], [If([(cond(9), False, [InnerTxn([("Amount", None, Var("p"))])])]), Return()]),
    Func("fn", [("p", "int")], [], [Expr(Call("ft", [Var("p")])), Return()]),
]

KINDS = ["T", "L", "A", "I", "IE", "N", "W", "R", "U", "CT", "CTT", "CC", "CN", "X"]


def item(kind, k, d):
    """statements of one item; k: number generator, d: depth"""
    n = k()
    if kind == "T":
        return [T(n)]
    if kind == "L":
        return [Log(Str(f"l{n}"))]
    if kind == "A":
        return [Assign("iv", Bin("+", Var("iv"), Int(n)))]
    if kind == "I":
        return [If([(cond(n), False, [T(n)])])]
    if kind == "IE":
        return [If([(cond(n), False, [T(n)]), (cond(n + 50), True, [Log(Str("ei"))])], [T(k()), T(k())])]
    if kind == "N":
        return [If([(cond(n), True, [If([(cond(n + 50), False, [T(n)])], [T(k())])])])]
    if kind == "W":
        return [While(cond(n), [T(n)])]
    if kind == "R":
        return [For(f"r{n}", Int(0), Int(2), [InnerTxn([("Amount", None, Var(f"r{n}"))])])]
    if kind == "U":
        return [For(None, Int(0), Int(3), [T(n)])]
    if kind == "CT":
        return [Expr(Call("ft", [Int(n)]))]
    if kind == "CTT":
        return [Assign("iv", Call("ftt", [Var("iv")]))]
    if kind == "CC":
        return [Expr(Call("fc", [Int(n)]))]
    if kind == "CN":
        return [Expr(Call("fn", [Var("iv")]))]
    if kind == "CG":
        return [Expr(Call("fg", [Int(n)]))]
    if kind == "X":
        return [If([(cond(n), False, [Exit(Int(1))])])]
    if kind == "B":
        return [While(cond(n), [T(n), If([(cond(n + 50), False, [Break()])]), Log(Str("w"))])]
    if kind.startswith("G"):
        body = []
        for kk in kind[1:].split("."):
            if kk:
                body += item(kk, k, d + 1)
        return [InnerGroup(body)]
    if kind.startswith("K"):      # a group within a loop
        body = []
        for kk in kind[1:].split("."):
            if kk:
                body += item(kk, k, d + 1)
        return [While(cond(n), [InnerGroup(body)])]
    raise AssertionError(kind)


def families(tier):
    q = tier == "quick"
    return [("seq", {"n": 2, "g": 1, "shards": 64}), ("gbody", {"n": 2 if q else 3, "shards": 64}), ("mix", {"n": 2 if q else 3, "shards": 64}),
            ("place", {"shards": 32}), ("fields", {}), ("arrays", {}), ("values", {}), ("leave", {}), ("vars", {}), ("last", {}), ("bad", {}), ("size", {})]


def cases(fam, p):
    if fam == "seq":
        top = KINDS + ["CG", "B"] + ["G" + k for k in ("", "T", "L", "CT", "CTT", "I", "W", "U", "CG", "X", "GT")] + ["KT", "KCC"]
        for n in range(1, p["n"] + 1):
            for s in product(top, repeat=n):
                yield ("seq", s)
    elif fam == "gbody":
        for n in range(2, p["n"] + 1):
            for s in product(KINDS + ["B", "CG"], repeat=n):
                for tail in ("T", "GT"):
                    yield ("seq", ("G" + ".".join(s), tail))
    elif fam == "mix":
        for s in product(["T", "GT.T", "GCT.T", "CG", "CTT", "GI.T", "KT.CT", "GU"], repeat=p["n"] + 1):
            yield ("seq", s)
    elif fam == "place":
        for loc in atoms.LOCS:
            for s in (("T",), ("GT",), ("GT.T", "T"), ("T", "GCT.T"), ("CG", "T"), ("GI.T", "CTT"), ("GU", "GR"), ("KT", "GT"), ("GGT", "T")):
                yield ("place", loc, s)
    elif fam == "fields":
        for f in avm.ITXN_SET:
            for g in (0, 1):
                yield ("field", f, g)
    elif fam == "arrays":
        for n in (1, 2, 3, 4, 10, 11, 16):
            for g in (0, 1):
                for f in ("ApplicationArgs", "Accounts", "Assets", "Applications", "ApprovalProgramPages"):
                    yield ("array", f, n, g)
        for mix in product(("a0", "a1", "b0", "b1", "F", "#"), repeat=4):
            yield ("arrmix", mix)
    elif fam == "values":
        for i in range(len(atoms.int_atoms())):
            for g in (0, 1):
                yield ("val", "i", i, g)
        for i in range(len(atoms.bytes_atoms())):
            for g in (0, 1):
                yield ("val", "b", i, g)
    elif fam == "leave":
        for inner in ("break", "return", "jump", "switch", "router", "exit"):
            for wrap in ("", "if", "else", "while", "for", "for_", "if-while"):
                for order in ("before", "after"):
                    yield ("leave", inner, wrap, order)
    elif fam == "vars":
        for nv in (0, 1, 2, 5):
            for nf in (0, 1, 3):
                for place in ("main", "func", "block"):
                    for s in (("GT",), ("GT.T", "GT"), ("GCT", "T"), ("CG",), ("KT", "T"), ("CG", "GCTT")):
                        yield ("vars", nv, nf, place, s)
    elif fam == "last":
        for s in product(("T", "GT.T", "GCT.T.T", "CG", "I"), repeat=2):
            yield ("last", s)
    elif fam == "bad":
        for f in ("Foo", "Sender ", "amount", "Fee2", "GroupIndex", "TxID", "FirstValid", "Logs", "NumLogs", "", "Amount[", "Accounts[x]", "Accounts[100]", "1"):
            for g in (0, 1):
                yield ("bad", f, g)
    elif fam == "size":
        for n in (1, 2, 3, 15, 16, 40):
            for k in ("flat", "loop", "func"):
                yield ("size", n, k)


def run_seq(case, ctx):
    _, s = case
    k = counter()
    body = [Decl("int", "iv", Int(1))]
    for it in s:
        body += item(it, k, 0)
    body += [Log(Str("z")), Log(Op("itob", [Var("iv")])), Exit(Int(1))]
    Unit(Prog(body + FUNCS()), ctx, key=f"seq:{s}").check_dfs(6)


def run_place(case, ctx):
    _, loc, s = case
    k = counter()
    st = []
    for it in s:
        st += item(it, k, 0)
    if loc == "func":       # functions may not assign outer variables: own iv is in the prelude of in_loc
        pass
    p = atoms.in_loc(loc, st)
    p.body += FUNCS()[:-1] + [FUNCS()[-1]]
    Unit(p, ctx, key=f"place:{loc}:{s}").check_dfs(5, env=dict(args=[(1).to_bytes(8, "big"), b"kb", (2).to_bytes(8, "big")]))


VALS = {"U": Int(7), "B": Str("bytes-value")}


def run_field(case, ctx):
    _, f, g = case
    v = VALS[avm.ITXN_SET[f]] if avm.ITXN_SET[f] in VALS else Int(7)
    arr = f in avm.ARRAY_SET
    t1 = InnerTxn([("Fee", None, Int(0)), (f, 0 if arr else None, v), ("Note", None, Str("n"))])
    t2 = InnerTxn([(f, 0 if arr else None, v)] + ([(f, 1, v)] if arr else []))
    body = ([InnerGroup([t1, t2])] if g else [t1, Log(Str("m")), t2]) + [Log(Str("z")), Exit(Int(1))]
    Unit(Prog(body), ctx, key=f"field:{f}:{g}").check(avm.Env())


def run_array(case, ctx):
    _, f, n, g = case
    t = avm.ITXN_SET[f]
    fs = [(f, i, Int(10 + i) if t == "U" else Str(f"v{i}")) for i in range(n)]
    t1 = InnerTxn([("TypeEnum", None, Int(6))] + fs + [("Fee", None, Int(0))])
    t2 = InnerTxn(fs[:1])
    body = ([InnerGroup([t1, t2])] if g else [t1, t2]) + [Exit(Int(1))]
    Unit(Prog(body), ctx, key=f"array:{f}:{n}:{g}").check(avm.Env())


def run_arrmix(case, ctx):
    _, mix = case
    fs, nxt, ok, com = [], {"a": 0, "b": 0}, True, []
    for k, m in enumerate(mix):
        if m == "F":
            fs.append(("Fee", None, Int(k)))
        elif m == "#":
            com.append(len(fs))
        else:
            f = "ApplicationArgs" if m[0] == "a" else "Assets"
            i = int(m[1])
            ok = ok and i == nxt[m[0]]
            nxt[m[0]] += 1
            fs.append((f, i, Str(f"x{k}") if m[0] == "a" else Int(k)))
    t = InnerTxn(fs)

    class CT(InnerTxn):
        def emit(self, out, ind):
            out.append("inner_txn:")
            self.line_no = len(out)
            self.f_lines = []
            for j in range(len(self.fields) + 1):
                if j in com:
                    out.append("    # Fee: 77")
                if j < len(self.fields):
                    n, i, e = self.fields[j]
                    out.append(f"    {n}{'' if i is None else f'[{i}]'}: {e.src()}")
                    self.f_lines.append(len(out))
            out.append("end")
    u = Unit(Prog([CT(fs), Log(Str("z")), Exit(Int(1))]), ctx, key=f"arrmix:{mix}", expect="ok" if ok else "refused")
    if ok:
        u.check(avm.Env())


def run_val(case, ctx):
    _, t, i, g = case
    name, e = (atoms.int_atoms() if t == "i" else atoms.bytes_atoms())[i]
    f = "Amount" if t == "i" else "Note"
    t1 = InnerTxn([("TypeEnum", None, Int(1)), (f, None, e), ("Fee", None, Int(0))])
    t2 = InnerTxn([(f, None, e), ("TypeEnum", None, Int(4))])
    st = [InnerGroup([t1, t2])] if g else [t1, t2]
    u = Unit(atoms.in_loc("main", st), ctx, key=f"val:{name}:{g}")
    for e in atoms.envs(4):
        u.check(e)


def run_leave(case, ctx):
    """a statement that would leave the group before its end is refused; exit ends the program"""
    _, inner, wrap, order = case
    st = {"break": Break(), "return": Return(), "jump": Jump("bb"), "switch": Switch(Op("balance", [Int(1)]), [(Int(1), "bb")], "bb"),
          "router": Raw("router:\n    pub\nend"), "exit": Exit(Int(1))}[inner]
    body = [st]
    own = False
    for w in wrap.split("-"):
        if w == "if":
            body = [If([(cond(1), False, body)])]
        elif w == "else":
            body = [If([(cond(1), False, [Log(Str("t"))])], body)]
        elif w == "while":
            body = [While(cond(2), body)]
            own = True
        elif w == "for":
            body = [For("q", Int(0), Int(2), body)]
        elif w == "for_":
            body = [For(None, Int(0), Int(2), body)]
    tx = [T(3)]
    g = InnerGroup(tx + body if order == "after" else body + tx)
    rest = [Block("bb", [Log(Str("bb")), T(5), Exit(Int(1))]), Func("pub", [], [], [Return()], public="")]
    if inner == "router":
        return
    if inner == "return":
        p = Prog([Expr(Call("f")), T(4), Exit(Int(1)), Func("f", [], [], [g, Return()])])
    elif inner == "break":
        p = Prog([While(cond(3), [g, Log(Str("w"))]), T(4), Exit(Int(1))])
    else:
        p = Prog([g, T(4), Exit(Int(1))] + (rest[:1] if inner != "exit" else []))
    ok = inner == "exit" or (inner == "break" and own)
    if inner in ("jump", "switch") and wrap == "":
        ok = False
    src = p.source()
    ctx.distinct(src)
    r = try_compile(src)
    if not ok and r[0] == "refused":
        return
    if not ok and r[0] == "ok":
        # accepted: then nothing may be left open and the later transaction must stand alone
        for c in ((1, 1), (0, 0), (1, 0), (0, 1)):
            seq = iter(list(c) + [0] * 50)

            def oracle(m, op, imm, args):
                if op == "balance":
                    return [next(seq)]
            m = avm.execute(avm.assemble(r[1]), avm.Env(oracle=oracle), 2000)
            if m.status == "accept" and m.itx is not None:
                ctx.violation(f"leave:{inner}:{wrap}:{order}", "an inner group is left open", source=src, teal="\n".join(r[1]), actual=repr(m.effects))
                return
        return
    Unit(p, ctx, key=f"leave:{inner}:{wrap}:{order}").check_dfs(5)


def run_vars(case, ctx):
    _, nv, nf, place, s = case
    k = counter()
    pre = [Decl("int", f"v{i}", Int(500 + i)) for i in range(nv)]
    fs = [Func(f"h{i}", [("a", "int"), ("b", "int")], ["int"], [Decl("int", "c", Bin("+", Var("a"), Var("b"))), InnerTxn([("Amount", None, Var("c"))]), Return(Bin("+", Var("c"), Var("a")))]) for i in range(nf)]
    st = [Decl("int", "iv", Int(1))]
    for it in s:
        st += item(it, k, 0)
        for i in range(nf):
            st += [Assign("iv", Call(f"h{i}", [Var("iv"), Int(i)]))]
    if nf:
        st += [InnerGroup([T(1), Assign("iv", Call("h0", [Var("iv"), Int(3)]))])]
    show = [Log(Op("itob", [Var(f"v{i}")])) for i in range(nv)] + [Log(Op("itob", [Var("iv")]))]
    if place == "main":
        p = pre + st + show + [Exit(Int(1))] + FUNCS() + fs
    elif place == "func":
        p = pre + [Expr(Call("outer")), Exit(Int(1)), Func("outer", [], [], st + show + [Return()])] + FUNCS() + fs
    else:
        p = pre + [Jump("blk"), Block("blk", st + show + [Exit(Int(1))])] + FUNCS() + fs
    Unit(Prog(p), ctx, key=f"vars:{nv}:{nf}:{place}:{s}").check_dfs(4)


def run_last(case, ctx):
    _, s = case
    k = counter()
    body = [Decl("int", "iv", Int(1)), InnerTxn([("Amount", None, Int(55)), ("Note", None, Str("first")), ("ApplicationArgs", 0, Str("a0")), ("ApplicationArgs", 1, Str("a1"))])]
    see = lambda: [Log(Op("itob", [Fld("Itxn", "Amount")])), Log(Op("itob", [Fld("Itxn", "Fee")])), Log(Fld("Itxn", "Note")), Log(Fld("Itxn", "ApplicationArgs", Int(0))),
                   Assign("iv", Fld("Itxn", "Amount"))]
    body += see()
    for it in s:
        body += item(it, k, 0) + see()
    Unit(Prog(body + [Exit(Int(1))] + FUNCS()), ctx, key=f"last:{s}").check_dfs(4)


def run_bad(case, ctx):
    _, f, g = case
    t = f"inner_txn:\n    Fee: 0\n    {f}: 1\nend"
    src = "#pragma version 8\n" + (f"inner_group:\n{t}\nend\n" if g else t + "\n") + "exit(1)\n"
    ctx.distinct(src)
    r = try_compile(src)
    if r[0] != "refused":
        ctx.violation(f"bad:{f}:{g}", "an unknown inner transaction field is not refused: " + r[0], source=src)


def run_size(case, ctx):
    _, n, k = case
    if k == "flat":
        g = InnerGroup([T(i) for i in range(n)])
    elif k == "loop":
        g = InnerGroup([For("q", Int(0), Int(n), [InnerTxn([("Amount", None, Var("q"))])])])
    else:
        g = InnerGroup([Expr(Call("ft", [Int(i)])) for i in range(n)])
    Unit(Prog([g, g, T(9), g, Exit(Int(1))] + FUNCS()), ctx, key=f"size:{n}:{k}").check(avm.Env())


RUN = {"seq": run_seq, "place": run_place, "field": run_field, "array": run_array, "arrmix": run_arrmix, "val": run_val, "leave": run_leave, "vars": run_vars,
       "last": run_last, "bad": run_bad, "size": run_size}


def run_case(case, ctx):
    RUN[case[0]](case, ctx)
    if ctx.n % 211 == 1:
        ctx.sample({"case": repr(case)})
