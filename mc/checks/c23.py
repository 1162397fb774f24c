"""C23: field accesses.  Every field of every namespace x every form of index x group positions x positions of use, executed on the
AVM model whose fields all have different values; static types of all fields; unknown and misused fields."""
from itertools import product

from ..ref import Assert, Assign, Bin, Call, Const, ConstDef, Decl, Exit, Expr, Fld, For, Func, If, InnerGroup, InnerTxn, Int, Log, Op, Prog, Return, SetField, SF, Std, Str, Var, While
from ..h import Unit, try_compile
from .. import atoms, avm

ID = "C23"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of (namespace, field, transaction index form, element index form, position, group position, index value); "
             "the emitted TEAL is executed on an AVM model in which every field of every transaction has its own value and compared with a reference evaluation")
NOTE = ("Complete for all fields of the packaged specification with 14 forms of transaction index and 10 forms of element index, group positions and relative "
        "distances 0..15, and all field x declared type pairs; one or two accesses per expression.")
RULE = "fields x index forms x group positions; index forms x positions of use; pairs of accesses; inner submissions x reads; fields x declared types; distinct = distinct sources"
ASSUMPTIONS = ["AVM model of mc/avm.py", "field table and types pinned from the packaged specification (mc/data)"]

SCALAR = sorted(f for f in avm.TXN_FIELDS if f not in avm.TXNA_FIELDS)
ARRAY = sorted(avm.TXNA_FIELDS)
GLOBAL = sorted(avm.GLOBAL_FIELDS)
SIZED = {"Sender": ("bytes", 32)}


def pre():
    return [ConstDef("int", "KA", "1", 1), ConstDef("int", "KB", "2", 2), Decl("int", "v", Int(2)), Decl("int", "w", Int(3)), Decl("S1", "s", Std("Cast", Op("bzero", [Int(13)]), "S1")),
            SetField("s", "fi", Int(1))]


def funcs():
    return [Func("f1", [], ["int"], [Log(Str("f1")), Return(Int(1))]), Func("f2", [("a", "int")], ["int"], [Log(Op("itob", [Var("a")])), Return(Bin("+", Var("a"), Int(1)))]), Func("side", [], ["int"], [Log(Str("side")), Assign("q", Int(9)), Return(Var("q"))])]


def functions(used):
    fs = [Func("f1", [], ["int"], [Log(Str("f1")), Return(Int(1))]), Func("f2", [("a", "int")], ["int"], [Log(Op("itob", [Var("a")])), Return(Bin("+", Var("a"), Int(1)))])]
    return fs


# forms of an int expression used as an index: name -> maker
IDX = {"0": lambda: Int(0), "1": lambda: Int(1), "3": lambda: Int(3), "const": lambda: Const("KA"), "var": lambda: Var("v"), "expr": lambda: Bin("-", Var("w"), Int(1)), "exprc": lambda: Bin("+", Const("KB"), Int(1)),
       "call": lambda: Call("f1"), "callx": lambda: Call("f2", [Var("v")]), "sf": lambda: SF("s", "fi"), "field": lambda: Bin("%", Fld("Txn", "Fee"), Int(4)),
       "nested": lambda: Op("btoi", [Fld("Txn", "ApplicationArgs", Int(1))]), "gnested": lambda: Bin("%", Fld("Gtxn", "Fee", g=Var("v")), Int(3)), "op": lambda: Op("len", [Str("ab")])}
REL = ("+0", "+1", "+2", "-1", "-2")
GFORM = list(IDX) + list(REL)
AFORM = list(IDX)
NS = ["Txn", "Itxn", "Gtxn"]


def gmake(g):
    return g if g in REL else IDX[g]()


def scalars(field):
    """all forms of reading a scalar field"""
    yield "Txn", Fld("Txn", field)
    yield "Itxn", Fld("Itxn", field)
    for g in GFORM:
        yield "Gtxn:" + g, Fld("Gtxn", field, g=gmake(g))


def show(e, field, table):
    return Log(e) if table[field] == "B" else Log(Op("itob", [e]))


def prog(body, inner=False):
    b = pre()
    if inner:
        b.append(InnerTxn([("TypeEnum", None, Int(1)), ("Fee", None, Int(0))]))
    return Prog(b + body + [Exit(Int(1))] + functions(None), [atoms.S1])


ARGS = [b"\0", b"\1", b"two", b"three"]


def envs(gi=2, **kw):
    return avm.Env(args=ARGS, group_index=gi, **kw)


def families(tier):
    q = tier == "quick"
    return [("scalar", {"shards": 32, "gis": (2, 5) if q else range(16)}), ("array", {"shards": 32, "gis": (2,) if q else (2, 3, 9, 13), "all": not q}), ("global", {}), ("indexes", {"n": 16}), ("bounds", {}), ("places", {"shards": 32}), ("pairs", {"shards": 32, "all": not q}),
            ("inner", {"n": 3}), ("types", {"shards": 16}), ("names", {}), ("order", {})]


def cases(fam, p):
    if fam == "scalar":
        for f in SCALAR:
            yield ("scalar", f, tuple(p["gis"]))
    elif fam == "array":
        for f in ARRAY:
            for a in AFORM:
                yield ("array", f, a, tuple(p["gis"]))
    elif fam == "global":
        for f in GLOBAL:
            yield ("global", f)
    elif fam == "indexes":
        for form in ("lit", "rel+", "rel-", "var", "const", "alit", "avar", "aconst"):
            for n in range(p["n"]):
                yield ("indexes", form, n)
    elif fam == "bounds":
        for form in ("lit", "rel+", "rel-", "const", "var", "alit", "aconst", "avar", "galit", "ialit"):
            for n in (15, 16, 17, 127, 128, 254, 255, 256, 257, 65535, 65536, 2 ** 32, 2 ** 63, 2 ** 64 - 1):
                yield ("bounds", form, n)
    elif fam == "places":
        for pl in PLACES:
            for k in range(len(samples())):
                yield ("places", pl, k)
    elif fam == "pairs":
        n = len(samples())
        for i, j in product(range(n), repeat=2):
            yield ("pairs", i, j)
    elif fam == "inner":
        for seq in (s for k in range(p["n"] + 1) for s in product((1, 2, 3, "if"), repeat=k)):
            yield ("inner", seq)
    elif fam == "types":
        for ns in ("Txn", "Gtxn0", "Gtxnv", "Gtxn+", "Gtxn-", "Itxn"):
            for f in SCALAR + ARRAY:
                yield ("types", ns, f)
        for f in GLOBAL:
            yield ("types", "Global", f)
    elif fam == "names":
        for k in range(len(BAD)):
            yield ("names", k)
    elif fam == "order":
        for g in ("call", "callx", "nested"):
            for a in ("call", "callx", "var", "const"):
                yield ("order", g, a)


def run_case(case, ctx):
    globals()["run_" + case[0]](case, ctx)


def run_scalar(case, ctx):
    _, f, gis = case
    body = []
    for name, e in scalars(f):
        u = Unit(prog([show(e, f, avm.TXN_FIELDS)], name == "Itxn"), ctx, key=f"scalar:{name}:{f}")
        for gi in gis:
            u.check(envs(gi))
    if ctx.n % 17 == 1:
        ctx.sample({"source": u.src})


def run_array(case, ctx):
    _, f, a, gis = case
    forms = [("Txn", lambda: Fld("Txn", f, IDX[a]())), ("Itxn", lambda: Fld("Itxn", f, IDX[a]()))]
    for g in GFORM:
        forms.append(("Gtxn:" + g, lambda g=g: Fld("Gtxn", f, IDX[a](), g=gmake(g))))
    for name, mk in forms:
        u = Unit(prog([show(mk(), f, avm.TXNA_FIELDS)], name == "Itxn"), ctx, key=f"array:{name}:{f}:{a}")
        for gi in gis:
            u.check(envs(gi))
    if ctx.n % 17 == 1:
        ctx.sample({"source": u.src})


def run_global(case, ctx):
    f = case[1]
    Unit(prog([show(Fld("Global", f), f, avm.GLOBAL_FIELDS)]), ctx, key=f"global:{f}").check(envs())
    Unit(Prog([Expr(Call("g")), Exit(Int(1)), Func("g", [], [], [show(Fld("Global", f), f, avm.GLOBAL_FIELDS), Return()])]), ctx, key=f"globalf:{f}").check(envs())


def index_expr(form, n):
    """(definitions, access of a scalar, access of an element)"""
    d = []
    if form == "lit":
        g = Int(n)
    elif form.startswith("rel"):
        g = form[3] + str(n)
    elif form in ("const", "aconst"):
        d, g = [ConstDef("int", "KN", str(n), n)], Const("KN")
    elif form in ("var", "avar"):
        d, g = [Decl("int", "n", Int(n))], Var("n")
    else:
        g = Int(n)
    if form == "galit":
        return d, [Fld("Gtxn", "Accounts", g, g=Int(1)), Fld("Gtxn", "Accounts", g, g="-1"), Fld("Gtxn", "Accounts", g, g=Var("v")), Fld("Gtxn", "Accounts", g, g="+1")]
    if form == "ialit":
        return d, [Fld("Itxn", "Accounts", g)]
    if form.startswith("a"):
        return d, [Fld("Txn", "Accounts", g), Fld("Gtxn", "Accounts", g, g="+1")]
    return d, [Fld("Gtxn", "Sender", g=g), Fld("Gtxn", "Accounts", Int(1), g=g), Fld("Gtxn", "Accounts", Var("v"), g=g)]


def run_indexes(case, ctx):
    _, form, n = case
    d, es = index_expr(form, n)
    for k in range(len(es)):
        d, es = index_expr(form, n)
        u = Unit(Prog(d[:1] * (form in ("const", "aconst")) + pre() + d * (form in ("var", "avar")) + [Log(es[k]), Exit(Int(1))] + functions(None), [atoms.S1]), ctx, key=f"indexes:{form}:{n}:{k}")
        for gi in range(16):
            u.check(envs(gi, array_len=16))


def run_bounds(case, ctx):
    """a value beyond the reach of an immediate: refused, or executed as the source says"""
    _, form, n = case
    for k in range(len(index_expr(form, n)[1])):
        d, es = index_expr(form, n)
        inner = [InnerTxn([("TypeEnum", None, Int(1))])] if form == "ialit" else []
        p = Prog(d * (form in ("const", "aconst")) + pre() + inner + d * (form in ("var", "avar")) + [Log(es[k]), Exit(Int(1))] + functions(None), [atoms.S1])
        key = f"bounds:{form}:{n}:{k}"
        src = p.source()
        st, x, _ = try_compile(src)
        if st == "refused" and n > (255 if form in ("alit", "aconst", "avar", "ialit") else 15):
            ctx.distinct(src)
            ctx.traces += 1
            ctx.states += 1
            ctx.transitions += 1
            continue
        u = Unit(p, ctx, key=key)
        for gi in (0, 3, 15):
            u.check(envs(gi, array_len=300))


_samples = []


def samples():
    """accesses of both types with every kind of opcode"""
    if not _samples:
        def add(f, ns, i=None, g=None):
            _samples.append((f, ns, i, g))
        for f in ("Fee", "Note"):
            add(f, "Txn")
            for g in ("1", "const", "var", "expr", "call", "+1", "-1", "nested"):
                add(f, "Gtxn", None, g)
        for f in ("Assets", "Accounts"):
            for i in ("1", "const", "var", "expr", "call", "nested"):
                add(f, "Txn", i)
            for g in ("1", "var", "call", "+1", "-2", "expr"):
                for i in ("3", "var", "call", "const"):
                    add(f, "Gtxn", i, g)
        add("Round", "Global")
        add("CreatorAddress", "Global")
    return _samples


def access(k):
    f, ns, i, g = samples()[k]
    t = {**avm.TXN_FIELDS, **avm.TXNA_FIELDS, **avm.GLOBAL_FIELDS}[f]
    return t, Fld(ns, f, IDX[i]() if i else None, g=gmake(g) if g else None)


def as_int(t, e):
    return e if t == "U" else Op("len", [e])


def as_bytes(t, e):
    return e if t == "B" else Op("itob", [e])


def tl(t):
    return "int" if t == "U" else "bytes"


PLACES = {
    "decl": lambda t, e: [Decl(tl(t), "x", e), Log(as_bytes(t, Var("x")))],
    "assign": lambda t, e: [Decl(tl(t), "x"), Assign("x", e), Log(as_bytes(t, Var("x")))],
    "if": lambda t, e: [If([(as_int(t, e), False, [Log(Str("y"))])], [Log(Str("n"))])],
    "elif": lambda t, e: [If([(Bin("==", Var("v"), Int(7)), False, [Log(Str("y"))]), (Bin("==", as_int(t, e), Int(32)), True, [Log(Str("z"))])], [Log(Str("n"))])],
    "while": lambda t, e: [While(Bin("<", Var("v"), Bin("+", Bin("%", as_int(t, e), Int(3)), Int(3))), [Assign("v", Bin("+", Var("v"), Int(1))), Log(Str("w"))])],
    "for": lambda t, e: [For("i", Int(1), Int(4), [Assign("v", Var("i")), Log(as_bytes(t, e))])],
    "assert": lambda t, e: [Assert(as_int(t, e)), Log(Str("ok"))],
    "left": lambda t, e: [Log(Op("itob", [Bin("+", as_int(t, e), Int(5))]))],
    "right": lambda t, e: [Log(Op("itob", [Bin("-", Int(2 ** 63), as_int(t, e))]))],
    "arg": lambda t, e: [Log(Op("itob", [Call("f2", [as_int(t, e)])]))],
    "oparg": lambda t, e: [Log(Op("concat", [Str("a"), as_bytes(t, e)]))],
    "index": lambda t, e: [Log(Fld("Txn", "ApplicationArgs", Bin("%", as_int(t, e), Int(4))))],
    "gindex": lambda t, e: [Log(Fld("Gtxn", "Note", g=Bin("%", as_int(t, e), Int(16))))],
    "bothindex": lambda t, e: [Log(Fld("Gtxn", "Accounts", Bin("%", as_int(t, e), Int(8)), g=Bin("%", as_int(t, e), Int(5))))],
    "field": lambda t, e: [SetField("s", "fi", as_int(t, e)), Log(Op("itob", [SF("s", "fi")]))],
    "itxn": lambda t, e: [InnerTxn([("Note", None, as_bytes(t, e)), ("Fee", None, as_int(t, e))]), Log(Fld("Itxn", "Note"))],
    "opstmt": lambda t, e: [Expr(Op("app_global_put", [Str("k"), e]))],
    "exit": lambda t, e: [If([(Int(1), False, [Exit(as_int(t, e))])])],
    "group": lambda t, e: [Log(Op("itob", [Bin("*", Bin("%", as_int(t, e), Int(1000)), Bin("+", Int(1), Bin("%", as_int(t, e), Int(7))))]))],
}


def run_places(case, ctx):
    _, pl, k = case
    t, e = access(k)
    u = Unit(prog(PLACES[pl](t, e)), ctx, key=f"places:{pl}:{samples()[k]}")
    for gi in (2, 7):
        u.check(envs(gi))
    t, e = access(k)
    b = pre()
    fn = Func("h", [], ["int"], pre()[2:] + PLACES[pl](t, e)[:] + [Return(Int(4))])
    u = Unit(Prog([b[0], b[1], Log(Op("itob", [Call("h")])), Exit(Int(1)), fn] + functions(None), [atoms.S1]), ctx, key=f"places-func:{pl}:{samples()[k]}")
    u.check(envs(2))


def run_pairs(case, ctx):
    _, i, j = case
    (t, a), (t2, b) = access(i), access(j)
    u = Unit(prog([Log(Op("concat", [as_bytes(t, a), as_bytes(t2, b)]))]), ctx, key=f"pairs:{samples()[i]}:{samples()[j]}")
    u.check(envs(3))


def run_inner(case, ctx):
    seq = case[1]
    body, n = [], 0

    def tx():
        nonlocal n
        n += 1
        return InnerTxn([("TypeEnum", None, Int(1)), ("Fee", None, Int(n)), ("Accounts", None, Str("a%d" % n)), ("Note", None, Str("n%d" % n))])
    for k in seq:
        if k == 1:
            body.append(tx())
        elif k == "if":
            body.append(If([(Fld("Txn", "NumAppArgs"), False, [tx()])]))
        else:
            body.append(InnerGroup([tx() for _ in range(k)]))
        body += [Log(Fld("Itxn", "Note")), Log(Op("itob", [Fld("Itxn", "Fee")]))]
    for tail in ([Log(Fld("Itxn", "Note"))], [Log(Fld("Itxn", "Accounts", Int(0)))], [Log(Fld("Itxn", "Accounts", Bin("-", Var("v"), Int(2))))], [Log(Fld("Itxn", "Logs", Call("f1")))], [Log(Op("itob", [Fld("Itxn", "CreatedAssetID")]))], [Log(Op("itob", [Fld("Itxn", "Applications", Const("KA"))]))],
                 [Log(Fld("Itxn", "Accounts", Int(3)))]):
        u = Unit(Prog(pre() + body + tail + [Exit(Int(1))] + functions(None), [atoms.S1]), ctx, key=f"inner:{seq}:{tail[0].src() if hasattr(tail[0], 'src') else ''}")
        u.check(envs(2))


DECL = {"int": lambda t, f: t == "U", "bytes": lambda t, f: t == "B", "uint8": lambda t, f: False, "uint64": lambda t, f: t == "U", "bytes[32]": lambda t, f: f in SIZED, "bytes[5]": lambda t, f: False, "addr": lambda t, f: f in SIZED,
        "bigint": lambda t, f: t == "B"}


def run_types(case, ctx):
    _, ns, f = case
    table = avm.GLOBAL_FIELDS if ns == "Global" else {**avm.TXN_FIELDS, **avm.TXNA_FIELDS}
    arr = f in avm.TXNA_FIELDS and ns != "Global"
    head = {"Txn": "Txn", "Gtxn0": "Gtxn[0]", "Gtxnv": "Gtxn[v]", "Gtxn+": "Gtxn[+1]", "Gtxn-": "Gtxn[-1]", "Itxn": "Itxn", "Global": "Global"}[ns]
    for idx in (["[0]", "[v]", "[v + 1]"] if arr else [""]):
        e = f"{head}.{f}{idx}"
        for d, rule in DECL.items():
            for form in (f"{d} x = {e}", f"x = {e}"):
                lines = ["#pragma version 8", "int v = 1"] + ([f"{d} x"] if form[0] == "x" else []) + [form, "exit(1)"]
                src = "\n".join(lines) + "\n"
                ctx.distinct(src)
                ctx.traces += 1
                ctx.states += 1
                ctx.transitions += 1
                st, a, _ = try_compile(src)
                want = rule(table[f], f)
                if (st == "ok") != want or st == "crash":
                    ctx.violation(f"type:{ns}:{f}:{d}", f"the field {'has' if want else 'does not have'} type {d} but the assignment is {'accepted' if st == 'ok' else st}", source=src, answer=str(a)[:300])
                    return
        # as an operand
        t = table[f]
        for src_e, want in ((f"int x = {e} + 1", t == "U"), (f"bytes x = concat({e}, \"a\")", t == "B"), (f"int x = len({e})", t == "B"), (f"bytes x = itob({e})", t == "U")):
            src = f"#pragma version 8\nint v = 1\n{src_e}\nexit(1)\n"
            ctx.distinct(src)
            ctx.traces += 1
            st, a, _ = try_compile(src)
            if (st == "ok") != want or st == "crash":
                ctx.violation(f"operand:{ns}:{f}", f"an operand of type {t} is {'accepted' if st == 'ok' else st} in {src_e}", source=src, answer=str(a)[:300])
                return


BAD = ["Txn.NotAField", "Txn.fee", "Gtxn[0].NotAField", "Gtxn[v].NotAField", "Gtxn[+1].NotAField", "Itxn.NotAField", "Global.NotAField", "Txn.Round", "Txn.ZeroAddress", "Global.Fee", "Global.Sender", "Gtxn[0].Round", "Itxn.Round", "Gtxn[v].MinTxnFee",
       "Txn.Fee[0]", "Txn.Fee[v]", "Gtxn[0].Fee[0]", "Gtxn[v].Fee[v]", "Gtxn[+1].Fee[0]", "Gtxn[-1].Fee[v]", "Itxn.Fee[0]", "Itxn.Fee[v]", "Txn.ApplicationArgs", "Gtxn[0].ApplicationArgs", "Gtxn[v].ApplicationArgs", "Gtxn[+1].Accounts", "Itxn.Logs", "Txn.Accounts",
       'Gtxn["a"].Fee', "Gtxn[b].Fee", "Gtxn[+1].NotAField[0]", 'Txn.Accounts["a"]', "Txn.Accounts[b]", "Gtxn[0].Accounts[b]", "Gtxn[v].Accounts[b]", "Gtxn[b].Accounts[0]", "Itxn.Accounts[b]", "Gtxn.Fee", "Txn[0].Fee", "Itxn[0].Fee", "Global[0].Round", "Gtxn[].Fee", "Txn.Accounts[]",
       "Txn.Accounts[-1]", "Gtxn[+v].Fee", "Gtxn[-v].Fee", "Gtxn[nope].Fee", "Txn.Accounts[nope]", "Gtxn[NOPE].Fee", "Txn.Accounts[NOPE]", "Gtxn[KB].Fee", "Txn.Accounts[KB]", "Gtxn[addw(1, 2)].Fee", "Txn.Accounts[addw(1, 2)]", "Gtxn[log(\"a\")].Fee", "Ltxn.Fee", "txn.Fee", "Global.Round[0]", "Txn.", "Global."]


def run_names(case, ctx):
    e = BAD[case[1]]
    for t in ("int", "bytes"):
        for tail in (f"{t} x = {e}", f"{t} x\nx = {e}", f"log({e})" if t == "bytes" else f"log(itob({e}))", f"if {e} == v:\n    log(\"a\")\nend"):
            src = f'#pragma version 8\nconst bytes KB = "abcd"\nint v = 1\nbytes b = "q"\n{tail}\nexit(1)\n'
            ctx.distinct(src)
            ctx.traces += 1
            ctx.states += 1
            ctx.transitions += 1
            st, a, _ = try_compile(src)
            if st != "refused":
                ctx.violation(f"bad:{e}", f"a wrong field access is {'accepted' if st == 'ok' else st}", source=src, answer="\n".join(a) if st == "ok" else repr(a)[:300])
                return


def run_order(case, ctx):
    """effects of both index expressions happen once, the transaction's first, before the read"""
    _, g, a = case
    u = Unit(prog([Log(Str("start")), Log(Fld("Gtxn", "Accounts", IDX[a](), g=IDX[g]())), Log(Op("concat", [Fld("Gtxn", "Accounts", IDX[a](), g=IDX[g]()), Fld("Txn", "Accounts", IDX[a]())]))]), ctx, key=f"order:{g}:{a}")
    for gi in (0, 2, 15):
        u.check(envs(gi))
