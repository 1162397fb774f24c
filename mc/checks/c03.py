"""C03: calls.  Every signature up to a bound with every way of receiving the results, call chains, returns from
inside every nesting of constructs, calls as operands with pending values, opcodes with several results."""
from itertools import product

from ..ref import (Assert, Assign, Bin, Block, BoxDecl, Break, Call, ConstDef, Decl, Exit, Expr, Fld, For, Func, If, InnerTxn, Int, Jump, Log,
                   Op, Prog, Return, SF, SetField, Std, Str, Switch, Un, Var, While, Struct)
from ..h import Unit, cond
from .. import avm
from . import c02

ID = "C03"
LEVEL = "model_checking"
TECHNIQUE = ("explicit-state model checking: exhaustive enumeration of signatures, receivers, call chains, return placements and "
             "condition outcomes; real compiler output run on an AVM model against a direct interpreter")
NOTE = ("Complete for up to 4 parameters and 3 results over two kinds of types (5 parameter kinds for up to 2), call chains of depth 4, "
        "return statements in all nestings of up to 3 constructs. Recursion is out of scope (locals are static).")
RULE = ("signatures x receivers; chains; nestings of return statements x condition outcomes; operand positions of calls; multi-result "
        "opcodes x receivers; distinct = distinct source programs")
ASSUMPTIONS = ["AVM model of mc/avm.py", "recursive functions are excluded: Tealish locals are static"]

S = Struct("Pt", [("x", "int"), ("y", "bytes[4]")])


def sh(e, t):
    return Log(Op("itob", [e])) if t in ("int", "uint8") else Log(e)


VAL = {"int": lambda i: Int(10 + i), "bytes": lambda i: Str("v%d" % i), "uint8": lambda i: Int(100 + i), "bytes[4]": lambda i: Str("b%03d" % i),
       "Pt": lambda i: Std("Cast", Op("concat", [Op("itob", [Int(i)]), Str("p%03d" % i)]), "Pt")}


def families(tier):
    q = tier == "quick"
    return [("sig", {"np": 4, "nr": 3}), ("sigtypes", {"np": 2 if q else 3}),
            ("recv", {"nr": 3 if q else 4}), ("retexpr", {}),
            ("chain", {"depth": 4 if q else 6}), ("pending", {}),
            ("returns", {"sizes": (1, 2) if q else (1, 2, 3), "alpha": c02.FULL if not q else c02.MID + ("ifelifelse", "whilen"), "choices": 6, "shards": 64}),
            ("returns3", {"sizes": (3,) if q else (4,), "alpha": c02.SMALL, "choices": 5, "shards": 64}),
            ("multiop", {}), ("sites", {}), ("many", {})]


def cases(fam, p):
    if fam == "sig":
        for n in range(p["np"] + 1):
            for pt in product(("int", "bytes"), repeat=n):
                for m in range(p["nr"] + 1):
                    for rt in product(("int", "bytes"), repeat=m):
                        yield ("sig", pt, rt)
    elif fam == "sigtypes":
        for n in range(1, p["np"] + 1):
            for pt in product(("int", "bytes", "uint8", "bytes[4]", "Pt"), repeat=n):
                yield ("sig", pt, ("int",))
                yield ("sig", pt, tuple(reversed(pt)))
    elif fam == "recv":
        for m in range(1, p["nr"] + 1):
            for rt in product(("int", "bytes"), repeat=m):
                for mask in range(2 ** m):
                    for order in ("fwd", "rev"):
                        yield ("recv", rt, mask, order)
    elif fam == "retexpr":
        for a, b in product(range(len(REXPR)), repeat=2):
            yield ("retexpr", a, b)
        for a in range(len(REXPR)):
            yield ("retexpr1", a)
    elif fam == "chain":
        for d in range(1, p["depth"] + 1):
            for k in range(2 ** d):
                yield ("chain", d, k)
        for form in range(6):
            for k in range(8):
                yield ("args", form, k)
    elif fam == "pending":
        for k in PENDING:
            for site in ("main", "for", "for_", "while", "func", "for_func"):
                yield ("pending", k, site)
    elif fam in ("returns", "returns3"):
        for n in p["sizes"]:
            for seq in c02.seqs(n, p["alpha"], False):
                if not has(seq, "exit") and fam == "returns" and n > 1:
                    continue
                for site in ("stmt", "arg", "loop", "cond"):
                    yield ("ret", seq, site, p["choices"])
    elif fam == "multiop":
        for k in range(len(MULTI)):
            n = MULTI[k][2]
            for mask in range(2 ** n):
                yield ("multi", k, mask)
    elif fam == "sites":
        for a in ("main", "block", "func", "loop", "nested"):
            for b in ("main", "block", "func", "loop", "nested"):
                yield ("sites", a, b)
    elif fam == "many":
        for n in (1, 2, 5, 10, 20):
            yield ("many", n)


def has(seq, k):
    return any(s[0] == k or any(has(b, k) for b in s[1:] if isinstance(b, tuple)) for s in seq)


def run_sig(case, ctx):
    _, pt, rt = case
    ps = [("p%d" % i, t) for i, t in enumerate(pt)]
    body = [sh(Var(n), t) for n, t in ps]
    # results: parameters of the type in reverse order where there are some, else a literal
    rets = []
    pool = {t: [n for n, u in ps if u == t] for t in set(pt)}
    for j, t in enumerate(rt):
        if pool.get(t):
            rets.append(Var(pool[t].pop()))
        else:
            rets.append(VAL[t](50 + j))
    f = Func("f", ps, list(rt), body + [Return(*rets)])
    call = Call("f", [VAL[t](i) for i, t in enumerate(pt)])
    main = [Log(Str("s"))]
    if not rt:
        main.append(Expr(call))
    elif len(rt) == 1:
        main += [Decl(rt[0], "r0", call), sh(Var("r0"), rt[0]), sh(call, rt[0])]
    else:
        for j, t in enumerate(rt):
            main.append(Decl(t, "r%d" % j))
        main.append(Assign(["r%d" % j for j in range(len(rt))], call))
        main += [sh(Var("r%d" % j), t) for j, t in enumerate(rt)]
    u = Unit(Prog(main + [Exit(Int(1)), f], [S]), ctx, key=f"sig:{','.join(pt)}:{','.join(rt)}")
    u.check(avm.Env())
    # the same call with arguments that are variables and calls
    call2 = Call("f", [Call("g_" + t.replace("[4]", "4"), [Int(i)]) if t in ("int", "bytes") else Var("a%d" % i) for i, t in enumerate(pt)])
    main2 = [Decl(t, "a%d" % i, VAL[t](i)) for i, t in enumerate(pt)]
    if not rt:
        main2.append(Expr(call2))
    else:
        for j, t in enumerate(rt):
            main2.append(Decl(t, "r%d" % j))
        main2.append(Assign(["r%d" % j for j in range(len(rt))], call2))
        main2 += [sh(Var("r%d" % j), t) for j, t in enumerate(rt)]
    main2 += [sh(Var("a%d" % i), t) for i, t in enumerate(pt)]
    fs = [f, Func("g_int", [("x", "int")], ["int"], [Log(Str("gi")), Return(Bin("+", Var("x"), Int(1)))]),
          Func("g_bytes", [("x", "int")], ["bytes"], [Log(Str("gb")), Return(Op("itob", [Var("x")]))])]
    Unit(Prog(main2 + [Exit(Int(1))] + fs, [S]), ctx, key=f"sig2:{','.join(pt)}:{','.join(rt)}").check(avm.Env())


def run_recv(case, ctx):
    _, rt, mask, order = case
    names = ["r%d" % j if not mask >> j & 1 else "_" for j in range(len(rt))]
    main = []
    decls = [(t, "r%d" % j) for j, t in enumerate(rt) if names[j] != "_"]
    for t, n in decls if order == "fwd" else decls[::-1]:
        main.append(Decl(t, n, Int(1) if t == "int" else Str("o")))
    main.append(Assign(names, Call("f")))
    main += [sh(Var(n), t) for t, n in decls]
    f = Func("f", [], list(rt), [Return(*[VAL[t](j) for j, t in enumerate(rt)])])
    Unit(Prog(main + [Exit(Int(1)), f]), ctx).check(avm.Env())


REXPR = [("int", lambda: Int(5)), ("int", lambda: Bin("-", Var("x"), Int(1))), ("int", lambda: Call("g", [Var("x"), Int(2)])),
         ("bytes", lambda: Str("a, b")), ("bytes", lambda: Str("(")), ("bytes", lambda: Str('q" ', 'q\\" ')), ("bytes", lambda: Str(")")),
         ("bytes", lambda: Op("substring", [Str("abcdef")], [1, 3])), ("bytes", lambda: Std("Concat", Str("a"), Str(", "), Op("itob", [Var("x")]))),
         ("bytes", lambda: Str("\\", "\\\\")), ("int", lambda: Un("!", Var("x"))), ("int", lambda: Op("len", [Op("concat", [Str(","), Str(")(")])])),
         ("int", lambda: Bin("+", Call("g", [Call("g", [Int(1), Int(2)]), Int(3)]), Bin("*", Var("x"), Int(2)))), ("bytes", lambda: Str("#")), ("bytes", lambda: Str("//")),
         ("bytes", lambda: Str(" ")), ("bytes", lambda: Str("it's")), ("int", lambda: Var("x")), ("bytes", lambda: Fld("Txn", "ApplicationArgs", Bin("-", Var("x"), Int(1))))]


def run_retexpr(case, ctx):
    idx = case[1:]
    ex = [REXPR[i] for i in idx]
    rt = [t for t, _ in ex]
    main = [Decl(t, "r%d" % j) for j, t in enumerate(rt)]
    main.append(Assign(["r%d" % j for j in range(len(rt))], Call("f", [Int(1)])))
    main += [sh(Var("r%d" % j), t) for j, t in enumerate(rt)]
    f = Func("f", [("x", "int")], rt, [Return(*[e() for _, e in ex])])
    g = Func("g", [("a", "int"), ("b", "int")], ["int"], [Log(Str("g")), Return(Bin("-", Bin("*", Var("a"), Int(9)), Var("b")))])
    Unit(Prog(main + [Exit(Int(1)), f, g]), ctx).check(avm.Env(args=[b"a0", b"a1", b"a2"]))


def run_chain(case, ctx):
    _, d, k = case
    # f1 calls f2 calls ... fd; bit i of k: the call stands as right operand after a pending value, else as argument
    fs = []
    for i in range(1, d + 1):
        if i == d:
            body = [Log(Str("leaf")), Return(Bin("+", Var("x%d" % i), Int(i)))]
        else:
            c = Call("f%d" % (i + 1), [Bin("+", Var("x%d" % i), Int(1))])
            e = Bin("-", Int(1000 * i), c) if k >> i & 1 else Call("id", [c])
            body = [Decl("int", "l%d" % i, Bin("*", Var("x%d" % i), Int(2))), Decl("int", "q%d" % i, e),
                    Log(Op("itob", [Var("l%d" % i)])), Log(Op("itob", [Var("x%d" % i)])), Return(Bin("+", Var("q%d" % i), Var("l%d" % i)))]
        fs.append(Func("f%d" % i, [("x%d" % i, "int")], ["int"], body))
    if k & 1:
        fs = fs[::-1]
    fs.append(Func("id", [("y", "int")], ["int"], [Return(Var("y"))]))
    u = Unit(Prog([Log(Op("itob", [Bin("+", Int(5), Call("f1", [Int(3)]))])), Log(Op("itob", [Call("f1", [Int(1)])])), Exit(Int(1))] + fs), ctx)
    u.check(avm.Env())


def run_args(case, ctx):
    _, form, k = case
    lf = lambda n: [Call("fa", [Int(n)]), Call("fb", [Int(n), Int(n + 1)])][k >> (n % 3) & 1]
    e = [lambda: Call("fb", [lf(1), lf(2)]), lambda: Call("fb", [Bin("+", lf(1), Int(7)), Bin("-", Int(100), lf(2))]),
         lambda: Bin("-", Call("fb", [lf(2), Int(1)]), lf(0)), lambda: Call("fb", [Call("fb", [lf(0), lf(1)]), Call("fb", [lf(2), lf(3)])]),
         lambda: Call("fc", [lf(0), lf(1), lf(2)]), lambda: Call("fc", [Int(1), Call("fc", [lf(0), Int(2), lf(1)]), lf(2)])][form]()
    fs = [Func("fa", [("x", "int")], ["int"], [Log(Str("a")), Return(Bin("+", Var("x"), Int(1)))]),
          Func("fb", [("x", "int"), ("y", "int")], ["int"], [Log(Str("b")), Return(Bin("+", Bin("*", Var("x"), Int(3)), Var("y")))]),
          Func("fc", [("x", "int"), ("y", "int"), ("w", "int")], ["int"], [Log(Str("c")), Return(Bin("+", Bin("*", Var("x"), Int(100)), Bin("+", Bin("*", Var("y"), Int(10)), Var("w"))))])]
    Unit(Prog([Log(Op("itob", [e])), Exit(Int(1))] + fs), ctx).check(avm.Env())


C = lambda n: Call("cl", [Int(n)])
CB = lambda n: Call("cb", [Int(n)])
PENDING = {
    "bin": lambda: [Log(Op("itob", [Bin("-", Int(100), C(1))]))],
    "bin2": lambda: [Log(Op("itob", [Bin("-", C(50), C(1))]))],
    "bin3": lambda: [Log(Op("itob", [Bin("-", Int(1000), Bin("*", C(5), C(1)))]))],
    "op": lambda: [Log(Op("substring3", [Str("abcdefgh"), C(0), C(3)]))],
    "concat": lambda: [Log(Std("Concat", Str("a"), CB(1), Str("b"), CB(2)))],
    "setbyte": lambda: [Log(Op("setbyte", [Str("abc"), C(0), C(65)]))],
    "struct": lambda: [Decl("Pt", "pt", Op("bzero", [Int(12)])), SetField("pt", "x", C(3)), Log(Var("pt")), SetField("pt", "x", Bin("+", SF("pt", "x"), C(1))), Log(Var("pt"))],
    "box": lambda: [BoxDecl("Pt", "bx", Op("concat", [Op("itob", [Op("len", [CB(1)])]), Str("k")])), Log(Op("itob", [C(2)]))],
    "index": lambda: [Log(Fld("Txn", "ApplicationArgs", C(1)))],
    "gindex": lambda: [Log(Fld("Gtxn", "ApplicationArgs", C(2), g=C(1)))],
    "itx": lambda: [InnerTxn([("TypeEnum", None, Int(6)), ("Fee", None, C(1)), ("ApplicationArgs", 0, CB(7)), ("ApplicationArgs", 1, Str("x")), ("Note", None, CB(3))])],
    "assert": lambda: [Assert(C(1)), Assert(Bin("==", C(1), Int(2)))],
    "if": lambda: [If([(Bin("==", C(1), Int(5)), False, [Log(Str("t"))]), (Bin("==", C(2), C(2)), False, [Log(Str("u"))])])],
    "multi": lambda: [Decl("int", "m1"), Decl("int", "m2"), Assign(["m1", "m2"], Call("mm", [C(1)])), Log(Op("itob", [Bin("-", Bin("*", Var("m2"), Int(100)), Var("m1"))]))],
    "multiop": lambda: [Decl("int", "m1"), Decl("int", "m2"), Assign(["m1", "m2"], Op("mulw", [Bin("-", Int(0), Int(0)), C(3)])), Log(Op("itob", [Var("m1")])), Log(Op("itob", [Var("m2")]))],
    "self": lambda: [Log(Op("itob", [C(1)])), Log(Op("itob", [Call("cl", [Call("cl", [C(3)])])]))],
    "void": lambda: [Expr(Call("vv", [C(1), CB(2)])), Expr(Call("vv", [Bin("+", C(1), C(2)), CB(2)]))],
    "cast": lambda: [Log(Op("itob", [Std("Cast", C(2), "uint8")])), Log(Std("Convert", C(4), "bytes[2]"))],
}


def run_pending(case, ctx):
    _, k, site = case
    st = PENDING[k]()
    decl = [s for s in st if isinstance(s, Decl) and s.e is None]
    fs = [Func("cl", [("x", "int")], ["int"], [Log(Str("cl")), For(None, Int(0), Int(2), [Log(Str("."))]), Return(Bin("+", Var("x"), Int(0)))]),
          Func("cb", [("x", "int")], ["bytes"], [If([(Bin("<", Var("x"), Int(5)), False, [For(None, Int(0), Int(2), [If([(Bin("==", Var("x"), Int(2)), False, [Return(Str("early"))])])])])]),
                                                 Return(Op("itob", [Var("x")]))]),
          Func("mm", [("x", "int")], ["int", "int"], [While(Var("x"), [Return(Bin("+", Var("x"), Int(6)), Int(9))]), Return(Int(1), Int(2))]),
          Func("vv", [("x", "int"), ("y", "bytes")], [], [If([(Bin("==", Var("x"), Int(1)), False, [Log(Str("v1")), Return()])]), Log(Var("y")), Return()])]
    end = [Log(Str("z")), Exit(Int(1))]
    if site == "main":
        body = st + st_again(st) + end
    elif site == "for":
        body = [For("qi", Int(0), Int(2), st + [Log(Op("itob", [Var("qi")]))])] + end
    elif site == "for_":
        body = [For(None, Int(0), Int(2), st)] + end
    elif site == "while":
        body = [Decl("int", "wn", Int(0)), While(Bin("<", Var("wn"), Int(2)), st + [Assign("wn", Bin("+", Var("wn"), Int(1)))])] + end
    elif site == "func":
        body = [Expr(Call("lf")), Expr(Call("lf"))] + end
        fs.append(Func("lf", [], [], st + [Return()]))
    else:
        body = [For(None, Int(0), Int(2), [Log(Op("itob", [Bin("-", Int(50), Call("lf"))]))])] + end
        fs.append(Func("lf", [], ["int"], [For(None, Int(0), Int(2), st), Return(Int(8))]))
    u = Unit(Prog(body + fs, [S]), ctx, key=f"pending:{k}:{site}")
    u.check(avm.Env(args=[b"q0", b"q1", b"q2"]))


def st_again(st):
    return [s for s in st if not isinstance(s, (Decl, BoxDecl))]


def run_ret(case, ctx):
    _, seq, site, choices = case
    b = c02.Build(True)
    body = b.body(seq) + [Log(Str("end")), Return(Int(500))]
    f = Func("f", [("x", "int")], ["int"], body)
    end = [Log(Str("z")), Exit(Int(1))]
    if site == "stmt":
        p = [Decl("int", "r", Call("f", [Int(1)])), Log(Op("itob", [Var("r")]))] + end
    elif site == "arg":
        p = [Log(Op("itob", [Bin("-", Int(5000), Call("g", [Int(2), Call("f", [Int(1)])]))]))] + end
    elif site == "loop":
        p = [For(None, Int(0), Int(2), [For("i", Int(0), Int(2), [Log(Op("itob", [Bin("+", Var("i"), Call("f", [Var("i")]))]))])])] + end
    else:
        p = [If([(Bin("==", Call("f", [Int(0)]), Int(500)), False, [Log(Str("500"))])], [Log(Str("other"))])] + end
    g = Func("g", [("x", "int"), ("y", "int")], ["int"], [Return(Bin("+", Bin("*", Var("x"), Int(2000)), Var("y")))])
    Unit(Prog(p + [f, g]), ctx).check_dfs(choices)


# opcodes with several results; the first name receives the top of the stack
MULTI = [("addw", lambda: [Int(2**64 - 1), Int(5)], 2, []), ("mulw", lambda: [Int(2**63), Int(6)], 2, []), ("expw", lambda: [Int(2), Int(70)], 2, []),
         ("divmodw", lambda: [Int(5), Int(6), Int(3), Int(0)], 4, []),
         ("app_global_get_ex", lambda: [Int(0), Str("k")], 2, []), ("app_local_get_ex", lambda: [Int(0), Int(1), Str("k")], 2, []),
         ("asset_holding_get", lambda: [Int(0), Int(1)], 2, ["AssetBalance"]), ("asset_params_get", lambda: [Int(7)], 2, ["AssetName"]),
         ("app_params_get", lambda: [Int(7)], 2, ["AppAddress"]), ("acct_params_get", lambda: [Fld("Txn", "Sender")], 2, ["AcctBalance"]),
         ("box_len", lambda: [Str("bk")], 2, []), ("box_get", lambda: [Str("bk")], 2, []),
         ("vrf_verify", lambda: [Str("m"), Op("bzero", [Int(80)]), Op("bzero", [Int(32)])], 2, ["VrfAlgorand"]),
         ("ecdsa_pk_decompress", lambda: [Op("bzero", [Int(33)])], 2, ["Secp256k1"]),
         ("ecdsa_pk_recover", lambda: [Op("bzero", [Int(32)]), Int(1), Op("bzero", [Int(32)]), Op("bzero", [Int(32)])], 2, ["Secp256k1"])]


def run_multi(case, ctx):
    _, k, mask = case
    name, args, n, imms = MULTI[k]
    # probe the type of each result with the model: the program logs them accordingly
    e = Op(name, args(), imms)
    env = avm.Env(boxes={b"bk": b"box content"}, gstate={b"k": 7})
    from .. import ref
    rt = ref.RT(Prog([]), env)
    rt.scope = ref.Scope(None, "program")
    vals = e.evm(rt)
    assert len(vals) == n
    names = ["r%d" % j if not mask >> j & 1 else "_" for j in range(n)]
    main = []
    for j, v in enumerate(vals):
        if names[j] != "_":
            main.append(Decl("int" if isinstance(v, int) else "bytes", names[j]))
    main.append(Assign(names, e))
    for j, v in enumerate(vals):
        if names[j] != "_":
            main.append(sh(Var(names[j]), "int" if isinstance(v, int) else "bytes"))
    for where in ("main", "func"):
        if where == "main":
            p = Prog(main + [Exit(Int(1))])
        else:
            p = Prog([For(None, Int(0), Int(2), [Expr(Call("f"))]), Exit(Int(1)), Func("f", [], [], main + [Return()])])
        Unit(p, ctx, key=f"multi:{name}:{mask}:{where}").check(env)


def run_sites(case, ctx):
    _, a, b = case
    f = Func("f", [("x", "int"), ("y", "int")], ["int"], [Decl("int", "t", Bin("-", Var("x"), Var("y"))), Log(Op("itob", [Var("t")])), Return(Var("t"))])
    n = [0]

    def site(k):
        n[0] += 1
        c = Call("f", [Int(100 * n[0]), Int(n[0])])
        L = Log(Op("itob", [Bin("+", c, Int(1))]))
        if k in ("main", "block"):
            return [L], []
        if k == "func":
            nm = "s%d" % n[0]
            return [Expr(Call(nm))], [Func(nm, [], [], [L, Return()])]
        if k == "loop":
            return [For("k%d" % n[0], Int(0), Int(2), [L])], []
        return [Log(Op("itob", [Call("f", [c, Call("f", [Int(9), Int(4)])])]))], []
    sa, fa = site(a)
    sb, fb = site(b)
    if a == "block" or b == "block":
        p = sa + [Jump("blk"), Block("blk", sb + [Exit(Int(1))])]
    else:
        p = sa + sb + [Exit(Int(1))]
    Unit(Prog(p + [f] + fa + fb), ctx).check(avm.Env())


def run_many(case, ctx):
    _, n = case
    fs = [Func("f%d" % i, [("a%d" % i, "int"), ("b%d" % i, "bytes")], ["int"],
               [Log(Var("b%d" % i)), Return(Bin("+", Var("a%d" % i), Call("f%d" % (i + 1), [Int(i), Str("c%d" % i)])) if i + 1 < n else Var("a%d" % i))])
          for i in range(n)]
    Unit(Prog([Log(Op("itob", [Call("f%d" % i, [Int(1000 * i), Str("m")])])) for i in range(n)] + [Exit(Int(1))] + fs), ctx).check(avm.Env())


RUN = {"sig": run_sig, "recv": run_recv, "retexpr": run_retexpr, "retexpr1": run_retexpr, "chain": run_chain, "args": run_args,
       "pending": run_pending, "ret": run_ret, "multi": run_multi, "sites": run_sites, "many": run_many}


def run_case(case, ctx):
    RUN[case[0]](case, ctx)
    if ctx.n % 307 == 1:
        ctx.sample({"case": repr(case)})
