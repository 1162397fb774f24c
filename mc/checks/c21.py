"""C21: names and scopes.  A fixed skeleton of nested scopes; every placement of declarations of one name over its places (up to a number), every
use at every place; a static reference resolver decides which uses are legal and the reference interpreter which declaration each one means."""
import itertools

from ..ref import (Assert, Assign, Bin, Block, BoxDecl, Break, Call, Const, ConstDef, Decl, EnumC, Exit, Expr, Fld, For, Func, Grp, If, InnerTxn, Int, Jump, Log,
                   Op, Prog, Return, SF, SetField, Std, Str, Struct, Switch, Un, Var, While)
from ..h import Unit, try_compile
from .. import avm, atoms
from ..atoms import S1

ID = "C21"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of the placements of declarations and uses of one name over a skeleton of nested scopes; acceptance is compared with a static "
             "reference resolver and the executed TEAL with the reference interpreter, whose scopes are a chain of dictionaries")
NOTE = ("Skeleton: program, if/elif/else, while, for, for _, blocks (nested and sibling), functions of the program, of a block and of a function: 30 places. Loops (while, for, for _, if, else) nested up to 2 (thorough 3) deep in 11 kinds of hosts: declarations in them, after them, and uses and assignments at every level outside. A nested "
        "redeclaration of a visible variable may be refused or shadow; constants, functions and blocks shadow.")
RULE = "kinds x placements of declarations x (all legal uses in one program; every illegal use on its own; every assignment on its own)"
ASSUMPTIONS = ["a name is used after its declaration is executed"]

# place -> chain of scopes, innermost first.  Textual order.
PROG, B, C, D, G, H, K = "PROG", "B", "C", "D", "G", "H", "K"
PARENT = {"W": PROG, "WW": "W", "F": PROG, "FF": "F", B: PROG, "BW": B, C: B, "CF": C, D: PROG, G: PROG, "GW": G, H: B, "HW": H, K: H, "KF": K, PROG: None}
PLACES = [("p0", PROG), ("i0", PROG), ("e0", PROG), ("e1", PROG), ("p1", PROG), ("w0", "W"), ("wi0", "W"), ("ww0", "WW"), ("w1", "W"), ("p2", PROG),
          ("F", "F"), ("f0", "F"), ("ff0", "FF"), ("p3", PROG),
          ("b0", B), ("bw0", "BW"), ("b1", B), ("c0", C), ("CF", "CF"), ("cf0", "CF"), ("c1", C), ("H", H), ("h0", H), ("hw0", "HW"), ("hi0", H), ("h1", H),
          ("K", K), ("k0", K), ("KF", "KF"), ("kf0", "KF"), ("k1", K), ("d0", D), ("G", G), ("g0", G), ("gw0", "GW"), ("g1", G)]
ORDER = {n: i for i, (n, _) in enumerate(PLACES)}
SCOPE = dict(PLACES)
HEADS = {"F", "CF", "KF", "H", "K", "G"}           # loop variables and parameters
STMT = [n for n, _ in PLACES if n not in HEADS]
FUNC_OF = {}
for _s in PARENT:
    _x = _s
    while _x and _x not in (G, H, K):
        _x = PARENT[_x]
    FUNC_OF[_s] = _x


def chain(scope):
    while scope:
        yield scope
        scope = PARENT[scope]


def resolve(decls, place):
    """the nearest declaration textually before a statement at the place"""
    for sc in chain(SCOPE[place]):
        d = [p for p in decls if SCOPE[p] == sc and ORDER[p] <= ORDER[place]]
        if d:
            return d[-1]
    return None


def assignable(decls, place):
    d = resolve(decls, place)
    return d is not None and FUNC_OF[SCOPE[d]] == FUNC_OF[SCOPE[place]]


def verdict(decls, shadows):
    """ok, refused (conflict in one scope), either (a nested redeclaration)"""
    v = "ok"
    for i, p in enumerate(decls):
        if any(SCOPE[q] == SCOPE[p] for q in decls[:i]):
            return "refused"
        if not shadows and any(SCOPE[q] in list(chain(SCOPE[p])) for q in decls[:i]):
            v = "either"
    return v


# ------------------------------------------------------------------ the skeleton
def skeleton(at, head, tails=None, jumps=None):
    """at(place) -> statements; head(place) -> name of the loop variable / parameter or None; tails: scope -> declarations after the exit"""
    t = lambda s: (tails or {}).get(s, [])
    j = lambda s, default: (jumps or {}).get(s, default)
    P = lambda name: [(head(name), "int")] if head(name) else []
    A = lambda name: [Int(VAL[name])] if head(name) else []
    live = lambda *ps: next((k for k, p in enumerate(ps) if alive(at(p))), 0)
    k = live("i0", "e0", "e1")
    c = [Bin("==", Int(k), Int(n)) for n in range(2)]
    body = at("p0") + [If([(c[0], False, at("i0")), (c[1], False, at("e0"))], at("e1"))] + at("p1") + [
        While(Int(1), at("w0") + [If([(Int(1), False, at("wi0"))])] + [While(Int(1), at("ww0") + [Break()])] + at("w1") + [Break()])] + at("p2") + [
        For(head("F") or "fv", Int(VAL["F"]), Int(VAL["F"] + 2), at("f0") + [For(None, Int(0), Int(1), at("ff0"))])] + at("p3") + [Expr(Call("g", A("G")))] + j(PROG, [Jump("bb")])
    kf = Func("k", P("K"), [], at("k0") + [For(head("KF") or "kv", Int(VAL["KF"]), Int(VAL["KF"] + 2), at("kf0"))] + at("k1") + [Return()] + t(K))
    hf = Func("h", P("H"), [], at("h0") + [While(Int(1), at("hw0") + [Break()]), If([(Int(1), False, at("hi0"))])] + at("h1") + [Expr(Call("k", A("K"))), Return(), kf] + t(H))
    cc = Block("cc", at("c0") + [For(head("CF") or "cv", Int(VAL["CF"]), Int(VAL["CF"] + 2), at("cf0"))] + at("c1") + j(C, [Jump("dd")]) + t(C))
    bb = Block("bb", at("b0") + [While(Int(1), at("bw0") + [Break()])] + at("b1") + [Expr(Call("h", A("H")))] + j(B, [Jump("cc")]) + [cc, hf] + t(B))
    dd = Block("dd", at("d0") + j(D, [Exit(Int(1))]) + t(D))
    gf = Func("g", P("G"), [], at("g0") + [While(Int(1), at("gw0") + [Break()])] + at("g1") + [Return()] + t(G))
    return body + [bb, dd, gf] + t(PROG)


def alive(stmts):
    return any(isinstance(s, (Decl, ConstDef, BoxDecl)) for s in stmts)


VAL = {n: 100 + i for n, i in ORDER.items()}
TYPES = {n: ("bytes" if i % 3 == 1 and n not in HEADS else "int") for n, i in ORDER.items()}


class Calls(Call):
    pass


def show(p, t, e):
    return Log(Op("concat", [Str(p + ":"), e if t == "bytes" else Op("itob", [e])]))


def value(p):
    return Str("v" + p) if TYPES[p] == "bytes" else Int(VAL[p])


def var_program(decls, reads, assigns=()):
    def at(p):
        out = []
        if p in decls:
            out.append(Decl(TYPES[p], "x", value(p)))
        if p in assigns:
            d = resolve(decls, p)
            t = TYPES[d] if d else "int"
            out.append(Assign("x", Str("new" + p) if t == "bytes" else Int(VAL[d] + 1 if d in HEADS else 7000 + VAL[p])))
        if p in reads:
            d = resolve(decls, p)
            out.append(show(p, TYPES[d] if d else "int", Var("x")))
        return out
    return Prog(skeleton(at, lambda h: "x" if h in decls else None))


def const_program(decls, reads):
    def at(p):
        out = []
        if p in decls:
            t = TYPES[p]
            out.append(ConstDef(t, "XX", '"c%s"' % p if t == "bytes" else str(VAL[p]), b"c" + p.encode() if t == "bytes" else VAL[p]))
        if p in reads:
            d = resolve(decls, p)
            out.append(show(p, TYPES[d] if d else "int", Const("XX")))
        return out
    return Prog(skeleton(at, lambda h: None))


# functions and blocks: declared after the exit of a scope, visible everywhere in it
TAILS = [PROG, B, C, D, G, H, K]


def nearest(tails, place):
    return next((s for s in chain(SCOPE[place]) if s in tails), None)


def func_program(tails, uses, use="stmt"):
    def decl(s):
        n = TAILS.index(s)
        return Func("x", [("q%d" % i, "int") for i in range(n % 3)], ["int"] if n % 2 else ["bytes"], [Log(Str("in " + s)), Return(Int(200 + n) if n % 2 else Str("r" + s))])

    def at(p):
        if p not in uses:
            return []
        s = nearest(tails, p)
        n = TAILS.index(s) if s else 0
        e = Call("x", [Int(9)] * (n % 3))
        return [show(p, "int" if n % 2 else "bytes", e)]
    return Prog(skeleton(at, lambda h: None, {s: [decl(s)] for s in tails}))


BT = [PROG, B, C, D]


def block_program(tails, place, use):
    d = lambda s: Block("x", [Log(Str("in " + s)), Exit(Int(1))])
    trans = {"jump": [Jump("x")], "switch": [Switch(Int(1), [(Int(1), "x")])], "else": [Switch(Int(1), [(Int(2), "x")], "x")]}[use]
    jumps = {}
    at = lambda p: []
    if place in BT:
        jumps[place] = trans
    else:
        at = lambda p: trans if p == place else []
    return Prog(skeleton(at, lambda h: None, {s: [d(s)] for s in tails}, jumps))


# ------------------------------------------------------------------ families
def families(tier):
    q = tier == "quick"
    return [("var", {"n": 2 if q else 3, "shards": 64}), ("const", {"n": 2 if q else 3, "shards": 64}), ("func", {"n": 3 if q else 7, "shards": 32}), ("block", {"n": 4, "shards": 32}),
            ("kinds", {"n": 1 if q else 2, "shards": 32}), ("dups", {}), ("forms", {"shards": 32}), ("names", {"shards": 8}), ("loops", {"n": 2 if q else 3, "shards": 64})]


NAMES = ["x", "fv", "xx", "x1", "x_1", "xX", "fi", "g", "h", "bb", "k", "log_", "balance", "len", "int_", "txn", "l0_for", "if_", "end_", "main", "not_", "box_x"]


def cases(fam, p):
    if fam in ("var", "const"):
        ps = [n for n, _ in PLACES if fam == "var" or n not in HEADS]
        for n in range(p["n"] + 1):
            for c in itertools.combinations_with_replacement(ps, n) if n == 2 else itertools.combinations(ps, n):
                if n == 2 and c[0] == c[1] and c[0] in HEADS:
                    continue
                yield (fam, c)
    elif fam == "func":
        for n in range(p["n"] + 1):
            for c in itertools.combinations(TAILS, n):
                yield (fam, c)
    elif fam == "block":
        for n in range(p["n"] + 1):
            for c in itertools.combinations(BT, n):
                yield (fam, c)
    elif fam == "kinds":
        for n in range(1, p["n"] + 1):
            for v in itertools.combinations([n for n, _ in PLACES], n):
                if verdict(v, False) != "ok":
                    continue
                for f in TAILS:
                    for b in BT:
                        yield (fam, v, f, b)
    elif fam == "dups":
        for s in TAILS:
            yield (fam, "func", s)
        for s in BT:
            yield (fam, "block", s)
        for k in ("struct", "field", "param", "params3", "paramvar", "loopvar", "constfirst", "boxvar", "structvar", "typed", "alone"):
            yield (fam, k, None)
    elif fam == "forms":
        for k in USES:
            for where in ("none", "sibling", "inner", "later", "callee", "caller"):
                yield (fam, k, where)
    elif fam == "loops":
        for host in LOOPHOSTS:
            for n in range(1, p["n"] + 1):
                for a in itertools.product(LOOPS, repeat=n):
                    for b in LOOPS:
                        for kind in ("int", "bytes", "const", "struct", "box"):
                            if n == 2 and p["n"] == 2 and (kind != "int" or b not in ("while", "for_")):
                                continue
                            yield (fam, host, a, b, kind)
    elif fam == "names":
        for a in NAMES:
            yield (fam, a)


def run_case(case, ctx):
    {"var": run_var, "const": run_const, "func": run_func, "block": run_block, "kinds": run_kinds, "dups": run_dups, "forms": run_forms, "names": run_names, "loops": run_loops}[case[0]](case, ctx)


ENV = avm.Env


def unit(prog, ctx, key, want):
    """want: ok / refused / either"""
    if want == "either":
        if try_compile(prog.source())[0] == "refused":
            ctx.distinct(prog.source())
            return None
        want = "ok"
    u = Unit(prog, ctx, key=key, expect="ok" if want == "ok" else "refused")
    if want == "ok":
        u.check(atoms.env(), what="a name does not mean the nearest declaration")
    else:
        ctx.traces += 1
        ctx.states += 1
        ctx.transitions += 1
        if u.status not in ("ok", "refused"):
            ctx.violation("crash:" + key, "the program is neither compiled nor refused properly", source=u.src, error=repr(u.exc)[:300])
    return u


def run_var(case, ctx):
    ds = tuple(sorted(case[1], key=ORDER.get))
    v = verdict(ds, False)
    if len(set(ds)) < len(ds):
        # the same place twice
        p = var_program(ds, [])
        src = p.source().split("\n")
        i = next(i for i, l in enumerate(src) if l.strip().startswith(("int x = ", "bytes x = ")))
        refuse(src[:i] + [src[i]] + src[i:], ctx, f"var:{ds}")
        return
    legal = [p for p in STMT if resolve(ds, p)]
    key = f"var:{','.join(ds)}"
    u = unit(var_program(ds, legal), ctx, key, v)
    if ctx.n % 97 == 1 and u:
        ctx.sample({"source": u.src})
    if v == "refused" or v == "either" and u is None:
        return
    for p in STMT:
        if p not in legal and (len(ds) < 3 or ORDER[p] % 3 == sum(ORDER[d] for d in ds) % 3):
            unit(var_program(ds, [p]), ctx, f"{key}:read {p}", "refused")
        a = assignable(ds, p)
        if not a and (len(ds) < 2 or p in legal) or a and len(ds) < 2:
            unit(var_program(ds, legal, [p]), ctx, f"{key}:assign {p}", "ok" if a else "refused")
    unit(var_program(ds, legal, [p for p in STMT if assignable(ds, p)]), ctx, f"{key}:assign all", v)


def refuse(lines, ctx, key):
    src = "\n".join(lines)
    ctx.distinct(src)
    st, out, m = try_compile(src)
    ctx.traces += 1
    ctx.states += 1
    ctx.transitions += 1
    if st != "refused":
        ctx.violation(("accepted:" if st == "ok" else "crash:") + key, "a conflicting declaration or an undeclared name is not refused", source=src, result=repr(out)[:1500])


def accept(lines, ctx, key):
    src = "\n".join(lines)
    ctx.distinct(src)
    st, out, m = try_compile(src)
    ctx.traces += 1
    if st != "ok":
        ctx.violation("refused:" + key, "a valid program is refused", source=src, result=repr(out)[:500])
        return None
    return out


def run_const(case, ctx):
    ds = tuple(sorted(case[1], key=ORDER.get))
    v = verdict(ds, True)
    legal = [p for p in STMT if resolve(ds, p)]
    key = f"const:{','.join(ds)}"
    if len(set(ds)) < len(ds):
        src = const_program(ds, []).source().split("\n")
        i = next(i for i, l in enumerate(src) if l.strip().startswith("const "))
        refuse(src[:i] + [src[i]] + src[i:], ctx, key)
        return
    unit(const_program(ds, legal), ctx, key, v)
    if v == "ok":
        for p in STMT:
            if p not in legal:
                unit(const_program(ds, [p]), ctx, f"{key}:read {p}", "refused")


def run_func(case, ctx):
    ts = case[1]
    legal = [p for p in STMT if nearest(ts, p)]
    key = f"func:{','.join(ts)}"
    unit(func_program(ts, legal), ctx, key, "ok")
    for p in STMT:
        if p not in legal:
            unit(func_program(ts, [p]), ctx, f"{key}:call {p}", "refused")


def run_block(case, ctx):
    ts = case[1]
    for use in ("jump", "switch", "else"):
        for p in BT + ["i0", "e1", "w0", "wi0", "f0", "bw0", "cf0"]:
            sc = p if p in BT else SCOPE[p]
            legal = next((s for s in chain(sc) if s in ts), None)
            pr = block_program(ts, p, use)
            unit(pr, ctx, f"block:{','.join(ts)}:{use} {p}", "ok" if legal else "refused")


def run_kinds(case, ctx):
    """a variable, a function and a block of the same name"""
    _, vs, f, b = case
    legal = [p for p in STMT if resolve(vs, p)]
    calls = [p for p in STMT if nearest([f], p)]

    def at(p):
        out = []
        if p in vs:
            out.append(Decl(TYPES[p], "x", value(p)))
        if p in calls:
            out.append(show(p, "int", Call("x", [Int(1)])))
        if p in legal:
            out.append(show(p, TYPES[resolve(vs, p)], Var("x")))
        return out
    fd = Func("x", [("y", "int")], ["int"], [Log(Str("fx")), Return(Bin("+", Var("y"), Int(600)))])
    bd = Block("x", [Log(Str("bx")), Exit(Int(1))])
    tails = {f: [fd]}
    tails.setdefault(b, []).append(bd)
    # the last block of the skeleton that sees the block x jumps to it
    jumps = {b: [Jump("x")]}
    unit(Prog(skeleton(at, lambda h: "x" if h in vs else None, tails, jumps)), ctx, f"kinds:{','.join(vs)}:{f}:{b}", "ok")


H8 = "#pragma version 8"


def run_dups(case, ctx):
    _, k, s = case
    key = f"dups:{k}:{s}"
    if k in ("func", "block"):
        mk = (lambda n: Func("x", [], [], [Log(Str(n)), Return()])) if k == "func" else (lambda n: Block("x", [Log(Str(n)), Exit(Int(1))]))
        for a, b in (("a", "b"), ("a", "a")):
            refuse(Prog(skeleton(lambda p: [], lambda h: None, {s: [mk(a), mk(b)]})).source().split("\n"), ctx, key)
        refuse(Prog(skeleton(lambda p: [], lambda h: None, {s: [mk("a"), Func("y", [], [], [Return()]), mk("b")]})).source().split("\n"), ctx, key + ":apart")
        unit(Prog(skeleton(lambda p: [], lambda h: None, {s: [mk("a")]})), ctx, key + ":once", "ok")
        return
    progs = {
        "struct": ["struct Aa:", "    a: int", "end", "struct Aa:", "    a: int", "end", "exit(1)"],
        "field": ["struct Aa:", "    a: int", "    a: int", "end", "exit(1)"],
        "param": ["f(1, 2)", "exit(1)", "func f(a: int, a: int):", "    return", "end"],
        "params3": ["f(1, 2, 3)", "exit(1)", "func f(a: int, b: int, a: bytes):", "    return", "end"],
        "paramvar": ["f(1)", "exit(1)", "func f(a: int):", "    int a = 2", "    return", "end"],
        "loopvar": ["for x in 0:2:", "    int x = 2", "end", "exit(1)"],
        "constfirst": ["const int AB = 1", "const bytes AB = \"x\"", "exit(AB)"],
        "boxvar": ["struct Aa:", "    a: int", "end", "int bx = 1", "box<Aa> bx = CreateBox(\"k\")", "exit(1)"],
        "structvar": ["struct Aa:", "    a: int", "end", "int bx = 1", "Aa bx = bzero(8)", "exit(1)"],
        "typed": ["int x = 1", "bytes[4] x = \"abcd\"", "exit(1)"],
        "alone": ["int x", "int x", "exit(1)"],
    }[k]
    refuse([H8] + progs, ctx, key)


# uses of a name in every syntactic position: (lines using @, kind of the name)
USES = {
    "log": (["log(itob(@))"], "int"), "operand": (["log(itob(1 + @))"], "int"), "operand2": (["log(itob((@ * 2) - 1))"], "int"), "unary": (["log(itob(!@))"], "int"),
    "assign": (["@ = 1"], "int"), "assignexpr": (["int yy = @"], "int"), "multi1": (["int yy", "@, yy = addw(1, 2)"], "int"), "multi2": (["int yy", "yy, @ = addw(1, 2)"], "int"),
    "blank": (["_ = @"], "int"), "if": (["if @:", "end"], "int"), "ifnot": (["if not @:", "end"], "int"), "elif": (["if 0:", "elif @:", "end"], "int"), "while": (["while @:", "    break", "end"], "int"),
    "forstart": (["for i in @:3:", "    log(\"b\")", "end"], "int"), "forend": (["for i in 0:@:", "    log(\"b\")", "end"], "int"), "for_": (["for _ in 0:@:", "    log(\"b\")", "end"], "int"), "for_s": (["for _ in @:9:", "    log(\"b\")", "end"], "int"),
    "assert": (["assert(@ + 1)"], "int"), "exit": (["exit(@ + 1)"], "int"), "arg": (["log(itob(id(@)))"], "int"), "index": (["log(Txn.ApplicationArgs[@])"], "int"), "gindex": (["log(itob(Gtxn[@].Fee))"], "int"),
    "std": (["log(itob(Cast(@, uint8)))"], "int"), "tobytes": (["log(ToBytes(@, 4))"], "int"), "inner": (["inner_txn:", "    TypeEnum: Pay", "    Fee: @", "end"], "int"), "teal": None,
    "switch": (["switch @:", "    1: zz", "    else: zz", "end"], "int"), "option": (["switch 1:", "    @: zz", "    else: zz", "end"], "int"),
    "field": (["log(itob(@.a))"], "Aa"), "setfield": (["@.a = 5"], "Aa"), "wholestruct": (["log(@)"], "Aa"), "boxfield": (["log(itob(@.a))"], "box"), "setboxfield": (["@.a = 5"], "box"),
    "const": (["log(itob(@))"], "const"), "constop": (["log(itob(@ + 1))"], "const"), "constfor": (["for i in 0:@:", "    log(\"b\")", "end"], "const"), "constif": (["if @:", "end"], "const"),
    "call": (["@()"], "func"), "callexpr": (["log(itob(@r() + 1))"], "funcr"), "callif": (["if @r():", "end"], "funcr"), "callassign": (["int yy = @r()"], "funcr"),
    "jump": (["jump @"], "block"), "swblock": (["switch 1:", "    1: @", "end"], "block"), "swelse": (["switch 1:", "    2: zz", "    else: @", "end"], "block"),
    "type": (["@ sv"], "struct"), "sizeof": (["log(itob(SizeOf(@)))"], "struct"), "box": (["box<@> bv = OpenBox(\"k\")"], "struct"),
}
del USES["teal"]


# scopes of loops: every kind of loop in every host, nested in each other and in if statements
LOOPS = ("while", "for", "for_", "if", "else")
LOOPHOSTS = ("main", "if", "while", "for_", "block", "nested", "func", "funcif", "funcfor_", "blockfunc", "funcfunc")


def run_loops(case, ctx):
    """a declaration in the innermost of the loops a, another one of the same name in the loop b after it, a third one after both; then
    uses and assignments wherever no declaration is visible.  (An if statement has no scope of its own.)"""
    _, host, a, b, kind = case
    cnt = itertools.count()
    name = "XX" if kind == "const" else "x"

    def decl(tag, t=None):
        t = t or kind
        if t == "int":
            return [Decl("int", "x", Int(tag)), Log(Op("itob", [Var("x")])), Assign("x", Bin("+", Var("x"), Int(1))), Log(Op("itob", [Var("x")]))]
        if t == "bytes":
            return [Decl("bytes", "x", Str(f"b{tag}")), Log(Var("x"))]
        if t == "const":
            return [ConstDef("int", "XX", str(tag), tag), Log(Op("itob", [Const("XX")]))]
        if t == "struct":
            return [Decl("S1", "x", Op("bzero", [Int(13)])), SetField("x", "fi", Int(tag)), Log(Op("itob", [SF("x", "fi")]))]
        return [BoxDecl("S1", "x", Str("k"), "Open"), SetField("x", "fi", Int(tag)), Log(Op("itob", [SF("x", "fi")]))]

    def use(t):
        return {"int": Log(Op("itob", [Var("x")])), "bytes": Log(Var("x")), "const": Log(Op("itob", [Const("XX")])), "struct": Log(Op("itob", [SF("x", "fi")])), "box": Log(Op("itob", [SF("x", "fi")]))}[t]

    def assign(t):
        return {"int": Assign("x", Int(1)), "bytes": Assign("x", Str("")), "struct": SetField("x", "fi", Int(1)), "box": SetField("x", "fi", Int(1))}.get(t)

    def loop(k, body):
        if k == "while":
            return While(Int(1), body + [Break()])
        if k == "for":
            return For(f"v{next(cnt)}", Int(0), Int(2), body)
        if k == "for_":
            return For(None, Int(0), Int(2), body)
        if k == "if":
            return If([(Int(1), False, body)])
        return If([(Int(0), False, [])], body)

    def build(extra=None, where=None, third=True, second=True, third_t=None):
        """the program; extra: statement to add at a depth (where = number of loops around it, after the loop a[where]) or 'between'/'end'"""
        inner = decl(11)
        for d in range(len(a) - 1, -1, -1):
            inner = [loop(a[d], inner)]
            if extra is not None and where == d:
                inner = inner + [extra]
        st = inner
        if extra is not None and where == "between":
            st = st + [extra]
        if second:
            st = st + [loop(b, decl(22, "bytes" if kind == "int" else None))]
        if extra is not None and where == "end":
            st = st + [extra]
        if third:
            st = st + decl(33, third_t)
        st = [Log(Str("start"))] + st + [Log(Str("end"))]
        fl = lambda body: Func("ff", [], [], body + [Return()])
        P = lambda body: Prog(body, [S1])
        if host == "main":
            return P(st + [Exit(Int(1))])
        if host in ("if", "while", "for_"):
            return P([loop(host, st)] + [Exit(Int(1))])
        if host == "block":
            return P([Jump("bb"), Block("bb", st + [Exit(Int(1))])])
        if host == "nested":
            return P([Jump("bb"), Block("bb", [Jump("cc"), Block("cc", st + [Exit(Int(1))])])])
        if host in ("func", "funcif", "funcfor_"):
            return P([Expr(Call("ff", [])), Expr(Call("ff", [])), Exit(Int(1)), fl(st if host == "func" else [loop(host[4:], st)])])
        if host == "blockfunc":
            return P([Jump("bb"), Block("bb", [Expr(Call("ff", [])), Exit(Int(1)), fl(st)])])
        return P([Expr(Call("gg", [])), Exit(Int(1)), Func("gg", [], [], [Expr(Call("ff", [])), Return(), fl(st)])])
    key = f"loops:{host}:{a}:{b}:{kind}"
    scope = lambda k: k not in ("if", "else")
    # the declaration of a is visible after the loops a[d:] only if none of them has a scope
    leaks = lambda d: not any(scope(k) for k in a[d:])
    clash = leaks(0) and True
    bscope = scope(b)
    inhost = host in ("while", "for_", "funcfor_")
    if not clash and bscope:
        unit(build(), ctx, key + ":seq", "ok")
        unit(build(third_t={"int": "struct", "bytes": "int"}.get(kind)), ctx, key + ":seqt", "ok")
    elif not clash and not bscope:
        unit(build(third=False), ctx, key + ":seq2", "ok")
        if kind != "const":
            refuse(build().source().split("\n"), ctx, key + ":dup")
    elif clash:
        # a's declaration is one of the host's scope: b's is a nested redeclaration (refused or shadowing) or a conflict
        unit(build(second=False, third=False), ctx, key + ":one", "ok")
        refuse(build(second=False).source().split("\n"), ctx, key + ":dup3")
        if not bscope:
            refuse(build(third=False).source().split("\n"), ctx, key + ":dup2")
    for where in list(range(len(a))) + ["between", "end"]:
        if where == "end":
            vis = None if clash else ("bytes" if kind == "int" else kind) if not bscope else None
            if clash:
                continue
        else:
            d = 0 if where == "between" else where
            vis = kind if leaks(d) else None
        if vis is None:
            for t in {kind, "bytes" if kind == "int" else kind}:
                refuse(build(use(t), where, third=False, second=where == "end").source().split("\n"), ctx, f"{key}:use:{where}:{t}")
                if assign(t):
                    refuse(build(assign(t), where, third=False, second=where == "end").source().split("\n"), ctx, f"{key}:assign:{where}:{t}")
        else:
            unit(build(use(vis), where, third=False, second=where == "end"), ctx, f"{key}:use:{where}", "ok")


def run_forms(case, ctx):
    _, k, where = case
    lines, kind = USES[k]
    name = {"const": "NM", "struct": "Nm"}.get(kind, "nm")
    decl = {"int": ["int nm = 1"], "Aa": ["Aa nm = bzero(8)"], "box": ["box<Aa> nm = CreateBox(\"k\")"], "const": ["const int NM = 1"]}.get(kind)
    tail = {"func": ["func nm():", "    return", "end"], "funcr": ["func nmr() int:", "    return 1", "end"], "block": ["block nm:", "    log(\"nm\")", "    exit(1)", "end"]}.get(kind)
    use = [l.replace("@", name) for l in lines]
    term = k in ("exit", "jump", "switch", "option", "swblock", "swelse")
    head = [H8, "struct Aa:", "    a: int", "end"]
    fin = ["func id(a: int) int:", "    return a", "end", "block zz:", "    exit(1)", "end"]
    ex = [] if term else ["exit(1)"]
    ind = lambda ls, n=1: ["    " * n + l for l in ls]
    key = f"forms:{k}:{where}"
    if kind == "struct":
        if where == "none":
            refuse(head + use + ex + fin, ctx, key)
            accept(head + ["struct Nm:", "    a: int", "end"] + use + ex + fin, ctx, key + ":declared")
        return
    if decl:
        if where == "none":
            refuse(head + use + ex + fin, ctx, key)
            out = accept(head + decl + use + ex + fin, ctx, key + ":declared")
            if out:
                try:
                    avm.assemble(out)
                except avm.AsmError as e:
                    ctx.violation("asm:" + key, str(e), source="\n".join(head + decl + use + ex + fin))
        elif where == "sibling":
            refuse(head + ["while 0:"] + ind(decl) + ["end"] + ["while 1:"] + ind(use) + ([] if term else ["    break"]) + ["end", "exit(1)"] + fin, ctx, key)
            refuse(head + ["exit(1)"] + fin + ["block b1:"] + ind(decl) + ["    exit(1)", "end", "block b2:"] + ind(use + ex) + ["end"], ctx, key + ":block")
        elif where == "inner":
            for l in ("while 0:", "for i2 in 0:1:", "for _ in 0:1:"):
                refuse(head + [l] + ind(decl) + ["end"] + use + ex + fin, ctx, f"{key}:{l}")
        elif where == "later":
            if not term:
                refuse(head + use + decl + ex + fin, ctx, key)
                refuse(head + ["jump b1", "block b1:"] + ind(use + decl + ["exit(1)"]) + ["end"] + fin, ctx, key + ":block")
        elif where == "callee":
            refuse(head + ["f()"] + use + ex + fin + ["func f():"] + ind(decl) + ["    return", "end"], ctx, key)
            if kind in ("int", "Aa"):
                t = "int" if kind == "int" else "Aa"
                refuse(head + use + ex + fin + [f"func f(nm: {t}):", "    return", "end"], ctx, key + ":param")
        elif where == "caller":
            # the caller's variables are not visible in a function of another scope
            if not term:
                refuse(head + ["g()", "exit(1)"] + fin + ["func f():"] + ind(use) + ["    return", "end", "func g():"] + ind(decl) + ["    f()", "    return", "end"], ctx, key)
                refuse(head + ["jump b1"] + fin + ["func f():"] + ind(use) + ["    return", "end", "block b1:"] + ind(decl) + ["    f()", "    exit(1)", "end"], ctx, key + ":block")
        return
    # functions and blocks
    if where == "none":
        refuse(head + use + ex + fin, ctx, key)
        accept(head + use + ex + fin + tail, ctx, key + ":declared")
    elif where in ("sibling", "inner"):
        refuse(head + use + ex + fin + ["block b1:", "    exit(1)"] + ind(tail) + ["end"], ctx, key)
        if where == "sibling":
            refuse(head + ["exit(1)"] + fin + ["block b1:", "    exit(1)"] + ind(tail) + ["end", "block b2:"] + ind(use + ex) + ["end"], ctx, key + ":b2")
    elif where == "callee" and kind != "block":
        refuse(head + use + ex + fin + ["func f():", "    return"] + ind(tail) + ["end"], ctx, key)
    elif where == "caller" and kind != "block":
        refuse(head + ["exit(1)"] + fin + ["func f():"] + ind(use) + ["    return", "end", "func g():", "    f()", "    return"] + ind(tail) + ["end"], ctx, key)
    elif where == "later":
        pass


def run_names(case, ctx):
    """two different names never denote one variable"""
    _, a = case
    for b in NAMES:
        if a == b:
            continue
        p = Prog([Decl("int", a, Int(1)), Decl("int", b, Int(2)), Assign(a, Int(3)), show("a", "int", Var(a)), show("b", "int", Var(b)),
                  While(Int(1), [Decl("int", "zq", Int(8)), Assign(b, Bin("+", Var(a), Int(1))), Break()]), show("a", "int", Var(a)), show("b", "int", Var(b)), Expr(Call("fn", [Var(b), Var(a)])), Exit(Int(1)),
                  Func("fn", [("p", "int"), ("q", "int")], [], [show("p", "int", Var("p")), show("q", "int", Var("q")), show("b", "int", Var(b)), show("a", "int", Var(a)), Return()])])
        st, out, m = try_compile(p.source())
        if st == "refused":
            # some names are reserved; then each of them alone is
            one = [try_compile(Prog([Decl("int", n, Int(1)), Exit(Int(1))]).source())[0] for n in (a, b)]
            if "refused" in one:
                continue
        unit(p, ctx, f"names:{a}:{b}", "ok")
