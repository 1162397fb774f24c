"""C04: storage.  Every sequence of declarations, assignments, scopes, loops, calls and inner groups up to a bound,
logging every live variable after every step; programs up to and past the number of storage slots."""
from itertools import product

from ..ref import (Assign, Bin, Block, BoxDecl, Break, Call, ConstDef, Decl, Exit, Expr, For, Func, If, InnerGroup, InnerTxn, Int, Jump, Log, Op,
                   Prog, Return, SF, SetField, Std, Str, Struct, Switch, Var, While)
from ..h import Unit, cond, try_compile
from .. import avm, ref

ID = "C04"
LEVEL = "model_checking"
TECHNIQUE = ("explicit-state model checking: all histories of declarations, scopes, assignments, loops and calls up to a bound; after every "
             "step every live variable is read back from the executed TEAL and compared with the reference environment")
NOTE = ("Complete for histories of up to 4 (quick) or 5 (thorough) steps in 3 placements plus slot-count sweeps around the limits; "
        "variables that are declared but never assigned are not read.")
RULE = ("statement trees over {declare, assign oldest/newest, call, inner group, if, for, for _, while} x placement x condition outcomes; "
        "numbers of variables, parameters and locals swept to past the slot limit; distinct = distinct source programs")
ASSUMPTIONS = ["AVM model of mc/avm.py with 256 scratch slots", "recursive functions are excluded: Tealish locals are static"]

S = Struct("Pt", [("x", "int"), ("y", "bytes[4]")])
FULL = ("d", "a", "A", "c", "g", "if", "for", "for_", "while")
MID = ("d", "a", "c", "for", "for_", "while", "ifelse")
SMALL = ("d", "A", "c", "for", "while")
LEAF = {"d", "a", "A", "c", "g"}
_memo = {}


def seqs(n, alpha):
    k = (n, alpha)
    if k not in _memo:
        out = [()] if n == 0 else []
        for s in range(1, n + 1):
            for st in stmts(s, alpha):
                for rest in seqs(n - s, alpha):
                    out.append((st,) + rest)
        _memo[k] = out
    return _memo[k]


def stmts(n, alpha):
    for k in alpha:
        if k in LEAF:
            if n == 1:
                yield (k,)
        elif k == "ifelse":
            for a in range(n):
                for x, y in product(seqs(a, alpha), seqs(n - 1 - a, alpha)):
                    yield (k, x, y)
        else:
            for b in seqs(n - 1, alpha):
                yield (k, b)


class B:
    """builds statements; `vis` lists the initialised variables in scope"""

    def __init__(self, pre="v"):
        self.k = 0
        self.pre = pre

    def new(self):
        self.k += 1
        return self.k

    def dump(self, vis):
        out = []
        for n, t in vis:
            if t == "int":
                out.append(Log(Op("itob", [Var(n)])))
            elif t == "box":
                out.append(Log(Op("itob", [SF(n, "x")])))
            else:
                out.append(Log(Var(n)))
        return out

    def decl(self, vis):
        k = self.new()
        n = f"{self.pre}{k}"
        t = ("int", "bytes", "struct", "int", "box")[k % 5]
        vis.append((n, t))
        if t == "int":
            return [Decl("int", n, Int(1000 + k))]
        if t == "bytes":
            return [Decl("bytes", n, Str(f"val{k}"))]
        if t == "struct":
            return [Decl("Pt", n, Op("bzero", [Int(12)])), SetField(n, "x", Int(2000 + k)), SetField(n, "y", Str("st%02d" % k))]
        # boxes are keyed by declaration: only the reference lives in a variable
        return [BoxDecl("Pt", n, Str(f"key{k}")), Expr(Call("mkbox", [Str(f"key{k}")])), SetField(n, "x", Int(3000 + k))]

    def assign(self, vis, which):
        c = [v for v in vis]
        if not c:
            return [Log(Str("none"))]
        n, t = c[which]
        k = self.new()
        if t == "int":
            return [Assign(n, Bin("+", Var(n), Int(k)))]
        if t == "bytes":
            return [Assign(n, Op("concat", [Var(n), Str(chr(97 + k % 26))]))]
        return [SetField(n, "x", Int(5000 + k))]

    def body(self, seq, vis):
        out = []
        for s in seq:
            out += self.st(s, vis)
            out += self.dump(vis)
        return out

    def st(self, s, vis):
        k = s[0]
        if k == "d":
            return self.decl(vis)
        if k == "a":
            return self.assign(vis, 0)
        if k == "A":
            return self.assign(vis, -1)
        if k == "c":
            n = self.new()
            return [Log(Op("itob", [Bin("+", Int(n), Call("f1", [Int(n)]))]))]
        if k == "g":
            self.new()
            return [InnerGroup([InnerTxn([("TypeEnum", None, Int(1)), ("Fee", None, Int(0))]), Expr(Call("itx", [Int(self.k)]))])]
        if k == "if":
            c = cond(self.new())
            v2 = list(vis)
            return [If([(c, False, self.body(s[1], v2) + self.dump(v2))])]
        if k == "ifelse":
            c = cond(self.new())
            v2, v3 = list(vis), list(vis)
            return [If([(c, False, self.body(s[1], v2))], self.body(s[2], v3))]
        if k == "for":
            n = f"i{self.new()}"
            v2 = vis + [(n, "int")]
            # the counter is only read: it must survive whatever the body does
            ro = [(n, "int")]
            b = self.body_ro(s[1], vis, ro)
            return [For(n, Int(0), Int(2), b)]
        if k == "for_":
            self.new()
            return [For(None, Int(0), Int(2), self.body(s[1], list(vis)) + [Log(Str("_"))])]
        if k == "while":
            c = cond(self.new())
            return [While(c, self.body(s[1], list(vis)) + [Log(Str("w"))])]
        raise AssertionError(k)

    def body_ro(self, seq, vis, ro):
        v2 = list(vis)
        out = self.dump(ro)
        for s in seq:
            out += self.st(s, v2)
            out += self.dump(v2 + ro)
        return out


def funcs():
    return [Func("f1", [("p1", "int")], ["int"],
                 [Decl("int", "l1", Bin("*", Var("p1"), Int(2))), Decl("bytes", "l2", Str("loc")), For("l3", Int(0), Int(2), [Decl("int", "l4", Bin("+", Var("l3"), Int(70))), Log(Op("itob", [Var("l4")])), Log(Op("itob", [Call("f2", [Var("l3")])]))]),
                  Log(Var("l2")), Log(Op("itob", [Var("p1")])), Return(Bin("+", Var("l1"), Call("f2", [Var("l1")])))]),
            Func("f2", [("p2", "int")], ["int"],
                 [Decl("int", "m1", Bin("+", Var("p2"), Int(5))), While(Bin("<", Var("m1"), Int(9)), [Decl("int", "m2", Var("m1")), Assign("m1", Bin("+", Var("m2"), Int(2)))]), Return(Var("m1"))]),
            Func("itx", [("p3", "int")], [], [InnerTxn([("TypeEnum", None, Int(1)), ("Fee", None, Var("p3"))]), Return()]),
            Func("mkbox", [("bk", "bytes")], [], [If([(Op("box_create", [Var("bk"), Int(12)]), False, [Log(Str("new"))])], [Log(Str("old"))]), Return()])]


def families(tier):
    q = tier == "quick"
    return [("hist", {"sizes": (1, 2) if q else (1, 2, 3), "alpha": FULL, "places": ("main", "func", "block"), "choices": 5, "shards": 64}),
            ("hist3", {"sizes": (3,) if q else (3, 4), "alpha": MID, "places": ("main",) if q else ("main", "func", "block"), "choices": 4, "shards": 64}),
            ("hist4", {"sizes": (4,) if q else (5,), "alpha": SMALL, "places": ("main",), "choices": 4, "shards": 64}),
            ("limit", {"step": 100 if q else 1, "near": 2 if q else 1, "shards": 64}), ("funcs", {"n": 4 if q else 6}), ("mix", {"n": 3 if q else 4, "shards": 32}),
            ("blocks", {})]


def cases(fam, p):
    if fam.startswith("hist"):
        for n in p["sizes"]:
            for seq in seqs(n, p["alpha"]):
                for place in p["places"]:
                    yield ("hist", seq, place, p["choices"])
    elif fam == "limit":
        ns = sorted(set([5, 60, 130] + list(range(196, 206, p["near"])) + list(range(250, 260, p["near"])) + list(range(5, 300, p["step"]))))
        for n in ns:
            for kind in ("main", "func", "loop", "block", "func2", "mainfunc", "params", "group", "funcblock", "fors", "for_s"):
                yield ("limit", n, kind)
    elif fam == "funcs":
        for np_, nl, depth in product(range(p["n"]), range(p["n"]), range(1, 4)):
            for mains in (0, 1, 3):
                yield ("funcs", np_, nl, depth, mains)
    elif fam == "mix":
        # declarations before and after the first use of a function, function locals, scoped declarations
        for a, b, c, d in product(range(p["n"]), repeat=4):
            for order in range(4):
                yield ("mix", a, b, c, d, order)
    elif fam == "blocks":
        for a, b, c in product(range(3), repeat=3):
            for form in ("jump", "switch", "nested", "funcinblock"):
                yield ("blocks", a, b, c, form)


def run_hist(case, ctx):
    _, seq, place, choices = case
    b = B()
    vis = [("g0", "int")] if place == "main" else []
    st = b.body(seq, vis)
    end = b.dump(vis) + [Log(Str("z"))]
    if place == "main":
        p = [Decl("int", "g0", Int(7))] + st + end + [Exit(Int(1))]
        extra = []
    elif place == "func":
        p = [Decl("int", "g0", Int(7)), Decl("bytes", "g1", Str("gg")), Expr(Call("work")), Log(Var("g1")), Log(Op("itob", [Var("g0")])), Exit(Int(1))]
        extra = [Func("work", [], [], st + end + [Return()])]
    else:
        p = [Decl("int", "g0", Int(7)), Decl("bytes", "g1", Str("gg")), Jump("blk"),
             Block("blk", st + end + [Log(Var("g1")), Log(Op("itob", [Var("g0")])), Exit(Int(1))])]
        extra = []
    Unit(Prog(p + extra + funcs(), [S]), ctx).check_dfs(choices)


def declare(pre, n, base):
    return [Decl("int", f"{pre}{i}", Int(base + i)) for i in range(n)]


def dump(pre, n):
    # sums of positions weighted by index: any shared slot changes a value; plus spot checks of every variable
    return [Log(Op("itob", [Var(f"{pre}{i}")])) for i in range(n)]


def bounded(u, ctx, need):
    """accepted programs must be right; refusals are only allowed when storage is short"""
    if u.status == "ok":
        u.check(avm.Env(), max_steps=60000, max_ticks=20000)
    elif u.status == "refused":
        ctx.count("refused_for_storage")
        if need <= 190:
            ctx.violation("refused:" + u.key, f"a program needing {need} variables is refused: {u.exc}", source=u.src[:3000])
    else:
        ctx.violation("crash:" + u.key, f"compiler failed: {type(u.exc).__name__}: {u.exc}", source=u.src[:3000])


class LUnit(Unit):
    def __init__(self, prog, ctx, key):
        self.prog, self.ctx, self.key = prog, ctx, key
        self.src = prog.source()
        self.asm = None
        ctx.distinct(self.src)
        st, a, b = try_compile(self.src, 30)
        self.status = st
        if st != "ok":
            self.exc = a
            return
        self.lines, self.map = a, b
        try:
            self.asm = avm.assemble(self.lines)
        except avm.AsmError as e:
            ctx.violation("asm:" + key, f"emitted TEAL does not assemble: {e}", source=self.src[:3000])


def run_limit(case, ctx):
    _, n, kind = case
    Ex = [Exit(Int(1))]
    if kind == "main":
        p = declare("a", n, 100) + dump("a", n) + Ex
        need = n
    elif kind == "func":
        p = declare("a", 3, 100) + [Expr(Call("f"))] + dump("a", 3) + Ex + [Func("f", [], [], declare("b", n, 500) + dump("b", n) + [Return()])]
        need = n + 3
    elif kind == "params":
        k = min(n, 60)
        p = declare("a", n, 100) + [Expr(Call("f", [Int(700 + i) for i in range(k)]))] + dump("a", n) + Ex + \
            [Func("f", [(f"q{i}", "int") for i in range(k)], [], dump("q", k) + [Return()])]
        need = n + k
    elif kind == "loop":
        p = declare("a", 3, 100) + [For("i", Int(0), Int(2), declare("b", n, 500) + dump("b", n)), For("j", Int(0), Int(1), declare("c", n, 900) + dump("c", n))] + dump("a", 3) + Ex
        need = n + 4
    elif kind == "block":
        p = declare("a", 3, 100) + [Jump("bb"), Block("ba", declare("c", n, 900) + dump("c", n) + dump("a", 3) + Ex), Block("bb", declare("b", n, 500) + dump("b", n) + dump("a", 3) + [Jump("ba")])]
        need = n + 3
    elif kind == "func2":
        k = n // 2
        p = [Expr(Call("f"))] + Ex + [Func("f", [], [], declare("b", k, 500) + [Expr(Call("g"))] + dump("b", k) + [Return()]), Func("g", [], [], declare("c", n - k, 900) + dump("c", n - k) + [Return()])]
        need = n
    elif kind == "mainfunc":
        k = n // 2
        p = declare("a", k, 100) + [Expr(Call("f"))] + declare("d", n - k, 300) + [Expr(Call("f"))] + dump("a", k) + dump("d", n - k) + Ex + [Func("f", [], [], declare("b", 5, 500) + dump("b", 5) + [Return()])]
        need = n + 5
    elif kind == "group":
        p = declare("a", n, 100) + [InnerGroup([Expr(Call("f"))])] + dump("a", n) + Ex + [Func("f", [], [], [InnerTxn([("TypeEnum", None, Int(1)), ("Fee", None, Int(0))]), Return()])]
        need = n + 1
    elif kind == "funcblock":
        p = declare("a", 2, 100) + [Jump("bb"), Block("bb", declare("b", n, 500) + [Expr(Call("f")), Expr(Call("h"))] + dump("b", n) + dump("a", 2) + Ex + [Func("h", [], [], declare("e", 2, 50) + dump("e", 2) + [Return()])]),
                                   Func("f", [], [], declare("c", 4, 900) + dump("c", 4) + [Return()])]
        need = n + 8
    elif kind == "fors":
        d = min(n // 10 + 1, 20)
        body = dump("a", n)
        for i in range(d):
            body = [For(f"i{i}", Int(0), Int(1), body + [Log(Op("itob", [Var(f"i{i}")]))])]
        p = declare("a", n, 100) + body + Ex
        need = n + d
    else:
        body = dump("a", n)
        for i in range(4):
            body = [For(None, Int(0), Int(1), body)]
        p = declare("a", n, 100) + body + Ex
        need = n + 4
    u = LUnit(Prog(p), ctx, f"limit:{kind}:{n}")
    bounded(u, ctx, need)


def run_funcs(case, ctx):
    _, np_, nl, depth, mains = case
    fs = []
    for d in range(depth):
        ps = [(f"p{d}x{i}", "int") for i in range(np_)]
        loc = [Decl("int", f"l{d}x{i}", Int(100 * d + i + 10)) for i in range(nl)]
        call = [Expr(Call(f"f{d + 1}", [Int(1000 * (d + 1) + i) for i in range(np_)]))] if d + 1 < depth else []
        late = [Decl("int", f"z{d}", Int(999 - d)), Log(Op("itob", [Var(f"z{d}")]))]
        fs.append(Func(f"f{d}", ps, [], loc + call + late + call + [Log(Op("itob", [Var(n)])) for n, _ in ps] + [Log(Op("itob", [Var(s.name)])) for s in loc] + [Return()]))
    for order in (1, -1):
        call = Expr(Call("f0", [Int(i) for i in range(np_)]))
        p = declare("a", mains, 5000) + [call] + declare("b", mains, 6000) + [call] + dump("a", mains) + dump("b", mains) + [Exit(Int(1))] + fs[::order]
        Unit(Prog(p), ctx).check(avm.Env())


def run_mix(case, ctx):
    _, a, b, c, d, order = case
    f = Func("f", [("p", "int")], [], declare("l", b, 500) + [If([(Bin("<", Var("p"), Int(2)), False, declare("k", c, 600) + dump("k", c))])] + dump("l", b) + [Log(Op("itob", [Var("p")])), Return()])
    g = Func("g", [], [], declare("m", c, 700) + [For("x", Int(0), Int(2), declare("n", d, 800) + [Expr(Call("f", [Var("x")]))] + dump("n", d))] + dump("m", c) + [Return()])
    main = declare("a", a, 100)
    main += [Expr(Call("f", [Int(1)])) if order & 1 else Expr(Call("g"))]
    main += [For("i", Int(0), Int(2), declare("b", b, 200) + [Expr(Call("g"))] + dump("b", b)), While(Bin("<", Var("cnt"), Int(1)), [Assign("cnt", Int(1))] + declare("c", c, 300) + [Expr(Call("f", [Int(5)]))] + dump("c", c))]
    main += declare("d", d, 400) + [Expr(Call("g"))] + dump("d", d) + dump("a", a)
    p = [Decl("int", "cnt", Int(0))] + main + [Exit(Int(1))] + ([f, g] if order & 2 else [g, f])
    Unit(Prog(p), ctx).check(avm.Env(), max_ticks=20000)


def run_blocks(case, ctx):
    _, a, b, c, form = case
    fin = lambda: dump("a", a) + [Log(Str("z")), Exit(Int(1))]
    if form == "jump":
        p = declare("a", a, 100) + [Jump("b1"), Block("b1", declare("b", b, 200) + [If([(cond(1), False, [Jump("b2")])])] + dump("b", b) + fin()), Block("b2", declare("c", c, 300) + [If([(cond(2), False, [Jump("b1")])])] + dump("c", c) + fin())]
    elif form == "switch":
        p = declare("a", a, 100) + [Switch(Op("balance", [Int(2)]), [(Int(0), "b1"), (Int(1), "b2")]), Block("b1", declare("b", b, 200) + dump("b", b) + fin()), Block("b2", declare("c", c, 300) + dump("c", c) + [Jump("b1")])]
    elif form == "nested":
        p = declare("a", a, 100) + [Jump("b1"), Block("b1", declare("b", b, 200) + [Jump("b2"), Block("b2", declare("c", c, 300) + dump("b", b) + [For("i", Int(0), Int(2), declare("d", 2, 900) + dump("d", 2))] + dump("c", c) + fin())])]
    else:
        p = declare("a", a, 100) + [Jump("b1"), Block("b1", declare("b", b, 200) + [Expr(Call("f")), Expr(Call("g"))] + dump("b", b) + fin() + [Func("f", [], [], declare("c", c, 300) + [Expr(Call("g"))] + dump("b", b) + dump("c", c) + [Return()])]),
                                   Func("g", [], [], declare("e", 2, 900) + dump("e", 2) + [Return()])]
    Unit(Prog(p), ctx).check_dfs(4)


RUN = {"hist": run_hist, "limit": run_limit, "funcs": run_funcs, "mix": run_mix, "blocks": run_blocks}


def run_case(case, ctx):
    RUN[case[0]](case, ctx)
    if ctx.n % 307 == 1:
        ctx.sample({"case": repr(case)})
