"""C06: the router.  Every signature over all parameter types with fitting and unfitting raw arguments, every result
list, every choice of listed/public functions and every call (selector, completion action, application id, arguments)."""
from itertools import combinations, permutations, product

from ..ref import (Assign, Bin, Block, Call, Decl, Exit, Expr, Fld, For, Func, If, Int, Jump, Log, Op, Prog, Return, Router, Std, Str, Struct, Var, While, Assert, SF)
from ..h import Unit, cond
from .. import avm

ID = "C06"
LEVEL = "model_checking"
TECHNIQUE = ("explicit-state model checking: all router programs over bounded signatures and all application calls over a finite domain, "
             "executed from the real compiler's output on an AVM model and compared with a direct interpreter of the router")
NOTE = ("Complete for up to 3 parameters (2 over all 8 types), 3 results and 3 functions, all 7 completion attributes x 6 actions x 2 application "
        "ids, argument lengths around every boundary. Integers are decoded with btoi, so leading zeros are accepted.")
RULE = "signatures x raw argument values; result types; listed/public subsets x calls; placements; distinct = distinct source programs"
ASSUMPTIONS = ["AVM model of mc/avm.py", "integers returned by public functions are encoded as 8 bytes"]

S = Struct("Pt", [("x", "int"), ("y", "bytes[4]")])
RAW = {"int": [b"", b"\0", b"\5", b"\1\0", b"\0" * 7 + b"\x09", b"\xff" * 8, b"\0" * 9, b"\1" + b"\0" * 8],
       "uint64": [b"\7", b"\xff" * 8, b"\0" * 9],
       "uint8": [b"", b"\0", b"\xff", b"\0\xff", b"\1\0", b"\0" * 7 + b"\x07", b"\0" * 9],
       "bytes": [b"", b"x", b"hello world" * 3],
       "bytes[4]": [b"", b"abc", b"abcd", b"abcde"],
       "addr": [b"", b"a" * 31, b"a" * 32, b"a" * 33],
       "bigint": [b"", b"\1\0\0\0\0\0\0\0\0"],
       "Pt": [b"p" * 11, b"p" * 12, b"p" * 13],
       "uint8[3]": [b"ab", b"abc", b"abcd"]}
# one fitting and one unfitting value for the larger products
SHORT = {t: v for t, v in {"int": [b"\5", b"\0" * 9], "uint8": [b"\xfe", b"\1\0"], "bytes": [b"zz"], "bytes[4]": [b"wxyz", b"wxy"], "addr": [b"q" * 32, b"q" * 20], "Pt": [b"r" * 12, b"r"]}.items()}
OCS = [None, "NoOp", "OptIn", "CloseOut", "ClearState", "UpdateApplication", "DeleteApplication", "CreateApplication"]
MARK = bytes.fromhex("151f7c75")


def families(tier):
    q = tier == "quick"
    return [("p1", {}), ("p2", {"shards": 64}), ("p3", {"types": ("int", "bytes", "uint8", "bytes[4]") if q else tuple(SHORT)}), ("results", {"n": 3}),
            ("select", {}), ("oc", {}), ("oc2", {}), ("place", {}), ("names", {}), ("many", {"n": (1, 2, 3, 8, 20) if q else (1, 2, 3, 8, 20, 60)}), ("bad", {})]


def cases(fam, p):
    if fam == "p1":
        for t in RAW:
            for rt in ("int", "bytes", None):
                yield ("params", (t,), rt, 1)
    elif fam == "p2":
        for a, b in product(RAW, repeat=2):
            yield ("params", (a, b), "int", 1)
    elif fam == "p3":
        for ts in product(p["types"], repeat=3):
            yield ("params", ts, None, 0)
    elif fam == "results":
        for n in range(p["n"] + 1):
            for rt in product(("int", "bytes", "uint8", "bytes[4]"), repeat=n):
                yield ("results", rt)
    elif fam == "select":
        fs = ("f", "g", "h")
        for pub in product((0, 1), repeat=3):
            for n in range(1, 4):
                for listed in permutations(fs, n):
                    yield ("select", pub, listed)
    elif fam == "oc":
        for oc in OCS:
            for oc2 in OCS:
                yield ("oc", oc, oc2)
    elif fam == "oc2":
        for oc in OCS:
            for order in (0, 1):
                yield ("oc3", oc, order)
    elif fam == "place":
        for k in ("main", "after", "if", "else", "while", "for", "for_", "block", "func", "switch", "funcfor_"):
            for np_ in (0, 1, 2):
                yield ("place", k, np_)
    elif fam == "names":
        for a, b in combinations(NAMES, 2):
            yield ("names", a, b)
    elif fam == "many":
        for n in p["n"]:
            yield ("many", n)
    elif fam == "bad":
        for k in ("notpublic", "unknown", "mixed", "oc", "ocempty", "param", "lower", "dup"):
            yield ("bad", k)


NAMES = ["a1", "a", "ab", "A", "a_b", "a__b", "transfer", "transfer2", "trans", "x9", "_u", "Zed", "create"]


def shp(n, t):
    return Log(Op("itob", [Var(n)])) if t in ("int", "uint8", "uint64") else Log(Var(n))


def run_params(case, ctx):
    _, ts, rt, full = case
    ps = [(f"p{i}", t) for i, t in enumerate(ts)]
    body = [Log(Str("f"))] + [shp(n, t) for n, t in ps]
    if rt == "int":
        rets, ret = ["int"], Return(Int(42))
    elif rt == "bytes":
        rets, ret = ["bytes"], Return(Var("p0") if ts[0] == "bytes" else Str("res"))
    else:
        rets, ret = [], Return()
    f = Func("f", ps, rets, body + [ret], public="")
    u = Unit(Prog([Router(["f"]), f], [S]), ctx, key=f"params:{','.join(ts)}:{rt}")
    for vals in product(*[(RAW if full else SHORT)[t] for t in ts]):
        if not u.check(avm.Env(args=[b"f", *vals], fields={"OnCompletion": 0, "ApplicationID": 5})):
            return
    good = [SHORT.get(t, RAW[t])[0] if t not in ("uint64", "uint8[3]", "bigint") else RAW[t][1] for t in ts]
    # too few and surplus arguments
    for k in range(len(ts)):
        u.check(avm.Env(args=[b"f", *good[:k]], fields={"OnCompletion": 0, "ApplicationID": 5}))
    u.check(avm.Env(args=[b"f", *good, b"extra"], fields={"OnCompletion": 0, "ApplicationID": 5}))


def run_results(case, ctx):
    _, rt = case
    vals = {"int": lambda i: Int(700 + i), "bytes": lambda i: Str("r%d" % i * (i + 1)), "uint8": lambda i: Int(200 + i), "bytes[4]": lambda i: Str("f%03d" % i)}
    f = Func("f", [("x", "int")], list(rt), [Return(*[vals[t](i) for i, t in enumerate(rt)])], public="")
    g = Func("g", [("x", "bytes")], [], [Log(Var("x")), Return()], public="")
    u = Unit(Prog([Router(["g", "f"]), g, f], [S]), ctx)
    for sel in (b"f", b"g", b"h"):
        u.check(avm.Env(args=[sel, b"\5"], fields={"OnCompletion": 0, "ApplicationID": 5}))


def run_select(case, ctx):
    _, pub, listed = case
    fs = {n: Func(n, [("x", "int")] if n == "f" else [], ["int"] if n != "h" else [],
                  [Log(Str("in " + n)), Return(*([Int(ord(n))] if n != "h" else []))], public="" if pub[i] else None) for i, n in enumerate("fgh")}
    ok = all(pub["fgh".index(n)] for n in listed)
    u = Unit(Prog([Router(list(listed)), fs["f"], fs["g"], fs["h"]]), ctx, expect="ok" if ok else "refused", key=f"select:{pub}:{listed}")
    if not ok:
        return
    for sel in (b"f", b"g", b"h", b"F", b"", b"ff", b"f\0", b" f", b"fgh", b"__func__f", b"route_f"):
        for oc in range(6):
            for app in (0, 5):
                if not u.check(avm.Env(args=[sel, b"\1", b"\2"], fields={"OnCompletion": oc, "ApplicationID": app})):
                    return
    u.check(avm.Env(args=[], fields={"OnCompletion": 0, "ApplicationID": 5}))


def pubtext(oc):
    return "" if oc is None else f"OnCompletion={oc}"


def run_oc(case, ctx):
    _, oc, oc2 = case
    f = Func("f", [], ["int"], [Log(Str("f")), Return(Int(1))], public=pubtext(oc))
    g = Func("g", [("x", "bytes")], [], [Log(Str("g")), Return()], public=pubtext(oc2))
    u = Unit(Prog([Router(["f", "g"]), f, g]), ctx)
    for sel in (b"f", b"g"):
        for o in range(6):
            for app in (0, 1, 5):
                if not u.check(avm.Env(args=[sel, b"\1"], fields={"OnCompletion": o, "ApplicationID": app})):
                    return


def run_oc3(case, ctx):
    """the other functions stay with their own action whatever the order of declaration"""
    _, oc, order = case
    fs = [Func("f", [], [], [Log(Str("f")), Return()], public=pubtext(oc)), Func("g", [], [], [Log(Str("g")), Return()], public=""),
          Func("h", [], [], [Log(Str("h")), Return()]), Func("k", [], [], [Expr(Call("h")), Log(Str("k")), Return()], public="OnCompletion=OptIn")]
    names = ["f", "g", "k"]
    if order:
        fs, names = fs[::-1], names[::-1]
    u = Unit(Prog([Router(names)] + fs), ctx)
    for sel in (b"f", b"g", b"h", b"k"):
        for o in range(6):
            for app in (0, 5):
                u.check(avm.Env(args=[sel], fields={"OnCompletion": o, "ApplicationID": app}))


def run_place(case, ctx):
    _, k, n = case
    ps = [("x", "int"), ("y", "bytes")][:n]
    f = Func("f", ps, ["int", "bytes"], [Log(Str("f"))] + [shp(a, t) for a, t in ps] + [Return(Int(4), Str("rr"))], public="")
    g = Func("g", [], [], [Log(Str("g")), Return()], public="OnCompletion=OptIn")
    R = Router(["f", "g"])
    fs = [f, g]
    after = [Log(Str("after")), Exit(Int(1))]
    p = {"main": lambda: [R], "after": lambda: [Decl("int", "q", Int(3)), Assert(Var("q")), Log(Str("pre")), R],
         "if": lambda: [If([(cond(1), False, [R])])] + after, "else": lambda: [If([(cond(1), False, [Log(Str("t"))])], [R])] + after,
         "while": lambda: [While(cond(1), [Log(Str("w")), R])] + after, "for": lambda: [For("i", Int(0), Int(2), [If([(cond(1), False, [R])])])] + after,
         "for_": lambda: [For(None, Int(0), Int(2), [If([(cond(1), False, [R])])])] + after,
         "block": lambda: [Jump("b"), Block("b", [R])], "func": lambda: [Expr(Call("rr"))] + after,
         "funcfor_": lambda: [Log(Op("itob", [Bin("+", Int(5), Call("rs", [Int(8)]))]))] + after,
         "switch": lambda: [If([(cond(1), False, [Jump("b")])]), Jump("c"), Block("c", after), Block("b", [R])]}[k]()
    if k == "func":
        fs.append(Func("rr", [], [], [If([(cond(1), False, [R])]), Return()]))
    if k == "funcfor_":
        fs.append(Func("rs", [("a", "int")], ["int"], [For(None, Int(0), Int(2), [If([(cond(1), False, [R])])]), Return(Var("a"))]))
    u = Unit(Prog(p + fs), ctx, key=f"place:{k}:{n}")
    for sel, oc in product((b"f", b"g", b"zz"), (0, 1)):
        u.check_dfs(3, env=dict(args=[sel, b"\6", b"bb"], fields={"OnCompletion": oc, "ApplicationID": 5}))


def run_names(case, ctx):
    _, a, b = case
    fs = [Func(a, [], [], [Log(Str("first")), Return()], public=""), Func(b, [("x", "int")], ["int"], [Log(Str("second")), Return(Var("x"))], public="")]
    u = Unit(Prog([Router([b, a])] + fs), ctx)
    for sel in (a, b, a + b, a.upper(), a[:-1]):
        u.check(avm.Env(args=[sel.encode(), b"\6"], fields={"OnCompletion": 0, "ApplicationID": 5}))


def run_many(case, ctx):
    _, n = case
    T = ["int", "bytes", "uint8", "bytes[4]"]
    fs = [Func(f"m{i}", [(f"x{i}", T[i % 4])], [T[(i + 1) % 4]] if i % 3 else [], [shp(f"x{i}", T[i % 4]), Return(*([[Int(i), Str("q%d" % i), Int(i), Str("s%03d" % i)][(i + 1) % 4]] if i % 3 else []))],
               public=pubtext(OCS[i % 7])) for i in range(n)]
    u = Unit(Prog([Router([f.name for f in fs][::-1])] + fs), ctx)
    good = {"int": b"\1", "bytes": b"any", "uint8": b"\xff", "bytes[4]": b"abcd"}
    for i in range(n + 1):
        for oc in range(6):
            u.check(avm.Env(args=[b"m%d" % i, good[T[i % 4]]], fields={"OnCompletion": oc, "ApplicationID": 5}))


def run_bad(case, ctx):
    _, k = case
    f = lambda pub, **kw: Func("f", kw.get("ps", []), [], [Log(Str("f")), Return()], public=pub)
    p = {"notpublic": lambda: [Router(["f"]), f(None)], "unknown": lambda: [Router(["nope"]), f("")],
         "mixed": lambda: [Router(["f", "g"]), f(""), Func("g", [], [], [Return()])],
         "oc": lambda: [Router(["f"]), f("OnCompletion=Never")], "ocempty": lambda: [Router(["f"]), f("OnCompletion=")],
         "param": lambda: [Router(["f"]), f("Completion=OptIn")], "lower": lambda: [Router(["f"]), f("oncompletion=OptIn")],
         "dup": lambda: [Router(["f", "f"]), f("")]}[k]()
    Unit(Prog(p), ctx, expect="refused", key="bad:" + k)


RUN = {"params": run_params, "results": run_results, "select": run_select, "oc": run_oc, "oc3": run_oc3, "place": run_place, "names": run_names,
       "many": run_many, "bad": run_bad}


def run_case(case, ctx):
    RUN[case[0]](case, ctx)
    if ctx.n % 97 == 1:
        ctx.sample({"case": repr(case)})
