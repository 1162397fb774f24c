"""A common prelude (constants, variables, struct, box, functions) and expressions of every kind over it."""
from .ref import (Assert, Assign, Bin, Block, BoxDecl, Break, Call, Const, ConstDef, Decl, EnumC, Exit, Expr, Fld, For, Func, Grp, If,
                  InnerTxn, Int, Jump, Log, Op, Prog, Return, SF, SetField, Std, Str, Struct, Switch, Un, Var, While)
from . import avm

S1 = Struct("S1", [("fi", "int"), ("fb", "bytes[4]"), ("fu", "uint8")])

FUNCS = [
    Func("fi", [("p", "int")], ["int"], [Log(Str("fi")), Return(Bin("+", Var("p"), Int(1)))]),
    Func("fj", [("p", "int"), ("q", "int")], ["int"], [Log(Str("fj")), Log(Op("itob", [Var("p")])), Return(Bin("+", Bin("*", Var("p"), Int(10)), Var("q")))]),
    Func("fb", [("p", "bytes")], ["bytes"], [Log(Str("fb")), Return(Op("concat", [Var("p"), Str("!")]))]),
    Func("fz", [], ["int"], [Log(Str("fz")), Return(Int(0))]),
    Func("fl", [("p", "int")], [], [Log(Op("itob", [Var("p")])), Return()]),
]


def prelude(init=True):
    """constants and variables; values come from the application arguments"""
    a = lambda k: Fld("Txn", "ApplicationArgs", Int(k))
    return [ConstDef("int", "KI", "7", 7), ConstDef("bytes", "KB", '"kb"', b"kb"),
            Decl("int", "iv", Op("btoi", [a(0)])),
            Decl("bytes", "bv", a(1)),
            Decl("int", "ia", Int(0)), Decl("bytes", "ba", Str("")),
            Decl("S1", "st", Op("bzero", [Int(13)])),
            SetField("st", "fi", Op("btoi", [a(2)])), SetField("st", "fb", Str("wxyz")), SetField("st", "fu", Int(5)),
            BoxDecl("S1", "bx", Str("k"), "Create"),
            SetField("bx", "fi", Int(9)), SetField("bx", "fb", Str("BOXF"))]


def int_atoms():
    iv, bv = Var("iv"), Var("bv")
    return [("lit", Int(3)), ("zero", Int(0)), ("var", iv), ("const", Const("KI")), ("enum", EnumC("OptIn")),
            ("txn", Fld("Txn", "Fee")), ("gtxn", Fld("Gtxn", "Fee", g=Int(1))), ("gtxnx", Fld("Gtxn", "Fee", g=iv)),
            ("gtxnp", Fld("Gtxn", "Fee", g="+1")), ("gtxnm", Fld("Gtxn", "Fee", g="-1")), ("global", Fld("Global", "MinTxnFee")),
            ("sfield", SF("st", "fi")), ("sfieldu", SF("st", "fu")), ("bfield", SF("bx", "fi")),
            ("op1", Op("btoi", [Str("\x01\x02", "\\x01\\x02")])), ("op2", Op("getbyte", [bv, Int(0)])), ("oplen", Op("len", [bv])),
            ("opimm", Op("extract_uint16", [Str("abc"), Int(1)])),
            ("call1", Call("fi", [iv])), ("call2", Call("fj", [iv, Int(4)])), ("call0", Call("fz")),
            ("std", Std("SizeOf", "S1")), ("stdcast", Std("Cast", iv, "uint8")), ("stdfb", Std("FromBytes", Str("\x01\x02", "\\x01\\x02"), "int")),
            ("bin", Bin("-", Int(9), iv)), ("bin2", Bin("-", Bin("-", Int(20), iv), Bin("-", Int(5), Int(3)))),
            ("not", Un("!", iv)), ("inv", Un("~", iv)), ("cmpb", Bin("b<", bv, Str("b"))), ("eqb", Bin("==", bv, Str("kb"))),
            ("nest", Bin("+", Call("fi", [Bin("*", Int(2), Call("fz"))]), Op("len", [Op("concat", [bv, Const("KB")])])))]


def bytes_atoms():
    iv, bv = Var("iv"), Var("bv")
    return [("blit", Str("hello")), ("bempty", Str("")), ("bvar", bv), ("bconst", Const("KB")), ("btxn", Fld("Txn", "Sender")),
            ("bargs", Fld("Txn", "ApplicationArgs", Int(1))), ("bargsx", Fld("Txn", "ApplicationArgs", Bin("+", iv, Int(0)))),
            ("bgargs", Fld("Gtxn", "ApplicationArgs", Int(1), g=Int(1))), ("bgargsx", Fld("Gtxn", "ApplicationArgs", iv, g=Bin("+", iv, Int(1)))),
            ("bgargsm", Fld("Gtxn", "ApplicationArgs", iv, g=Int(1))), ("bgargsn", Fld("Gtxn", "ApplicationArgs", Int(2), g="-1")),
            ("bglobal", Fld("Global", "ZeroAddress")),
            ("bsfield", SF("st", "fb")), ("bbfield", SF("bx", "fb")),
            ("bop", Op("itob", [iv])), ("bop2", Op("concat", [bv, Str("x")])), ("bop3", Op("substring3", [Str("abcdef"), Int(1), Int(4)])),
            ("bopimm", Op("extract", [Str("abcdef")], [1, 3])), ("bhash", Op("sha256", [bv])),
            ("bcall", Call("fb", [bv])), ("bstd", Std("Concat", bv, Str("-"), Const("KB"))), ("bpad", Std("Rpad", Str("ab"), Int(5))),
            ("bconv", Std("Convert", iv, "bytes[3]")), ("bbin", Bin("b+", bv, Str("\x01", "\\x01"))),
            ("bbin2", Bin("b-", Bin("b*", bv, Str("\x05", "\\x05")), Bin("b/", bv, Str("\x02", "\\x02")))), ("binv", Un("b~", bv)),
            ("bcall2", Call("fb", [Op("concat", [Call("fb", [bv]), Op("itob", [Call("fi", [iv])])])]))]


def env(i0=1, b1=b"kb", i2=2, **kw):
    """three application arguments and a group whose members differ in every field used"""
    group = {g: {"ApplicationArgs": [b"g%d-%d" % (g, k) for k in range(6)]} for g in range(16)}
    return avm.Env(args=[i0.to_bytes(8, "big"), b1, i2.to_bytes(8, "big"), b"a3", b"a4", b"a5", b"a6", b"a7"],
                   group=group, group_index=3, **kw)


def envs(n=3):
    """a spread of argument values: small indices, equality with constants, zero, extremes"""
    out = [env(1, b"kb", 2), env(0, b"a", 0), env(2, b"\xff\xff", 2**64 - 1), env(7, b"", 5), env(255, b"b" * 9, 1), env(2**64 - 1, b"\0\0", 3)]
    return out[:n]


def show(e, t):
    return Log(Op("itob", [e])) if t == "i" else Log(e)


# ------------------------------------------------------------------ locations
def in_loc(loc, stmts, tail=()):
    """a program executing stmts at the given place, then logging z and approving"""
    end = [Log(Str("z")), Exit(Int(1))]
    pre = prelude()
    fs = FUNCS
    if loc not in ("block", "func"):
        fs = list(tail) + FUNCS
    if loc == "main":
        return Prog(pre + stmts + end + fs, [S1])
    if loc == "if":
        return Prog(pre + [If([(Bin("<", Int(1), Int(2)), False, stmts)], [Log(Str("else"))])] + end + fs, [S1])
    if loc == "else":
        return Prog(pre + [If([(Bin(">", Int(1), Int(2)), False, [Log(Str("then"))])], stmts)] + end + fs, [S1])
    if loc == "elif":
        return Prog(pre + [If([(Bin(">", Int(1), Int(2)), False, [Log(Str("then"))]), (Int(1), False, stmts)])] + end + fs, [S1])
    if loc == "while":
        return Prog(pre + [Decl("int", "wn", Int(0)), While(Bin("<", Var("wn"), Int(2)), stmts + [Assign("wn", Bin("+", Var("wn"), Int(1)))])] + end + fs, [S1])
    if loc == "for":
        return Prog(pre + [For("fx", Int(0), Int(2), stmts)] + end + fs, [S1])
    if loc == "for_":
        return Prog(pre + [For(None, Int(0), Int(2), stmts)] + end + fs, [S1])
    if loc == "block":
        return Prog(pre + [Jump("blk"), Block("blk", stmts + end + list(tail))] + fs, [S1])
    if loc == "func":
        # functions may read but not assign variables of the program: they get their own
        return Prog([ConstDef("int", "KI", "7", 7), ConstDef("bytes", "KB", '"kb"', b"kb"), Expr(Call("loc"))] + end +
                    [Func("loc", [], [], pre[2:] + stmts + [Return()] + list(tail))] + fs, [S1])
    raise AssertionError(loc)


LOCS = ("main", "if", "else", "elif", "while", "for", "for_", "block", "func")
