"""C10: sized conversions.  Every conversion x source type x target type, executed with every run-time value at and around
every size boundary; padding, concatenation, addresses and events; conversions in every position and in chains."""
import base64
from itertools import product

from ..ref import (Assert, Assign, Bin, BoxDecl, Call, Const, ConstDef, Decl, Exit, Expr, Fld, Func, If, Int, Log, Op, Prog, Raw, Return, SF, SetField, Std, Str, Struct,
                   Var, While, is_int, type_size)
from ..h import Unit, try_compile
from .. import atoms, avm, ref

ID = "C10"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of (conversion, source type, target type, run-time value) with every value class at and around the size "
             "boundaries; each is executed on the AVM model and compared with a reference semantics of the standard library")
NOTE = ("Complete for 17 target types, 14 source kinds, integers within +-1 of every power of 256 and byte strings of every length 0..40 and "
        "around 64, 255/256 and 4096. Integers wider than 64 bits only as bytes.")
RULE = "conversions x sources x targets x values; sizes x lengths; positions; chains of two conversions; distinct = distinct source programs"
ASSUMPTIONS = ["AVM model of mc/avm.py", "standard library semantics of docs/stdlib.rst as written in mc/ref.py (class Std)"]

ST = Struct("St", [("a", "int"), ("b", "bytes[4]"), ("c", "uint8")])
STRUCTS = {"St": ST}
TARGETS = ("int", "uint64", "uint8", "bytes", "bytes[1]", "bytes[2]", "bytes[4]", "bytes[7]", "bytes[8]", "bytes[9]", "bytes[13]", "bytes[32]", "bytes[64]", "addr", "bigint", "uint8[4]", "St")
# kind -> (family, declarations, expression); 'i' gets the integer input, 'b' the byte string input
A0, A1 = Fld("Txn", "ApplicationArgs", Int(0)), Fld("Txn", "ApplicationArgs", Int(1))
SOURCES = {
    "int": ("i", [Decl("int", "s", Op("btoi", [A0]))], Var("s")),
    "uint64": ("i", [Decl("uint64", "s", Op("btoi", [A0]))], Var("s")),
    "uint8": ("i", [Decl("uint8", "s", Std("Cast", Op("btoi", [A0]), "uint8"))], Var("s")),
    "opint": ("i", [], Op("btoi", [A0])),
    "binint": ("i", [], Bin("+", Op("btoi", [A0]), Int(0))),
    "bytes": ("b", [Decl("bytes", "s", A1)], Var("s")),
    "bytes4": ("b", [Decl("bytes[4]", "s", Std("Cast", A1, "bytes[4]"))], Var("s")),
    "bytes8": ("b", [Decl("bytes[8]", "s", Std("Cast", A1, "bytes[8]"))], Var("s")),
    "bytes13": ("b", [Decl("bytes[13]", "s", Std("Cast", A1, "bytes[13]"))], Var("s")),
    "addr": ("b", [Decl("addr", "s", Std("Cast", A1, "addr"))], Var("s")),
    "bigint": ("b", [Decl("bigint", "s", A1)], Var("s")),
    "struct": ("b", [Decl("St", "s", Std("Cast", A1, "St"))], Var("s")),
    "field": ("b", [], A1),
    "anyint": ("ai", [], Op("app_global_get", [Str("i")])),
    "anybytes": ("ab", [], Op("app_global_get", [Str("b")])),
}


def ints():
    v = {0, 1, 2, 127, 128}
    for k in range(1, 9):
        for d in (-1, 0, 1):
            x = 256 ** k + d
            if 0 <= x < 2 ** 64:
                v.add(x)
    return sorted(v | {2 ** 63, 2 ** 64 - 1})


def strings(full):
    ls = list(range(0, 41)) + [63, 64, 65] if full else list(range(0, 15)) + [31, 32, 33, 63, 64, 65]
    out = []
    for n in ls:
        out.append(bytes((7 * n + i) % 255 + 1 for i in range(n)))
        if n:
            out.append(bytes(n))
            out.append(b"\0" + bytes([255]) * (n - 1))
    return out


def show(e, t):
    return [Log(Op("itob", [e]))] if is_int(t) else [Log(e), Log(Op("itob", [Op("len", [e])]))]


def oracle_for(i, b):
    def oracle(m, op, imm, args):
        if op == "app_global_get":
            return [i if args[0] == b"i" else b]
        if op == "app_global_get_ex":
            return [b if args[1] == b"b" else i, 1]
        if op == "app_local_get_ex":
            return [b if args[2] == b"b" else i, 1]
        return None
    return oracle


def env(i, b):
    return avm.Env(args=[i.to_bytes(8, "big"), b, b"x", b"y"], oracle=oracle_for(i, b), boxes={b"k": b})


def families(tier):
    q = tier == "quick"
    return [("conv", {"full": not q, "shards": 64}), ("fixed", {"shards": 64}), ("pad", {"full": not q, "shards": 64}), ("concat", {"shards": 32}), ("address", {}), ("event", {}), ("sizeof", {}), ("multi", {"shards": 32}),
            ("place", {"shards": 64}), ("chain", {"shards": 64, "full": not q}), ("hold", {"shards": 64}), ("bad", {})]


def cases(fam, p):
    if fam == "conv":
        for f in ("Cast", "Convert", "EnsureType", "FromBytes", "UncheckedCast"):
            for s in SOURCES:
                for t in TARGETS:
                    yield ("conv", f, s, t, p["full"])
    elif fam == "fixed":
        for s in FIXED:
            for f in ("Cast", "Convert", "EnsureType", "FromBytes"):
                for t in TARGETS:
                    yield ("fixed", f, s, t)
            for f in ("Rpad", "Lpad", "ToBytes"):
                for n in (1, 2, 3, 4, 7, 8, 9, 13):
                    yield ("fixed", f, s, n)
    elif fam == "pad":
        for f in ("Rpad", "Lpad", "ToBytes"):
            for s in SOURCES:
                for n in (1, 2, 3, 4, 7, 8, 9, 13, 16, 32, 64) + (() if f == "ToBytes" else (0, 5, 6, 40, 255, 256, 1000, 4096)):
                    for how in ("lit", "const", "sizeof"):
                        if how == "sizeof" and n != 13:
                            continue
                        yield ("pad", f, s, n, how, p["full"])
    elif fam == "concat":
        for n in range(1, 6):
            for srcs in product(("bytes", "bytes4", "lit", "const", "call"), repeat=min(n, 3)):
                yield ("concat", n, srcs)
        for a, b in ((0, 0), (1, 4095), (4095, 1), (2048, 2048), (2048, 2049), (4096, 0), (4096, 1), (0, 4096), (4000, 97), (3000, 1096)):
            yield ("concatlen", a, b)
    elif fam == "address":
        for k in range(6):
            for bad in ("", "flip", "short", "long", "lower", "space", "pad", "csum", "empty", "inner"):
                for how in ("lit", "const"):
                    yield ("address", k, bad, how)
    elif fam == "event":
        for sig in ("a()", "set_manager(address)", "Swapped(uint64,uint64,byte[])", "x(string)", "e\\x00(uint64)", "é(uint64)", "q\\\"(byte)", "n\\n()", "", "#c()", "//c()", "ev(uint64) # x"):
            for n in range(4):
                for how in ("lit", "const"):
                    yield ("event", sig, n, how)
    elif fam == "sizeof":
        for t in TARGETS + ("In2", "Deep", "bytes[255]", "bytes[256]", "bytes[4096]", "uint8[300]"):
            for use in ("log", "arith", "bzero", "cond", "arg", "idx", "pad", "ret"):
                yield ("sizeof", t, use)
    elif fam == "multi":
        T = ("int", "uint8", "bytes", "bytes[4]", "bytes[8]", "addr", "uint64", "St")
        for f in ("EnsureType", "UncheckedCast"):
            for src in ("getex", "getexi", "boxget", "addw", "call", "localex"):
                for t1, t2 in product(T, repeat=2):
                    yield ("multi", f, src, t1, t2)
            for ts in product(("int", "uint8"), repeat=4):
                yield ("multi4", f, ts)
    elif fam == "place":
        for loc in ("decl", "assign", "arg", "ret", "field", "bfield", "opnd", "cond", "while", "index", "log", "const-if", "nestedarg", "itxn", "key", "exit"):
            for f, t in (("Cast", "uint8"), ("Cast", "bytes[4]"), ("Cast", "St"), ("Cast", "addr"), ("Convert", "bytes[4]"), ("Convert", "bytes[9]"), ("Convert", "bytes"), ("Convert", "uint8"), ("Convert", "int"), ("EnsureType", "bytes[4]"),
                         ("EnsureType", "uint8"), ("EnsureType", "int"), ("FromBytes", "int"), ("Rpad", "5"), ("Lpad", "5"), ("ToBytes", "3"), ("UncheckedCast", "bytes[4]")):
                yield ("place", loc, f, t)
    elif fam == "chain":
        steps = [(f, t) for f in ("Cast", "Convert", "EnsureType") for t in ("int", "uint8", "bytes", "bytes[2]", "bytes[8]", "bigint")] + [("Rpad", "4"), ("Lpad", "9"), ("ToBytes", "4"), ("FromBytes", "int")]
        for s in ("int", "bytes", "anyint", "anybytes"):
            for a in steps:
                for b in steps:
                    yield ("chain", s, a, b, p["full"])
    elif fam == "hold":
        for t in ("uint8", "bytes[1]", "bytes[4]", "addr", "St", "uint8[4]", "bytes[13]"):
            for via in ("decl", "assign", "param", "return", "field", "box", "loop", "two", "ensure", "rpad", "convert"):
                yield ("hold", t, via)
    elif fam == "bad":
        for src in BAD:
            yield ("bad", src)


BAD = ['bytes z = Rpad("a", v)', 'bytes z = Lpad("a", v)', "bytes z = ToBytes(v, v)", 'bytes z = Rpad("a", "b")', "bytes z = Address(w)", "bytes z = ARC28Event(w)", "int z = SizeOf(Nope)", "int z = Cast(w, Nope)",
       "int z = Convert(w, bytes[4])", "bytes z = Convert(v, int)", "int z = Cast(w, int)", "bytes z = Cast(v, bytes)", "bytes z = Cast(v, bytes[8])", "int z = FromBytes(v, int)", "bytes z = Rpad(v, 4)", "bytes z = ToBytes(w, 4)", "bytes z = Lpad(v, 8)",
       "bytes[4] z = Cast(w, bytes[5])", "bytes[5] z = Rpad(w, 4)", "uint8 z = Cast(v, int)", "bytes[8] z = Convert(v, bytes[4])", "uint8 z = EnsureType(v, int)", "bytes[4] z = Concat(w, w)", "addr z = Cast(w, bytes[31])",
       "int z = EnsureType(v, int, int)", "int z = Concat(w)", "int z = Rpad(w, 3)", "uint8 z = SizeOf(bytes[4])", "St z = Cast(w, bytes[12])", "bytes[3] z = ToBytes(v, 4)"]


def must_accept(f, s, t):
    fam = SOURCES[s][0]
    ti = is_int(t)
    if f == "Cast":
        return fam[0] == "a" or (fam == "i") == ti
    if f == "Convert":
        return fam in "ib" and (fam == "i") != ti
    if f == "FromBytes":
        return fam == "b"
    return f == "EnsureType"


def values(fam, full):
    """run-time inputs that matter for a source family"""
    if fam in ("i", "ai"):
        return [(i, b"bbbb") for i in ints()]
    return [(5, b) for b in strings(full)]


def source_ok(s, i, b):
    """inputs for which the declaration of the source succeeds"""
    return True


def run_conv(case, ctx):
    _, f, s, t, full = case
    fam, decl, e = SOURCES[s]
    conv = Std(f, e, t)
    rt = "int" if f == "FromBytes" and is_int(t) else t
    body = list(decl) + [Decl(rt, "z", conv), Log(Str("m"))] + show(Var("z"), rt) + [Exit(Int(1))]
    p = Prog(body, [ST])
    key = f"conv:{f}:{s}:{t}"
    if not must_accept(f, s, t):
        if try_compile(p.source())[0] != "ok":
            ctx.count("refused")
            return
        # an unchecked cast to the other kind of value has no run-time meaning to compare
        if f == "UncheckedCast" and (fam[-1] == "i") != is_int(t):
            return
    u = Unit(p, ctx, key=key)
    vals = values(fam, full)
    if fam in ("ai", "ab"):     # a value of the other kind: stored values are untyped
        u2 = {"ai": "b", "ab": "i"}[fam]
    for i, b in vals:
        if not u.check(env(i, b)):
            return


def fixed_sources():
    """sources whose value or size the compiler knows: literals, constants, fields, results of functions and of other conversions"""
    out = {}
    for v in (0, 1, 255, 256, 300, 65535, 65536, 2 ** 24 - 1, 2 ** 32, 2 ** 63, 2 ** 64 - 1):
        out[f"lit{v}"] = ("i", [], [], Int(v), [])
        out[f"const{v}"] = ("i", [ConstDef("int", "KI", str(v), v)], [], Const("KI"), [])
    for n in (1, 2, 3, 4, 5, 7, 8, 9, 13, 31, 32, 33):
        b = (b"abcdefghij" * 4)[:n]
        out[f"text{n}"] = ("b", [], [], Str(b), [])
        out[f"ktext{n}"] = ("b", [ConstDef("bytes", "KB", f'"{b.decode()}"', b)], [], Const("KB"), [])
        out[f"khex{n}"] = ("b", [ConstDef("bytes", "KH", "0x" + (b"\0" + b)[:n].hex(), (b"\0" + b)[:n])], [], Const("KH"), [])
    out["empty"] = ("b", [], [], Str(b""), [])
    out["escaped"] = ("b", [], [], Str(b"\x00\n\xff4", "\\x00\\n\\xff4"), [])
    for v in (5, 255, 256, 2 ** 40):
        o = [Decl("Fx", "o", Op("bzero", [Int(FX.size)])), SetField("o", "i", Int(v)), SetField("o", "b", Str(b"fld4")), SetField("o", "u", Int(v % 256)), SetField("o", "s", Std("Rpad", Str(b"in"), Int(13)))]
        bo = [BoxDecl("Fx", "o", Str("bk"), "Create")] + o[1:]
        for w, d in (("st", o), ("bx", bo)):
            for fn, k in (("i", "i"), ("u", "i"), ("b", "b"), ("s", "b")):
                out[f"{w}{fn}{v}"] = (k, [], d, SF("o", fn), [])
        out[f"ret{v}"] = ("i", [], [], Call("rt"), [Func("rt", [], ["int"], [Return(Int(v))])])
        out[f"retu{v}"] = ("i", [], [], Call("rt"), [Func("rt", [], ["uint8"], [Return(Int(v % 256))])])
        out[f"sum{v}"] = ("i", [], [], Bin("+", Int(v), Int(v)), [])
    out["ret4"] = ("b", [], [], Call("rt"), [Func("rt", [], ["bytes[4]"], [Return(Str(b"ret4"))])])
    out["retaddr"] = ("b", [], [], Call("rt"), [Func("rt", [], ["addr"], [Return(Std("Rpad", Str(b"ret4"), Int(32)))])])
    out["retbig"] = ("b", [], [], Call("rt"), [Func("rt", [], ["bigint"], [Return(Str(b"ret4"))])])
    out["sizeof"] = ("i", [], [], Std("SizeOf", "St"), [])
    out["sizeofbig"] = ("i", [], [], Std("SizeOf", "bytes[300]"), [])
    out["bzero4"] = ("b", [], [], Op("bzero", [Int(4)]), [])
    out["bzero300"] = ("b", [], [], Op("bzero", [Int(300)]), [])
    out["itob"] = ("b", [], [], Op("itob", [Int(300)]), [])
    out["concat"] = ("b", [], [], Std("Concat", Str("ab"), Str("cd")), [])
    out["bcmp"] = ("i", [], [], Bin("b==", Str("ab"), Str("ab")), [])
    out["badd"] = ("b", [], [], Bin("b+", Str("ab"), Str("ab")), [])
    out["fee"] = ("i", [], [], Fld("Txn", "Fee"), [])
    out["sender"] = ("b", [], [], Fld("Txn", "Sender"), [])
    out["note"] = ("b", [], [], Fld("Txn", "Note"), [])
    return out


FX = Struct("Fx", [("i", "int"), ("b", "bytes[4]"), ("u", "uint8"), ("s", "St")], STRUCTS)
FIXED = fixed_sources()


def run_fixed(case, ctx):
    _, f, s, t = case
    fam, consts, decl, e, fs = FIXED[s]
    if f in ("Rpad", "Lpad", "ToBytes"):
        conv, rt = Std(f, e, Int(t)), f"bytes[{t}]"
        ok = (fam == "b") if f != "ToBytes" else (fam == "i" or s == "retbig")
    else:
        conv, rt = Std(f, e, t), "int" if f == "FromBytes" and is_int(t) else t
        ok = must_accept2(f, fam, t)
    body = list(consts) + list(decl) + [Decl(rt, "z", conv), Log(Str("m"))] + show(Var("z"), rt) + [Exit(Int(1))] + fs
    p = Prog(body, [ST, FX])
    if not ok and try_compile(p.source())[0] != "ok":
        ctx.count("refused")
        return
    u = Unit(p, ctx, key=f"fixed:{f}:{s}:{t}")
    for fee, note in ((0, b""), (255, b"note"), (256, b"x" * 32), (2 ** 64 - 1, b"y" * 13)):
        if not u.check(avm.Env(fields={"Fee": fee, "Note": note, "Sender": bytes(range(32))})) or s not in ("fee", "note", "sender"):
            return


def must_accept2(f, fam, t):
    ti = is_int(t)
    if f == "Cast":
        return (fam == "i") == ti
    if f == "Convert":
        return (fam == "i") != ti
    if f == "FromBytes":
        return fam == "b"
    return f == "EnsureType"


def run_pad(case, ctx):
    _, f, s, n, how, full = case
    fam, decl, e = SOURCES[s]
    size = {"lit": Int(n), "const": Const("NN"), "sizeof": Std("SizeOf", "St")}[how]
    t = f"bytes[{n}]" if n else "bytes"
    body = [ConstDef("int", "NN", str(n), n)] + list(decl) + [Decl(t, "z", Std(f, e, size)), Log(Str("m"))] + [Log(Op("itob", [Op("len", [Var("z")])]))] + ([Log(Var("z"))] if n < 900 else [Log(Op("sha256", [Var("z")]))]) + [Exit(Int(1))]
    p = Prog(body, [ST])
    ok = (fam == "b") if f != "ToBytes" else (fam == "i" or s == "bigint")
    if not ok:
        if try_compile(p.source())[0] != "ok":
            ctx.count("refused")
            return
    u = Unit(p, ctx, key=f"pad:{f}:{s}:{n}:{how}")
    vals = values(fam, full)
    if fam == "b":
        vals = vals + [(5, b"q" * k) for k in (n - 1, n, n + 1) if k >= 0 and k <= 4096]
    for i, b in vals:
        if not u.check(env(i, b)):
            return


def run_concat(case, ctx):
    _, n, srcs = case
    mk = {"bytes": Var("b"), "bytes4": Var("b4"), "lit": Str("-L-"), "const": Const("KB"), "call": Call("f", [Var("b")])}
    args = [mk[srcs[i % len(srcs)]] for i in range(n)]
    body = [ConstDef("bytes", "KB", '"kb"', b"kb"), Decl("bytes", "b", A1), Decl("bytes[4]", "b4", Str("4444")), Decl("bytes", "z", Std("Concat", *args))] + show(Var("z"), "bytes") + \
           [Log(Op("concat", [Std("Concat", *args), Str(".")])), Exit(Int(1)), Func("f", [("q", "bytes")], ["bytes"], [Log(Str("f")), Return(Op("concat", [Var("q"), Str("!")]))])]
    u = Unit(Prog(body), ctx, key=f"concat:{n}:{srcs}")
    for b in (b"", b"a", b"xyz", b"\0" * 30):
        u.check(env(1, b))


def run_concatlen(case, ctx):
    _, a, b = case
    body = [Decl("bytes", "z", Std("Concat", Op("bzero", [Op("btoi", [A0])]), Op("bzero", [Op("btoi", [Fld("Txn", "ApplicationArgs", Int(2))])]))), Log(Op("itob", [Op("len", [Var("z")])])), Exit(Int(1))]
    u = Unit(Prog(body), ctx, key=f"concatlen:{a}:{b}")
    u.check(avm.Env(args=[a.to_bytes(8, "big"), b"", b.to_bytes(8, "big")]))


def encode_address(pk):
    return base64.b32encode(pk + avm.sha512_256(pk)[-4:]).decode().rstrip("=")


def run_address(case, ctx):
    _, k, bad, how = case
    pk = [bytes(32), b"\xff" * 32, bytes(range(32)), avm.sha512_256(b"x"), avm.sha512_256(b"y"), b"\x01" + bytes(31)][k]
    a = encode_address(pk)
    t = {"": a, "flip": a[:10] + ("B" if a[10] != "B" else "C") + a[11:], "short": a[:-1], "long": a + "A", "lower": a.lower() if a.lower() != a else a + "x", "space": a + " ", "pad": a + "======",
         "csum": a[:-2] + ("BA" if a[-2:] != "BA" else "CA"), "empty": "", "inner": a[:5] + "1" + a[6:]}[bad]
    if how == "const" and not t:
        return
    e = Str(t) if how == "lit" else Const("AD")
    body = ([ConstDef("bytes", "AD", f'"{t}"', t.encode())] if how == "const" else []) + [Decl("bytes", "z", Std("Address", e))] + show(Var("z"), "bytes") + [Log(Std("Address", e)), Exit(Int(1))]
    u = Unit(Prog(body), ctx, key=f"address:{k}:{bad}:{how}", expect="ok" if not bad else "refused")
    if not bad:
        u.check(avm.Env())


def run_event(case, ctx):
    from .c11 import decode
    _, sig, n, how = case
    v = decode(sig)
    e = Str(v, sig) if how == "lit" else Const("SG")
    if how == "const" and not sig:
        return
    args = [Var("b"), Op("itob", [Int(7)]), Str("lit")][:n]
    body = ([ConstDef("bytes", "SG", f'"{sig}"', v)] if how == "const" else []) + [Decl("bytes", "b", A1), Decl("bytes", "z", Std("ARC28Event", e, *args))] + show(Var("z"), "bytes") + [Log(Std("ARC28Event", e, *args)), Exit(Int(1))]
    u = Unit(Prog(body), ctx, key=f"event:{sig}:{n}:{how}")
    for b in (b"", b"payload", b"z" * 100):
        u.check(env(1, b))


IN2 = Struct("In2", [("s", "St"), ("n", "int")], STRUCTS)
DEEP = Struct("Deep", [("i", "In2"), ("j", "In2"), ("k", "uint8")], {"In2": IN2})


def run_sizeof(case, ctx):
    _, t, use = case
    s = Std("SizeOf", t)
    st = {"log": [Log(Op("itob", [s]))], "arith": [Log(Op("itob", [Bin("+", Bin("*", s, Int(2)), s)]))], "bzero": [Log(Op("itob", [Op("len", [Op("bzero", [s])])]))],
          "cond": [If([(Bin("<", s, Int(8)), False, [Log(Str("small"))]), (Bin("==", s, Int(8)), False, [Log(Str("eight"))])], [Log(Str("big"))])],
          "arg": [Log(Op("itob", [Call("f", [s])]))], "idx": [Log(Fld("Txn", "ApplicationArgs", Bin("%", s, Int(2))))], "pad": [Log(Op("itob", [Op("len", [Std("Rpad", Str("a"), s)])]))], "ret": [Log(Op("itob", [Call("g")]))]}[use]
    if use == "pad" and type_size(t, {"St": ST, "In2": IN2, "Deep": DEEP}) == 0:
        return
    fs = [Func("f", [("p", "int")], ["int"], [Return(Bin("+", Var("p"), Int(1)))]), Func("g", [], ["int"], [Return(s)])]
    u = Unit(Prog(st + [Exit(Int(1))] + fs, [ST, IN2, DEEP]), ctx, key=f"sizeof:{t}:{use}")
    u.check(env(1, b"b"))


def run_multi(case, ctx):
    _, f, src, t1, t2 = case
    e = {"getex": Op("app_global_get_ex", [Int(0), Str("b")]), "getexi": Op("app_global_get_ex", [Int(0), Str("i")]), "boxget": Op("box_get", [Str("k")]), "addw": Op("addw", [Op("btoi", [A0]), Int(300)]),
         "call": Call("two"), "localex": Op("app_local_get_ex", [Int(0), Int(1), Str("b")])}[src]
    kinds = {"getex": "ib", "getexi": "ii", "boxget": "ib", "addw": "ii", "call": "ib", "localex": "ib"}[src]
    want = ("i" if is_int(t1) else "b") + ("i" if is_int(t2) else "b")
    body = [Decl(t1, "z1"), Decl(t2, "z2"), Assign(["z1", "z2"], Std(f, e, t1, t2)), Log(Str("m"))] + show(Var("z1"), t1) + show(Var("z2"), t2) + [Exit(Int(1)), Func("two", [], ["int", "bytes"], [Return(Op("btoi", [A0]), A1)])]
    p = Prog(body, [ST])
    if try_compile(p.source())[0] == "refused" and kinds != want:
        return
    if f == "UncheckedCast" and kinds != want:
        return
    u = Unit(p, ctx, key=f"multi:{f}:{src}:{t1}:{t2}")
    if f == "UncheckedCast" and u.asm is None:
        return
    for i in (0, 1, 255, 256, 2 ** 64 - 1):
        for n in (0, 3, 4, 5, 7, 8, 9, 13, 31, 32, 33):
            if not u.check(env(i, bytes(range(1, n + 1)))):
                return


def run_multi4(case, ctx):
    _, f, ts = case
    e = Op("divmodw", [Int(0), Op("btoi", [A0]), Int(0), Int(7)])
    body = [Decl(t, f"z{k}") for k, t in enumerate(ts)] + [Assign([f"z{k}" for k in range(4)], Std(f, e, *ts)), Log(Str("m"))]
    for k, t in enumerate(ts):
        body += show(Var(f"z{k}"), t)
    u = Unit(Prog(body + [Exit(Int(1))]), ctx, key=f"multi4:{f}:{ts}")
    for i in (0, 6, 7, 255 * 7, 255 * 7 + 6, 256 * 7, 2 ** 64 - 1):
        if not u.check(env(i, b"")):
            return


def run_place(case, ctx):
    _, loc, f, t = case
    src_int = (f in ("Cast", "EnsureType") and is_int(t)) or (f == "Convert" and not is_int(t)) or f == "ToBytes"
    e0 = Var("vi") if src_int else Var("vb")
    conv = Std(f, e0, targ(f, t))
    rt = f"bytes[{t}]" if f in ("Rpad", "Lpad", "ToBytes") else t
    ri = is_int(rt)
    val = (lambda e: Op("itob", [e]) if ri else e)
    pre = [Decl("int", "vi", Op("btoi", [A0])), Decl("bytes", "vb", A1)]
    fs = [Func("f", [("p", rt)], ["bytes"], [Log(Str("f")), Return(val(Var("p")))]), Func("g", [("pi", "int"), ("pb", "bytes")], [rt], [Log(Str("g")), Return(Std(f, Var("pi") if src_int else Var("pb"), targ(f, t)))])]
    fs_st = Struct("Fl", [("x", "int"), ("y", rt if type_size(rt, STRUCTS) else "bytes[4]"), ("z", "uint8")], STRUCTS)
    if loc in ("field", "bfield") and not type_size(rt, STRUCTS):
        return
    if loc == "decl":
        st = [Decl(rt, "z", conv)] + show(Var("z"), rt)
    elif loc == "assign":
        st = [Decl(rt, "z"), Assign("z", conv), Log(val(Var("z"))), Assign("z", conv)] + show(Var("z"), rt)
    elif loc == "arg":
        st = [Log(Call("f", [conv]))]
    elif loc == "nestedarg":
        st = [Log(Op("concat", [Call("f", [conv]), Op("concat", [Str("<"), Call("f", [conv])])]))]
    elif loc == "ret":
        st = [Decl(rt, "z", Call("g", [Var("vi"), Var("vb")]))] + show(Var("z"), rt)
    elif loc in ("field", "bfield"):
        st = [Decl("Fl", "o", Op("bzero", [Int(fs_st.size)])) if loc == "field" else BoxDecl("Fl", "o", Str("bk"), "Create"), SetField("o", "x", Int(2 ** 64 - 1)), SetField("o", "z", Int(255)), SetField("o", "y", conv),
              Log(Op("itob", [SF("o", "x")])), Log(Op("itob", [SF("o", "z")]))] + show(SF("o", "y"), rt)
    elif loc == "opnd":
        st = [Log(Op("itob", [Bin("+", Int(3), conv)]))] if ri else [Log(Op("itob", [Bin("==", conv, Var("vb"))])), Log(Op("concat", [Str("a"), conv]))]
    elif loc in ("cond", "while", "const-if", "exit", "index"):
        c = conv if ri else Op("len", [conv])
        if loc == "cond":
            st = [If([(c, False, [Log(Str("t"))])], [Log(Str("e"))])]
        elif loc == "const-if":
            st = [If([(Int(0), False, [Log(Str("n"))]), (c, True, [Log(Str("t"))])], [Log(Str("e"))])]
        elif loc == "while":
            st = [Decl("int", "n", Int(0)), While(Bin("&&", Bin("<", Var("n"), Int(2)), Bin(">", c, Int(0))), [Assign("n", Bin("+", Var("n"), Int(1))), Log(Str("w"))])]
        elif loc == "index":
            st = [Log(Fld("Txn", "ApplicationArgs", Bin("%", c, Int(4))))]
        else:
            st = [If([(Bin("==", Int(1), Int(1)), False, [Exit(c)])])]
    elif loc == "log":
        st = [Log(val(conv))]
    elif loc == "itxn":
        st = [ref.InnerTxn([("Fee", None, conv)] if ri else [("Note", None, conv)])]
    elif loc == "key":
        if ri:
            return
        st = [BoxDecl("St", "o", conv, "Create"), SetField("o", "a", Int(1)), Log(SF("o", "b"))]
    u = Unit(Prog(pre + st + [Log(Str("z")), Exit(Int(1))] + fs, [ST, fs_st]), ctx, key=f"place:{loc}:{f}:{t}")
    for i in (0, 1, 255, 256, 2 ** 24 - 1, 2 ** 24, 2 ** 32 - 1, 2 ** 32, 2 ** 64 - 1) if src_int else (1,):
        for n in (4,) if src_int else (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 14, 31, 32, 33):
            for hi in (0, 1):
                if not u.check(env(i, (b"\0" if hi == 0 else b"\xee") * min(n, 1) + bytes(range(1, n)))):
                    return


def apply(step, e):
    f, t = step
    return Std(f, e, targ(f, t))


def targ(f, t):
    return Int(int(t)) if f in ("Rpad", "Lpad", "ToBytes") else t


def run_chain(case, ctx):
    _, s, a, b, full = case
    fam, decl, e = SOURCES[s]

    def out(step):
        f, t = step
        return f"bytes[{t}]" if f in ("Rpad", "Lpad", "ToBytes") else t
    e2 = apply(b, apply(a, e))
    rt = out(b)
    body = list(decl) + [Decl(rt, "z", e2), Log(Str("m"))] + show(Var("z"), rt) + [Exit(Int(1))]
    p = Prog(body, [ST])
    r = try_compile(p.source())
    if r[0] == "refused":
        ctx.count("refused")
        return
    u = Unit(p, ctx, key=f"chain:{s}:{a}:{b}")
    for i, bb in values(fam, False):
        if not u.check(env(i, bb)):
            return


def run_hold(case, ctx):
    """a variable, parameter or field of a fixed-size type never holds a value of another size"""
    _, t, via = case
    n = type_size(t, STRUCTS)
    i = is_int(t)
    inp = Op("btoi", [A0]) if i else A1
    conv = Std("Cast", inp, t)
    if via == "ensure":
        conv = Std("EnsureType", inp, t)
    elif via == "rpad":
        if i or t in ("addr", "St", "uint8[4]"):
            return
        conv = Std("Rpad", inp, Int(n))
    elif via == "convert":
        conv = Std("Convert", A1 if i else Op("btoi", [A0]), t)
    obs = (lambda e: [Log(Op("itob", [Op("bitlen", [e])]))]) if i else (lambda e: [Log(Op("itob", [Op("len", [e])]))])
    fl = Struct("Fl", [("x", "int"), ("y", t), ("z", "uint8")], STRUCTS)
    fs = [Func("f", [("p", t)], [t], obs(Var("p")) + [Return(Var("p"))]), Func("h", [("p", "bytes"), ("q", "int")], [t], [Return(Std("Cast", Var("q") if i else Var("p"), t))])]
    if via in ("decl", "ensure", "rpad", "convert"):
        st = [Decl(t, "z", conv)] + obs(Var("z"))
    elif via == "assign":
        st = [Decl(t, "y", conv), Decl(t, "z"), Assign("z", Var("y")), Assign("z", Var("y"))] + obs(Var("z"))
    elif via == "param":
        st = [Decl(t, "z", Call("f", [conv]))] + obs(Var("z"))
    elif via == "return":
        st = [Decl(t, "z", Call("h", [A1, Op("btoi", [A0])]))] + obs(Var("z"))
    elif via in ("field", "box"):
        st = [Decl("Fl", "o", Op("bzero", [Int(fl.size)])) if via == "field" else BoxDecl("Fl", "o", Str("bk"), "Create"), SetField("o", "y", conv), Decl(t, "z", Std("Cast", SF("o", "y"), t) if not i else SF("o", "y"))] + obs(Var("z")) + obs(SF("o", "y"))
    elif via == "loop":
        st = [Decl(t, "z", conv), Decl("int", "n", Int(0)), While(Bin("<", Var("n"), Int(2)), [Assign("n", Bin("+", Var("n"), Int(1))), Assign("z", Call("f", [Var("z")]))])] + obs(Var("z"))
    else:
        st = [Decl(t, "z", conv), Decl(t, "y", Std("Cast", Var("z"), t))] + obs(Var("z")) + obs(Var("y"))
    p = Prog(st + show(Var("z"), t) + [Exit(Int(1))] + fs, [ST, fl])
    u = Unit(p, ctx, key=f"hold:{t}:{via}")
    if u.asm is None:
        return
    for v in sorted({0, 1, 255, 256, 257, 256 ** n - 1 if n < 8 else 5, 256 ** n if n < 8 else 6, 2 ** 64 - 1}):
        for k in sorted({0, 1, n - 1, n, n + 1, 2 * n}):
            if not u.check(env(v, b"\x07" * k)):
                return
            if u.m.status == "accept":
                first = [e for e in u.m.effects if e[0] == "log"]
                x = int.from_bytes(first[0][1], "big") if isinstance(first[0][1], bytes) else None
                if x is not None and ((i and x > 8 * n) or (not i and x != n)):
                    ctx.violation(f"hold:{t}:{via}", f"a value of type {t} has size {x}", source=u.src, env=repr((v, k)))
                    return


def run_bad(case, ctx):
    src = "#pragma version 8\nstruct St:\n    a: int\n    b: bytes[4]\n    c: uint8\nend\nint v = 5\nbytes w = \"abc\"\n" + case[1] + "\nexit(1)\n"
    ctx.distinct(src)
    r = try_compile(src)
    if r[0] != "refused":
        ctx.violation(f"bad:{case[1]}", f"a conversion that does not fit its types is not refused: {r[0]}", source=src, teal="\n".join(r[1]) if r[0] == "ok" else repr(r[1]))


RUN = {"conv": run_conv, "fixed": run_fixed, "pad": run_pad, "concat": run_concat, "concatlen": run_concatlen, "address": run_address, "event": run_event, "sizeof": run_sizeof, "multi": run_multi, "multi4": run_multi4,
       "place": run_place, "chain": run_chain, "hold": run_hold, "bad": run_bad}


def run_case(case, ctx):
    RUN[case[0]](case, ctx)
    if ctx.n % 53 == 1:
        ctx.sample({"case": repr(case)})
