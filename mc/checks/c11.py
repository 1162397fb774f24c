"""C11: literals and constants.  Every string literal body over an alphabet of troublesome pieces, and every integer spelling around
the limits, in every position a literal can stand, executed and compared with the written value."""
import re
from itertools import product

from ..ref import (Assert, Assign, Bin, Block, BoxDecl, Call, Const, ConstDef, Decl, Exit, Expr, Fld, For, Func, If, InnerTxn, Int, Log, Op, Prog, Return, SF, SetField, Std, Str, Struct, Switch, Var)
from ..h import Unit, try_compile
from .. import avm

ID = "C11"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of literal spellings (all sequences of troublesome pieces up to a length; all integers around the limits in "
             "every spelling) times positions; each program is executed on the AVM model and compared with an independent decoder")
NOTE = ("String bodies: all sequences of up to 2 (quick) / 3 (thorough) of 38 pieces in every position at once, each refused spelling in each position "
        "separately. Every single byte as \\xHH and every character class as itself. Integers within +-1 of every power of 2.")
RULE = "piece sequences x quote style x positions; integers x spellings x positions; distinct = distinct source programs"
ASSUMPTIONS = ["AVM model of mc/avm.py", "string escapes are those of the TEAL assembler (\\n \\r \\t \\\\ \\\" \\xHH); others are refused"]

ESC = {"n": b"\n", "r": b"\r", "t": b"\t", "\\": b"\\", '"': b'"'}


def decode(body, quote='"'):
    """value of a literal body, or None if the spelling is invalid"""
    out, i = b"", 0
    while i < len(body):
        c = body[i]
        if c == quote:
            return None
        if c != "\\":
            out += c.encode("utf8")
            i += 1
            continue
        e = body[i + 1:i + 2]
        if e in ESC and e:
            out += ESC[e]
            i += 2
        elif e == "'" and quote == "'":
            out += b"'"
            i += 2
        elif e == "x" and re.fullmatch("[0-9a-fA-F]{2}", body[i + 2:i + 4]):
            out += bytes([int(body[i + 2:i + 4], 16)])
            i += 4
        else:
            return None
    return out


PIECES = ["a", " ", "  ", "\\\"", "\\\\", "\\n", "\\t", "\\r", "\\x00", "\\xfF", "\\x22", "\\x5c", "//", "#", ";", ",", "(", ")", "'", "é", "日", ":", " = ", "{", "}", "[", "]", " -> ", "end", "0x", "@", "%", "*/", "\t", "~", ".", "int ", "b64("]
INVALID = ["\\q", "\\x", "\\x1", "\\xg0", "\\", "\\0", "\\u0041", "\\'", "\\x0", "\\a", "a\\", "\\b", "\\N", "\\ ", "\\é"]

class SQ(Str):
    """single quoted literal"""

    def src(self):
        return f"'{self.text}'"


class Spelt(int):
    def __str__(self):
        return self.s

    __repr__ = __format__ = lambda self, *a: self.s


def families(tier):
    q = tier == "quick"
    return [("str", {"n": 2 if q else 3, "shards": 64}), ("sq", {"n": 2, "shards": 64}), ("bytes", {}), ("chars", {}), ("badstr", {}), ("size", {"shards": 32}), ("two", {}), ("int", {"shards": 32}), ("intpos", {"shards": 32}), ("hex", {}), ("constint", {}),
            ("constscope", {}), ("long", {})]


def cases(fam, p):
    if fam in ("str", "sq"):
        for n in range(0 if fam == "str" else 1, p["n"] + 1):
            for c in product(PIECES if n < 3 else PIECES[:26], repeat=n):
                yield (fam, "".join(c))
    elif fam == "bytes":
        for k in range(256):
            yield ("str", f"\\x{k:02x}")
            yield ("str", f"a\\x{k:02X}b")
            yield ("sq", f"\\x{k:02x}b")
    elif fam == "chars":
        for k in list(range(1, 0x180)) + [0x3c0, 0x2028, 0x2029, 0x20ac, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0x1f600, 0x10ffff]:
            if chr(k) in "\n\r\"\\":
                continue
            yield ("char", k)
    elif fam == "badstr":
        for b in INVALID:
            for pre in ("", "a", "\\\\"):
                for post in ("", "b", "\\n"):
                    for pos in POSITIONS:
                        yield ("badstr", pre + b + post, pos)
    elif fam == "size":
        for c in product(PIECES[:26], repeat=2):
            yield ("size", "".join(c))
        for n in (0, 1, 2, 31, 32, 33, 64, 255, 256, 1000):
            yield ("size", "z" * n)
            yield ("size", "\\x00" * n)
    elif fam == "two":
        for a, b in product(PIECES, repeat=2):
            yield ("two", a, b)
    elif fam == "int":
        for v in sorted({x for k in range(0, 65) for x in (2 ** k - 1, 2 ** k, 2 ** k + 1)} | {10 ** k for k in range(20)} | {7, 8, 9, 10, 77, 100, 128 * 8}):
            for sp in ("", "0", "00", "us"):
                yield ("int", v, sp)
    elif fam == "intpos":
        for pos in INTPOS:
            for v in (0, 1, 7, 8, 9, 10, 15, 16, 17, 254, 255, 256, 257, 2 ** 16, 2 ** 32, 2 ** 63, 2 ** 64 - 1, 2 ** 64):
                for sp in ("", "0", "000"):
                    yield ("intpos", pos, v, sp)
    elif fam == "hex":
        for h in ("00", "0x00", "ff", "FF", "aBcD", "0a0A", "22", "5c", "0a", "2f2f", "00" * 64, "a", "abc", "", "g0", "6a" * 32, "20", "3b"):
            for t in ("bytes", "bigint", "addr"):
                yield ("hex", h, t)
    elif fam == "constint":
        for sp in ("0", "00", "7", "010", "08", "0x10", "1_000", "-1", "+1", "18446744073709551615", "018446744073709551615", "18446744073709551616", "1.5", "1e3", "''", "0b1", "0o7", "٣"):
            for t in ("int", "bytes"):
                yield ("constint", sp, t)
    elif fam == "constscope":
        for va, vb in product(('"A"', '"l\\"o"', "5", "010", "0xAb", '"//"'), repeat=2):
            for where in ("func", "block", "if", "while", "two"):
                yield ("constscope", va, vb, where)
    elif fam == "long":
        for n in (100, 1000, 4000, 4096, 4097):
            yield ("long", n)


def lit(body, v, q):
    return SQ(v, body) if q == "'" else Str(v, body)


POSITIONS = ("decl", "const", "log", "arg", "ret", "ret2", "switch", "itxn", "assert", "cond", "field", "key", "std", "index", "msg")


def program(body, v, q, positions):
    """a program with the literal in the given positions"""
    L = lambda: lit(body, v, q)
    pre, st, fs = [], [], []
    for p in positions:
        if p == "decl":
            st += [Decl("bytes", "z", L()), Log(Var("z")), Assign("z", L()), Log(Op("itob", [Op("len", [Var("z")])]))]
        elif p == "const":
            pre.append(ConstDef("bytes", "LIT", f'"{body}"', v))
            st += [Log(Const("LIT")), Log(Op("concat", [Const("LIT"), Const("LIT")]))]
        elif p == "log":
            st += [Log(L()), Log(Op("concat", [L(), Str(".")]))]
        elif p == "arg":
            st += [Log(Call("fa", [L(), Int(3), L()]))]
            fs.append(Func("fa", [("p", "bytes"), ("n", "int"), ("q", "bytes")], ["bytes"], [Return(Op("concat", [Op("concat", [Var("q"), Op("itob", [Var("n")])]), Var("p")]))]))
        elif p == "ret":
            st += [Log(Call("fr"))]
            fs.append(Func("fr", [], ["bytes"], [Return(L())]))
        elif p == "ret2":
            st += [Decl("int", "r1"), Decl("bytes", "r2"), Decl("bytes", "r3"), Assign(["r2", "r1", "r3"], Call("fm")), Log(Var("r2")), Log(Var("r3")), Log(Op("itob", [Var("r1")]))]
            fs.append(Func("fm", [], ["bytes", "int", "bytes"], [Return(L(), Bin("+", Int(1), Op("len", [L()])), Op("concat", [L(), Str(",")]))]))
        elif p == "itxn":
            st += [InnerTxn([("TypeEnum", None, Int(1)), ("Note", None, L()), ("ApplicationArgs", 0, L()), ("ApplicationArgs", 1, Op("concat", [L(), L()]))])]
        elif p == "assert":
            st += [Assert(Bin("==", L(), L())), Assert(Bin("==", Op("len", [L()]), Int(len(v))), "m")]
        elif p == "msg":
            st += [Assert(Int(1), body)]
        elif p == "cond":
            st += [If([(Bin("==", Fld("Txn", "ApplicationArgs", Int(0)), L()), False, [Log(Str("eq"))])], [Log(Str("ne"))]), If([(Bin("!=", L(), Fld("Txn", "ApplicationArgs", Int(0))), False, [Log(Str("ne"))])])]
        elif p == "field":
            st += [Decl("Fs", "fs", Op("bzero", [Int(len(v) + 1)])), SetField("fs", "x", L()), Log(SF("fs", "x"))]
        elif p == "key":
            st += [BoxDecl("Fk", "bk", Op("concat", [Str("k"), L()]), "Create"), SetField("bk", "y", Int(7)), Log(Op("itob", [SF("bk", "y")]))]
        elif p == "std":
            st += [Log(Std("Concat", L(), Str("-"), L())), Log(Std("Rpad", L(), Int(len(v) + 2)))]
        elif p == "index":
            st += [Log(Fld("Txn", "ApplicationArgs", Bin("%", Op("len", [L()]), Int(2))))]
    st.append(Log(Str("z")))
    structs = []
    if "field" in positions:
        structs.append(Struct("Fs", [("x", f"bytes[{len(v)}]"), ("y", "uint8")]))
    if "key" in positions:
        structs.append(Struct("Fk", [("y", "uint8")]))
    if "switch" in positions:
        tail = [Switch(Fld("Txn", "ApplicationArgs", Int(0)), [(Str("other"), "b0"), (lit(body, v, q), "b1")], "b2")]
        fs = [Block("b0", [Log(Str("b0")), Exit(Int(1))]), Block("b1", [Log(Str("b1")), Exit(Int(1))]), Block("b2", [Log(Str("b2")), Exit(Int(1))])] + fs
    else:
        tail = [Exit(Int(1))]
    return Prog(pre + st + tail + fs, structs)


def run_lit(body, q, ctx, positions=None, key=None):
    v = decode(body, q)
    assert v is not None, body
    pos = [p for p in (positions or POSITIONS)]
    if not v:
        pos = [p for p in pos if p not in ("const", "field", "msg")]
    if q == "'":
        pos = [p for p in pos if p not in ("const", "msg", "itxnx")]
    if len(v) > 60 and "key" in pos:
        pos.remove("key")
    u = Unit(program(body, v, q, pos), ctx, key=key or f"{q}{body}")
    for a0 in (v, v + b"x", b"other"):
        u.check(avm.Env(args=[a0, b"a1"]))


def run_str(case, ctx):
    run_lit(case[1], '"', ctx)


def run_sq(case, ctx):
    body = case[1].replace("'", "\\'")
    if decode(body, "'") is None:
        return
    run_lit(body, "'", ctx)
    if '\\"' in body:      # a double quote need not be escaped
        run_lit(body.replace('\\"', '"'), "'", ctx)


def run_char(case, ctx):
    c = chr(case[1])
    if c in "\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029":
        # other line separators: the value must be right whenever the text is accepted
        st, a, b = try_compile(program(c, c.encode(), '"', ["log"]).source())
        if st == "refused":
            return
    for b in (c, "a" + c, c + c + "b"):
        run_lit(b, '"', ctx)


def run_badstr(case, ctx):
    _, body, pos = case
    v = decode(body)
    # a trailing backslash escapes the closing quote
    if v is not None:
        run_lit(body, '"', ctx, [pos])
        return
    if pos == "msg":
        return
    ok = program(body, b"xx", '"', [pos])
    r = try_compile(ok.source())
    ctx.distinct(ok.source())
    if r[0] == "ok":
        ctx.violation(f"badstr:{body}:{pos}", "an invalid escape sequence is accepted", source=ok.source(), teal="\n".join(r[1]))
    elif r[0] == "crash":
        ctx.violation(f"badstr:{body}:{pos}", "an invalid escape sequence is not refused with a compiler error", source=ok.source(), error=repr(r[1]))


def run_size(case, ctx):
    """the compile-time size of a literal is its run-time length"""
    body = case[1]
    v = decode(body)
    for how in ("lit", "const"):
        if how == "const" and not v:
            continue
        pre = "#pragma version 8\n" + (f'const bytes LIT = "{body}"\n' if how == "const" else "")
        e = "LIT" if how == "const" else f'"{body}"'
        for n in sorted({1, len(v) - 1, len(v), len(v) + 1, max(1, len(body)), len(body.encode())}):
            if n < 1:
                continue
            for src in (f"bytes[{n}] z = {e}\nlog(z)\nexit(1)\n", f"log(f({e}))\nexit(1)\nfunc f(p: bytes[{n}]) bytes:\n    return p\nend\n", f"log(f())\nexit(1)\nfunc f() bytes[{n}]:\n    return {e}\nend\n"):
                ctx.distinct(pre + src)
                r = try_compile(pre + src)
                ctx.traces += 1
                if (r[0] == "ok") != (n == len(v)):
                    ctx.violation(f"size:{how}:{body}:{n}", f"a literal of {len(v)} bytes is {'accepted' if r[0] == 'ok' else r[0]} for bytes[{n}]", source=pre + src, error=repr(r[1])[:300])
                    return
                if r[0] == "ok":
                    m = avm.execute(avm.assemble(r[1]), avm.Env())
                    ctx.states += m.steps
                    ctx.transitions += m.steps
                    if m.effects[:1] != [("log", v)]:
                        ctx.violation(f"sizeval:{how}:{body}", "the literal does not denote the written value", source=pre + src, actual=repr(m.effects), expected=repr(v))
                        return


def run_two(case, ctx):
    """two literals on the same line"""
    _, a, b = case
    va, vb = decode(a), decode(b)
    A, B = Str(va, a), Str(vb, b)
    SA = SQ(va, a.replace("'", "\\'"))
    f = Func("f", [("p", "bytes"), ("q", "bytes")], ["bytes", "bytes"], [Return(Op("concat", [Var("q"), A]), Op("concat", [Var("p"), B]))])
    st = [Log(Op("concat", [A, B])), Log(Op("concat", [Op("concat", [A, Str(", ")]), Op("concat", [B, A])])), Decl("bytes", "x"), Decl("bytes", "y"), Assign(["x", "y"], Call("f", [A, B])), Log(Var("x")), Log(Var("y")),
          If([(Bin("==", A, B), False, [Log(Str("same"))])], [Log(Str("differ"))]), Assert(Bin("==", Op("len", [Op("concat", [SA, B])]), Int(len(va) + len(vb))), b), Log(Op("concat", [SA, B])), Log(Op("concat", [B, SA])), Log(Std("Concat", A, B, SA)),
          InnerTxn([("Note", None, Op("concat", [A, B])), ("Fee", None, Int(3))]),
          Switch(Fld("Txn", "ApplicationArgs", Int(0)), [(A, "b0"), (Op("concat", [A, B]), "b1")], "b2")]
    blocks = [Block(f"b{i}", [Log(Str(f"b{i}")), Exit(Int(1))]) for i in range(3)]
    u = Unit(Prog(st + blocks + [f]), ctx, key=f"two:{a}|{b}")
    for a0 in (va, va + vb, b"zzz"):
        u.check(avm.Env(args=[a0]))


def spell(v, sp):
    s = str(v)
    if sp == "us":
        if len(s) < 4:
            return None
        return s[:-3] + "_" + s[-3:]
    return sp + s


def run_int(case, ctx):
    _, v, sp = case
    s = spell(v, sp)
    if s is None:
        return
    I = Int(v, s)
    pre = [] if sp == "us" else [ConstDef("int", "KV", s, v)]
    e2 = I if sp == "us" else Const("KV")
    st = pre + [Decl("int", "x", I), Log(Op("itob", [Var("x")])), Log(Op("itob", [e2])), Log(Op("itob", [Call("f", [I])])), Log(Op("itob", [Bin("&", I, e2)])), Log(Op("itob", [Bin("^", I, Var("x"))])),
                If([(Bin("==", I, e2), False, [Log(Str("eq"))])]), InnerTxn([("Fee", None, I), ("Amount", None, e2)]), Assert(Bin(">=", I, e2)), Exit(Bin("==", I, I)), Func("f", [("p", "int")], ["int"], [Return(I)])]
    p = Prog(st)
    if v >= 2 ** 64:
        Unit(p, ctx, key=f"int:{s}", expect="refused")
        # the literal and the constant each alone
        for src in (f"int x = {s}", f"const int KV = {s}", f"exit({s})", f"assert({s})", f"log(itob({s}))", f"for i in 0:{s}:\n    log(itob(i))\nend"):
            r = try_compile("#pragma version 8\n" + src + "\nexit(1)\n")
            if r[0] != "refused":
                ctx.violation(f"int:{src}", f"an integer of more than 64 bits is not refused: {r[0]}", source=src)
        return
    u = Unit(p, ctx, key=f"int:{s}")
    u.check(avm.Env())


INTPOS = ("exit", "switch", "swexpr", "cond", "for", "forend", "index", "gindex", "gplus", "gminus", "imm", "itxnidx", "size", "sizestd", "structsize", "boxkey", "ret")


def run_intpos(case, ctx):
    _, pos, v, sp = case
    s = spell(v, sp)
    I = Int(v, s)
    env = avm.Env(args=[bytes([k % 256]) * 3 for k in range(256)], group_index=8, group={g: {"ApplicationArgs": [b"g%d-%d" % (g, k) for k in range(256)], "Fee": 1000 + g} for g in range(16)})
    big = v >= 2 ** 64
    key = f"intpos:{pos}:{s}"
    maybe = False            # only the value is judged, not whether it is accepted
    fs, structs = [], []
    if pos == "exit":
        st = [Exit(I)]
    elif pos == "switch":
        st = [Switch(Int(8), [(I, "b0"), (Int(9), "b1")], "b2")]
        fs = [Block(f"b{i}", [Log(Str(f"b{i}")), Exit(Int(1))]) for i in range(3)]
    elif pos == "swexpr":
        st = [Switch(I, [(Int(8), "b0"), (Int(255), "b1")], "b2")]
        fs = [Block(f"b{i}", [Log(Str(f"b{i}")), Exit(Int(1))]) for i in range(3)]
    elif pos == "cond":
        st = [If([(I, False, [Log(Str("y"))])], [Log(Str("n"))]), If([(I, True, [Log(Str("y"))])])]
    elif pos in ("for", "forend"):
        if v > 300 and pos == "forend" and not big:
            return
        a, b = (I, Int(v + 2)) if pos == "for" else (Int(max(0, v - 2)), I)
        if b.v >= 2 ** 64 and not big:
            return
        st = [For("k", a, b, [Log(Op("itob", [Var("k")]))]), For(None, a, b, [Log(Str("x"))])]
    elif pos == "index":
        st = [Log(Fld("Txn", "ApplicationArgs", I))]
        maybe = v > 255
    elif pos == "gindex":
        st = [Log(Op("itob", [Fld("Gtxn", "Fee", g=I)])), Log(Fld("Gtxn", "ApplicationArgs", I, g=Int(1)))]
        maybe = v > 15
    elif pos in ("gplus", "gminus"):
        st = [Log(Op("itob", [Fld("Gtxn", "Fee", g=("+" if pos == "gplus" else "-") + s)]))]
        maybe = v > 7
    elif pos == "imm":
        maybe = v > 255
        I = Spelt(v)
        I.s = s
        st = [Log(Op("concat", [Op("extract", [Op("concat", [Op("bzero", [Int(v)]), Str("XY")])], [I, 1]), Str("e")]))] if v < 256 else [Log(Op("extract", [Op("bzero", [Int(300)])], [I, 1]))]
    elif pos == "itxnidx":
        if v > 10:
            return
        st = [InnerTxn([("ApplicationArgs", i, Str(f"a{i}")) for i in range(v + 1)])]
        src = Prog(st + [Log(Str("z")), Exit(Int(1))]).source().replace(f"ApplicationArgs[{v}]", f"ApplicationArgs[{s}]")
        r = try_compile(src)
        ctx.distinct(src)
        if r[0] == "ok":
            m = avm.execute(avm.assemble(r[1]), env)
            if ("itxn" not in repr(m.effects)) or f"a{v}" not in repr(m.effects) or m.status != "accept":
                ctx.violation(key, "array index spelling changes the inner transaction", source=src, actual=repr(m.effects))
        elif r[0] == "crash" or not sp:
            ctx.violation(key, f"inner array index {r[0]}", source=src, error=repr(r[1]))
        return
    elif pos in ("size", "structsize", "sizestd"):
        if v > 4096 or v == 0:
            for src in (f"bytes[{s}] z = bzero({min(v, 5000)})", f"int z = SizeOf(bytes[{s}])"):
                r = try_compile("#pragma version 8\n" + src + "\nexit(1)\n")
                if r[0] == "crash":
                    ctx.violation(key, "crash", source=src, error=repr(r[1]))
            return
        if pos == "size":
            src = f"bytes[{s}] z = Cast(Txn.ApplicationArgs[0], bytes[{s}])\nlog(itob(len(z)))\nexit(1)\n"
            good = {v: [("log", v.to_bytes(8, "big"))], v + 1: None}
        elif pos == "sizestd":
            src = f"log(itob(SizeOf(bytes[{s}])))\nexit(1)\n"
            good = {v: [("log", v.to_bytes(8, "big"))]}
        else:
            src = f"struct St:\n    a: bytes[{s}]\n    b: int\nend\nSt z = Cast(Txn.ApplicationArgs[0], St)\nlog(itob(z.b))\nlog(itob(len(z.a)))\nexit(1)\n"
            good = {v + 8: [("log", b"\7" * 8), ("log", v.to_bytes(8, "big"))], v + 7: None, v: None}
        src = "#pragma version 8\n" + src
        ctx.distinct(src)
        r = try_compile(src)
        if r[0] != "ok":
            if r[0] == "crash" or not sp:
                ctx.violation(key, f"valid size {r[0]}", source=src, error=repr(r[1]))
            return
        asm = avm.assemble(r[1])
        for n, want in good.items():
            if n > 4096:
                continue
            m = avm.execute(asm, avm.Env(args=[b"\7" * n]))
            ctx.traces += 1
            ctx.states += m.steps
            ctx.transitions += m.steps
            if (m.status == "accept") != (want is not None) or (want is not None and [e for e in m.effects if e[0] == "log"] != want):
                ctx.violation(key, f"size {s} is not taken as {v}", source=src, actual=repr((m.status, m.effects)))
        return
    elif pos == "boxkey":
        structs = [Struct("Fk", [("y", "uint8")])]
        st = [BoxDecl("Fk", "bk", Op("itob", [I]), "Create"), SetField("bk", "y", Int(255, spell(255, sp)))]
    elif pos == "ret":
        st = [Decl("int", "r1"), Decl("int", "r2"), Assign(["r1", "r2"], Call("f")), Log(Op("itob", [Var("r1")])), Log(Op("itob", [Var("r2")]))]
        fs = [Func("f", [], ["int", "int"], [Return(I, Bin("/", I, Int(2)))])]
    end = [] if pos in ("exit", "switch", "swexpr") else [Log(Str("z")), Exit(Int(1))]
    p = Prog(st + end + fs, structs)
    if big:
        Unit(p, ctx, key=key, expect="refused")
        return
    if maybe:
        r = try_compile(p.source())
        if r[0] == "refused":
            ctx.count("refused")
            return
    u = Unit(p, ctx, key=key)
    u.check(env)


def run_hex(case, ctx):
    _, h, t = case
    ok = re.fullmatch("([0-9a-fA-F]{2})+", h) is not None and (t != "addr" or len(h) == 64)
    v = bytes.fromhex(h) if re.fullmatch("([0-9a-fA-F]{2})*", h) else b""
    p = Prog([ConstDef(t, "HX", "0x" + h, v), Log(Const("HX")), Log(Op("concat", [Const("HX"), Str("|")])), Decl("bytes", "z", Const("HX")), Log(Var("z")), Decl(f"bytes[{len(v) or 1}]", "y", Const("HX")), Exit(Int(1))])
    if t != "bytes":
        # the constant keeps its value whatever its declared type; its use as plain bytes is a matter of C09
        p = Prog([ConstDef(t, "HX", "0x" + h, v), Log(Const("HX")), Exit(Int(1))])
    u = Unit(p, ctx, key=f"hex:{h}:{t}", expect="ok" if ok else "refused")
    if ok:
        u.check(avm.Env())


def run_constint(case, ctx):
    _, sp, t = case
    ok = t == "int" and re.fullmatch("[0-9]+", sp) and sp.isascii() and int(sp) < 2 ** 64
    src = f"#pragma version 8\nconst {t} KV = {sp}\nlog({'itob(KV)' if t == 'int' else 'KV'})\nexit(1)\n"
    ctx.distinct(src)
    r = try_compile(src)
    if r[0] == "crash":
        ctx.violation(f"constint:{sp}:{t}", "crash", source=src, error=repr(r[1]))
    elif ok and r[0] != "ok":
        ctx.violation(f"constint:{sp}:{t}", "a valid integer constant is refused", source=src, error=repr(r[1]))
    elif r[0] == "ok":
        try:
            want = int(sp.replace("_", ""), 16 if sp[:2] == "0x" else 2 if sp[:2] == "0b" else 8 if sp[:2] == "0o" else 10).to_bytes(8, "big") if t == "int" else bytes.fromhex(sp[2:])
        except (ValueError, OverflowError):
            ctx.violation(f"constint:{sp}:{t}", "an invalid integer constant is accepted", source=src, teal="\n".join(r[1]))
            return
        m = avm.execute(avm.assemble(r[1]), avm.Env())
        ctx.traces += 1
        ctx.states += m.steps
        ctx.transitions += m.steps
        if m.effects[:1] != [("log", want)]:
            ctx.violation(f"constint:{sp}:{t}", "the constant does not denote the written value", source=src, actual=repr(m.effects), expected=repr(want))


def const_of(v):
    if v[0] == '"':
        return "bytes", decode(v[1:-1])
    if v[:2] == "0x":
        return "bytes", bytes.fromhex(v[2:])
    return "int", int(v)


def run_constscope(case, ctx):
    """a name standing for different constants in different scopes denotes the one in scope at each use"""
    _, va, vb, where = case
    (ta, a), (tb, b) = const_of(va), const_of(vb)
    show = lambda t: Log(Const("KX")) if t == "bytes" else Log(Op("itob", [Const("KX")]))
    A, B = ConstDef(ta, "KX", va, a), ConstDef(tb, "KX", vb, b)
    if where == "func":
        st = [Expr(Call("g")), Expr(Call("f")), Expr(Call("g")), Exit(Int(1)), Func("f", [], [], [A, show(ta), Return()]), Func("g", [], [], [B, show(tb), show(tb), Return()])]
    elif where == "block":
        from ..ref import Jump
        st = [Jump("one"), Block("two", [B, show(tb), Exit(Int(1))]), Block("one", [A, show(ta), Jump("two")])]
    elif where == "two":
        st = [A, ConstDef(tb, "KY", vb, b), show(ta), Log(Const("KY")) if tb == "bytes" else Log(Op("itob", [Const("KY")])), show(ta), Exit(Int(1))]
    else:
        from ..ref import While
        C = Bin("<", Var("n"), Int(1))
        body = [B, show(tb)]
        inner = [Expr(Call("f")), Decl("int", "n", Int(0)), While(C, body + [Assign("n", Bin("+", Var("n"), Int(1)))])] if where == "while" else [Expr(Call("f")), For("k", Int(0), Int(2), body)]
        st = inner + [Exit(Int(1)), Func("f", [], [], [A, show(ta), Return()])]
    u = Unit(Prog(st), ctx, key=f"constscope:{va}:{vb}:{where}")
    u.check(avm.Env())


def run_long(case, ctx):
    n = case[1]
    body = "\\x01" * n
    u = Unit(Prog([Log(Op("itob", [Op("len", [Str(b"\1" * n, body)])])), Log(Op("itob", [Op("len", [Str("é" * (n // 2))])])), Exit(Int(1))]), ctx, key=f"long:{n}", limit=60)
    u.check(avm.Env())


RUN = {"str": run_str, "sq": run_sq, "char": run_char, "badstr": run_badstr, "size": run_size, "two": run_two, "int": run_int, "intpos": run_intpos, "hex": run_hex, "constint": run_constint, "constscope": run_constscope, "long": run_long}


def run_case(case, ctx):
    RUN[case[0]](case, ctx)
    if ctx.n % 53 == 1:
        ctx.sample({"case": repr(case)})
