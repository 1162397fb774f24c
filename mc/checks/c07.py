"""C07: struct and box fields.  Every layout over a set of field types, every order of writes and reads, histories over
two variables and two boxes, every box opening mode against every prior box state, offsets around every boundary."""
from itertools import permutations, product

from ..ref import (Assign, Bin, Block, BoxDecl, Call, Const, ConstDef, Decl, Exit, Expr, Fld, For, Func, If, Int, Jump, Log, Op, Prog, Return, SF, SetField, Std, Str,
                   Struct, Var, While, Assert, type_size)
from ..h import Unit, cond, try_compile, T
from .. import avm, ref

ID = "C07"
LEVEL = "model_checking"
TECHNIQUE = ("explicit-state model checking: all struct layouts, write/read histories and box states up to a bound; memory content and "
             "boxes after executing the real compiler's output compared with a byte-level reference model")
NOTE = ("Complete for layouts of up to 3 fields over 8 field types, histories of 4 operations over two struct variables and two boxes, "
        "field offsets and sizes around 255/256, 4096 and beyond.")
RULE = "layouts x write orders; operation histories; box modes x states; boundary offsets and sizes; distinct = distinct source programs"
ASSUMPTIONS = ["AVM model of mc/avm.py (extract, replace, box opcodes, 4096 byte limit)"]

TYPES = ("int", "uint64", "uint8", "bytes[1]", "bytes[4]", "addr", "uint8[3]", "In")
IN = Struct("In", [("p", "int"), ("q", "bytes[2]")])


def val(t, i):
    """an expression of exactly type t, distinct for each i"""
    if t in ("int", "uint64"):
        return Int((0x0102030405060708 * (i + 1)) % 2**64)
    if t == "uint8":
        return Int(17 * (i + 1) % 256)
    if t == "In":
        return Std("Cast", Op("concat", [Op("itob", [Int(9000 + i)]), Str("q%d" % (i % 10))]), "In")
    if t == "addr":
        return Std("Cast", Op("sha256", [Str("k%d" % i)]), "addr")
    n = type_size(t)
    s = ("%s%d" % (t[0], i) + "abcdefghijklmnopqrstuvwxyz" * 40)[:n] if n > 2 else chr(97 + i % 26) * n
    if n > 120:
        return Std("Rpad", Str(s[:100]), Int(n))
    if t.startswith("uint8["):
        return Std("Cast", Str(s), t)
    return Str(s)


def show(e, t):
    return Log(Op("itob", [e])) if t in ("int", "uint64", "uint8") else Log(e)


def families(tier):
    q = tier == "quick"
    return [("layouts", {"n": 2 if q else 3, "types": TYPES, "shards": 64}), ("layouts3", {"types": ("int", "uint8", "bytes[4]", "In") if q else TYPES, "shards": 64}),
            ("hist", {"n": 3 if q else 4, "shards": 64}), ("modes", {}), ("bounds", {}), ("long", {"n": (4, 8, 20, 40)}), ("flow", {}), ("exprs", {}),
            ("bigbox", {}), ("reads", {"shards": 32}), ("report", {})]


def cases(fam, p):
    if fam == "layouts":
        for n in range(1, p["n"] + 1):
            for ts in product(p["types"], repeat=n):
                yield ("layout", ts)
    elif fam == "layouts3":
        for ts in product(p["types"], repeat=3):
            yield ("layout", ts)
    elif fam == "hist":
        ops = ("va", "vb", "vc", "wa", "wc", "copy", "xa", "xb", "ya", "yc", "xfromv", "vfromx", "call")
        for h in product(ops, repeat=p["n"]):
            for same in (0, 1):
                if same and not any(o[0] in "xy" for o in h):
                    continue
                yield ("hist", h, same)
    elif fam == "modes":
        for mode in ("", "Open", "Create"):
            for size in (None, 0, 12, 13, 14, 40):
                for where in ("main", "func", "loop", "if"):
                    for key in ("lit", "var", "expr"):
                        yield ("modes", mode, size, where, key)
        for m1, m2 in product(("", "Open", "Create"), repeat=2):
            for pre in (0, 1):
                yield ("modes2", m1, m2, pre)
    elif fam == "bounds":
        for first in (1, 7, 127, 128, 247, 248, 254, 255, 256, 257, 300, 511, 512, 1000, 3000, 4000, 4087, 4088, 4095, 4096):
            for t in ("int", "uint8", "bytes[1]", "bytes[4]", "bytes[255]", "bytes[256]", "bytes[300]"):
                yield ("bound", first, t)
    elif fam == "long":
        for n in p["n"]:
            for mix in range(3):
                yield ("long", n, mix)
    elif fam == "flow":
        for k in ("param", "return", "pass", "loop", "if", "while", "block", "func2", "boxloop", "boxparam", "boxkeyvar", "nestedcall"):
            for ts in product(("int", "uint8", "bytes[4]"), repeat=2):
                yield ("flow", k, ts)
    elif fam == "exprs":
        for k in ("inc", "swap", "chain", "cmp", "arith", "concat", "selfcall", "index", "cond"):
            for obj in ("struct", "box"):
                yield ("expr", k, obj)
    elif fam == "bigbox":
        for pad in (4000, 4088, 4096, 5000, 8000, 30000):
            for t in ("int", "uint8", "bytes[32]", "bytes[300]"):
                yield ("bigbox", pad, t)
    elif fam == "reads":
        for ts in product(("int", "uint8", "bytes[4]", "bytes[2]"), repeat=3):
            yield ("reads", ts)
    elif fam == "report":
        for ts in product(TYPES, repeat=2):
            yield ("report", ts)


NAMES = ("fa", "fb", "fc", "fd")


def run_layout(case, ctx):
    _, ts = case
    st = Struct("St", [(NAMES[i], t) for i, t in enumerate(ts)], {"In": IN})
    n = len(ts)
    for order in permutations(range(n)):
        body = [Decl("St", "v", Op("bzero", [Int(st.size)])), Decl("St", "w", Op("bzero", [Int(st.size)])),
                BoxDecl("St", "b", Str("kb"), "Create"), BoxDecl("St", "c", Str("kc"), "Create")]
        for step, i in enumerate(order):
            f, t = NAMES[i], ts[i]
            body += [SetField("v", f, val(t, i)), SetField("b", f, val(t, i + 10)), Log(Var("v")), Log(Var("w"))]
            for j in range(n):
                body += [show(SF("v", NAMES[j]), ts[j]), show(SF("b", NAMES[j]), ts[j])]
        # a second write replaces the first; the other variable and box are written the other way round
        for i in order:
            body += [SetField("w", NAMES[i], val(ts[i], i + 3)), SetField("c", NAMES[i], val(ts[i], i + 5)), SetField("v", NAMES[i], val(ts[i], i + 7)), Log(Var("v")), Log(Var("w"))]
        body += [show(SF(o, NAMES[j]), ts[j]) for o in "vwbc" for j in range(n)] + [Log(Op("itob", [Std("SizeOf", "St")])), Exit(Int(1))]
        if not Unit(Prog(body, [IN, st]), ctx, key=f"layout:{','.join(ts)}:{order}").check(avm.Env()):
            return


ST3 = Struct("St", [("a", "int"), ("b", "bytes[4]"), ("c", "uint8")])


def run_hist(case, ctx):
    _, h, same = case
    body = [Decl("St", "v", Op("bzero", [Int(13)])), Decl("St", "w", Op("bzero", [Int(13)])), BoxDecl("St", "x", Str("k1"), "Create")]
    body += [BoxDecl("St", "y", Str("k1"), "Open") if same else BoxDecl("St", "y", Str("k2"), "Create")]
    F = {"a": ("a", lambda k: Int(1000 + k)), "b": ("b", lambda k: Str("b%03d" % k)), "c": ("c", lambda k: Int(50 + k))}
    for k, o in enumerate(h):
        if len(o) == 2:
            f, mk = F[o[1]]
            body.append(SetField(o[0], f, mk(k)))
        elif o == "copy":
            body.append(Assign("w", Var("v")))
        elif o == "xfromv":
            body += [SetField("x", "a", SF("v", "a")), SetField("x", "b", SF("v", "b")), SetField("x", "c", SF("w", "c"))]
        elif o == "vfromx":
            body += [SetField("v", "a", Bin("+", SF("x", "a"), Int(1))), SetField("v", "b", SF("y", "b"))]
        else:
            body.append(Assign("v", Call("upd", [Var("w"), Int(k)])))
        body += [Log(Var("v")), Log(Var("w"))]
        for o2 in "xy":
            body += [Log(Op("itob", [SF(o2, "a")])), Log(SF(o2, "b")), Log(Op("itob", [SF(o2, "c")]))]
    f = Func("upd", [("s", "St"), ("k", "int")], ["St"], [SetField("s", "a", Bin("+", SF("s", "a"), Var("k"))), SetField("s", "b", Str("updt")), Return(Var("s"))])
    Unit(Prog(body + [Exit(Int(1)), f], [ST3]), ctx, key=f"hist:{','.join(h)}:{same}").check(avm.Env())


def run_modes(case, ctx):
    _, mode, size, where, key = case
    k = {"lit": Str("kk"), "var": Var("kv"), "expr": Op("concat", [Str("k"), Var("ks")])}[key]
    use = [BoxDecl("St", "x", k, mode), Log(Str("opened")), SetField("x", "c", Int(7)), Log(Op("itob", [SF("x", "a")])), Log(SF("x", "b")), Log(Op("itob", [SF("x", "c")]))]
    pre = [Decl("bytes", "kv", Str("kk")), Decl("bytes", "ks", Str("k"))]
    end = [Log(Str("z")), Exit(Int(1))]
    if where == "main":
        p = pre + use + end
    elif where == "func":
        p = [Expr(Call("f"))] + end + [Func("f", [], [], pre + use + [Return()])]
    elif where == "loop":
        p = pre + [For(None, Int(0), Int(1), use)] + end
    else:
        p = pre + [If([(cond(1), False, use)], [Log(Str("no"))])] + end
    u = Unit(Prog(p, [ST3]), ctx)
    boxes = {} if size is None else {b"kk": bytes((i * 7 + 1) % 256 for i in range(size))}
    u.check_dfs(2, env=dict(boxes=boxes))


def run_modes2(case, ctx):
    """two references to one box, opened one after the other"""
    _, m1, m2, pre = case
    body = [BoxDecl("St", "x", Str("k"), m1), Log(Str("1")), BoxDecl("St", "y", Str("k"), m2), Log(Str("2")), SetField("x", "a", Int(5)), SetField("y", "b", Str("yyyy")),
            Log(Op("itob", [SF("y", "a")])), Log(SF("x", "b")), Exit(Int(1))]
    for boxes in ({}, {b"k": bytes(13)}, {b"k": bytes(12)}, {b"other": bytes(13)}):
        Unit(Prog(body, [ST3]), ctx).check(avm.Env(boxes=boxes if pre else {}))


class LUnit(Unit):
    """a layout that may be refused, but never mis-addressed"""

    def __init__(self, prog, ctx, key):
        self.prog, self.ctx, self.key, self.asm = prog, ctx, key, None
        self.src = prog.source()
        ctx.distinct(self.src)
        st, a, b = try_compile(self.src)
        self.status = st
        if st == "refused":
            ctx.count("refused_layouts")
            return
        if st == "crash":
            ctx.violation("crash:" + key, f"compiler failed: {type(a).__name__}: {a}", source=self.src)
            return
        self.lines, self.map = a, b
        try:
            self.asm = avm.assemble(a)
        except avm.AsmError as e:
            ctx.violation("asm:" + key, f"emitted TEAL does not assemble: {e}", source=self.src, teal="\n".join(a))


def run_bound(case, ctx):
    _, first, t = case
    st = Struct("St", [("pad", f"bytes[{first}]"), ("f", t), ("g", "uint8"), ("h", "int")])
    small = st.size <= 4096
    body = []
    if small:
        body = [Decl("St", "v", Op("bzero", [Int(st.size)])), SetField("v", "f", val(t, 3)), SetField("v", "g", Int(200)), SetField("v", "h", Int(77)), show(SF("v", "f"), t),
                Log(Op("itob", [SF("v", "g")])), Log(Op("itob", [SF("v", "h")])), Log(Op("sha256", [SF("v", "pad")])), Log(Op("sha256", [Var("v")])),
                SetField("v", "pad", Std("Rpad", Str("p"), Int(first))), show(SF("v", "f"), t), Log(Op("sha256", [Var("v")]))]
    body += [BoxDecl("St", "b", Str("k"), "Create"), SetField("b", "f", val(t, 5)), SetField("b", "g", Int(201)), SetField("b", "h", Int(78)), show(SF("b", "f"), t), Log(Op("itob", [SF("b", "g")])), Log(Op("itob", [SF("b", "h")]))]
    u = LUnit(Prog(body + [Exit(Int(1))], [st]), ctx, f"bound:{first}:{t}")
    u.check(avm.Env())


def run_bigbox(case, ctx):
    _, pad, t = case
    k = 300
    n = pad // k
    st = Struct("St", [(f"p{i}", f"bytes[{k}]") for i in range(n)] + [("r", f"bytes[{max(1, pad - n * k)}]"), ("f", t), ("g", "int")])
    body = [BoxDecl("St", "b", Str("k"), "Create"), SetField("b", "f", val(t, 5)), SetField("b", "g", Int(78)), show(SF("b", "f"), t), Log(Op("itob", [SF("b", "g")])),
            SetField("b", "p0", val("bytes[300]", 1)), SetField("b", f"p{n - 1}", val("bytes[300]", 2)), Log(Op("sha256", [SF("b", "p0")])), show(SF("b", "f"), t), Log(Op("sha256", [SF("b", f"p{n - 1}")]))]
    LUnit(Prog(body + [Exit(Int(1))], [st]), ctx, f"bigbox:{pad}:{t}").check(avm.Env())


def run_long(case, ctx):
    _, n, mix = case
    T = [("int", "uint8", "bytes[4]"), ("bytes[33]", "uint8", "addr"), ("bytes[1]", "bytes[2]", "int")][mix]
    st = Struct("St", [(f"f{i}", T[i % 3]) for i in range(n)])
    body = [Decl("St", "v", Op("bzero", [Int(st.size)])), BoxDecl("St", "b", Str("k"), "Create")]
    for i in range(n):
        body += [SetField("v", f"f{i}", val(T[i % 3], i)), SetField("b", f"f{n - 1 - i}", val(T[(n - 1 - i) % 3], i))]
    body += [show(SF(o, f"f{i}"), T[i % 3]) for i in range(n) for o in "vb"]
    Unit(Prog(body + [Log(Op("sha256", [Var("v")])), Exit(Int(1))], [st]), ctx, key=f"long:{n}:{mix}").check(avm.Env())


def run_flow(case, ctx):
    _, k, ts = case
    st = Struct("St", [("a", ts[0]), ("b", ts[1])])
    new = [Decl("St", "v", Op("bzero", [Int(st.size)])), SetField("v", "a", val(ts[0], 1)), SetField("v", "b", val(ts[1], 2))]
    dump = lambda n: [show(SF(n, "a"), ts[0]), show(SF(n, "b"), ts[1])]
    end = [Exit(Int(1))]
    fs = []
    if k == "param":
        p = new + [Expr(Call("f", [Var("v")]))] + dump("v") + end
        fs = [Func("f", [("s", "St")], [], [SetField("s", "a", val(ts[0], 5))] + dump("s") + [Return()])]
    elif k == "return":
        p = new + [Decl("St", "w", Call("f"))] + dump("w") + dump("v") + end
        fs = [Func("f", [], ["St"], [Decl("St", "s", Op("bzero", [Int(st.size)])), SetField("s", "b", val(ts[1], 6)), Return(Var("s"))])]
    elif k == "pass":
        p = new + [Assign("v", Call("f", [Var("v"), Var("v")]))] + dump("v") + end
        fs = [Func("f", [("s", "St"), ("t", "St")], ["St"], [SetField("s", "a", val(ts[0], 7)), SetField("s", "b", SF("t", "b"))] + dump("t") + [Return(Var("s"))])]
    elif k == "loop":
        p = new + [For("i", Int(0), Int(3), [Decl("St", "w", Var("v")), SetField("w", "a", val(ts[0], 8))] + dump("w") + dump("v"))] + end
    elif k == "if":
        p = new + [If([(cond(1), False, [SetField("v", "a", val(ts[0], 8))]), (cond(2), False, [SetField("v", "b", val(ts[1], 9))])])] + dump("v") + end
    elif k == "while":
        p = new + [While(cond(1), [SetField("v", "a", val(ts[0], 8))] + dump("v"))] + dump("v") + end
    elif k == "block":
        p = new + [Jump("bl"), Block("bl", [Decl("St", "w", Var("v")), SetField("w", "b", val(ts[1], 4))] + dump("w") + dump("v") + end)]
    elif k == "func2":
        p = new + [Expr(Call("f")), Expr(Call("f"))] + dump("v") + end
        fs = [Func("f", [], [], [Decl("St", "s", Op("bzero", [Int(st.size)])), SetField("s", "b", SF("v", "b"))] + dump("s") + [SetField("s", "a", SF("v", "a"))] + dump("s") + [Return()])]
    elif k == "boxloop":
        p = new + [For("i", Int(0), Int(3), [BoxDecl("St", "bx", Op("concat", [Str("k"), Op("itob", [Var("i")])]), "Create"), SetField("bx", "a", SF("v", "a")), SetField("bx", "b", val(ts[1], 3))] + dump("bx"))] + end
    elif k == "boxparam":
        p = [BoxDecl("St", "bx", Str("k"), "Create"), Expr(Call("f"))] + dump("bx") + end
        fs = [Func("f", [], [], [BoxDecl("St", "by", Str("k"), "Open"), SetField("by", "a", val(ts[0], 3))] + dump("by") + [SetField("bx", "b", val(ts[1], 4)), Return()])]
    elif k == "boxkeyvar":
        p = [Decl("bytes", "kk", Str("k1")), BoxDecl("St", "bx", Var("kk"), "Create"), Assign("kk", Str("k2")), BoxDecl("St", "by", Var("kk"), "Create"), SetField("bx", "a", val(ts[0], 3)), SetField("by", "a", val(ts[0], 4))] + dump("bx") + dump("by") + end
    else:
        p = new + [BoxDecl("St", "bx", Str("k"), "Create"), SetField("bx", "a", Call("fa")), SetField("v", "b", Call("fb"))] + dump("bx") + dump("v") + end
        fs = [Func("fa", [], [ts[0]], [SetField("bx", "b", val(ts[1], 9)), Return(val(ts[0], 1))]), Func("fb", [], [ts[1]], dump("v") + [Return(val(ts[1], 3))])]
    Unit(Prog(p + fs, [st]), ctx, key=f"flow:{k}:{ts}").check_dfs(3)


def run_expr(case, ctx):
    _, k, obj = case
    pre = [Decl("St", "o", Op("bzero", [Int(13)]))] if obj == "struct" else [BoxDecl("St", "o", Str("key"), "Create")]
    pre += [SetField("o", "a", Int(40)), SetField("o", "b", Str("BBBB")), SetField("o", "c", Int(3))]
    A, B, C = SF("o", "a"), SF("o", "b"), SF("o", "c")
    st = {"inc": [SetField("o", "a", Bin("+", A, Int(1))), SetField("o", "a", Bin("-", Bin("*", A, Int(2)), A))],
          "swap": [Decl("int", "t", A), SetField("o", "a", C), SetField("o", "c", Std("Cast", Var("t"), "uint8"))],
          "chain": [SetField("o", "a", Bin("+", A, Bin("+", A, Bin("*", C, A)))), SetField("o", "c", Std("Cast", Bin("+", C, Int(1)), "uint8"))],
          "cmp": [If([(Bin("==", A, Int(40)), False, [SetField("o", "c", Int(1))])], [SetField("o", "c", Int(2))]), Assert(Bin("==", B, Str("BBBB")))],
          "arith": [Log(Op("itob", [Bin("/", A, C)])), Log(Op("itob", [Bin("-", A, C)])), Log(Op("itob", [Bin("<", C, A)]))],
          "concat": [Log(Std("Concat", B, Op("itob", [A]), B)), SetField("o", "b", Op("extract", [Std("Concat", Op("itob", [A]), B)], [6, 4]) if False else Std("Cast", Op("substring", [Std("Concat", Op("itob", [A]), B)], [6, 10]), "bytes[4]"))],
          "selfcall": [SetField("o", "a", Call("f", [A, C])), SetField("o", "b", Call("g", [B]))],
          "index": [Log(Fld("Txn", "ApplicationArgs", C)), Log(Fld("Gtxn", "ApplicationArgs", C, g=Bin("-", A, Int(39))))],
          "cond": [While(Bin("<", C, Int(6)), [SetField("o", "c", Std("Cast", Bin("+", C, Int(1)), "uint8")), Log(Op("itob", [C]))])]}[k]
    fs = [Func("f", [("x", "int"), ("y", "int")], ["int"], [Return(Bin("-", Var("x"), Var("y")))]),
          Func("g", [("x", "bytes[4]")], ["bytes[4]"], [Log(Var("x")), Return(Str("gggg"))])]
    Unit(Prog(pre + st + [Log(Op("itob", [A])), Log(B), Log(Op("itob", [C]))] + ([Log(Var("o"))] if obj == "struct" else []) + [Exit(Int(1))] + fs, [ST3]), ctx, key=f"expr:{k}:{obj}").check(
        avm.Env(args=[b"a%d" % i for i in range(8)]))


def run_reads(case, ctx):
    """fields of values that come from outside: arguments and existing boxes"""
    _, ts = case
    st = Struct("St", [(NAMES[i], t) for i, t in enumerate(ts)])
    body = [Decl("St", "v", Std("Cast", Fld("Txn", "ApplicationArgs", Int(0)), "St")), BoxDecl("St", "b", Str("k"), "Open"), BoxDecl("St", "r", Str("k"))]
    for i, t in enumerate(ts):
        body += [show(SF("v", NAMES[i]), t), show(SF("b", NAMES[i]), t), show(SF("r", NAMES[i]), t)]
    u = Unit(Prog(body + [Exit(Int(1))], [st]), ctx, key=f"reads:{ts}")
    for n in (st.size, st.size - 1, st.size + 1):
        for m in (st.size, st.size - 1, st.size + 1):
            u.check(avm.Env(args=[bytes((3 * i + 1) % 256 for i in range(n))], boxes={b"k": bytes((5 * i + 2) % 256 for i in range(m))}))


def run_report(case, ctx):
    """the sizes reported by inspection and by SizeOf are those of the layout"""
    _, ts = case
    st = Struct("St", [(NAMES[i], t) for i, t in enumerate(ts)], {"In": IN})
    p = Prog([Log(Op("itob", [Std("SizeOf", "St")])), Decl("bytes", "q", Op("bzero", [Std("SizeOf", "St")])), Log(Var("q")), Exit(Int(1))], [IN, st])
    u = Unit(p, ctx)
    u.check(avm.Env())
    from ..h import guarded
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        info = guarded(T().inspect_program, p.source())
    got = info["structs"]["St"]
    want = {"size": st.size, "fields": {n: {"offset": o, "size": s} for n, (t, o, s) in st.fields.items()}}
    have = {"size": got["size"], "fields": {n: {"offset": f["offset"], "size": f["size"]} for n, f in got["fields"].items()}}
    if have != want:
        ctx.violation(f"report:{ts}", "inspection reports another layout", source=u.src, expected=want, actual=have)


RUN = {"layout": run_layout, "hist": run_hist, "modes": run_modes, "modes2": run_modes2, "bound": run_bound, "bigbox": run_bigbox, "long": run_long, "flow": run_flow,
       "expr": run_expr, "reads": run_reads, "report": run_report}


def run_case(case, ctx):
    RUN[case[0]](case, ctx)
    if ctx.n % 211 == 1:
        ctx.sample({"case": repr(case)})
