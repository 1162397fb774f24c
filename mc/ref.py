"""Reference Tealish: an AST with a renderer to source text and a direct interpreter.

Written from the documentation (docs/language.rst, docs/stdlib.rst, README.md),
not from the compiler.  Opcode semantics are those of the AVM (mc.avm), everything
that is Tealish (control flow, names, calls, fields, structs, inner transactions,
routing) is interpreted directly on the AST.
"""
from . import avm
from .avm import Fail, U64


# ------------------------------------------------------------------ types
def type_size(t, structs=None):
    if t in ("int", "uint64"):
        return 8
    if t == "uint8":
        return 1
    if t == "addr":
        return 32
    if t in ("bytes", "bigint"):
        return 0
    if t.startswith("bytes["):
        return int(t[6:-1])
    if t.startswith("uint8["):
        return int(t[6:-1])
    if t.startswith("box<"):
        t = t[4:-1]
    return structs[t].size


def is_int(t):
    return t in ("int", "uint64", "uint8")


class Struct:
    def __init__(self, name, fields, structs=None):
        self.name = name
        self.fields = {}
        off = 0
        for fn, ft in fields:
            sz = type_size(ft, structs)
            self.fields[fn] = (ft, off, sz)
            off += sz
        self.size = off

    def lines(self):
        return [f"struct {self.name}:"] + [f"    {n}: {t}" for n, (t, _, _) in self.fields.items()] + ["end"]


# ------------------------------------------------------------------ control signals
class Brk(Exception):
    pass


class Ret(Exception):
    def __init__(self, vals):
        self.vals = vals


class Done(Exception):
    def __init__(self, v):
        self.v = v


class Goto(Exception):
    def __init__(self, block):
        self.block = block


class Budget(Exception):
    pass


# ------------------------------------------------------------------ expressions
class E:
    prec = False   # True: must be parenthesised as an operand

    def opnd(self):
        return f"({self.src()})" if self.prec else self.src()

    def evm(self, rt):
        return [self.ev(rt)]


class Int(E):
    def __init__(self, v, text=None):
        self.v, self.text = v, text

    def src(self):
        return self.text if self.text is not None else str(self.v)

    def ev(self, rt):
        return self.v


class Str(E):
    """string literal: `text` is the body between the quotes as written, `v` its value"""

    def __init__(self, v, text=None):
        self.v = v if isinstance(v, bytes) else v.encode()
        self.text = text if text is not None else self.v.decode()

    def src(self):
        return f'"{self.text}"'

    def ev(self, rt):
        return self.v


class Var(E):
    def __init__(self, name):
        self.name = name

    def src(self):
        return self.name

    def ev(self, rt):
        return rt.scope.lookup(self.name)


class Const(E):
    def __init__(self, name):
        self.name = name

    def src(self):
        return self.name

    def ev(self, rt):
        return rt.scope.lookup_const(self.name)


class EnumC(E):
    VALUES = {"NoOp": 0, "OptIn": 1, "CloseOut": 2, "ClearState": 3, "UpdateApplication": 4, "DeleteApplication": 5,
              "Pay": 1, "Acfg": 3, "Axfer": 4, "Afrz": 5, "Appl": 6}

    def __init__(self, name):
        self.name = name

    def src(self):
        return self.name

    def ev(self, rt):
        return self.VALUES[self.name]


class Un(E):
    def __init__(self, op, a):
        self.op, self.a = op, a

    def src(self):
        return f"{self.op}{self.a.opnd()}"

    def ev(self, rt):
        return rt.op(self.op, None, [self.a.ev(rt)])[0]


class Bin(E):
    prec = True

    def __init__(self, op, a, b):
        self.op, self.a, self.b = op, a, b

    def src(self):
        return f"{self.a.opnd()} {self.op} {self.b.opnd()}"

    def ev(self, rt):
        a = self.a.ev(rt)
        b = self.b.ev(rt)
        return rt.op(self.op, None, [a, b])[0]


class Grp(E):
    """explicit group (only legal around a binary expression)"""

    def __init__(self, e):
        self.e = e

    def src(self):
        return f"({self.e.src()})"

    def ev(self, rt):
        return self.e.ev(rt)


class Op(E):
    """opcode in call style; imms as written; results in documented (tealish) order: top of stack first"""

    def __init__(self, name, args=(), imms=()):
        self.name, self.args, self.imms = name, list(args), list(imms)

    def src(self):
        return f"{self.name}({', '.join([str(i) for i in self.imms] + [a.src() for a in self.args])})"

    def evm(self, rt):
        vals = [a.ev(rt) for a in self.args]
        return rt.op(self.name, self.imms, vals)[::-1]

    def ev(self, rt):
        return self.evm(rt)[0]


class Call(E):
    def __init__(self, name, args=()):
        self.name, self.args = name, list(args)

    def src(self):
        return f"{self.name}({', '.join(a.src() for a in self.args)})"

    def evm(self, rt):
        vals = [a.ev(rt) for a in self.args]
        return rt.call(self.name, vals)

    def ev(self, rt):
        return self.evm(rt)[0]


class Fld(E):
    """Txn.F, Txn.F[i], Gtxn[g].F, Gtxn[g].F[i], Itxn.F, Itxn.F[i], Global.F; g: E or '+k'/'-k'"""

    def __init__(self, ns, field, index=None, g=None):
        self.ns, self.field, self.index, self.g = ns, field, index, g

    def src(self):
        s = self.ns
        if self.ns == "Gtxn":
            s += f"[{self.g if isinstance(self.g, str) else self.g.src()}]"
        s += f".{self.field}"
        if self.index is not None:
            s += f"[{self.index.src()}]"
        return s

    def ev(self, rt):
        env = rt.m.env
        g = None
        if self.ns == "Gtxn":
            if isinstance(self.g, str):
                g = rt.op(self.g[0], None, [env.group_index, int(self.g[1:])])[0]
            else:
                g = self.g.ev(rt)
        i = self.index.ev(rt) if self.index is not None else None
        if self.ns == "Txn":
            return env.txn(env.group_index, self.field, i)
        if self.ns == "Gtxn":
            return env.txn(g, self.field, i)
        if self.ns == "Itxn":
            return avm.itxn_read(rt.m, len(rt.m.lastgroup or [1]) - 1, self.field, i)
        return env.glob(self.field)


class SF(E):
    def __init__(self, var, field):
        self.var, self.field = var, field

    def src(self):
        return f"{self.var}.{self.field}"

    def ev(self, rt):
        t, off, sz = rt.struct_of(self.var).fields[self.field]
        v = rt.scope.lookup(self.var)
        if rt.is_box(self.var):
            data = rt.op("box_extract", None, [v, off, sz])[0]
        else:
            if off + sz > len(v):
                raise Fail("struct too short")
            data = v[off:off + sz]
        return int.from_bytes(data, "big") if is_int(t) else data


class Std(E):
    """Tealish standard library; args are E or raw strings (type names)"""

    def __init__(self, name, *args):
        self.name, self.args = name, args

    def src(self):
        return f"{self.name}({', '.join(a if isinstance(a, str) else a.src() for a in self.args)})"

    def evm(self, rt):
        f = getattr(self, "f_" + self.name)
        r = f(rt)
        return r if isinstance(r, list) else [r]

    def ev(self, rt):
        return self.evm(rt)[0]

    def f_Cast(self, rt):
        v, t = self.args[0].ev(rt), self.args[1]
        return cast(v, t, rt.structs)

    def f_UncheckedCast(self, rt):
        return self.args[0].evm(rt)

    def f_EnsureType(self, rt):
        vals = self.args[0].evm(rt)
        return [cast(v, t, rt.structs) for v, t in zip(vals, self.args[1:])]

    def f_Convert(self, rt):
        v, t = self.args[0].ev(rt), self.args[1]
        if is_int(t):
            if len(v) > 8:
                raise Fail("btoi")
            v = int.from_bytes(v, "big")
            return cast(v, t, rt.structs)
        n = type_size(t, rt.structs)
        if n == 0:
            return v.to_bytes(8, "big")
        if v.bit_length() > 8 * n:
            raise Fail("does not fit")
        return v.to_bytes(n, "big")

    def f_ToBytes(self, rt):
        v, n = self.args[0].ev(rt), self.args[1].ev(rt)
        if isinstance(v, int):
            if v.bit_length() > 8 * n:
                raise Fail("does not fit")
            return v.to_bytes(n, "big")
        if len(v) > n:
            raise Fail("does not fit")
        return v.rjust(n, b"\0")

    def f_FromBytes(self, rt):
        v, t = self.args[0].ev(rt), self.args[1]
        if is_int(t):
            if len(v) > 8:
                raise Fail("btoi")
            return int.from_bytes(v, "big")
        return cast(v, t, rt.structs)

    def f_SizeOf(self, rt):
        return type_size(self.args[0], rt.structs)

    def f_Rpad(self, rt):
        v, n = self.args[0].ev(rt), self.args[1].ev(rt)
        if len(v) > n:
            raise Fail("pad")
        return v + bytes(n - len(v))

    def f_Lpad(self, rt):
        v, n = self.args[0].ev(rt), self.args[1].ev(rt)
        if len(v) > n:
            raise Fail("pad")
        return bytes(n - len(v)) + v

    def f_Concat(self, rt):
        vals = [a.ev(rt) for a in self.args]
        out = b"".join(vals)
        if len(out) > 4096:
            raise Fail("too long")
        return out

    def f_Address(self, rt):
        return avm.decode_address(self.args[0].ev(rt).decode())

    def f_ARC28Event(self, rt):
        sig = self.args[0].ev(rt)
        return avm.sha512_256(sig)[:4] + b"".join([a.ev(rt) for a in self.args[1:]])


def cast(v, t, structs):
    if isinstance(v, int):
        if not is_int(t):
            raise Fail("int for bytes")
        n = type_size(t, structs)
        if v.bit_length() > 8 * n:
            raise Fail("does not fit")
        return v
    if is_int(t):
        raise Fail("bytes for int")
    n = type_size(t, structs)
    if n and len(v) != n:
        raise Fail("size")
    return v


# ------------------------------------------------------------------ scopes
class Scope:
    def __init__(self, parent=None, kind="block"):
        self.parent, self.kind = parent, kind
        self.vars = {}
        self.types = {}
        self.consts = {}
        self.funcs = {}
        self.blocks = {}

    def find(self, attr, name):
        s = self
        while s is not None:
            d = getattr(s, attr)
            if name in d:
                return d
            s = s.parent
        raise KeyError(f"{attr}: {name}")

    def lookup(self, name):
        return self.find("vars", name)[name]

    def lookup_const(self, name):
        return self.find("consts", name)[name]

    def vtype(self, name):
        return self.find("types", name)[name]


# ------------------------------------------------------------------ statements
IND = "    "


class S:
    line_no = None

    def emit(self, out, ind):
        out.append(IND * ind + self.text())
        self.line_no = len(out)

    def ex(self, rt):
        rt.line = self.line_no
        rt.tick()
        self.run(rt)


def emit_all(body, out, ind):
    for s in body:
        s.emit(out, ind)


def run_all(body, rt):
    for s in body:
        s.ex(rt)


class Comment(S):
    def __init__(self, text=" c"):
        self.t = text

    def text(self):
        return "#" + self.t

    def ex(self, rt):
        pass


class Blank(S):
    def text(self):
        return ""

    def ex(self, rt):
        pass


class Raw(S):
    """one line of source with a Python effect"""

    def __init__(self, t, f=None):
        self.t, self.f = t, f

    def text(self):
        return self.t

    def run(self, rt):
        if self.f:
            self.f(rt)


class ConstDef(S):
    def __init__(self, t, name, lit, value):
        self.t, self.name, self.lit, self.v = t, name, lit, value

    def text(self):
        return f"const {self.t} {self.name} = {self.lit}"

    def ex(self, rt):
        rt.scope.consts[self.name] = self.v


class Decl(S):
    def __init__(self, t, name, e=None):
        self.t, self.name, self.e = t, name, e

    def text(self):
        return f"{self.t} {self.name}" + (f" = {self.e.src()}" if self.e is not None else "")

    def run(self, rt):
        v = self.e.ev(rt) if self.e is not None else None
        rt.scope.types[self.name] = self.t
        if self.e is not None or self.name not in rt.scope.vars:
            rt.scope.vars[self.name] = v


class BoxDecl(S):
    def __init__(self, struct, name, key, mode=""):
        self.struct, self.name, self.key, self.mode = struct, name, key, mode

    def text(self):
        return f"box<{self.struct}> {self.name} = {self.mode}Box({self.key.src()})"

    def run(self, rt):
        k = self.key.ev(rt)
        n = rt.structs[self.struct].size
        if self.mode == "Open":
            if k not in rt.m.boxes or len(rt.m.boxes[k]) != n:
                raise Fail("open box")
        elif self.mode == "Create":
            if not rt.op("box_create", None, [k, n])[0]:
                raise Fail("create box")
        rt.scope.types[self.name] = f"box<{self.struct}>"
        rt.scope.vars[self.name] = k


class Assign(S):
    def __init__(self, names, e):
        self.names = [names] if isinstance(names, str) else list(names)
        self.e = e

    def text(self):
        return f"{', '.join(self.names)} = {self.e.src()}"

    def run(self, rt):
        vals = self.e.evm(rt)
        assert len(vals) == len(self.names), (vals, self.names)
        for n, v in zip(self.names, vals):
            if n != "_":
                rt.scope.find("vars", n)[n] = v


class SetField(S):
    def __init__(self, var, field, e):
        self.var, self.field, self.e = var, field, e

    def text(self):
        return f"{self.var}.{self.field} = {self.e.src()}"

    def run(self, rt):
        t, off, sz = rt.struct_of(self.var).fields[self.field]
        v = self.e.ev(rt)
        if is_int(t):
            v = v.to_bytes(8, "big")[8 - sz:]
        cur = rt.scope.lookup(self.var)
        if rt.is_box(self.var):
            rt.op("box_replace", None, [cur, off, v])
        else:
            if off + len(v) > len(cur):
                raise Fail("replace")
            rt.scope.find("vars", self.var)[self.var] = cur[:off] + v + cur[off + len(v):]


class Expr(S):
    """statement call without results"""

    def __init__(self, e):
        self.e = e

    def text(self):
        return self.e.src()

    def run(self, rt):
        self.e.evm(rt)


def Log(e):
    return Expr(Op("log", [e]))


class Assert(S):
    def __init__(self, e, msg=None):
        self.e, self.msg = e, msg

    def text(self):
        return f"assert({self.e.src()}" + (f', "{self.msg}"' if self.msg is not None else "") + ")"

    def run(self, rt):
        v = self.e.ev(rt)
        if not isinstance(v, int):
            raise Fail("assert type")
        if v == 0:
            raise Fail("assert failed")


class Exit(S):
    def __init__(self, e):
        self.e = e

    def text(self):
        return f"exit({self.e.src()})"

    def run(self, rt):
        v = self.e.ev(rt)
        if not isinstance(v, int):
            raise Fail("return type")
        raise Done(v)


class Error(S):
    def text(self):
        return "Error()"

    def run(self, rt):
        raise Fail("err")


def truth(v):
    if not isinstance(v, int):
        raise Fail("condition type")
    return v != 0


class If(S):
    """branches: [(cond, negated, body), ...]; els: body or None"""

    def __init__(self, branches, els=None):
        self.branches, self.els = branches, els

    def emit(self, out, ind):
        for k, (c, neg, body) in enumerate(self.branches):
            out.append(IND * ind + ("if " if k == 0 else "elif ") + ("not " if neg else "") + c.src() + ":")
            if k == 0:
                self.line_no = len(out)
                self.cond_lines = []
            self.cond_lines.append(len(out))
            emit_all(body, out, ind + 1)
        if self.els is not None:
            out.append(IND * ind + "else:")
            self.else_line = len(out)
            emit_all(self.els, out, ind + 1)
        out.append(IND * ind + "end")
        self.end_line = len(out)

    def run(self, rt):
        for k, (c, neg, body) in enumerate(self.branches):
            rt.line = self.cond_lines[k]
            if truth(c.ev(rt)) != bool(neg):
                run_all(body, rt)
                return
        if self.els is not None:
            run_all(self.els, rt)


class While(S):
    def __init__(self, cond, body, neg=False):
        self.cond, self.body, self.neg = cond, body, neg

    def emit(self, out, ind):
        out.append(IND * ind + "while " + ("not " if self.neg else "") + self.cond.src() + ":")
        self.line_no = len(out)
        emit_all(self.body, out, ind + 1)
        out.append(IND * ind + "end")
        self.end_line = len(out)

    def run(self, rt):
        outer = rt.scope
        try:
            while True:
                rt.tick()
                rt.line = self.line_no
                rt.scope = outer
                if truth(self.cond.ev(rt)) == bool(self.neg):
                    break
                rt.scope = Scope(outer, "loop")
                run_all(self.body, rt)
        except Brk:
            pass
        finally:
            rt.scope = outer


class For(S):
    """var None: for _"""

    def __init__(self, var, start, end, body):
        self.var, self.start, self.end, self.body = var, start, end, body

    def emit(self, out, ind):
        out.append(IND * ind + f"for {self.var or '_'} in {self.start.src()}:{self.end.src()}:")
        self.line_no = len(out)
        emit_all(self.body, out, ind + 1)
        out.append(IND * ind + "end")
        self.end_line = len(out)

    def run(self, rt):
        outer = rt.scope
        i = self.start.ev(rt)
        loop = Scope(outer, "loop")
        if self.var:
            loop.vars[self.var] = i
            loop.types[self.var] = "int"
        try:
            while True:
                rt.tick()
                rt.line = self.line_no
                rt.scope = loop
                cur = loop.vars[self.var] if self.var else i
                if cur == self.end.ev(rt):
                    break
                body = Scope(loop, "loop")
                rt.scope = body
                run_all(self.body, rt)
                cur = loop.vars[self.var] if self.var else i
                rt.line = self.line_no
                if cur == U64:
                    raise Fail("overflow")
                i = cur + 1
                if self.var:
                    loop.vars[self.var] = i
        finally:
            rt.scope = outer


class Break(S):
    def text(self):
        return "break"

    def run(self, rt):
        raise Brk()


class Return(S):
    def __init__(self, *es):
        self.es = es

    def text(self):
        return "return" + (" " + ", ".join(e.src() for e in self.es) if self.es else "")

    def run(self, rt):
        # results are evaluated last to first
        vals = [e.ev(rt) for e in reversed(self.es)][::-1]
        raise Ret(vals)


class Jump(S):
    def __init__(self, name):
        self.name = name

    def text(self):
        return f"jump {self.name}"

    def run(self, rt):
        raise Goto(rt.scope.find("blocks", self.name)[self.name])


class Switch(S):
    def __init__(self, e, opts, els=None):
        self.e, self.opts, self.els = e, opts, els

    def emit(self, out, ind):
        out.append(IND * ind + f"switch {self.e.src()}:")
        self.line_no = len(out)
        self.o_lines = []
        for o, b in self.opts:
            out.append(IND * (ind + 1) + f"{o.src()}: {b}")
            self.o_lines.append(len(out))
        if self.els is not None:
            out.append(IND * (ind + 1) + f"else: {self.els}")
        out.append(IND * ind + "end")
        self.end_line = len(out)

    def run(self, rt):
        v = self.e.ev(rt)
        for (o, b), ln in zip(self.opts, self.o_lines):
            rt.line = ln
            w = o.ev(rt)
            if rt.op("==", None, [v, w])[0]:
                raise Goto(rt.scope.find("blocks", b)[b])
        if self.els is not None:
            raise Goto(rt.scope.find("blocks", self.els)[self.els])
        rt.line = self.line_no
        raise Fail("switch")


class InnerTxn(S):
    """fields: [(name, index or None, E)]"""

    def __init__(self, fields):
        self.fields = fields

    def emit(self, out, ind):
        out.append(IND * ind + "inner_txn:")
        self.line_no = len(out)
        self.f_lines = []
        for n, i, e in self.fields:
            out.append(IND * (ind + 1) + f"{n}{'' if i is None else f'[{i}]'}: {e.src()}")
            self.f_lines.append(len(out))
        out.append(IND * ind + "end")
        self.end_line = len(out)

    def run(self, rt):
        m = rt.m
        if rt.group is not None and rt.group_started:
            rt.op("itxn_next", None, [])
        else:
            rt.op("itxn_begin", None, [])
            rt.group_started = True
        for (n, i, e), ln in zip(self.fields, self.f_lines):
            rt.line = ln
            rt.op("itxn_field", [n], [e.ev(rt)])
        rt.line = self.line_no
        if rt.group is None:
            rt.op("itxn_submit", None, [])
            rt.group_started = False


class InnerGroup(S):
    def __init__(self, body):
        self.body = body

    def emit(self, out, ind):
        out.append(IND * ind + "inner_group:")
        self.line_no = len(out)
        emit_all(self.body, out, ind + 1)
        out.append(IND * ind + "end")
        self.end_line = len(out)

    def run(self, rt):
        if rt.group is not None:
            raise Fail("nested group")
        rt.group = True
        rt.group_started = False
        run_all(self.body, rt)
        rt.line = self.line_no
        rt.group = None
        rt.op("itxn_submit", None, [])
        rt.group_started = False


class Teal(S):
    def __init__(self, tlines, f=None):
        self.tlines, self.f = tlines, f

    def emit(self, out, ind):
        out.append(IND * ind + "teal:")
        self.line_no = len(out)
        for l in self.tlines:
            out.append(IND * (ind + 1) + l)
        out.append(IND * ind + "end")

    def run(self, rt):
        if self.f:
            self.f(rt)


class Block(S):
    def __init__(self, name, body):
        self.name, self.body = name, body   # body includes nested Block/Func after the exit

    def emit(self, out, ind):
        out.append(IND * ind + f"block {self.name}:")
        self.line_no = len(out)
        emit_all(self.body, out, ind + 1)
        out.append(IND * ind + "end")

    def ex(self, rt):
        raise AssertionError("control fell into a block")


class Func(S):
    def __init__(self, name, params, returns, body, public=None):
        self.name, self.params, self.returns, self.body, self.public = name, params, returns, body, public
        # public: None or the text inside @public(...)

    def emit(self, out, ind):
        if self.public is not None:
            out.append(IND * ind + f"@public({self.public})")
        r = (" " + ", ".join(self.returns)) if self.returns else ""
        out.append(IND * ind + f"func {self.name}({', '.join(f'{n}: {t}' for n, t in self.params)}){r}:")
        self.line_no = len(out)
        emit_all(self.body, out, ind + 1)
        out.append(IND * ind + "end")

    def ex(self, rt):
        raise AssertionError("control fell into a function")


class Router(S):
    def __init__(self, names):
        self.names = names

    def emit(self, out, ind):
        out.append(IND * ind + "router:")
        self.line_no = len(out)
        for n in self.names:
            out.append(IND * (ind + 1) + n)
        out.append(IND * ind + "end")

    def run(self, rt):
        env = rt.m.env
        sel = env.txn(env.group_index, "ApplicationArgs", 0)
        for n in self.names:
            if n.encode() != sel:
                continue
            fn, _ = rt.scope.find("funcs", n)[n]
            oc = "NoOp"
            if fn.public and "=" in fn.public:
                oc = fn.public.split("=")[1]
            if oc == "CreateApplication":
                if env.txn(env.group_index, "ApplicationID") != 0:
                    raise Fail("not creation")
            elif env.txn(env.group_index, "OnCompletion") != EnumC.VALUES[oc]:
                raise Fail("on completion")
            vals = []
            for k, (_, t) in enumerate(fn.params):
                raw = env.txn(env.group_index, "ApplicationArgs", k + 1)
                if is_int(t):
                    if len(raw) > 8:
                        raise Fail("btoi")
                    v = int.from_bytes(raw, "big")
                    vals.append(cast(v, t, rt.structs))
                else:
                    vals.append(cast(raw, t, rt.structs))
            res = rt.call(n, vals)
            if res:
                out = b"".join(v.to_bytes(8, "big") if isinstance(v, int) else v for v in res)
                rt.op("log", None, [bytes.fromhex("151f7c75") + out])
            raise Done(1)
        raise Fail("no route")


# ------------------------------------------------------------------ program
class Prog:
    def __init__(self, body, structs=(), version=8):
        self.body, self.structs, self.version = body, list(structs), version

    def source(self):
        out = [f"#pragma version {self.version}"]
        for s in self.structs:
            out.extend(s.lines())
        emit_all(self.body, out, 0)
        return "\n".join(out) + "\n"


class RT:
    def __init__(self, prog, env, max_ticks=3000):
        self.prog = prog
        self.m = avm.Machine(None, env)
        self.structs = {s.name: s for s in prog.structs}
        self.ticks, self.max_ticks = 0, max_ticks
        self.line = 0
        self.group = None
        self.group_started = False
        self.depth = 0

    def tick(self):
        self.ticks += 1
        if self.ticks > self.max_ticks:
            raise Budget()

    def op(self, name, imm, args):
        m = self.m
        base = len(m.stack)
        m.stack.extend(args)
        ins = avm.Instr(name, imm, self.line)
        if name in ("substring", "extract", "replace") and imm is not None and len(imm) == 0:
            name = name + "3"
            ins.op = name
        fn = avm.DISPATCH.get(name)
        if fn:
            fn(m, ins)
        else:
            avm.op_opaque(m, ins)
        res = m.stack[base:]
        del m.stack[base:]
        return res

    def struct_of(self, var):
        t = self.scope.vtype(var)
        return self.structs[t[4:-1] if t.startswith("box<") else t]

    def is_box(self, var):
        return self.scope.vtype(var).startswith("box<")

    def declare(self, body, scope):
        for s in body:
            if isinstance(s, Block):
                sc = Scope(scope, "block")
                self.declare(s.body, sc)
                scope.blocks[s.name] = (s, sc)
            elif isinstance(s, Func):
                scope.funcs[s.name] = (s, scope)

    def call(self, name, vals):
        fn, dscope = self.scope.find("funcs", name)[name]
        saved, sline = self.scope, self.line
        sc = Scope(dscope, "func")
        for (n, t), v in zip(fn.params, vals):
            sc.vars[n] = v
            sc.types[n] = t
        self.declare(fn.body, sc)
        self.scope = sc
        self.depth += 1
        if self.depth > 200:
            raise Fail("call depth")
        try:
            run_all(fn.body, self)
            raise AssertionError("function without return")
        except Ret as r:
            self.line = sline
            return r.vals
        finally:
            self.depth -= 1
            self.scope = saved

    def run(self):
        m = self.m
        self.scope = Scope(None, "program")
        try:
            self.declare(self.prog.body, self.scope)
            body = self.prog.body
            while True:
                try:
                    for s in body:
                        s.ex(self)
                    raise AssertionError("fell off the end")
                except Goto as g:
                    self.tick()
                    blk, self.scope = g.block
                    body = blk.body
        except Done as d:
            m.status, m.value = ("accept" if d.v else "reject0"), d.v
        except Fail as f:
            m.status, m.fail = "fail", str(f)
        except Budget:
            m.status = "budget"
        return m


def run_ref(prog, env, max_ticks=3000):
    rt = RT(prog, env, max_ticks)
    m = rt.run()
    m.failins = rt.line
    return m
