"""A small Algorand virtual machine: TEAL assembler + interpreter.

Independent of /repo: the opcode table is a pinned copy of the AVM v8 language
specification (mc/data/langspec_pinned.json) plus the hand-written immediate
kinds below.  Ops whose meaning depends on the ledger are *opaque*: they record
an event and return a value that is a fixed function of (op, immediates,
operands), or whatever the environment's oracle chooses.
"""
import base64
import hashlib
import json
import os

U64 = (1 << 64) - 1
HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = json.load(open(os.path.join(HERE, "data", "langspec_pinned.json")))
OPS = {o["Name"]: o for o in SPEC["Ops"]}


class AsmError(Exception):
    pass


class Fail(Exception):
    """run-time failure of the program"""


# ---------------------------------------------------------------- immediates
TXN_FIELDS = dict(zip(OPS["txn"]["ArgEnum"], OPS["txn"]["ArgEnumTypes"]))
TXNA_FIELDS = dict(zip(OPS["txna"]["ArgEnum"], OPS["txna"]["ArgEnumTypes"]))
ITXN_SET = dict(zip(OPS["itxn_field"]["ArgEnum"], OPS["itxn_field"]["ArgEnumTypes"]))
GLOBAL_FIELDS = dict(zip(OPS["global"]["ArgEnum"], OPS["global"]["ArgEnumTypes"]))


def enum(op):
    return dict(zip(OPS[op]["ArgEnum"], OPS[op]["ArgEnumTypes"]))


GROUPS = {
    "asset_holding_get": enum("asset_holding_get"),
    "asset_params_get": enum("asset_params_get"),
    "app_params_get": enum("app_params_get"),
    "acct_params_get": enum("acct_params_get"),
    "ecdsa_verify": {"Secp256k1": "U", "Secp256r1": "U"},
    "ecdsa_pk_decompress": {"Secp256k1": "U", "Secp256r1": "U"},
    "ecdsa_pk_recover": {"Secp256k1": "U", "Secp256r1": "U"},
    "base64_decode": {"URLEncoding": "B", "StdEncoding": "B"},
    "json_ref": {"JSONString": "B", "JSONUint64": "U", "JSONObject": "B"},
    "vrf_verify": {"VrfAlgorand": "B"},
    "block": {"BlkSeed": "B", "BlkTimestamp": "U"},
}
# kinds: u8, i8, label, labels, int, bytes, ints, bytess, txn, txna, itxnset, global, grp
IMM = {
    "intcblock": ["ints"], "bytecblock": ["bytess"], "pushints": ["ints"], "pushbytess": ["bytess"],
    "pushint": ["int"], "pushbytes": ["bytes"],
    "intc": ["u8"], "bytec": ["u8"], "arg": ["u8"],
    "txn": ["txn"], "global": ["global"], "gtxn": ["u8", "txn"], "txna": ["txna", "u8"],
    "gtxna": ["u8", "txna", "u8"], "gtxns": ["txn"], "gtxnsa": ["txna", "u8"],
    "txnas": ["txna"], "gtxnas": ["u8", "txna"], "gtxnsas": ["txna"],
    "itxn": ["txn"], "itxna": ["txna", "u8"], "gitxn": ["u8", "txn"], "gitxna": ["u8", "txna", "u8"],
    "itxnas": ["txna"], "gitxnas": ["u8", "txna"],
    "itxn_field": ["itxnset"],
    "load": ["u8"], "store": ["u8"], "gload": ["u8", "u8"], "gloads": ["u8"], "gaid": ["u8"],
    "bnz": ["label"], "bz": ["label"], "b": ["label"], "callsub": ["label"],
    "switch": ["labels"], "match": ["labels"],
    "proto": ["u8", "u8"], "frame_dig": ["i8"], "frame_bury": ["i8"],
    "bury": ["u8"], "popn": ["u8"], "dupn": ["u8"], "dig": ["u8"], "cover": ["u8"], "uncover": ["u8"],
    "substring": ["u8", "u8"], "extract": ["u8", "u8"], "replace2": ["u8"],
}
for _g in GROUPS:
    IMM[_g] = ["grp"]

ONC = {"NoOp": 0, "OptIn": 1, "CloseOut": 2, "ClearState": 3, "UpdateApplication": 4, "DeleteApplication": 5}
TYPES = {"unknown": 0, "pay": 1, "keyreg": 2, "acfg": 3, "axfer": 4, "afrz": 5, "appl": 6}


def decode_address(a):
    if len(a) != 58:
        raise AsmError("bad address length")
    try:
        raw = base64.b32decode(a + "======")
    except Exception:
        raise AsmError("bad address")
    from Cryptodome.Hash import SHA512
    if SHA512.new(raw[:32], truncate="256").digest()[-4:] != raw[32:36]:
        raise AsmError("bad address checksum")
    return raw[:32]


def encode_address(pk):
    from Cryptodome.Hash import SHA512
    c = SHA512.new(pk, truncate="256").digest()[-4:]
    return base64.b32encode(pk + c).decode().rstrip("=")


def sha512_256(b):
    from Cryptodome.Hash import SHA512
    return SHA512.new(b, truncate="256").digest()


def parse_uint(tok):
    """strconv.ParseUint(tok, 0, 64)"""
    t = tok
    try:
        if not t or t[0] in "+-":
            raise ValueError
        low = t.lower()
        if low.startswith("0x"):
            v = int(low.replace("_", ""), 16)
        elif low.startswith("0b"):
            v = int(low.replace("_", ""), 2)
        elif low.startswith("0o"):
            v = int(low.replace("_", ""), 8)
        elif len(t) > 1 and t[0] == "0":
            v = int(t.replace("_", ""), 8)
        else:
            if not t.isascii() or not t.replace("_", "").isdigit() or t[0] == "_" or t[-1] == "_":
                raise ValueError
            v = int(t.replace("_", ""))
    except ValueError:
        raise AsmError(f"not an integer: {tok}")
    if v > U64:
        raise AsmError(f"integer out of range: {tok}")
    return v


def parse_string(tok):
    """go-algorand parseStringLiteral"""
    if len(tok) < 2 or tok[0] != '"' or tok[-1] != '"':
        raise AsmError(f"no quotes: {tok}")
    out = bytearray()
    esc = False
    hexd = None
    body = tok[1:-1].encode("utf8")
    i = 0
    while i < len(body):
        c = chr(body[i]) if body[i] < 128 else None
        if c == "\\" and not esc:
            esc = True
            i += 1
            continue
        if c == '"' and not esc:
            raise AsmError("unexpected quote in string")
        if esc:
            esc = False
            if c == "n":
                out.append(10)
            elif c == "r":
                out.append(13)
            elif c == "t":
                out.append(9)
            elif c == "\\":
                out.append(92)
            elif c == '"':
                out.append(34)
            elif c == "x":
                h = body[i + 1:i + 3].decode("latin1")
                try:
                    if len(h) != 2:
                        raise ValueError
                    out.append(int(h, 16))
                except ValueError:
                    raise AsmError("bad hex escape")
                i += 2
            else:
                raise AsmError(f"invalid escape \\{c}")
            i += 1
            continue
        out.append(body[i])
        i += 1
    if esc:
        raise AsmError("trailing escape")
    return bytes(out)


def parse_bytes(toks):
    try:
        return parse_bytes_(toks)
    except (ValueError, IndexError):
        raise AsmError(f"byte literal did not parse: {toks[:2]}") from None


def parse_bytes_(toks):
    """returns (value, consumed)"""
    if not toks:
        raise AsmError("missing byte literal")
    t = toks[0]
    if t.startswith("0x"):
        try:
            return bytes.fromhex(t[2:]), 1
        except ValueError:
            raise AsmError(f"bad hex {t}")
    if t.startswith('"'):
        return parse_string(t), 1
    for p in ("base64", "b64"):
        if t.startswith(p + "("):
            return base64.b64decode(t[len(p) + 1:-1], validate=True), 1
        if t == p:
            return base64.b64decode(toks[1], validate=True), 2
    for p in ("base32", "b32"):
        if t.startswith(p + "("):
            s = t[len(p) + 1:-1]
            return base64.b32decode(s + "=" * (-len(s) % 8)), 1
        if t == p:
            return base64.b32decode(toks[1] + "=" * (-len(toks[1]) % 8)), 2
    raise AsmError(f"byte arg did not parse: {t}")


SEPS = "\t\n\v\f\r ;\x85\xa0"


def tokens_from_line(line):
    """go-algorand tokensFromLine"""
    toks = []
    i, n = 0, len(line)
    while i < n and line[i] in SEPS:
        if line[i] == ";":
            toks.append(";")
        i += 1
    start = i
    in_str = in_b64 = False
    while i < n:
        c = line[i]
        if c not in SEPS:
            if c == '"':
                if not in_str:
                    if i == 0 or line[i - 1] in SEPS:
                        in_str = True
                elif line[i - 1] != "\\":
                    in_str = False
            elif c == "/":
                if i < n - 1 and line[i + 1] == "/" and not in_b64 and not in_str:
                    if start != i:
                        toks.append(line[start:i])
                    return toks
            elif c == "(":
                pre = line[start:i]
                if pre in ("base64", "b64"):
                    in_b64 = True
            elif c == ")":
                in_b64 = False
            i += 1
            continue
        if not in_str:
            tok = line[start:i]
            if tok:
                toks.append(tok)
            if c == ";":
                toks.append(";")
            if in_b64 and tok not in ("base64", "b64"):
                in_b64 = False
            elif tok in ("base64", "b64"):
                in_b64 = True
        i += 1
        if not in_str:
            while i < n and line[i] in SEPS:
                if line[i] == ";":
                    toks.append(";")
                i += 1
            start = i
    if start < n:
        tok = line[start:i]
        toks.append(tok)
    return toks


class Instr:
    __slots__ = ("op", "imm", "line", "fn", "pc", "size", "idx")

    def __init__(self, op, imm, line):
        self.op, self.imm, self.line = op, imm, line
        self.fn = None


class Asm:
    """assembled program"""
    __slots__ = ("instrs", "version", "labels", "n_lines", "lines")

    def sourcemap(self):
        """algod-style source map dict: one group per byte of bytecode, 0-based TEAL lines"""
        groups = [None]  # byte 0: version
        for ins in self.instrs:
            groups.append(ins.line - 1)
            groups.extend([None] * (ins.size - 1))
        out, prev = [], 0
        for g in groups:
            if g is None:
                out.append("")
            else:
                out.append("AA" + vlq(g - prev) + "A")
                prev = g
        return {"version": 3, "sources": ["x.teal"], "names": [], "mappings": ";".join(out)}


B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"


def vlq(v):
    v = (-v << 1) | 1 if v < 0 else v << 1
    s = ""
    while True:
        d = v & 31
        v >>= 5
        if v:
            d |= 32
        s += B64[d]
        if not v:
            return s


def varuint_len(v):
    n = 1
    while v >= 128:
        v >>= 7
        n += 1
    return n


PSEUDO = {"int", "byte", "addr", "method"}


def assemble(lines, ops=None):
    """lines: list of TEAL lines (strings without newline). Returns Asm or raises AsmError."""
    if isinstance(lines, str):
        lines = lines.split("\n")
    text = []
    for l in lines:
        text.extend(l.split("\n"))
    opset = OPS if ops is None else ops
    macros = {}
    labels = {}
    instrs = []
    refs = []
    version = None
    for no, line in enumerate(text, 1):
        toks = tokens_from_line(line)
        if not toks:
            continue
        # directives
        if toks[0].startswith("#"):
            if toks[0] == "#pragma":
                if len(toks) >= 3 and toks[1] == "version":
                    if instrs or labels:
                        raise AsmError(f"line {no}: #pragma version after instructions")
                    if len(toks) > 3:
                        raise AsmError(f"line {no}: bad pragma")
                    version = parse_uint(toks[2])
                    continue
                if len(toks) >= 2 and toks[1] == "typetrack":
                    continue
                raise AsmError(f"line {no}: unsupported pragma")
            if toks[0] == "#define":
                if len(toks) < 2:
                    raise AsmError(f"line {no}: #define needs a name")
                name = toks[1]
                check_macro_name(name, labels, opset, no)
                macros[name] = toks[2:]
                expand(toks[2:], macros, no, (name,))
                continue
            raise AsmError(f"line {no}: unknown directive {toks[0]}")
        toks = expand(toks, macros, no)
        cur = []
        stmts = []
        for t in toks:
            if t == ";":
                if cur:
                    stmts.append(cur)
                cur = []
            else:
                cur.append(t)
        if cur:
            stmts.append(cur)
        for st in stmts:
            if st[0].endswith(":"):
                lab = st[0][:-1]
                if lab in macros:
                    raise AsmError(f"line {no}: label {lab} is a macro")
                if lab in labels:
                    raise AsmError(f"line {no}: duplicate label {lab}")
                labels[lab] = len(instrs)
                st = st[1:]
                if not st:
                    continue
            ins = parse_instr(st, no, refs, instrs, opset)
            instrs.append(ins)
    for ins, k, lab, no in refs:
        if lab not in labels:
            raise AsmError(f"line {no}: reference to undefined label {lab}")
        if k is None:
            ins.imm = labels[lab]
        else:
            ins.imm[k] = labels[lab]
    a = Asm()
    a.instrs = instrs
    a.version = version
    a.labels = labels
    a.lines = text
    a.n_lines = len(text)
    pc = 1
    for i, ins in enumerate(instrs):
        ins.idx = i
        ins.pc = pc
        ins.size = instr_size(ins, opset)
        pc += ins.size
        ins.fn = DISPATCH.get(ins.op)
    return a


def instr_size(ins, opset):
    op = ins.op
    if op == "pushint":
        return 1 + varuint_len(ins.imm)
    if op == "pushbytes":
        return 1 + varuint_len(len(ins.imm)) + len(ins.imm)
    if op in ("switch", "match"):
        return 2 + 2 * len(ins.imm)
    if op in ("intcblock", "pushints"):
        return 1 + varuint_len(len(ins.imm)) + sum(varuint_len(v) for v in ins.imm)
    if op in ("bytecblock", "pushbytess"):
        return 1 + varuint_len(len(ins.imm)) + sum(varuint_len(len(v)) + len(v) for v in ins.imm)
    return opset[op]["Size"] or 1


def check_macro_name(name, labels, opset, no):
    bad = (
        not name
        or name[0].isdigit()
        or (len(name) > 1 and name[0] in "+-" and name[1].isdigit())
        or name in ("b64", "base64", "b32", "base32")
        or name in ONC or name in TYPES or name in PSEUDO or name in opset
        or name in labels
        or name in TXN_FIELDS or name in GLOBAL_FIELDS
        or any(name in g for g in GROUPS.values())
        or '"' in name or "(" in name or ")" in name
    )
    if bad:
        raise AsmError(f"line {no}: invalid macro name {name}")


def expand(toks, macros, no, seen=()):
    if not macros:
        return toks
    out = []
    for t in toks:
        if t in macros:
            if t in seen:
                raise AsmError(f"line {no}: macro cycle {t}")
            out.extend(expand(macros[t], macros, no, seen + (t,)))
        else:
            out.append(t)
    return out


def u8(t, no):
    v = parse_uint(t)
    if v > 255:
        raise AsmError(f"line {no}: immediate {t} > 255")
    return v


def parse_instr(st, no, refs, instrs, opset):
    op, args = st[0], st[1:]
    n = len(args)
    try:
        # pseudo ops
        if op == "int":
            if n != 1:
                raise AsmError("int needs one immediate")
            a = args[0]
            v = ONC.get(a, TYPES.get(a))
            return Instr("pushint", parse_uint(a) if v is None else v, no)
        if op == "byte":
            v, used = parse_bytes(args)
            if used != n:
                raise AsmError("byte: extra immediates")
            return Instr("pushbytes", v, no)
        if op == "addr":
            if n != 1:
                raise AsmError("addr needs one immediate")
            return Instr("pushbytes", decode_address(args[0]), no)
        if op == "method":
            if n != 1:
                raise AsmError("method needs one immediate")
            return Instr("pushbytes", sha512_256(parse_string(args[0]))[:4], no)
        if op == "extract":
            if n == 0:
                return Instr("extract3", [], no)
        elif op == "substring":
            if n == 0:
                return Instr("substring3", [], no)
        elif op == "replace":
            if n == 0:
                return Instr("replace3", [], no)
            op = "replace2"
        elif op == "txn" and n == 2:
            op = "txna"
        elif op == "gtxn" and n == 3:
            op = "gtxna"
        elif op == "gtxns" and n == 2:
            op = "gtxnsa"
        elif op == "itxn" and n == 2:
            op = "itxna"
        elif op == "gitxn" and n == 3:
            op = "gitxna"
        if op not in opset:
            raise AsmError(f"unknown opcode {op}")
        kinds = IMM.get(op)
        if kinds is None:
            if opset is not OPS and op not in OPS:
                # unknown local opcode: free-form immediates, count = Size-1
                if n != opset[op]["Size"] - 1:
                    raise AsmError(f"{op} expects {opset[op]['Size'] - 1} immediates, got {n}")
                return Instr(op, list(args), no)
            if n:
                raise AsmError(f"{op} expects no immediates, got {n}")
            return Instr(op, None, no)
        k = kinds[0]
        if k == "labels":
            ins = Instr(op, [None] * n, no)
            if n > 255:
                raise AsmError("too many labels")
            for i, l in enumerate(args):
                refs.append((ins, i, l, no))
            return ins
        if k == "ints":
            return Instr(op, [parse_uint(a) for a in args], no)
        if k == "bytess":
            vals = []
            while args:
                v, used = parse_bytes(args)
                vals.append(v)
                args = args[used:]
            return Instr(op, vals, no)
        if k == "bytes":
            v, used = parse_bytes(args)
            if used != n:
                raise AsmError(f"{op}: expects 1 immediate")
            return Instr(op, v, no)
        if n != len(kinds):
            raise AsmError(f"{op} expects {len(kinds)} immediates, got {n}")
        if k == "int":
            return Instr(op, parse_uint(args[0]), no)
        if k == "label":
            ins = Instr(op, None, no)
            refs.append((ins, None, args[0], no))
            return ins
        imm = []
        for kk, a in zip(kinds, args):
            if kk == "u8":
                imm.append(u8(a, no))
            elif kk == "i8":
                neg = a.startswith("-")
                v = parse_uint(a[1:] if neg else a)
                v = -v if neg else v
                if not -128 <= v <= 127:
                    raise AsmError(f"immediate {a} out of int8")
                imm.append(v)
            else:
                table = {"txn": TXN_FIELDS, "txna": TXNA_FIELDS, "itxnset": ITXN_SET,
                         "global": GLOBAL_FIELDS, "grp": GROUPS.get(op)}[kk]
                if a not in table:
                    raise AsmError(f"{op} unknown field {a}")
                if op in ("txn", "gtxn", "gtxns", "itxn", "gitxn") and a in TXNA_FIELDS:
                    raise AsmError(f"{op} {a} needs an array index")
                imm.append(a)
        if op == "substring" and imm[1] < imm[0]:
            raise AsmError("substring end before start")
        return Instr(op, imm, no)
    except AsmError as e:
        m = str(e)
        raise AsmError(m if m.startswith("line ") else f"line {no}: {m}")


# ---------------------------------------------------------------- environment
def h_bytes(*key):
    return hashlib.sha256(repr(key).encode()).digest()


def h_int(*key):
    return int.from_bytes(h_bytes(*key)[:5], "big") + 2


def default_value(typ, *key):
    if typ == "U":
        return h_int(*key)
    if typ == "B":
        return h_bytes(*key)
    return h_int(*key) if h_bytes(*key)[31] & 1 else h_bytes(*key)


class Env:
    """Everything outside the program. Immutable during a run except `state`."""

    def __init__(self, args=(), group=None, group_index=0, fields=None, oracle=None,
                 boxes=None, gstate=None, globals_=None, array_len=8, group_size=16, exists=None):
        self.args = list(args)
        self.group = group or {}          # index -> {field: value or list}
        self.group_index = group_index
        self.group_size = group_size
        self.fields = fields or {}        # current txn overrides
        self.globals = globals_ or {}
        self.oracle = oracle              # f(op, imm, args) -> list of values or None
        self.boxes0 = boxes or {}
        self.gstate0 = gstate or {}
        self.array_len = array_len

    def txn(self, gi, field, idx=None):
        if gi < 0 or gi >= self.group_size:
            raise Fail("group index out of range")
        d = self.fields if gi == self.group_index else self.group.get(gi, {})
        if field == "GroupIndex":
            return gi
        if idx is not None:
            if field == "ApplicationArgs" and gi == self.group_index and field not in d:
                arr = self.args
            else:
                arr = d.get(field)
            if arr is not None:
                if idx >= len(arr):
                    raise Fail("array index out of range")
                return arr[idx]
            if idx >= self.array_len:
                raise Fail("array index out of range")
            return default_value(TXNA_FIELDS[field], "txna", gi, field, idx)
        if field == "NumAppArgs" and gi == self.group_index and field not in d:
            return len(self.args)
        if field in d:
            return d[field]
        return default_value(TXN_FIELDS[field], "txn", gi, field)

    def glob(self, field):
        if field in self.globals:
            return self.globals[field]
        if field == "GroupSize":
            return self.group_size
        return default_value(GLOBAL_FIELDS[field], "global", field)


class Machine:
    __slots__ = ("env", "stack", "scratch", "calls", "frames", "pc", "prog", "effects", "boxes",
                 "gstate", "lstate", "itx", "itxs", "lastgroup", "steps", "max_steps", "trace", "status", "value",
                 "fail", "failins", "seen", "maxstack", "opset", "lineset")

    def __init__(self, prog, env, max_steps=20000, opset=None):
        self.prog, self.env = prog, env
        self.stack = []
        self.scratch = [0] * 256
        self.calls = []
        self.frames = []
        self.pc = 0
        self.effects = []
        self.boxes = dict(env.boxes0)
        self.gstate = dict(env.gstate0)
        self.lstate = {}
        self.itx = None
        self.itxs = []
        self.lastgroup = None
        self.steps = 0
        self.max_steps = max_steps
        self.status = None
        self.value = None
        self.fail = None
        self.failins = None
        self.opset = opset or OPS

    def run(self):
        instrs = self.prog.instrs
        n = len(instrs)
        stack = self.stack
        try:
            while True:
                if self.pc >= n:
                    if len(stack) != 1:
                        raise Fail(f"stack len is {len(stack)} instead of 1")
                    if type(stack[0]) is not int:
                        raise Fail("stack finished with bytes not int")
                    self.status, self.value = ("accept" if stack[0] else "reject0"), stack[0]
                    return self
                ins = instrs[self.pc]
                self.failins = ins
                self.steps += 1
                if self.steps > self.max_steps:
                    self.status = "budget"
                    return self
                fn = ins.fn
                self.pc += 1
                if fn is not None:
                    fn(self, ins)
                else:
                    op_opaque(self, ins)
                if len(stack) > 1000:
                    raise Fail("stack overflow")
                if self.status is not None:
                    return self
        except Fail as e:
            self.status, self.fail = "fail", str(e)
            return self

    # helpers
    def pop(self):
        if not self.stack:
            raise Fail("stack underflow")
        return self.stack.pop()

    def pop_u(self):
        if not self.stack:
            raise Fail("stack underflow")
        v = self.stack.pop()
        if type(v) is not int:
            raise Fail("wanted uint64 got []byte")
        return v

    def pop_b(self):
        if not self.stack:
            raise Fail("stack underflow")
        v = self.stack.pop()
        if type(v) is int:
            raise Fail("wanted []byte got uint64")
        return v

    def push_b(self, v):
        if len(v) > 4096:
            raise Fail("byte string too long")
        self.stack.append(v)


DISPATCH = {}


def op(*names):
    def deco(f):
        for n in names:
            DISPATCH[n] = f
        return f
    return deco


@op("pushint", "pushbytes")
def _push(m, i):
    m.stack.append(i.imm)


@op("pushints", "pushbytess")
def _pushs(m, i):
    m.stack.extend(i.imm)


@op("err")
def _err(m, i):
    raise Fail("err opcode executed")


@op("assert")
def _assert(m, i):
    if m.pop_u() == 0:
        raise Fail("assert failed")


@op("return")
def _return(m, i):
    v = m.pop_u()
    m.status, m.value = ("accept" if v else "reject0"), v


@op("b")
def _b(m, i):
    m.pc = i.imm


@op("bz")
def _bz(m, i):
    if m.pop_u() == 0:
        m.pc = i.imm


@op("bnz")
def _bnz(m, i):
    if m.pop_u() != 0:
        m.pc = i.imm


@op("callsub")
def _callsub(m, i):
    m.calls.append((m.pc, len(m.stack), None))
    if len(m.calls) > 1000:
        raise Fail("call stack overflow")
    m.pc = i.imm


@op("proto")
def _proto(m, i):
    if not m.calls or m.calls[-1][2] is not None:
        raise Fail("proto without callsub")
    ret, h, _ = m.calls[-1]
    if i.imm[0] > h:
        raise Fail("proto: too few args")
    m.calls[-1] = (ret, h, tuple(i.imm))


@op("retsub")
def _retsub(m, i):
    if not m.calls:
        raise Fail("retsub with empty callstack")
    ret, h, pr = m.calls.pop()
    if pr is not None:
        a, r = pr
        if len(m.stack) < h + r:
            raise Fail("retsub: too few results")
        res = m.stack[len(m.stack) - r:] if r else []
        del m.stack[h - a:]
        m.stack.extend(res)
    m.pc = ret


@op("frame_dig")
def _fdig(m, i):
    if not m.calls or m.calls[-1][2] is None:
        raise Fail("frame_dig without proto")
    k = m.calls[-1][1] + i.imm[0]
    if k < 0 or k >= len(m.stack):
        raise Fail("frame_dig out of range")
    m.stack.append(m.stack[k])


@op("frame_bury")
def _fbury(m, i):
    v = m.pop()
    if not m.calls or m.calls[-1][2] is None:
        raise Fail("frame_bury without proto")
    k = m.calls[-1][1] + i.imm[0]
    if k < 0 or k >= len(m.stack):
        raise Fail("frame_bury out of range")
    m.stack[k] = v


@op("switch")
def _switch(m, i):
    v = m.pop_u()
    if v < len(i.imm):
        m.pc = i.imm[v]


@op("match")
def _match(m, i):
    n = len(i.imm)
    v = m.pop()
    if len(m.stack) < n:
        raise Fail("stack underflow")
    opts = m.stack[len(m.stack) - n:] if n else []
    if n:
        del m.stack[len(m.stack) - n:]
    for k, o in enumerate(opts):
        if type(o) is type(v) and o == v:
            m.pc = i.imm[k]
            return


@op("load")
def _load(m, i):
    m.stack.append(m.scratch[i.imm[0]])


@op("store")
def _store(m, i):
    m.scratch[i.imm[0]] = m.pop()


@op("loads")
def _loads(m, i):
    k = m.pop_u()
    if k > 255:
        raise Fail("invalid scratch index")
    m.stack.append(m.scratch[k])


@op("stores")
def _stores(m, i):
    v = m.pop()
    k = m.pop_u()
    if k > 255:
        raise Fail("invalid scratch index")
    m.scratch[k] = v


@op("pop")
def _pop(m, i):
    m.pop()


@op("dup")
def _dup(m, i):
    v = m.pop()
    m.stack += [v, v]


@op("dup2")
def _dup2(m, i):
    b = m.pop()
    a = m.pop()
    m.stack += [a, b, a, b]


@op("swap")
def _swap(m, i):
    b = m.pop()
    a = m.pop()
    m.stack += [b, a]


@op("select")
def _select(m, i):
    c = m.pop_u()
    b = m.pop()
    a = m.pop()
    m.stack.append(b if c else a)


@op("dig")
def _dig(m, i):
    if i.imm[0] >= len(m.stack):
        raise Fail("stack underflow")
    m.stack.append(m.stack[-1 - i.imm[0]])


@op("bury")
def _bury(m, i):
    n = i.imm[0]
    if n == 0 or n >= len(m.stack):
        raise Fail("bury out of range")
    v = m.pop()
    m.stack[-n] = v


@op("cover")
def _cover(m, i):
    n = i.imm[0]
    if n >= len(m.stack):
        raise Fail("stack underflow")
    v = m.pop()
    m.stack.insert(len(m.stack) - n, v)


@op("uncover")
def _uncover(m, i):
    n = i.imm[0]
    if n >= len(m.stack):
        raise Fail("stack underflow")
    v = m.stack.pop(len(m.stack) - 1 - n)
    m.stack.append(v)


@op("popn")
def _popn(m, i):
    if i.imm[0] > len(m.stack):
        raise Fail("stack underflow")
    if i.imm[0]:
        del m.stack[-i.imm[0]:]


@op("dupn")
def _dupn(m, i):
    v = m.pop()
    m.stack += [v] * (i.imm[0] + 1)


# ---------------- arithmetic
def _bin(name, f):
    def g(m, i):
        b = m.pop_u()
        a = m.pop_u()
        v = f(a, b)
        if v < 0 or v > U64:
            raise Fail(f"{name} overflow")
        m.stack.append(v)
    DISPATCH[name] = g


def _div(a, b):
    if b == 0:
        raise Fail("/ 0")
    return a // b


def _mod(a, b):
    if b == 0:
        raise Fail("% 0")
    return a % b


def _exp(a, b):
    if a == 0 and b == 0:
        raise Fail("0**0")
    if a > 1 and b > 64:
        raise Fail("exp overflow")
    return a ** b if a > 1 else (a if b else 1)


def _shl(a, b):
    if b > 63:
        raise Fail("shl too big")
    return (a << b) & U64


def _shr(a, b):
    if b > 63:
        raise Fail("shr too big")
    return a >> b


for _n, _f in {
    "+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": _div, "%": _mod,
    "<": lambda a, b: int(a < b), ">": lambda a, b: int(a > b), "<=": lambda a, b: int(a <= b),
    ">=": lambda a, b: int(a >= b), "&&": lambda a, b: int(bool(a) and bool(b)),
    "||": lambda a, b: int(bool(a) or bool(b)), "&": lambda a, b: a & b, "|": lambda a, b: a | b,
    "^": lambda a, b: a ^ b, "shl": _shl, "shr": _shr, "exp": _exp,
}.items():
    _bin(_n, _f)


@op("==", "!=")
def _eq(m, i):
    b = m.pop()
    a = m.pop()
    if (type(a) is int) != (type(b) is int):
        raise Fail("cannot compare")
    m.stack.append(int((a == b) == (i.op == "==")))


@op("!")
def _not(m, i):
    m.stack.append(int(m.pop_u() == 0))


@op("~")
def _inv(m, i):
    m.stack.append(m.pop_u() ^ U64)


@op("sqrt")
def _sqrt(m, i):
    import math
    m.stack.append(math.isqrt(m.pop_u()))


@op("mulw")
def _mulw(m, i):
    b = m.pop_u()
    a = m.pop_u()
    m.stack += [(a * b) >> 64, (a * b) & U64]


@op("addw")
def _addw(m, i):
    b = m.pop_u()
    a = m.pop_u()
    m.stack += [(a + b) >> 64, (a + b) & U64]


@op("expw")
def _expw(m, i):
    b = m.pop_u()
    a = m.pop_u()
    if a == 0 and b == 0 or (a > 1 and b > 128):
        raise Fail("expw")
    v = a ** b if a > 1 else (a if b else 1)
    if v >> 128:
        raise Fail("expw overflow")
    m.stack += [v >> 64, v & U64]


@op("divw")
def _divw(m, i):
    c = m.pop_u()
    b = m.pop_u()
    a = m.pop_u()
    if c == 0 or ((a << 64 | b) // c) > U64:
        raise Fail("divw")
    m.stack.append((a << 64 | b) // c)


@op("divmodw")
def _divmodw(m, i):
    d = m.pop_u()
    c = m.pop_u()
    b = m.pop_u()
    a = m.pop_u()
    x, y = a << 64 | b, c << 64 | d
    if y == 0:
        raise Fail("/ 0")
    q, r = divmod(x, y)
    m.stack += [q >> 64, q & U64, r >> 64, r & U64]


@op("bitlen")
def _bitlen(m, i):
    v = m.pop()
    m.stack.append(v.bit_length() if type(v) is int else int.from_bytes(v, "big").bit_length())


@op("getbit")
def _getbit(m, i):
    k = m.pop_u()
    v = m.pop()
    if type(v) is int:
        if k > 63:
            raise Fail("getbit")
        m.stack.append(v >> k & 1)
    else:
        if k >= 8 * len(v):
            raise Fail("getbit")
        m.stack.append(v[k // 8] >> (7 - k % 8) & 1)


@op("setbit")
def _setbit(m, i):
    x = m.pop_u()
    k = m.pop_u()
    v = m.pop()
    if x > 1:
        raise Fail("setbit value")
    if type(v) is int:
        if k > 63:
            raise Fail("setbit")
        m.stack.append((v & ~(1 << k)) | x << k)
    else:
        if k >= 8 * len(v):
            raise Fail("setbit")
        b = bytearray(v)
        s = 7 - k % 8
        b[k // 8] = (b[k // 8] & ~(1 << s)) | x << s
        m.stack.append(bytes(b))


@op("getbyte")
def _getbyte(m, i):
    k = m.pop_u()
    v = m.pop_b()
    if k >= len(v):
        raise Fail("getbyte")
    m.stack.append(v[k])


@op("setbyte")
def _setbyte(m, i):
    x = m.pop_u()
    k = m.pop_u()
    v = m.pop_b()
    if x > 255 or k >= len(v):
        raise Fail("setbyte")
    b = bytearray(v)
    b[k] = x
    m.stack.append(bytes(b))


# ---------------- byte strings
@op("concat")
def _concat(m, i):
    b = m.pop_b()
    a = m.pop_b()
    m.push_b(a + b)


@op("len")
def _len(m, i):
    m.stack.append(len(m.pop_b()))


@op("itob")
def _itob(m, i):
    m.stack.append(m.pop_u().to_bytes(8, "big"))


@op("btoi")
def _btoi(m, i):
    v = m.pop_b()
    if len(v) > 8:
        raise Fail("btoi arg too long")
    m.stack.append(int.from_bytes(v, "big"))


@op("bzero")
def _bzero(m, i):
    n = m.pop_u()
    if n > 4096:
        raise Fail("bzero too long")
    m.stack.append(bytes(n))


def _sub(m, v, s, e):
    if s > e or e > len(v):
        raise Fail("range beyond length")
    m.stack.append(v[s:e])


@op("substring")
def _substring(m, i):
    _sub(m, m.pop_b(), i.imm[0], i.imm[1])


@op("substring3")
def _substring3(m, i):
    e = m.pop_u()
    s = m.pop_u()
    _sub(m, m.pop_b(), s, e)


@op("extract")
def _extract(m, i):
    v = m.pop_b()
    s, n = i.imm
    if n == 0:
        if s > len(v):
            raise Fail("extract beyond length")
        n = len(v) - s
    _sub(m, v, s, s + n)


@op("extract3")
def _extract3(m, i):
    n = m.pop_u()
    s = m.pop_u()
    _sub(m, m.pop_b(), s, s + n)


@op("extract_uint16", "extract_uint32", "extract_uint64")
def _extu(m, i):
    s = m.pop_u()
    v = m.pop_b()
    n = int(i.op[12:]) // 8
    if s + n > len(v):
        raise Fail("extract_uint beyond length")
    m.stack.append(int.from_bytes(v[s:s + n], "big"))


def _repl(m, v, s, r):
    if s + len(r) > len(v):
        raise Fail("replace beyond length")
    m.stack.append(v[:s] + r + v[s + len(r):])


@op("replace2")
def _replace2(m, i):
    r = m.pop_b()
    _repl(m, m.pop_b(), i.imm[0], r)


@op("replace3")
def _replace3(m, i):
    r = m.pop_b()
    s = m.pop_u()
    _repl(m, m.pop_b(), s, r)


def _n2b(v):
    return v.to_bytes((v.bit_length() + 7) // 8, "big")


def _bb(name, f, isbool=False):
    def g(m, i):
        b = m.pop_b()
        a = m.pop_b()
        if len(a) > 64 or len(b) > 64:
            raise Fail("bigint too long")
        v = f(int.from_bytes(a, "big"), int.from_bytes(b, "big"))
        if isbool:
            m.stack.append(int(v))
        else:
            if v < 0:
                raise Fail("b- underflow")
            m.stack.append(_n2b(v))
    DISPATCH[name] = g


for _n, _f in {"b+": lambda a, b: a + b, "b-": lambda a, b: a - b, "b*": lambda a, b: a * b,
               "b/": _div, "b%": _mod}.items():
    _bb(_n, _f)
for _n, _f in {"b<": lambda a, b: a < b, "b>": lambda a, b: a > b, "b<=": lambda a, b: a <= b,
               "b>=": lambda a, b: a >= b, "b==": lambda a, b: a == b, "b!=": lambda a, b: a != b}.items():
    _bb(_n, _f, True)


def _bw(name, f):
    def g(m, i):
        b = m.pop_b()
        a = m.pop_b()
        n = max(len(a), len(b))
        m.stack.append(bytes(f(x, y) for x, y in zip(a.rjust(n, b"\0"), b.rjust(n, b"\0"))))
    DISPATCH[name] = g


_bw("b|", lambda x, y: x | y)
_bw("b&", lambda x, y: x & y)
_bw("b^", lambda x, y: x ^ y)


@op("b~")
def _binv(m, i):
    m.stack.append(bytes(255 - x for x in m.pop_b()))


@op("bsqrt")
def _bsqrt(m, i):
    import math
    v = m.pop_b()
    if len(v) > 64:
        raise Fail("bigint too long")
    m.stack.append(_n2b(math.isqrt(int.from_bytes(v, "big"))))


@op("sha256")
def _sha256(m, i):
    m.stack.append(hashlib.sha256(m.pop_b()).digest())


@op("sha512_256")
def _sha512(m, i):
    m.stack.append(sha512_256(m.pop_b()))


# ---------------- fields
@op("txn")
def _txn(m, i):
    m.stack.append(m.env.txn(m.env.group_index, i.imm[0]))


@op("txna")
def _txna(m, i):
    m.stack.append(m.env.txn(m.env.group_index, i.imm[0], i.imm[1]))


@op("txnas")
def _txnas(m, i):
    k = m.pop_u()
    m.stack.append(m.env.txn(m.env.group_index, i.imm[0], k))


@op("gtxn")
def _gtxn(m, i):
    m.stack.append(m.env.txn(i.imm[0], i.imm[1]))


@op("gtxna")
def _gtxna(m, i):
    m.stack.append(m.env.txn(i.imm[0], i.imm[1], i.imm[2]))


@op("gtxnas")
def _gtxnas(m, i):
    k = m.pop_u()
    m.stack.append(m.env.txn(i.imm[0], i.imm[1], k))


@op("gtxns")
def _gtxns(m, i):
    g = m.pop_u()
    m.stack.append(m.env.txn(g, i.imm[0]))


@op("gtxnsa")
def _gtxnsa(m, i):
    g = m.pop_u()
    m.stack.append(m.env.txn(g, i.imm[0], i.imm[1]))


@op("gtxnsas")
def _gtxnsas(m, i):
    k = m.pop_u()
    g = m.pop_u()
    m.stack.append(m.env.txn(g, i.imm[0], k))


@op("global")
def _global(m, i):
    m.stack.append(m.env.glob(i.imm[0]))


# ---------------- inner transactions
ARRAY_SET = {"ApplicationArgs", "Accounts", "Assets", "Applications", "ApprovalProgramPages", "ClearStateProgramPages"}


@op("itxn_begin")
def _itxn_begin(m, i):
    if m.itx is not None:
        raise Fail("itxn_begin without itxn_submit")
    m.itx = [{}]


@op("itxn_next")
def _itxn_next(m, i):
    if m.itx is None:
        raise Fail("itxn_next without itxn_begin")
    m.itx.append({})


def itxn_type_ok(field, v):
    t = ITXN_SET[field]
    return (type(v) is int) == (t == "U") if t in "UB" else True


@op("itxn_field")
def _itxn_field(m, i):
    v = m.pop()
    if m.itx is None:
        raise Fail("itxn_field without itxn_begin")
    f = i.imm[0]
    # Accounts take addresses, Assets/Applications take ids or indexes
    if not itxn_type_ok(f, v):
        raise Fail(f"itxn_field {f} wrong type")
    d = m.itx[-1]
    if f in ARRAY_SET:
        d[f] = d.get(f, ()) + (v,)
    else:
        d[f] = v


@op("itxn_submit")
def _itxn_submit(m, i):
    if m.itx is None:
        raise Fail("itxn_submit without itxn_begin")
    grp = tuple(tuple(sorted(d.items())) for d in m.itx)
    m.lastgroup = m.itx
    m.itx = None
    m.effects.append(("itxn", grp))
    m.itxs.append(grp)


def itxn_read(m, k, field, idx=None):
    if not m.lastgroup:
        raise Fail("no inner transaction")
    if k >= len(m.lastgroup):
        raise Fail("inner group index")
    d = m.lastgroup[k]
    if field in d:
        v = d[field]
        if idx is None:
            return v
        if idx >= len(v):
            raise Fail("array index out of range")
        return v[idx]
    n = len(m.itxs)
    if idx is None:
        return default_value(TXN_FIELDS[field], "itxn", n, k, field)
    if idx >= m.env.array_len:
        raise Fail("array index out of range")
    return default_value(TXNA_FIELDS[field], "itxna", n, k, field, idx)


@op("itxn")
def _itxn(m, i):
    m.stack.append(itxn_read(m, len(m.lastgroup or [1]) - 1, i.imm[0]))


@op("itxna")
def _itxna(m, i):
    m.stack.append(itxn_read(m, len(m.lastgroup or [1]) - 1, i.imm[0], i.imm[1]))


@op("itxnas")
def _itxnas(m, i):
    k = m.pop_u()
    m.stack.append(itxn_read(m, len(m.lastgroup or [1]) - 1, i.imm[0], k))


@op("gitxn")
def _gitxn(m, i):
    m.stack.append(itxn_read(m, i.imm[0], i.imm[1]))


@op("gitxna")
def _gitxna(m, i):
    m.stack.append(itxn_read(m, i.imm[0], i.imm[1], i.imm[2]))


@op("gitxnas")
def _gitxnas(m, i):
    k = m.pop_u()
    m.stack.append(itxn_read(m, i.imm[0], i.imm[1], k))


# ---------------- effects and state
@op("log")
def _log(m, i):
    m.effects.append(("log", m.pop_b()))


@op("app_global_put")
def _agp(m, i):
    v = m.pop()
    k = m.pop_b()
    m.gstate[k] = v
    m.effects.append(("gput", k, v))


@op("app_global_get")
def _agg(m, i):
    k = m.pop_b()
    if m.env.oracle is not None:
        r = m.env.oracle(m, "app_global_get", None, [k])
        if r is not None:
            m.stack.extend(r)
            return
    m.stack.append(m.gstate.get(k, 0))


@op("app_global_del")
def _agd(m, i):
    k = m.pop_b()
    m.gstate.pop(k, None)
    m.effects.append(("gdel", k))


@op("box_create")
def _box_create(m, i):
    n = m.pop_u()
    k = m.pop_b()
    if not k:
        raise Fail("empty box name")
    if n > 32768:
        raise Fail("box too big")
    if k in m.boxes:
        if len(m.boxes[k]) != n:
            raise Fail("box size mismatch")
        m.stack.append(0)
        return
    m.boxes[k] = bytes(n)
    m.stack.append(1)


def box(m, k):
    if k not in m.boxes:
        raise Fail("no such box")
    return m.boxes[k]


@op("box_extract")
def _box_extract(m, i):
    n = m.pop_u()
    s = m.pop_u()
    v = box(m, m.pop_b())
    if s + n > len(v):
        raise Fail("box_extract beyond length")
    m.push_b(v[s:s + n])


@op("box_replace")
def _box_replace(m, i):
    r = m.pop_b()
    s = m.pop_u()
    k = m.pop_b()
    v = box(m, k)
    if s + len(r) > len(v):
        raise Fail("box_replace beyond length")
    m.boxes[k] = v[:s] + r + v[s + len(r):]


@op("box_del")
def _box_del(m, i):
    k = m.pop_b()
    m.stack.append(int(m.boxes.pop(k, None) is not None))


@op("box_len")
def _box_len(m, i):
    k = m.pop_b()
    v = m.boxes.get(k)
    m.stack += [0, 0] if v is None else [len(v), 1]


@op("box_get")
def _box_get(m, i):
    k = m.pop_b()
    v = m.boxes.get(k)
    m.stack += [b"", 0] if v is None else [v, 1]


@op("box_put")
def _box_put(m, i):
    v = m.pop_b()
    k = m.pop_b()
    if k in m.boxes and len(m.boxes[k]) != len(v):
        raise Fail("box_put size")
    m.boxes[k] = v


NOEFFECT = None


def op_opaque(m, ins):
    """any other op: pop by signature, record the event if it returns nothing, push fixed values"""
    spec = m.opset[ins.op]
    sig = spec.get("Args", "")
    args = []
    for t in reversed(sig):
        v = m.pop()
        if t == "U" and type(v) is not int:
            raise Fail("wanted uint64 got []byte")
        if t == "B" and type(v) is int:
            raise Fail("wanted []byte got uint64")
        args.append(v)
    args.reverse()
    imm = ins.imm
    if m.env.oracle is not None:
        r = m.env.oracle(m, ins.op, imm, args)
        if r is not None:
            m.stack.extend(r)
            return
    rets = spec.get("Returns", "")
    if not rets:
        m.effects.append(("op", ins.op, tuple(imm or ()), tuple(args)))
        return
    m.stack.extend(opaque_results(ins.op, imm, args, rets))


def opaque_results(opname, imm, args, rets=None):
    rets = OPS[opname]["Returns"] if rets is None else rets
    tab = GROUPS.get(opname)
    out = []
    for k, t in enumerate(rets):
        if t == "." and k == 0 and tab and imm:
            t = tab[imm[0]]
        out.append(default_value(t, opname, tuple(imm or ()), tuple(args), k))
    return out


def outcome(m, with_boxes=True):
    """observable outcome; effects only count when the program approves"""
    if m.status == "accept":
        return ("accept", m.value, tuple(m.effects), tuple(sorted(m.boxes.items())) if with_boxes else ())
    if m.status == "reject0":
        return ("reject", 0)
    return (m.status,)


def execute(prog, env, max_steps=20000, opset=None):
    return Machine(prog, env, max_steps, opset).run()
