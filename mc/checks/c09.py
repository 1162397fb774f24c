"""C09: the type rule.  Every ordered pair (declared type, value) in every typed position, every small mismatch of counts."""
import re
from itertools import product

from ..h import T, try_compile
from .. import avm

ID = "C09"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of (declared type, value expression, position) against an independent compatibility rule, and of all count "
             "mismatches up to a bound; refusals must name the line; accepted programs are assembled and executed on the AVM model")
NOTE = ("Complete for 16 declared types x about 60 value expressions x 16 positions, all specified operand types of all callable opcodes of the "
        "packaged specification for one value of each kind, and counts up to 4.")
RULE = "declared types x values x positions; operands of every opcode x value kinds; counts 0..4 of arguments, results and names; distinct = distinct sources"
ASSUMPTIONS = ["arguments of the standard library are covered by C10"]

PRE = """#pragma version 8
struct In:
    p: bytes[4]
end
struct St:
    a: int
    b: bytes[4]
    c: uint8
end
struct Su:
    x: uint8
    y: bytes[3]
end
struct Big:
    g: bytes[13]
end
struct Fl:
    f_int: int
    f_uint64: uint64
    f_uint8: uint8
    f_bytes4: bytes[4]
    f_bytes13: bytes[13]
    f_bytes32: bytes[32]
    f_addr: addr
    f_u84: uint8[4]
    f_St: St
    f_In: In
end
const int KI = 7
const int KBIG = 300
const bytes KB4 = "abcd"
const bytes KB = "ab"
int v_int
uint64 v_uint64
uint8 v_uint8
bytes v_bytes
bytes[4] v_bytes4
bytes[5] v_bytes5
bytes[13] v_bytes13
bytes[32] v_bytes32
addr v_addr
bigint v_bigint
uint8[4] v_u84
uint8[5] v_u85
St v_St
Su v_Su
In v_In
Big v_Big
Fl v_Fl
box<St> v_bSt = Box("k1")
box<Big> v_bBig = Box("k2")
box<Fl> v_bFl = Box("k3")
"""
FUNCS = """func r_int() int:
    return 1
end
func r_uint8() uint8:
    return 1
end
func r_bytes() bytes:
    return "abc"
end
func r_bytes4() bytes[4]:
    return "abcd"
end
func r_St() St:
    return v_St
end
func r_two() int, bytes:
    return 1, "a"
end
func r_none(a: int):
    return
end
"""
# ---- declared types: name -> (kind, size)
TYPES = {"int": ("int", 8), "uint64": ("int", 8), "uint8": ("int", 1), "bytes": ("bytes", 0), "bytes[4]": ("bytes", 4), "bytes[5]": ("bytes", 5), "bytes[13]": ("bytes", 13), "bytes[32]": ("bytes", 32),
         "addr": ("bytes", 32), "bigint": ("bytes", 0), "uint8[4]": ("bytes", 4), "uint8[5]": ("bytes", 5), "St": ("bytes", 13), "Su": ("bytes", 4), "In": ("bytes", 4), "Big": ("bytes", 13),
         "box<St>": ("box", "St"), "box<Big>": ("box", "Big")}
ALIAS = {"int": "v_int", "uint64": "v_uint64", "uint8": "v_uint8", "bytes": "v_bytes", "bytes[4]": "v_bytes4", "bytes[5]": "v_bytes5", "bytes[13]": "v_bytes13", "bytes[32]": "v_bytes32", "addr": "v_addr",
         "bigint": "v_bigint", "uint8[4]": "v_u84", "uint8[5]": "v_u85", "St": "v_St", "Su": "v_Su", "In": "v_In", "Big": "v_Big", "box<St>": "v_bSt", "box<Big>": "v_bBig"}
# ---- values: source -> static type
VALUES = {v: TYPES[t] for t, v in ALIAS.items()}
I, B, ANY = ("int", 8), ("bytes", 0), ("any", 0)
VALUES.update({
    "0": ("int", 1), "1": ("int", 1), "255": ("int", 1), "256": ("int", 2), "65535": ("int", 2), "4294967296": ("int", 5), "18446744073709551615": ("int", 8),
    '""': ("bytes", 0), '"a"': ("bytes", 1), '"abcd"': ("bytes", 4), '"abcde"': ("bytes", 5), '"\\x00\\x01\\x02\\x03"': ("bytes", 4), '"\\n\\t\\"\\\\"': ("bytes", 4), '"éé"': ("bytes", 4),
    '"abcdefghijklm"': ("bytes", 13), '"' + "x" * 32 + '"': ("bytes", 32),
    "KI": I, "KB4": ("kb", 4), "NoOp": I, "OptIn": I, "Pay": I,
    "Txn.Fee": I, "Txn.Sender": ("bytes", 32), "Txn.ApplicationArgs[0]": B, "Txn.Assets[0]": I, "Txn.ApplicationArgs[v_int]": B, "Txn.NumAppArgs": I, "Txn.TypeEnum": I, "Txn.TxID": B,
    "Gtxn[0].Fee": I, "Gtxn[0].Note": B, "Gtxn[v_int].Fee": I, "Gtxn[v_int].Sender": ("bytes", 32), "Gtxn[0].Accounts[1]": B, "Gtxn[v_int].Assets[v_int]": I, "Gtxn[+1].Receiver": B, "Gtxn[-1].Amount": I,
    "Itxn.Fee": I, "Itxn.Logs[0]": B, "Global.Round": I, "Global.ZeroAddress": B, "Global.GroupSize": I,
    "v_St.a": I, "v_St.b": ("bytes", 4), "v_St.c": ("int", 1), "v_bSt.a": I, "v_bSt.b": ("bytes", 4), "v_bSt.c": ("int", 1), "v_Fl.f_addr": ("bytes", 32), "v_bFl.f_In": ("bytes", 4),
    "v_Fl.f_St": ("bytes", 13), "v_Fl.f_u84": ("bytes", 4),
    "len(v_bytes)": I, "itob(v_int)": B, "concat(v_bytes4, v_bytes)": B, "btoi(v_bytes)": I, "sha256(v_bytes)": B, "bzero(v_int)": B, "bzero(4)": ("bytes", 4), "bzero(13)": ("bytes", 13), "balance(v_int)": I,
    'app_global_get("k")': ANY, "load(0)": ANY, "gload(0, 1)": ANY, "min_balance(0)": I, "extract(0, 4, v_bytes)": B, "select(v_int, v_int, 1)": ANY, "getbit(v_bytes, 1)": I, "setbit(v_bytes, 1, 0)": ANY,
    "r_int()": I, "r_uint8()": ("int", 1), "r_bytes()": B, "r_bytes4()": ("bytes", 4), "r_St()": ("bytes", 13),
    "v_int + 1": I, "v_uint8 + v_uint8": I, "v_int == v_int": I, "v_bytes b+ v_bytes": B, "v_bytes b== v_bytes": I, "!v_int": I, "~v_int": I, "b~v_bytes": B, "(v_int + 1) * 2": I, "v_bytes == v_bytes4": I,
    "Cast(v_bytes, bytes[4])": ("bytes", 4), "Cast(v_bytes, St)": ("bytes", 13), "Cast(v_bytes, addr)": ("bytes", 32), "Cast(v_int, uint8)": ("int", 1), "UncheckedCast(v_bytes, bytes[5])": ("bytes", 5),
    "UncheckedCast(v_St, Big)": ("bytes", 13), "Convert(v_int, bytes[5])": ("bytes", 5), "Rpad(v_bytes, 5)": ("bytes", 5), "Lpad(v_bytes, 4)": ("bytes", 4), "ToBytes(v_int, 4)": ("bytes", 4), "SizeOf(St)": I,
    "EnsureType(v_bytes, bytes[5])": ("bytes", 5), "EnsureType(app_global_get(\"k\"), int)": I, 'EnsureType(app_global_get("k"), bytes)': B, "FromBytes(v_bytes, int)": I, "Concat(v_bytes, v_bytes)": B,
    'Address("' + "A" * 52 + 'Y5HFKQ")': B,
})
EXTRA_UNSPEC = {"Concat(v_bytes, v_bytes)"}


def holds(target, value):
    """the one rule; None: not specified"""
    tk, ts = TYPES[target] if target in TYPES else target
    vk, vs = value
    if tk == "any":
        return True
    if vk == "kb":                       # a bytes constant may or may not count as a value of known size
        return None if tk == "bytes" and ts == vs else (tk, ts) == ("bytes", 0)
    if tk == "box":
        return vk == "box" and vs == ts
    if vk == "any":
        return (tk == "int" and ts == 8) or (tk == "bytes" and ts == 0)
    if vk == "box":                      # a reference used as a value is the key of the box
        return None if tk == "bytes" and ts == 0 else False
    if tk != vk:
        return False
    if tk == "int":
        return vs <= ts
    return ts == 0 or vs == ts


INT8 = ("int", 8)
BYT = ("bytes", 0)
ANYT = ("any", 0)


def position(pos, t, v):
    """(program, line number of the statement, effective target)"""
    if pos in ("const",):
        pass
    main, funcs, tgt = [], [], t
    mark = None

    def m(*ls, at=0):
        nonlocal mark
        mark = ("main", len(main) + at)
        main.extend(ls)
    isbox = t.startswith("box<") if isinstance(t, str) else False
    if pos == "decl":
        m(f"{t} z = {v}")
    elif pos == "decl-if":
        m("if v_int:", f"    {t} z = {v}", "end", at=1)
    elif pos == "assign":
        m(f"{ALIAS[t]} = {v}")
    elif pos == "assign-while":
        m("while v_int:", f"    {ALIAS[t]} = {v}", "end", at=1)
    elif pos == "param":
        m(f"g({v})")
        funcs = [f"func g(a: {t}):", "    return", "end"]
    elif pos == "param2":
        m(f"v_int = g(1, {v}, \"x\")")
        funcs = [f"func g(q: int, a: {t}, r: bytes) int:", "    return 1", "end"]
    elif pos == "param-nested":
        m(f"log(itob(g(g({v}, 1), 2) + 1))") if False else m(f"log(itob(h(g({v})) + 1))")
        funcs = [f"func g(a: {t}) int:", "    return 1", "end", "func h(a: int) int:", "    return a", "end"]
    elif pos == "param-same":
        m(f"v_int = g({ALIAS[t]}, {v}, {ALIAS[t]})")
        funcs = [f"func g(p: {t}, q: {t}, r: {t}) int:", "    return 1", "end"]
    elif pos == "return-same":
        funcs = [f"func g() {t}, {t}, {t}:", f"    return {ALIAS[t]}, {v}, {ALIAS[t]}", "end"]
        mark = ("funcs", 1)
    elif pos == "return":
        funcs = [f"func g() {t}:", f"    return {v}", "end"]
        mark = ("funcs", 1)
    elif pos == "return2":
        funcs = [f"func g() int, {t}, bytes:", f"    return 1, {v}, \"x\"", "end"]
        mark = ("funcs", 1)
    elif pos == "return-if":
        funcs = [f"func g(q: int) {t}:", "    if q:", f"        return {v}", "    end", f"    return {ALIAS[t]}", "end"]
        mark = ("funcs", 2)
    elif pos in ("field", "bfield"):
        m(f"{'v_Fl' if pos == 'field' else 'v_bFl'}.{t} = {v}")
    elif pos == "key":
        m(f"box<St> z = OpenBox({v})")
    return "main", main, funcs, mark


def build(main, funcs, mark):
    pre = PRE.splitlines()
    lines = pre + main + ["exit(1)"]
    base = len(lines)
    fl = FUNCS.splitlines()
    lines += funcs + fl
    n = (len(pre) if mark[0] == "main" else base) + mark[1] + 1
    return "\n".join(lines) + "\n", n


FIELDS = {"f_int": "int", "f_uint64": "uint64", "f_uint8": "uint8", "f_bytes4": "bytes[4]", "f_bytes13": "bytes[13]", "f_bytes32": "bytes[32]", "f_addr": "addr", "f_u84": "uint8[4]", "f_St": "St", "f_In": "In"}
POS = ("decl", "decl-if", "assign", "assign-while", "param", "param2", "param-nested", "param-same", "return", "return2", "return-if", "return-same")
BINOPS = {"+": (I, I), "-": (I, I), "*": (I, I), "/": (I, I), "%": (I, I), "<": (I, I), ">": (I, I), "<=": (I, I), ">=": (I, I), "&&": (I, I), "||": (I, I), "|": (I, I), "&": (I, I), "^": (I, I),
          "==": (ANYT, ANYT), "!=": (ANYT, ANYT), "b+": (B, B), "b-": (B, B), "b*": (B, B), "b/": (B, B), "b%": (B, B), "b<": (B, B), "b>": (B, B), "b<=": (B, B), "b>=": (B, B), "b==": (B, B), "b!=": (B, B),
          "b|": (B, B), "b&": (B, B), "b^": (B, B)}
UNOPS = {"!": I, "~": I, "b~": B}
SHORT = ("v_int", "v_uint8", "v_bytes", "v_bytes4", "v_St", "v_addr", "0", '"abcd"', "KI", "KB4", "Txn.Sender", "Txn.Fee", 'app_global_get("k")', "r_int()", "r_bytes4()", "v_St.c", "v_bSt.b", "len(v_bytes)", "itob(v_int)", "!v_int")


def families(tier):
    return [("pairs", {"shards": 64}), ("fields", {"shards": 32}), ("key", {}), ("const", {}), ("bin", {"shards": 32}), ("un", {}), ("ops", {"shards": 64, "deep": tier != "quick"}), ("multi", {"shards": 32}),
            ("counts", {}), ("names", {}), ("line", {"shards": 32}), ("conds", {"shards": 32})]


def callable_ops():
    out = []
    from tealish.langspec import get_active_langspec
    for n in sorted(avm.OPS):
        if re.fullmatch(r"[a-z][a-zA-Z0-9_]*", n):
            out.append(n)
    return out


RESULTS = {  # multi-result sources: types of the received values in order
    "addw(1, 2)": [I, I], "divmodw(v_int, 1, 2, 3)": [I, I, I, I], "expw(2, 3)": [I, I], 'box_get("k")': [I, B], 'box_len("k")': [I, I], 'app_global_get_ex(0, "k")': [I, ANY], "acct_params_get(AcctBalance, 0)": [I, ANY],
    "asset_params_get(AssetName, 0)": [I, ANY], "asset_holding_get(AssetBalance, 0, 1)": [I, ANY], 'app_local_get_ex(0, 1, "k")': [I, ANY], "r_two()": [I, B], "mulw(1, 2)": [I, I], "acct_params_get(AcctAuthAddr, 0)": [I, ANY],
    "ecdsa_pk_decompress(Secp256k1, v_bytes)": [B, B], "vrf_verify(VrfAlgorand, v_bytes, v_bytes, v_bytes)": [I, B]}


def cases(fam, p):
    if fam == "pairs":
        for pos in POS:
            for t in TYPES:
                if t.startswith("box<") and pos in ("decl", "decl-if", "return", "return2", "return-if", "return-same"):
                    continue
                for v in VALUES:
                    yield ("pair", pos, t, v)
    elif fam == "fields":
        for pos in ("field", "bfield"):
            for f in FIELDS:
                for v in VALUES:
                    yield ("field", pos, f, v)
    elif fam == "key":
        for v in VALUES:
            yield ("key", v)
    elif fam == "const":
        for t in ("int", "bytes", "bigint", "addr"):
            for v in ("0", "5", "300", '""', '"abcd"', '"' + "x" * 32 + '"', "0x11", "0x" + "11" * 32, "KI", "KB4"):
                yield ("const", t, v)
    elif fam == "bin":
        for o in BINOPS:
            for a in SHORT:
                for b in SHORT:
                    yield ("bin", o, a, b)
    elif fam == "un":
        for o in UNOPS:
            for v in VALUES:
                yield ("un", o, v)
    elif fam == "ops":
        for n in callable_ops():
            yield ("op", n)
    elif fam == "multi":
        for e, ts in RESULTS.items():
            for names in product(("v_int", "v_bytes", "v_uint8", "v_bytes4", "v_addr", "v_bigint", "_") if len(ts) == 2 else ("v_int", "v_bytes", "_"), repeat=len(ts)):
                yield ("multi", e, names)
    elif fam == "counts":
        for a in range(4):
            for b in range(5):
                for r in (0, 1):
                    for u in ("stmt", "use", "nested"):
                        yield ("args", a, b, r, u)
        for a in range(4):
            for b in range(5):
                yield ("rets", a, b)
        for n in callable_ops():
            yield ("opargs", n)
    elif fam == "names":
        for e in list(RESULTS) + ["v_int", "r_int()", "r_none(1)", 'log("a")', "itob(1)", "1 + 1"]:
            for k in range(1, 6):
                yield ("names", e, k)
            for u in ("decl", "stmt", "arg", "opnd", "ret", "field", "cond", "exit", "idx", "itxn", "boxkey"):
                yield ("use", e, u)
    elif fam == "line":
        for pad in (0, 1, 5):
            for where in ("main", "if", "elif", "else", "while", "for", "block", "func", "inner_group"):
                for err in range(len(ERRS)):
                    if ERRS[err].startswith("exit") and where in ("main", "block"):
                        continue        # then the statement after it is the error
                    yield ("line", pad, where, err)


ERRS = ['int z = "a"', 'v_int = "a"', "v_bytes4 = v_bytes", "r_none()", 'r_none("a")', "v_int = r_none(1)", "log(1)", "v_int = btoi(1)", "v_St.a = v_bytes", "v_bSt.b = v_int", "v_int, v_bytes = addw(1, 2)",
        "v_int, v_int = itob(1)", "v_int = v_int + v_bytes", "v_bytes = !v_bytes", "assert(v_bytes + 1)", "addw(1, 2)", "log(addw(1, 2))", "v_int = Txn.Sender", "v_int = len(v_bytes, 1)", "v_int = len()",
        "v_uint8 = 256", 'box<St> z = OpenBox(1)', "log(sha256(1 + 2))", "exit(1 + v_bytes)", "if v_bytes:", "while addw(1, 2):", "for q2 in v_bytes:3:", "log(Txn.ApplicationArgs[v_bytes])", "log(Gtxn[v_bytes].Note)"]


# positions that take an int: (lines, line of the position)
CONDS = {"if": (["if {}:", "    log(\"a\")", "end"], 0), "ifnot": (["if not {}:", "    log(\"a\")", "end"], 0), "elif": (["if v_int:", "    log(\"a\")", "elif {}:", "    log(\"b\")", "end"], 2),
         "while": (["while {}:", "    log(\"a\")", "end"], 0), "whilenot": (["while not {}:", "    log(\"a\")", "end"], 0), "exit": (["if v_int:", "    exit({})", "end"], 1), "assert": (["assert({})"], 0),
         "assertm": (["assert({}, \"m\")"], 0), "txna": (["log(Txn.ApplicationArgs[{}])"], 0), "gtxn": (["log(Gtxn[{}].Note)"], 0), "gtxna": (["log(Gtxn[0].ApplicationArgs[{}])"], 0),
         "gtxnsa": (["log(Gtxn[{}].ApplicationArgs[1])"], 0), "itxna": (["log(Itxn.Logs[{}])"], 0), "for": (["for q in {}:3:", "    log(\"a\")", "end"], 0), "forend": (["for q in 0:{}:", "    log(\"a\")", "end"], 0),
         "for_": (["for _ in {}:3:", "    log(\"a\")", "end"], 0), "switch": (["if v_int:", "    log(\"a\")", "end"], 0)}


def verdict(ctx, key, src, line, expect, what):
    ctx.distinct(src)
    st, a, _ = try_compile(src)
    ctx.states += 1
    ctx.transitions += 1
    if expect is None:
        if st == "crash":
            ctx.violation("crash:" + key, f"neither accepted nor refused: {type(a).__name__}: {str(a)[:200]}", source=src)
        return st
    ctx.traces += 1
    if expect:
        if st != "ok":
            ctx.violation("refused:" + key, f"{what}: agrees but is refused: {str(a)[:200]}", source=src)
            return st
        try:
            avm.assemble(a)
        except avm.AsmError as e:
            ctx.violation("asm:" + key, f"{what}: emitted TEAL does not assemble: {e}", source=src)
        ctx.count("accepted")
        return st
    if st == "ok":
        ctx.violation("accepted:" + key, f"{what}: does not agree but is accepted", source=src, teal="\n".join(a))
    elif st == "crash":
        ctx.violation("crash:" + key, f"neither accepted nor refused: {type(a).__name__}: {str(a)[:200]}", source=src)
    else:
        ctx.count("refused")
        text = src.splitlines()[line - 1].strip()
        nums = [int(x) for x in re.findall(r"[Ll]ine:? (\d+)", str(a))]
        if line not in nums and text not in str(a):
            ctx.violation("line:" + key, f"the error does not identify line {line}: {str(a)[:300]}", source=src)
    return st


def simple(main, funcs=(), at=0):
    return build(list(main), list(funcs), ("main", at))


OPARG = {"B": B, "U": I, ".": ANYT, "": None}


def op_call(n, args, imms=None):
    imms = imms if imms is not None else IMMS.get(n, [])
    return f"{n}({', '.join(list(imms) + list(args))})"


IMMS = {}


def op_info(n):
    """(immediates, operand types) when the check knows how to call the opcode, else None"""
    o = avm.OPS[n]
    kinds = avm.IMM.get(n, [])
    imms = []
    for k in kinds:
        if k == "u8":
            imms.append("1")
        elif k == "i8":
            imms.append("1")
        elif k == "txn":
            imms.append("Fee")
        elif k == "txna":
            imms.append("Accounts")
        elif k == "itxnset":
            imms.append("Fee")
        elif k == "global":
            imms.append("Round")
        elif k == "grp":
            imms.append(next(iter(avm.GROUPS[n])))
        else:
            return None
    return imms, [OPARG[c] for c in o.get("Args", "")], [OPARG[c] for c in o.get("Returns", "")]


SKIP_OPS = {"return", "err", "retsub", "proto", "frame_dig", "frame_bury", "bury", "popn", "dupn", "dig", "cover", "uncover", "pop", "dup", "dup2", "swap", "itxn_field", "itxn_begin", "itxn_next", "itxn_submit", "assert",
            "pushint", "pushbytes", "pushints", "pushbytess", "intcblock", "bytecblock", "b", "bz", "bnz", "callsub", "switch", "match", "select", "bzero"}
SAMPLE = {("int", 8): "v_int", ("bytes", 0): "v_bytes", ("any", 0): "v_int"}
KINDVALS = {"v_int": I, "v_uint8": ("int", 1), "3": ("int", 1), "v_bytes": B, "v_bytes4": ("bytes", 4), '"abc"': ("bytes", 3), "v_St": ("bytes", 13), 'app_global_get("k")': ANY, "Txn.Sender": ("bytes", 32), "Txn.Fee": I}


def run_case(case, ctx):
    k = case[0]
    if ctx.n % 977 == 1:
        ctx.sample({"case": repr(case)})
    if k == "pair":
        _, pos, t, v = case
        _, main, funcs, mark = position(pos, t, v)
        src, line = build(main, funcs, mark)
        verdict(ctx, f"pair:{pos}:{t}:{v}", src, line, holds(t, VALUES[v]), f"{v} for {t} in {pos}")
    elif k == "field":
        _, pos, f, v = case
        _, main, funcs, mark = position(pos, f, v)
        src, line = build(main, funcs, mark)
        verdict(ctx, f"field:{pos}:{f}:{v}", src, line, holds(FIELDS[f], VALUES[v]), f"{v} for field of type {FIELDS[f]}")
    elif k == "key":
        v = case[1]
        src, line = simple([f"box<St> z = OpenBox({v})"])
        verdict(ctx, f"key:{v}", src, line, holds("bytes", VALUES[v]), f"{v} as box key")
    elif k == "const":
        _, t, v = case
        vt = {"0": ("int", 1), "5": ("int", 1), "300": ("int", 2)}.get(v)
        if vt is None and v[0] == '"':
            vt = ("bytes", len(v) - 2) if len(v) > 2 else None      # an empty constant is refused
        elif vt is None and v.startswith("0x"):
            vt = ("bytes", len(v) // 2 - 1)
        exp = None if vt is None or (t == "addr" and v.startswith("0x")) else holds(t, vt)
        src, line = simple([f"const {t} ZZ = {v}"])
        verdict(ctx, f"const:{t}:{v}", src, line, exp, f"{v} for const {t}")
    elif k == "bin":
        _, o, a, b = case
        ta, tb = BINOPS[o]
        exp = holds(ta, VALUES[a]) and holds(tb, VALUES[b])
        src, line = simple([f"assert(len(\"\") == (({a} {o} {b}) == 1))"] if False else [f"EXPR = {a} {o} {b}".replace("EXPR", "v_bytes" if o in ("b+", "b-", "b*", "b/", "b%", "b|", "b&", "b^") else "v_int")])
        verdict(ctx, f"bin:{o}:{a}:{b}", src, line, exp, f"operands of {o}")
    elif k == "un":
        _, o, v = case
        if " " in v and "(" not in v[:1]:
            return
        if v.startswith(("!", "~", "b~")):
            return
        src, line = simple([f"{'v_bytes' if o == 'b~' else 'v_int'} = {o}{v}"])
        verdict(ctx, f"un:{o}:{v}", src, line, holds(UNOPS[o], VALUES[v]), f"operand of {o}")
    elif k == "op":
        run_op(case, ctx)
    elif k == "opargs":
        run_opargs(case, ctx)
    elif k == "multi":
        _, e, names = case
        ts = RESULTS[e]
        exp = True
        for n, t in zip(names, ts):
            if n != "_":
                exp = exp and holds({"v_int": I, "v_bytes": B, "v_uint8": ("int", 1), "v_bytes4": ("bytes", 4), "v_addr": ("bytes", 32), "v_bigint": B}[n], t)
        src, line = simple([f"{', '.join(names)} = {e}"])
        verdict(ctx, f"multi:{e}:{names}", src, line, bool(exp), f"results of {e}")
    elif k == "args":
        _, a, b, r, u = case
        funcs = [f"func g({', '.join(f'p{i}: int' for i in range(a))}){' int' if r else ''}:", "    return" + (" 1" if r else ""), "end"]
        call = f"g({', '.join(str(i) for i in range(b))})"
        if u == "stmt":
            if r:
                return
            main = [call]
        elif u == "use":
            if not r:
                return
            main = [f"v_int = {call}"]
        else:
            if not r:
                return
            main = [f"log(itob(1 + {call}))"]
        src, line = simple(main, funcs)
        verdict(ctx, f"args:{case}", src, line, a == b, f"{b} arguments for {a} parameters")
    elif k == "rets":
        _, a, b = case
        funcs = [f"func g(){' ' if a else ''}{', '.join(['int'] * a)}:", "    return" + (" " if b else "") + ", ".join(str(i) for i in range(b)), "end"]
        src, line = build([], funcs, ("funcs", 1))
        verdict(ctx, f"rets:{a}:{b}", src, line, a == b, f"{b} results for {a} declared")
    elif k == "cond":
        _, pos, v = case
        lines, at = CONDS[pos]
        if pos.startswith("for") and not re.fullmatch(r"[a-zA-Z0-9_]+", v):
            return
        exp = holds(I, VALUES[v])
        if re.fullmatch("[0-9]+", v) and pos in ("txna", "gtxn", "gtxna", "gtxnsa", "itxna") and int(v) > 15:
            exp = None
        src, line = simple([x.replace("{}", v) for x in lines], at=at)
        verdict(ctx, f"cond:{pos}:{v}", src, line, exp, f"{v} as {pos}")
    elif k == "names":
        _, e, n = case
        ts = RESULTS.get(e) or {"v_int": [I], "r_int()": [I], "r_none(1)": [], 'log("a")': [], "itob(1)": [B], "1 + 1": [I]}[e]
        names = [{"int": "v_int", "bytes": "v_bytes", "any": "v_bytes"}[t[0]] for t in ts] + ["v_int"] * 5
        src, line = simple([f"{', '.join(names[:n])} = {e}"])
        verdict(ctx, f"names:{e}:{n}", src, line, n == len(ts), f"{n} names for {len(ts)} values")
        src, line = simple([f"{', '.join(['_'] * n)} = {e}"])
        verdict(ctx, f"names_:{e}:{n}", src, line, n == len(ts), f"{n} names for {len(ts)} values")
    elif k == "use":
        _, e, u = case
        ts = RESULTS.get(e) or {"v_int": [I], "r_int()": [I], "r_none(1)": [], 'log("a")': [], "itob(1)": [B], "1 + 1": [I]}[e]
        one = len(ts) == 1
        t = ts[0] if one else None
        main, funcs, mark, exp = [], [], ("main", 0), None
        if u == "decl":
            main, exp = [f"int z = {e}"], one and t[0] == "int"
        elif u == "stmt":
            main, exp = [e], len(ts) == 0
            if e in ("v_int", "1 + 1"):
                exp = False
        elif u == "arg":
            main, exp = [f"r_none({e})"], one and t[0] == "int"
        elif u == "opnd":
            main, exp = [f"v_int = 2 + {e}" if e != "1 + 1" else "v_int = 2 + (1 + 1)"], one and t[0] == "int"
        elif u == "ret":
            funcs, mark, exp = ["func g() int:", f"    return {e}", "end"], ("funcs", 1), one and t[0] == "int"
        elif u == "field":
            main, exp = [f"v_St.a = {e}"], one and t[0] == "int"
        elif u == "cond":
            main, exp = [f"if {e}:", "    log(\"a\")", "end"], one and t[0] in ("int", "any")
        elif u == "exit":
            main, exp = [f"exit({e})"], one and t[0] in ("int", "any")
        elif u == "idx":
            main, exp = [f"v_bytes = Txn.ApplicationArgs[{e}]"], one and t[0] in ("int", "any")
        elif u == "itxn":
            main, mark, exp = ["inner_txn:", f"    Fee: {e}", "end"], ("main", 1), (True if t[0] == "int" else None) if one else False
        elif u == "boxkey":
            main, exp = [f"box<St> z = OpenBox({e})"], one and t[0] == "bytes"
        if u == "exit":
            src, line = build(main, funcs, mark)
            src = src.replace("exit(1)\n", "", 1)
        else:
            src, line = build(main, funcs, mark)
        verdict(ctx, f"use:{e}:{u}", src, line, exp, f"{e} with {len(ts)} values as {u}")
    elif k == "line":
        _, pad, where, err = case
        body = ["# comment"] * pad + [ERRS[err]] + (["log(\"a\")", "end"] if ERRS[err].endswith(":") else [])
        off = pad
        if where == "if":
            main, off = ["if v_int:"] + body + ["end"], off + 1
        elif where == "elif":
            main, off = ["if v_int:", "log(\"a\")", "elif v_int:"] + body + ["end"], off + 3
        elif where == "else":
            main, off = ["if v_int:", "log(\"a\")", "else:"] + body + ["end"], off + 3
        elif where == "while":
            main, off = ["while v_int:"] + body + ["end"], off + 1
        elif where == "for":
            main, off = ["for q in 0:2:"] + body + ["end"], off + 1
        elif where == "inner_group":
            main, off = ["inner_group:"] + body + ["end"], off + 1
        else:
            main = body
        if where == "func":
            body = [b.replace("v_int, v_bytes =", "l_int, l_bytes =").replace("v_int, v_int =", "l_int, l_int =") for b in body]
            body = [re.sub(r"^(v_[a-z0-9]+) =", lambda m: {"v_int": "l_int", "v_bytes": "l_bytes", "v_bytes4": "l_bytes4", "v_uint8": "l_uint8"}[m.group(1)] + " =", b) for b in body]
            body = [b.replace("v_St.a =", "l_St.a =") for b in body]
            decl = ["int l_int", "bytes l_bytes", "bytes[4] l_bytes4", "uint8 l_uint8", "St l_St"]
            src, line = build([], ["func g():"] + decl + body + ["return", "end"], ("funcs", 1 + len(decl) + off))
        elif where == "block":
            src, line = build([], ["block bb:"] + body + ["exit(1)", "end"], ("funcs", 1 + off))
        else:
            src, line = build(main, [], ("main", off))
        verdict(ctx, f"line:{case}", src, line, False, ERRS[err])


def run_op(case, ctx):
    n = case[1]
    info = op_info(n)
    if info is None or n in SKIP_OPS:
        return
    imms, ats, rts = info
    recv = {"int": "v_int", "bytes": "v_bytes", "any": "v_bytes"}
    pre = f"{', '.join(recv[t[0]] for t in rts[::-1])} = " if rts else ""
    base = [SAMPLE[t] for t in ats]
    for i, t in enumerate(ats):
        for v, vt in KINDVALS.items():
            args = list(base)
            args[i] = v
            src, line = simple([pre + op_call(n, args, imms)])
            verdict(ctx, f"op:{n}:{i}:{v}", src, line, holds(t, vt), f"operand {i} of {n}")
    # results: every result position with a variable of every kind
    for j, t in enumerate(rts[::-1]):
        for name, tt in (("v_int", I), ("v_bytes", B), ("v_uint8", ("int", 1)), ("v_bytes4", ("bytes", 4))):
            names = ["_"] * len(rts)
            names[j] = name
            src, line = simple([", ".join(names) + " = " + op_call(n, base, imms)])
            verdict(ctx, f"opres:{n}:{j}:{name}", src, line, bool(holds(tt, t)), f"result {j} of {n}")


def run_opargs(case, ctx):
    n = case[1]
    info = op_info(n)
    if info is None or n in SKIP_OPS:
        return
    imms, ats, rts = info
    for c in range(0, len(ats) + 3):
        args = ([SAMPLE[t] for t in ats] + ["v_int"] * 5)[:c]
        call = op_call(n, args, imms)
        src, line = simple([f"{', '.join(['_'] * len(rts))} = {call}" if rts else call])
        if n in ("substring", "extract", "replace") and c != len(ats):
            continue           # also exist without immediates
        verdict(ctx, f"opargs:{n}:{c}", src, line, c == len(ats), f"{c} operands for {n}")
