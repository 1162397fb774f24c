"""C18: opcode calls.  Every callable opcode of the pinned specification with every immediate alternative, in several contexts;
the instruction of the assembled program is replaced by a recorder which checks immediates and operands and injects results."""
import re
from itertools import product

from ..h import try_compile
from .. import avm

ID = "C18"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of (opcode, immediates, operand types, context); the compiled program is assembled and executed on the AVM model "
             "with the opcode's instruction replaced by a recorder that checks immediates, operands and order and injects results; all "
             "wrong counts, wrong types, wrong immediates and near-miss names must be refused")
NOTE = ("Complete for the callable opcodes of the packaged specification: all enum members, boundary integers at each integer immediate, every "
        "operand kind at each position, all pairs of nested opcode calls, and parameter counts up to two above the specified number.")
RULE = "opcodes x immediates x operand kinds x contexts; pairs of nested calls; counts; near-miss names; distinct = distinct sources"
ASSUMPTIONS = ["opcodes that need labels or constant blocks, frame pointers and stack surgery are not callable from Tealish expressions and are excluded"]

EXCLUDE = {"err", "return", "b", "bz", "bnz", "callsub", "retsub", "switch", "match", "proto", "frame_dig", "frame_bury",
           "intcblock", "intc", "intc_0", "intc_1", "intc_2", "intc_3", "bytecblock", "bytec", "bytec_0", "bytec_1", "bytec_2", "bytec_3",
           "pushint", "pushints", "pushbytes", "pushbytess", "assert", "pop", "dig", "bury", "cover", "uncover", "popn", "dupn"}
KINDS = dict(avm.IMM, method=["string"])
SPEC = dict(avm.OPS, method={"Name": "method", "Returns": "B"})
CALLABLE = sorted(n for n in SPEC if re.fullmatch(r"[a-z]\w*", n) and n not in EXCLUDE)
BINARY = [n for n in avm.OPS if not re.fullmatch(r"[a-z]\w*", n) and len(avm.OPS[n].get("Args", "")) == 2]
UNARY = [n for n in avm.OPS if not re.fullmatch(r"[a-z]\w*", n) and len(avm.OPS[n].get("Args", "")) == 1]
SCALAR_TXN = [f for f in avm.TXN_FIELDS if f not in avm.TXNA_FIELDS]

PRE = """#pragma version 8
const int KK = 7
const int ZERO = 0
const int BIG = 256
const int TOP = 255
const bytes KB = "abcd"
const bytes SIG = "f(uint64)void"
int v_int = 5
bytes v_bytes = "zz"
"""
METHODS = {'"add(uint64,uint64)uint64"': "add(uint64,uint64)uint64", "SIG": "f(uint64)void", '"a()void"': "a()void"}


def imm_options(op, kind):
    """source text -> assembled immediate"""
    if kind == "u8":
        d = {"100": 100, "200": 200, "254": 254, "TOP": 255}
        if op not in ("load", "store"):
            d.update({"0": 0, "1": 1, "127": 127, "128": 128, "255": 255, "KK": 7, "ZERO": 0})
        return d
    if kind == "string":
        return METHODS
    if kind == "txn":
        return {f: f for f in SCALAR_TXN}
    if kind == "txna":
        return {f: f for f in avm.TXNA_FIELDS}
    if kind == "itxnset":
        return {f: f for f in avm.ITXN_SET}
    if kind == "global":
        return {f: f for f in avm.GLOBAL_FIELDS}
    if kind == "grp":
        return {f: f for f in avm.GROUPS[op]}
    raise KeyError(kind)


def imm_default(op, kind):
    return next(iter(imm_options(op, kind)))


def sig(n):
    o = SPEC[n]
    return KINDS.get(n, []), o.get("Args", ""), o.get("Returns", "")


def mark(t, i, avoid):
    """(source, marker op, key, value) of an operand that can be recognised at run time"""
    if t == "U":
        op = "min_balance" if avoid != "min_balance" else "acct"
        if op == "acct":
            return f"(balance({100 + i}) + 0)", "balance", 100 + i, 900 + i
        return f"min_balance({100 + i})", op, 100 + i, 900 + i
    op = "sha3_256" if avoid != "sha3_256" else "sha512_256"
    k = b"m%d" % i
    return f'{op}("m{i}")', op, k, b"mark" + k


class Mon:
    """records marker calls and calls of the opcodes under test"""

    def __init__(self):
        self.events = []

    def oracle(self, m, op, imm, args):
        return None


def program(ctxname, lines, rets_show):
    """the statement lines placed in a context, followed by reports of the received variables"""
    body = list(lines) + rets_show
    if ctxname == "top":
        return PRE + "\n".join(body + ["exit(1)"]) + "\n", 0
    if ctxname == "if":
        return PRE + "\n".join(["if v_int:"] + ["    " + x for x in body] + ["end", "exit(1)"]) + "\n", 0
    if ctxname == "while":
        return PRE + "\n".join(["while v_int:"] + ["    " + x for x in body] + ["    break", "end", "exit(1)"]) + "\n", 0
    if ctxname == "func":
        return PRE + "\n".join(["g()", "exit(1)", "func g():"] + ["    " + x for x in body] + ["    return", "end"]) + "\n", 0
    if ctxname == "block":
        return PRE + "\n".join(["jump bb", "block bb:"] + ["    " + x for x in body] + ["    exit(1)", "end"]) + "\n", 0
    raise KeyError(ctxname)


CTXS = ["top", "if", "while", "func", "block"]


def sink(n):
    return "box_put" if n == "app_global_put" else "app_global_put"


def show(n, k, var, t):
    if n == "app_global_put":
        v = var if t == "B" else f"itob({var})"
        return f'box_put("r{k}", {v})'
    return f'app_global_put("r{k}", {var})'


def shown(n, k, v):
    if n == "app_global_put" and type(v) is int:
        v = v.to_bytes(8, "big")
    return (b"r%d" % k, v)


def attach(asm, targets, mon, sinkop):
    """replaces the instructions of the target ops, markers and the sink by recorders.
    targets: op -> (assembled immediates or None, operand types, results bottom first)"""
    hits = {t: [] for t in targets}

    def rec_target(name, nargs, results):
        def fn(m, ins):
            args = [m.pop() for _ in range(nargs)][::-1]
            mon.events.append(("op", name, tuple(ins.imm or ()), tuple(args)))
            m.stack.extend(results)
        return fn

    for ins in asm.instrs:
        if ins.op == "pushbytes" and "method" in targets and ins.imm == avm.sha512_256(targets["method"][0][0].encode())[:4]:
            imm, args, results = targets["method"]
            hits["method"].append(ins)

            def fn(m, ins, imm=imm, results=results):
                mon.events.append(("op", "method", tuple(imm), ()))
                m.stack.extend(results)
            ins.fn = fn
        elif ins.op in targets:
            imm, args, results = targets[ins.op]
            if ins.op in ("load", "store") and tuple(ins.imm) != tuple(imm):
                continue
            hits[ins.op].append(ins)
            ins.fn = rec_target(ins.op, len(args), results)
        elif ins.op in ("min_balance", "balance"):
            def fn(m, ins):
                k = m.pop()
                mon.events.append(("mark", k))
                m.stack.append(k + 800)
            ins.fn = fn
        elif ins.op in ("sha3_256", "sha512_256"):
            def fn(m, ins):
                k = m.pop()
                mon.events.append(("mark", k))
                m.stack.append(b"mark" + k)
            ins.fn = fn
        elif ins.op == sinkop:
            def fn(m, ins):
                v = m.pop()
                k = m.pop()
                mon.events.append(("sink", k, v))
            ins.fn = fn
    return hits


def fresh(t, j):
    return 5000 + j if t == "U" else b"res%d" % j


def concrete(ts, alt):
    """the untyped operands/results in one of the two kinds"""
    return "".join(("U", "B")[alt] if t == "." else t for t in ts)


def families(tier):
    return [("emit", {}), ("nest", {"ops": "pairs"}), ("imm", {}), ("badimm", {}), ("arity", {}), ("argtype", {}), ("restype", {}), ("names", {}), ("use", {}), ("expr", {}), ("two", {})] + \
        ([("emitfull", {})] if tier == "thorough" else [])


def tuples(n):
    kinds = sig(n)[0]
    r = list(product(*[imm_options(n, k).items() for k in kinds]))
    if n == "substring":                                # the assembler wants start <= end
        r = [(a, b) for a, b in r if a[1] <= b[1]]
    return r


def cases(fam, p):
    if fam in ("emit", "emitfull"):
        for n in CALLABLE:
            kinds, args, rets = sig(n)
            alts = (0, 1) if "." in args + rets else (0,)
            every = tuples(n)
            for alt in alts:
                for k, imms in enumerate(every):
                    for c in CTXS:
                        if fam == "emit" and k and c != CTXS[k % len(CTXS)]:
                            continue
                        for form in forms(rets):
                            yield ("emit", n, imms, alt, c, form)
    elif fam == "imm":
        # each immediate in turn over its alternatives, with constants, in every context
        for n in CALLABLE:
            kinds = sig(n)[0]
            for i, k in enumerate(kinds):
                for src, val in imm_options(n, k).items():
                    imms = [(imm_default(n, x), imm_options(n, x)[imm_default(n, x)]) for x in kinds]
                    imms[i] = (src, val)
                    if n == "substring":
                        imms[1 - i] = ("0", 0) if i else ("255", 255)
                    yield ("emit", n, tuple(imms), 0, "func", forms(sig(n)[2])[0])
    elif fam == "nest":
        for outer in CALLABLE:
            oargs = sig(outer)[1]
            for i, t in enumerate(oargs):
                for inner in CALLABLE + BINARY + UNARY:
                    r = sig(inner)[2] if inner in CALLABLE else avm.OPS[inner]["Returns"]
                    if len(r) == 1 and (r == t or "." in (r, t)) and inner != outer:
                        yield ("nest", outer, i, inner)
    elif fam in ("badimm", "arity", "argtype", "restype", "use"):
        for n in CALLABLE:
            yield (fam, n)
    elif fam == "names":
        for n in CALLABLE:
            yield ("names", n)
        for n in NEWER:
            yield ("name", n)
    elif fam == "expr":
        for n in BINARY:
            for alt in ((0, 1) if "." in avm.OPS[n]["Args"] else (0,)):
                for c in CTXS:
                    yield ("binary", n, alt, c)
            for a, b in product("UB", repeat=2):
                yield ("binbad", n, a, b)
        for n in UNARY:
            for c in CTXS:
                yield ("unary", n, 0, c)
            for a in "UB":
                yield ("unbad", n, a)
    elif fam == "two":
        for a, b in product(CALLABLE, repeat=2):
            if a != b and hash_pair(a, b) % (4 if p.get("all") else 4) == 0:
                yield ("two", a, b)


def hash_pair(a, b):
    return sum(a.encode()) * 31 + sum(b.encode()) * 17


def forms(rets):
    if not rets:
        return ["stmt"]
    f = ["assign"]
    if len(rets) == 1:
        f += ["bin", "arg", "ret"]
    else:
        f += ["discard"]
    return f


def run_case(case, ctx):
    RUN[case[0]](case, ctx)
    if ctx.n % 331 == 1:
        ctx.sample({"case": repr(case)[:300]})


def call_text(n, imms, operands):
    return f"{n}({', '.join([s for s, _ in imms] + operands)})"


def go(ctx, key, n, src, want_events, targets, sinkop, once):
    """compile, assemble, run with recorders"""
    ctx.distinct(src)
    st, lines, _ = try_compile(src)
    if st != "ok":
        ctx.violation(f"refused:{key}", f"a call allowed by the language specification is refused: {lines}", source=src)
        return
    try:
        asm = avm.assemble(lines)
    except avm.AsmError as e:
        ctx.violation(f"asm:{key}", f"emitted TEAL does not assemble: {e}", source=src, teal="\n".join(lines))
        return
    mon = Mon()
    hits = attach(asm, targets, mon, sinkop)
    for t in once:
        if len(hits[t]) != 1:
            ctx.violation(f"count:{key}", f"{t} is emitted {len(hits[t])} times for one call", source=src, teal="\n".join(lines))
            return
    m = avm.execute(asm, avm.Env(), 2000)
    ctx.traces += 1
    ctx.states += m.steps + 1
    ctx.transitions += m.steps
    got = mon.events
    if got != want_events or m.status != "accept":
        ctx.violation(f"run:{key}", "the call does not execute the opcode with the written immediates and operands and receive its results", source=src,
                      expected=repr(want_events), actual=repr(got) + f" {m.status} {m.fail}", teal="\n".join(lines))


def run_emit(case, ctx):
    _, n, imms, alt, c, form = case
    kinds, args, rets = sig(n)
    args, crets = concrete(args, alt), concrete(rets, alt)
    operands, ev, vals = [], [], []
    for i, t in enumerate(args):
        s, op, k, v = mark(t, i, n)
        operands.append(s)
        vals.append(v)
        ev.append(("mark", k))
    call = call_text(n, imms, operands)
    asm_imm = tuple(v for _, v in imms)
    results = [fresh(t, j) for j, t in enumerate(crets)]
    ev.append(("op", n if n != "method" else "method", asm_imm, tuple(vals)))
    shows = []
    pre = []
    if form == "stmt":
        lines = [call]
    elif form == "assign":
        names = []
        for j in range(len(crets) - 1, -1, -1):          # the first name receives the top of the stack
            t = crets[j]
            names.append(f"d{j}")
            pre.append(f"{'int' if t == 'U' else 'bytes'} d{j}")
        lines = [f"{', '.join(names)} = {call}"]
        for j, t in enumerate(crets):
            shows.append(show(n, j, f"d{j}", t))
            ev.append(("sink",) + shown(n, j, results[j]))
    elif form == "discard":
        keep = 0 if alt == 0 else len(crets) - 1
        names = []
        for j in range(len(crets) - 1, -1, -1):
            names.append(f"d{j}" if j == keep else "_")
        pre.append(f"{'int' if crets[keep] == 'U' else 'bytes'} d{keep}")
        lines = [f"{', '.join(names)} = {call}"]
        shows.append(show(n, keep, f"d{keep}", crets[keep]))
        ev.append(("sink",) + shown(n, keep, results[keep]))
    elif form == "bin":
        t = crets[0]
        left, _, k, v = mark(t, 50, n)
        opr, res = ("==", 0)
        pre.append("int d0")
        lines = [f"d0 = {left} {opr} {call}"]
        ev.insert(0, ("mark", k))
        shows.append(show(n, 0, "d0", "U"))
        ev.append(("sink",) + shown(n, 0, 1 if v == results[0] else 0))
    elif form == "arg":
        # as the second operand of another opcode, with a pending first operand
        lines = [f'{sink(n)}("p", {call})'] if sink(n) == "app_global_put" or crets[0] == "B" else [f'box_put("p", itob({call}))']
        v = results[0]
        if sink(n) == "box_put" and type(v) is int:
            v = v.to_bytes(8, "big")
        ev.append(("sink", b"p", v))
    elif form == "ret":
        t = crets[0]
        decl = "int" if t == "U" else "bytes"
        body = f"{decl} x = h()\n" + show(n, 0, "x", t) + "\nexit(1)\n" + f"func h() {decl}:\n    return {call}\nend\n"
        src = PRE + body
        ev.append(("sink",) + shown(n, 0, results[0]))
        go(ctx, f"{n}:{asm_imm}:{alt}:ret", n, src, ev, {n: (asm_imm, args, results)}, sink(n), [n])
        return
    src, _ = program(c, pre + lines, shows)
    go(ctx, f"{n}:{asm_imm}:{alt}:{c}:{form}", n, src, ev, {n: (asm_imm, args, results)}, sink(n), [n])


def default_imms(n):
    return [(imm_default(n, k), imm_options(n, k)[imm_default(n, k)]) for k in sig(n)[0]]


def run_nest(case, ctx):
    _, outer, i, inner = case
    if outer in ("min_balance", "sha3_256", "balance", "sha512_256", "app_global_put") or inner in ("min_balance", "sha3_256", "balance", "sha512_256"):
        return
    okinds, oargs, orets = sig(outer)
    if inner in CALLABLE:
        ikinds, iargs, irets = sig(inner)
    else:
        iargs, irets = avm.OPS[inner]["Args"], avm.OPS[inner]["Returns"]
    oargs = concrete(oargs, 0)
    t = oargs[i]
    if irets != "." and irets != t and sig(outer)[1][i] == ".":
        t = irets
    iargs, irets = concrete(iargs, 0), t
    ops, vals, ev = [], [], []
    for j, x in enumerate(oargs):
        if j != i:
            s, _, k, v = mark(x, j, None)
            ops.append(s)
            vals.append(v)
            ev.append(("mark", k))
            continue
        sub, sv = [], []
        for q, y in enumerate(iargs):
            s, _, k, v = mark(y, 20 + q, None)
            sub.append(s)
            sv.append(v)
            ev.append(("mark", k))
        if inner in CALLABLE:
            imms = default_imms(inner)
            text = call_text(inner, imms, sub)
            ii = tuple(v for _, v in imms)
        else:
            text = f"{sub[0]} {inner} {sub[1]}" if len(sub) == 2 else f"{inner}{sub[0]}"
            ii = ()
        iv = fresh(irets, 0)
        ev.append(("op", inner, ii, tuple(sv)))
        ops.append(text)
        vals.append(iv)
    imms = default_imms(outer)
    oi = tuple(v for _, v in imms)
    ev.append(("op", outer, oi, tuple(vals)))
    crets = concrete(orets, 0)
    results = [fresh(x, 7 + j) for j, x in enumerate(crets)]
    call = call_text(outer, imms, ops)
    lines, shows = [], []
    if crets:
        names = [f"d{j}" for j in range(len(crets) - 1, -1, -1)]
        lines = [f"{'int' if crets[j] == 'U' else 'bytes'} d{j}" for j in range(len(crets))] + [f"{', '.join(names)} = {call}"]
        s = "box_put" if "app_global_put" in (outer, inner) else "app_global_put"
        if s == "box_put":
            return
        shows = [f'app_global_put("r{j}", d{j})' for j in range(len(crets))]
        ev += [("sink", b"r%d" % j, results[j]) for j in range(len(crets))]
    else:
        lines = [call]
    src, _ = program("top", lines, shows)
    go(ctx, f"nest:{outer}:{i}:{inner}", outer, src, ev, {outer: (oi, oargs, results), inner: (ii, iargs, [iv])}, "app_global_put", [outer, inner])


def run_two(case, ctx):
    """two calls in one program keep their own immediates and operands"""
    _, a, b = case
    if {a, b} & {"min_balance", "sha3_256", "balance", "sha512_256", "app_global_put", "box_put"}:
        return
    lines, shows, ev, targets = [], [], [], {}
    for q, n in enumerate((a, b)):
        kinds, args, rets = sig(n)
        args, crets = concrete(args, q), concrete(rets, 1 - q)
        imms = default_imms(n)
        ops, vals = [], []
        for i, t in enumerate(args):
            s, _, k, v = mark(t, 30 * q + i, None)
            ops.append(s)
            vals.append(v)
            ev.append(("mark", k))
        ai = tuple(v for _, v in imms)
        ev.append(("op", n, ai, tuple(vals)))
        results = [fresh(t, 10 * q + j) for j, t in enumerate(crets)]
        targets[n] = (ai, args, results)
        call = call_text(n, imms, ops)
        if crets:
            for j, t in enumerate(crets):
                lines.append(f"{'int' if t == 'U' else 'bytes'} e{q}{j}")
                shows.append(f'app_global_put("r{q}{j}", e{q}{j})')
            lines.append(", ".join(f"e{q}{j}" for j in range(len(crets) - 1, -1, -1)) + " = " + call)
        else:
            lines.append(call)
        targets[n] = (ai, args, results)
    for q, n in enumerate((a, b)):
        ev += [("sink", b"r%d%d" % (q, j), v) for j, v in enumerate(targets[n][2])]
    src, _ = program("top", lines, shows)
    go(ctx, f"two:{a}:{b}", a, src, ev, targets, "app_global_put", [a, b])


def run_bin(case, ctx):
    kind, n, alt, c = case
    args = concrete(avm.OPS[n]["Args"], alt)
    rets = concrete(avm.OPS[n]["Returns"], alt)
    ops, vals, ev = [], [], []
    for i, t in enumerate(args):
        s, _, k, v = mark(t, i, None)
        ops.append(s)
        vals.append(v)
        ev.append(("mark", k))
    text = f"{ops[0]} {n} {ops[1]}" if kind == "binary" else f"{n}{ops[0]}"
    r = fresh(rets[0], 0)
    ev.append(("op", n, (), tuple(vals)))
    ev.append(("sink", b"r0", r))
    src, _ = program(c, [f"{'int' if rets == 'U' else 'bytes'} d0", f"d0 = {text}"], ['app_global_put("r0", d0)'])
    go(ctx, f"{kind}:{n}:{alt}:{c}", n, src, ev, {n: ((), args, [r])}, "app_global_put", [n])


def expect(ctx, key, src, ok, what):
    ctx.distinct(src)
    ctx.traces += 1
    ctx.states += 1
    ctx.transitions += 1
    st, a, _ = try_compile(src)
    if st == ("ok" if ok else "refused"):
        return
    ctx.violation(f"{'refused' if ok else 'accepted'}:{key}" if st != "crash" else f"crash:{key}",
                  f"{what}: {'must be accepted' if ok else 'must be refused'}, is {st}", source=src, result=repr(a)[:600])


def plain(t):
    return "v_int" if t in "U." else "v_bytes"


def stmt_of(n, call, rets):
    return (", ".join("_" for _ in rets) + " = " if rets else "") + call


def one(line):
    return PRE + line + "\nexit(1)\n"


def run_arity(case, ctx):
    n = case[1]
    kinds, args, rets = sig(n)
    good = [imm_default(n, k) for k in kinds] + [plain(t) for t in args]
    for fillers in (["v_int"], ["v_bytes"], ["1"], ['"a"']):
        seq = good + fillers * 3
        for c in range(0, len(good) + 3):
            expect(ctx, f"arity:{n}:{c}:{fillers[0]}", one(stmt_of(n, f"{n}({', '.join(seq[:c])})", rets)), c == len(good), f"{c} parameters for {n}")
    # one parameter missing at each place
    for i in range(len(good)):
        seq = good[:i] + good[i + 1:]
        expect(ctx, f"missing:{n}:{i}", one(stmt_of(n, f"{n}({', '.join(seq)})", rets)), False, f"parameter {i} of {n} missing")
        for x in ("v_int", "v_bytes"):
            seq = good[:i] + [x] + good[i:]
            expect(ctx, f"extra:{n}:{i}:{x}", one(stmt_of(n, f"{n}({', '.join(seq)})", rets)), False, f"additional parameter {i} of {n}")
    # operands only at run time constants: literals of the right kind
    lit = [imm_default(n, k) for k in kinds] + [("3" if t in "U." else '"abc"') for t in args]
    expect(ctx, f"literal:{n}", one(stmt_of(n, f"{n}({', '.join(lit)})", rets)), True, f"literals as operands of {n}")
    for i in range(len(lit)):
        expect(ctx, f"missinglit:{n}:{i}", one(stmt_of(n, f"{n}({', '.join(lit[:i] + lit[i + 1:])})", rets)), False, f"parameter {i} of {n} missing")


VALS = {"v_int": "U", "v_bytes": "B", "3": "U", "18446744073709551615": "U", '"abc"': "B", '""': "B", "KK": "U", "KB": "B", "(v_int + 1)": "U", "(v_bytes b+ v_bytes)": "B", "itob(v_int)": "B", "btoi(v_bytes)": "U",
        "Txn.Fee": "U", "Txn.Sender": "B", "load(9)": ".", 'app_global_get("k")': ".", "Global.Round": "U", "NoOp": "U", "addw(1, 2)": None, 'log("a")': None, "(v_int == v_int)": "U", 'method("a()void")': "B", "Concat(v_bytes, v_bytes)": "B", "Fee": None, "AssetName": None}


def run_argtype(case, ctx):
    n = case[1]
    kinds, args, rets = sig(n)
    imms = [imm_default(n, k) for k in kinds]
    for i, t in enumerate(args):
        for v, vt in VALS.items():
            ops = [plain(x) for x in args]
            ops[i] = v
            ok = vt is not None and (t == "." or vt in (t, "."))
            if vt == "." and t != ".":
                ok = True
            expect(ctx, f"argtype:{n}:{i}:{v}", one(stmt_of(n, f"{n}({', '.join(imms + ops)})", rets)), ok, f"operand {i} of {n} is {v}")


def run_restype(case, ctx):
    n = case[1]
    kinds, args, rets = sig(n)
    call = f"{n}({', '.join([imm_default(n, k) for k in kinds] + [plain(t) for t in args])})"
    for c in range(0, len(rets) + 3):
        line = (", ".join(["_"] * c) + " = " if c else "") + call
        expect(ctx, f"results:{n}:{c}", one(line), c == len(rets), f"{c} names for the {len(rets)} results of {n}")
    for j in range(len(rets)):
        t = rets[len(rets) - 1 - j]
        for d in ("int", "bytes", "uint8", "bytes[4]"):
            names = ["_"] * len(rets)
            names[j] = "x"
            src = one(f"{d} x\n{', '.join(names)} = {call}")
            sized = {"bzero": "B"}
            ok = {"U": d == "int", "B": d == "bytes", ".": d in ("int", "bytes")}[t]
            expect(ctx, f"restype:{n}:{j}:{d}", src, ok, f"result {j} of {n} received by {d}")


def run_use(case, ctx):
    """calls with no result or several results are not values"""
    n = case[1]
    kinds, args, rets = sig(n)
    call = f"{n}({', '.join([imm_default(n, k) for k in kinds] + [plain(t) for t in args])})"
    single = len(rets) == 1
    r = rets if single else None
    uses = {"decl-int": (f"int x = {call}", r in ("U", ".")), "decl-bytes": (f"bytes x = {call}", r in ("B", ".")), "itob": (f"log(itob({call}))", r in ("U", ".")), "log": (f"log({call})", r in ("B", ".")),
            "binl": (f"v_int = {call} + 1", r in ("U", ".")), "binr": (f"v_int = 1 + {call}", r in ("U", ".")), "not": (f"v_int = !{call}", r in ("U", ".")), "group": (f"v_int = ({call} + 1) * 2", r in ("U", ".")),
            "if": (f"if {call}:\n    v_int = 1\nend", r in ("U", ".")), "while": (f"while {call}:\n    break\nend", r in ("U", ".")), "assert": (f"assert({call})", r in ("U", ".")),
            "exit": (f"if v_int:\n    exit({call})\nend", r in ("U", ".")), "eq": (f"v_int = {call} == v_int", r in ("U", ".")), "stmt": (call, not rets)}
    if n == "log" or not rets:
        pass
    for u, (line, ok) in uses.items():
        if u == "eq" and single and r == "B":
            continue
        expect(ctx, f"use:{n}:{u}", one(line), ok, f"{n} with results {rets or 'none'} used in {u}")


NEWER = ["box_splice", "box_resize", "ec_add", "ec_scalar_mul", "ec_pairing_check", "ec_multi_scalar_mul", "ec_subgroup_check", "ec_map_to", "voter_params_get", "online_stake", "falcon_verify", "sumhash512", "mimc",
         "foo", "int", "byte", "addr", "base32", "bytes", "frame", "constructor", "Txn", "txn_fee", "concatenate", "b", "add", "sub", "mul", "eq"]


def run_names(case, ctx):
    n = case[1]
    kinds, args, rets = sig(n)
    vals = ", ".join([imm_default(n, k) for k in kinds] + [plain(t) for t in args])
    edits = {n[:-1], n + "x", n + n[-1], n[1:], n[0].upper() + n[1:], n.upper(), "_" + n, n + "_", n.replace("_", ""), n.replace("_", "__"), n[0] + n[2:] if len(n) > 2 else n + "q"}
    for e in sorted(edits):
        if e in SPEC or not e or e[0].isupper():        # capitalised names are those of the Tealish library
            continue
        expect(ctx, f"name:{e}", one(stmt_of(n, f"{e}({vals})", rets)), False, f"unknown name {e}")


def run_name(case, ctx):
    for vals in ("", "v_int", "v_bytes", "v_int, v_int"):
        if case[1] == "b":
            continue
        for pre in ("", "_ = ", "v_int = "):
            expect(ctx, f"name:{case[1]}:{vals}:{pre}", one(f"{pre}{case[1]}({vals})"), False, f"unknown name {case[1]}")


BADINT = ["256", "BIG", "300", "18446744073709551615", "v_int", "v_bytes", '"a"', "KB", "(1 + 1)", "btoi(v_bytes)", "Txn.Fee", "Fee", "NotAField", "UNDEFINED", "-1", "1.5", "Global.Round"]
BADENUM = ["0", "1", "v_int", '"Sender"', "KK", "KB", "NotAField", "sender", "SENDER", "FeeX", "Fe", "Txn.Sender", "(Fee)", "UNDEFINED"]
BADSTR = ["1", "v_bytes", "KK", "v_int", "Fee", "NotAField", "add", "itob(1)", "Txn.Note"]


def run_badimm(case, ctx):
    n = case[1]
    kinds, args, rets = sig(n)
    good = [imm_default(n, k) for k in kinds]
    ops = [plain(t) for t in args]
    for i, k in enumerate(kinds):
        bad = list({"u8": BADINT, "string": BADSTR}.get(k, BADENUM))
        opts = imm_options(n, k)
        if k not in ("u8", "string"):
            allnames = set(avm.TXN_FIELDS) | set(avm.GLOBAL_FIELDS)
            for g in avm.GROUPS.values():
                allnames |= set(g)
            bad += sorted(allnames - set(opts))
            bad += sorted({f[0].lower() + f[1:] for f in opts} - set(opts))
        for b in bad:
            if b in opts:
                continue
            imms = list(good)
            imms[i] = b
            expect(ctx, f"badimm:{n}:{i}:{b}", one(stmt_of(n, f"{n}({', '.join(imms + ops)})", rets)), False, f"immediate {i} of {n} is {b}")


def run_binbad(case, ctx):
    n, a, b = case[1:]
    args, rets = avm.OPS[n]["Args"], avm.OPS[n]["Returns"]
    ok = (a == b) if args == ".." else args == a + b
    if args == ".." and a != b:
        return                                          # the specification gives no types here
    v = {"U": ["v_int", "3", "btoi(v_bytes)", "Txn.Fee", "KK"], "B": ["v_bytes", '"abc"', "itob(v_int)", "Txn.Sender", "KB"]}
    for x, y in product(v[a], v[b]):
        expect(ctx, f"binary:{n}:{x}:{y}", one(f"_ = {x} {n} {y}"), ok, f"{x} {n} {y}")


def run_unbad(case, ctx):
    n, a = case[1:]
    v = {"U": ["v_int", "3", "btoi(v_bytes)", "Txn.Fee", "KK"], "B": ["v_bytes", '"abc"', "itob(v_int)", "Txn.Sender", "KB"]}
    for x in v[a]:
        expect(ctx, f"unary:{n}:{x}", one(f"_ = {n}{x}"), avm.OPS[n]["Args"] == a, f"{n}{x}")


RUN = {"emit": run_emit, "nest": run_nest, "two": run_two, "binary": run_bin, "unary": run_bin, "arity": run_arity, "argtype": run_argtype, "restype": run_restype, "use": run_use, "names": run_names, "name": run_name,
       "badimm": run_badimm, "binbad": run_binbad, "unbad": run_unbad}
