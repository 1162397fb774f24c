"""C20: stack discipline.  Abstract executions of the emitted TEAL: all paths (both outcomes of every branch, every call context) over
states (program counter, stack of operand types, call stack).  Statements are observed through marks inserted between them."""
import importlib
import re
from itertools import product

from ..h import try_compile
from .. import avm, catalog
from ..catalog import CTXS, ENDS, STMTS, inst, plug, program

ID = "C20"
LEVEL = "model_checking"
TECHNIQUE = ("explicit-state exploration of all abstract executions (program counter x stack of operand types x call stack, every branch both ways) of the "
             "emitted TEAL of exhaustively enumerated programs; marks inserted between all statements of the source observe the stack height")
NOTE = ("All branches are explored, feasible or not, in every calling context. Programs: statement forms x contexts x nestings of the catalogue and the "
        "bounded programs of the checks C01, C02, C03, C06, C07, C08, C10 and C13. Values loaded from slots have unknown type.")
RULE = "programs x abstract states; distinct = distinct sources (with marks)"
ASSUMPTIONS = ["stack effects of the opcodes as in the pinned specification"]

MARK = re.compile(rb"~m(\d+)~")
START = ("struct", "router", "teal", "switch", "inner_txn")


# ------------------------------------------------------------------ marks
def candidates(lines):
    """indices before which a statement may be inserted"""
    out, stack, last = [], [], {}
    for i, l in enumerate(lines):
        s = l.strip()
        top = stack[-1] if stack else None
        depth = len(stack)
        first = s.split(" ")[0]
        stmt = s and not s.startswith("#") and not s.startswith("@")
        ok = i and top not in START and not s.startswith(("elif ", "else:")) and not lines[i - 1].strip().startswith("@") and stmt
        if ok and last.get(depth) not in ("exit", "jump", "return", "switch", "break", "block", "func") and not s.startswith(("func ", "block ", "struct ", "router:")):
            out.append(i)
        if top == "teal" and s != "end":
            continue
        m = re.match(r"(struct|router|teal|switch|inner_txn|inner_group|if|while|for|block|func)\b.*:$", s)
        if m:
            stack.append(m.group(1))
            last[depth + 1] = None
        elif s == "end":
            k = stack.pop()
            last[depth - 1] = k
        elif s.startswith(("elif ", "else:")):
            last[depth] = None
        elif stmt:
            last[depth] = re.match(r"[a-z_]*", s).group(0)
    return out


def insert(lines, at):
    out = []
    k = 0
    owner = []
    for i, l in enumerate(lines):
        if k < len(at) and at[k] == i:
            ind = len(l) - len(l.lstrip(" ")) + (4 if l.strip() == "end" else 0)
            out.append(" " * ind + f'log("~m{len(owner)}~")')
            owner.append(i)
            k += 1
        out.append(l)
    return out, owner


FUNC = re.compile(r"func (\w+)\((.*?)\)\s*(.*?)\s*:$")


def kind(t, structs=()):
    return "U" if re.fullmatch(r"int|uint\d+", t.strip()) else "B"


def split(t):
    return [x for x in t.split(",") if x.strip()]


def places(lines, owner):
    """for every mark: (function or None, (number of parameters, result kinds)); is the next statement a top level for _ (None: no)"""
    out, stack = {}, []
    want = dict((i, n) for n, i in enumerate(owner))
    for i, l in enumerate(lines):
        s = l.strip()
        if i in want:
            f = next((x for x in reversed(stack) if x[0] == "func"), None)
            top = re.match(r"for _ in ", s) is not None and all(x[0] in ("block",) for x in stack)
            inner = stack[[x[0] for x in stack].index("func"):] if f else stack
            free = [j for j, x in enumerate(inner) if x[0] == "for_"]
            if not f and free and all(x[0] == "block" for x in inner[:free[0]]):
                free = free[1:]
            out[want[i]] = (f[1] if f else None, top, len(free))
        if stack and stack[-1][0] == "teal" and s != "end":
            continue
        m = FUNC.match(s)
        if m:
            stack.append(("func", (m.group(1), len(split(m.group(2))), tuple(kind(t) for t in split(m.group(3))))))
            continue
        m = re.match(r"(struct|router|teal|switch|inner_txn|inner_group|if|while|for|block)\b.*:$", s)
        if m:
            stack.append(("for_" if s.startswith("for _ ") else m.group(1), None))
        elif s == "end":
            stack.pop()
    return out


# ------------------------------------------------------------------ abstract execution
class Bad(Exception):
    pass


SAME = {"dup", "dup2", "swap", "dig", "bury", "cover", "uncover", "popn", "dupn", "select", "pop"}
_sig = {}


def effect(ins):
    op = ins.op
    if op in _sig:
        return _sig[op]
    o = avm.OPS[op]
    r = (o.get("Args", ""), o.get("Returns", ""))
    _sig[op] = r
    return r


def const_type(ins):
    return None


class Explorer:
    def __init__(self, asm, places, limit=60000, cap=6, types=True):
        self.asm, self.places, self.types = asm, places, types
        self.limit, self.cap = limit, cap
        self.marks = {}
        for k, i in enumerate(asm.instrs):
            if i.imm is not None:
                for x in i.imm if isinstance(i.imm, (list, tuple)) else [i.imm]:
                    if isinstance(x, bytes):
                        m = MARK.fullmatch(x)
                        if m:
                            self.marks[k] = int(m.group(1))
        self.states = self.transitions = 0
        self.truncated = False
        self.seen_marks = set()

    def run(self):
        # state: pc, stack, frames, counters passed, function of the frame
        start = (0, (), (), 0, None)
        seen = {start}
        todo = [start]
        while todo:
            st = todo.pop()
            self.states += 1
            if self.states > self.limit:
                self.truncated = True
                return
            for n in self.step(st):
                self.transitions += 1
                if n not in seen:
                    seen.add(n)
                    todo.append(n)

    def step(self, st):
        pc, stack, frames, ctr, fn = st
        if pc >= len(self.asm.instrs):
            return ()
        ins = self.asm.instrs[pc]
        stack = list(stack)
        base = frames[-1][1] if frames else None
        if pc in self.marks:
            m = self.marks[pc]
            self.seen_marks.add(m)
            f, top, free = self.places[m]
            if not frames:
                if f is not None:
                    raise Bad(f"mark {m} of function {f[0]} is reached outside a function")
                if len(stack) > ctr + free or any(t not in "U." for t in stack):
                    raise Bad(f"{len(stack)} values {stack} on the stack between statements (at mark {m})")
            else:
                if f is None:
                    raise Bad(f"mark {m} of the main program is reached in a function")
                if fn is None:
                    fn = f
                if fn != f:
                    raise Bad(f"mark {m} of function {f[0]} is reached in the frame of {fn[0]}")
                if not 0 <= len(stack) - (base - f[1]) <= free or any(t not in "U." for t in stack[base - f[1]:]):
                    raise Bad(f"the stack height is {len(stack) - base:+d} from the entry between statements of {f[0]} with {f[1]} parameters (at mark {m})")
            if top and not frames:
                ctr += 1
                if ctr > self.cap:
                    return ()
        op = ins.op

        def pop(want="."):
            if not stack:
                raise Bad(f"{op}: stack underflow")
            t = stack.pop()
            if frames and len(stack) < base - (fn[1] if fn else base):
                raise Bad(f"{op} takes a value of the caller in function {fn[0]}")
            if self.types and want in "UB" and t in "UB" and t != want:
                raise Bad(f"{op} expects {want} and finds {t}")
            return t

        def at(n):
            return (n, tuple(stack), frames, ctr, fn)
        if op == "b":
            return [at(ins.imm)]
        if op in ("bz", "bnz"):
            pop("U")
            return [at(ins.imm), at(pc + 1)]
        if op == "switch":
            pop("U")
            return [at(t) for t in ins.imm] + [at(pc + 1)]
        if op == "match":
            v = pop()
            for _ in ins.imm:
                t = pop()
            return [at(t) for t in ins.imm] + [at(pc + 1)]
        if op == "callsub":
            if len(frames) > 60:
                raise Bad("calls are nested too deeply")
            return [(ins.imm, tuple(stack), frames + ((pc + 1, len(stack), fn),), ctr, None)]
        if op == "retsub":
            if not frames:
                raise Bad("retsub outside a function")
            ret, h, fn2 = frames[-1]
            if fn is not None:
                n = len(stack) - (h - fn[1])
                if n != len(fn[2]):
                    raise Bad(f"function {fn[0]} returns with {n} values instead of {len(fn[2])}")
                if n:
                    # the first declared result is on top
                    got = stack[-n:][::-1]
                    if any(a in "UB" and a != b for a, b in zip(got, fn[2])) and any(a in "UB" and a != b for a, b in zip(got[::-1], fn[2])):
                        raise Bad(f"function {fn[0]} returns {got} instead of {list(fn[2])}")
            return [(ret, tuple(stack), frames[:-1], ctr, fn2)]
        if op == "err":
            return ()
        if op == "return":
            pop("U")
            return ()
        if op == "dup":
            t = pop()
            stack += [t, t]
        elif op == "dup2":
            b, a = pop(), pop()
            stack += [a, b, a, b]
        elif op == "swap":
            b, a = pop(), pop()
            stack += [b, a]
        elif op == "select":
            pop("U")
            b, a = pop(), pop()
            stack.append(a if a == b else ".")
        elif op in ("dig", "cover", "uncover", "bury"):
            n = ins.imm[0]
            ts = [pop() for _ in range(n + 1)][::-1]
            if op == "dig":
                stack += ts + [ts[0]]
            elif op == "cover":
                stack += [ts[-1]] + ts[:-1]
            elif op == "uncover":
                stack += ts[1:] + [ts[0]]
            else:
                stack += [ts[-1]] + ts[1:-1]
        elif op == "popn":
            for _ in range(ins.imm[0]):
                pop()
        elif op == "dupn":
            t = pop()
            stack += [t] * (ins.imm[0] + 1)
        elif op in ("txn", "gtxn", "gtxns", "itxn", "gitxn", "txna", "gtxna", "gtxnsa", "itxna", "gitxna", "txnas", "gtxnas", "gtxnsas", "itxnas", "gitxnas", "global"):
            for t in effect(ins)[0][::-1]:
                pop(t)
            f = next(x for x in ins.imm if isinstance(x, str))
            table = avm.GLOBAL_FIELDS if op == "global" else {**avm.TXN_FIELDS, **avm.TXNA_FIELDS}
            stack.append(table[f])
        elif op in ("proto", "frame_dig", "frame_bury"):
            raise Bad(f"{op} is not modelled")
        else:
            a, r = effect(ins)
            for t in a[::-1]:
                pop(t)
            stack += list(r)
        if len(stack) > 200:
            raise Bad("the stack grows")
        return [at(pc + 1)]


def marked(src):
    """(source with marks, their owners, lines, compiled)"""
    lines = src.split("\n")
    c = candidates(lines)
    new, owner = insert(lines, c)
    st, out, m = try_compile("\n".join(new))
    if st == "ok":
        return new, owner, lines, out
    good = []
    for i in c:
        if try_compile("\n".join(insert(lines, [i])[0]))[0] == "ok":
            good.append(i)
    new, owner = insert(lines, good)
    st, out, m = try_compile("\n".join(new))
    if st == "ok":
        return new, owner, lines, out
    return None


def check(src, ctx, key, types=True):
    if "exit" not in src and "router:" not in src or re.search(r"\b(push|pop)\(", src):
        return
    st, base, _ = try_compile(src)
    if st != "ok":
        return
    r = marked(src)
    if r is None:
        new, owner, lines, out = src.split("\n"), [], src.split("\n"), base
    else:
        new, owner, lines, out = r
    text = "\n".join(new)
    ctx.distinct(text)
    try:
        asm = avm.assemble(out)
    except avm.AsmError as e:
        ctx.violation("asm:" + key, f"emitted TEAL does not assemble: {e}", source=text)
        return
    x = Explorer(asm, places(lines, owner), types=types)
    try:
        x.run()
    except Bad as e:
        ctx.violation("stack:" + key, str(e), source=text, teal="\n".join(out))
    ctx.states += x.states
    ctx.transitions += x.transitions
    ctx.traces += 1
    ctx.count("marks", len(x.seen_marks))
    ctx.count("truncated explorations", int(x.truncated))
    return len(owner), len(x.seen_marks)


# ------------------------------------------------------------------ programs
REUSE = {  # module -> families for quick, for thorough
    "c01": ((), ("*",)), "c02": (("trees", "trees3", "chains", "for_nested", "layout"), ("*",)), "c03": (("recv", "retexpr1", "pending", "ret", "multi", "sites", "chain"), ("*",)),
    "c06": (("p1", "results", "place", "oc", "many"), ("*",)), "c07": ((), ("*",)), "c08": (("place", "vars", "last", "size"), ("*",)), "c10": (("place", "multi"), ("*",)),
}


class Capture:
    """stands in for Unit: takes the programs of another check"""
    taken = None

    def __init__(self, prog, ctx, key=None, expect="ok", limit=10):
        self.prog, self.src, self.asm, self.status, self.lines, self.map = prog, prog.source(), None, "ok", [], None
        self.r = self.m = None
        if expect == "ok":
            Capture.taken.append(self.src)

    def check(self, *a, **k):
        return False

    def check_dfs(self, *a, **k):
        return None


class Quiet:
    n = 0
    states = transitions = traces = 0

    def __getattr__(self, n):
        return lambda *a, **k: None


def families(tier):
    q = tier == "quick"
    out = [("forms", {"shards": 32}), ("nest", {"shards": 64, "all": not q}), ("pairs", {"shards": 64, "all": not q}), ("ends", {}), ("sigs", {"n": 3 if q else 4, "shards": 32}), ("ops", {"shards": 32}), ("traced", {"shards": 32}), ("repo", {}), ("reentry", {"shards": 32, "all": not q}), ("counts", {"shards": 32}), ("exprs", {"shards": 32, "all": not q})]
    for m, (a, b) in REUSE.items():
        fs = a if q else b
        if not fs:
            continue
        mod = importlib.import_module(f"mc.checks.{m}")
        for f, p in mod.families(tier):
            if fs == ("*",) or f in fs:
                out.append((f"reuse:{m}:{f}", dict(p, shards=32)))
    return out


def cases(fam, p):
    from . import c13
    if fam == "forms":
        for c in CTXS:
            for k in STMTS:
                yield ("text", f"{c}:{k}", program(plug(inst(STMTS[k], 1), None), c))
                yield ("text", f"full:{c}:{k}", program(plug(inst(STMTS[k], 1), None), c, full=True))
    elif fam == "nest":
        outer = [k for k, s in STMTS.items() if any(l.strip() == "@" for l in s)]
        for c in CTXS if p["all"] else ("main", "func", "block"):
            for a in outer:
                for k in STMTS:
                    yield ("text", f"{c}:{a}:{k}", program(plug(inst(STMTS[a], 1), lambda n, k=k: plug(inst(STMTS[k], 2 + n), None)), c))
    elif fam == "pairs":
        ks = list(STMTS) if p["all"] else c13.SEGK
        for a, b in product(ks, repeat=2):
            for c in ("main", "func") if p["all"] else ("main",):
                yield ("text", f"{a}+{b}", program(plug(inst(STMTS[a], 1), None) + plug(inst(STMTS[b], 2), None), c))
    elif fam == "ends":
        for c in ("main", "block", "nestedblock"):
            for e in ENDS:
                yield ("text", f"{c}:{e}", program(['log("x")'], c, e, full=True))
                yield ("text", f"if:{c}:{e}", program(["if iv:"] + ["    " + l for l in ENDS[e]] + ["end"], c, full=True))
                yield ("text", f"for_:{c}:{e}", program(["for _ in 0:2:", "    if iv:"] + ["        " + l for l in ENDS[e]] + ["    end", "end"], c, full=True))
    elif fam == "sigs":
        for n in range(p["n"] + 1):
            for r in range(p["n"] + 1):
                for ret in product("UB", repeat=r):
                    for use in ("stmt", "blank", "vars", "nested", "if", "operand", "field", "loop"):
                        for body in ("plain", "early", "loop", "for_"):
                            yield ("sig", n, "".join(ret), use, body)
    elif fam == "ops":
        from .c18 import CALLABLE, EXCLUDE
        for n in CALLABLE:
            if n not in EXCLUDE and n not in ("return", "err"):
                yield ("op", n)
    elif fam == "traced":
        for c in c13.TCTX:
            for a in c13.TR:
                yield ("traced", c, (a,))
                for b in c13.TNEST:
                    yield ("traced", c, (b, a))
    elif fam == "repo":
        from .c12 import corpus
        for f in corpus():
            yield ("repo", f)
    elif fam == "reentry":
        outer = [k for k, s in STMTS.items() if any(l.strip() == "@" for l in s)]
        for m in REENTRY:
            for k in STMTS:
                yield ("reentry", m, k, None)
            for a in outer:
                for k in STMTS if p["all"] else ("for_", "for", "while", "if", "call"):
                    if k in STMTS:
                        yield ("reentry", m, a, k)
    elif fam == "counts":
        for e in COUNT_E:
            for q in COUNT_P:
                yield ("counts", e, q)
    elif fam == "exprs":
        from .. import atoms
        for loc in atoms.LOCS if p["all"] else ("main", "while", "for_", "func"):
            for k, (n, _) in enumerate(atoms.int_atoms() + atoms.bytes_atoms()):
                yield ("expr", loc, n)
    elif fam.startswith("reuse:"):
        _, m, f = fam.split(":")
        mod = importlib.import_module(f"mc.checks.{m}")
        for c in mod.cases(f, p):
            yield ("reuse", m, c)


def run_case(case, ctx):
    k = case[0]
    if k == "text":
        check(case[2], ctx, case[1])
        if ctx.n % 97 == 1:
            ctx.sample({"source": case[2]})
    elif k == "sig":
        run_sig(case, ctx)
    elif k == "op":
        run_op(case, ctx)
    elif k == "traced":
        run_traced(case, ctx)
    elif k == "repo":
        from .c12 import corpus
        from ..cliserver import REPO
        import os
        check(open(os.path.join(REPO, case[1])).read(), ctx, case[1])
    elif k == "expr":
        run_expr(case, ctx)
    elif k == "reentry":
        run_reentry(case, ctx)
    elif k == "counts":
        run_counts(case, ctx)
    else:
        _, m, c = case
        mod = importlib.import_module(f"mc.checks.{m}")
        Capture.taken = []
        orig = mod.Unit
        mod.Unit = Capture
        try:
            mod.run_case(c, Quiet())
        except Exception as e:
            if not Capture.taken:
                ctx.count("not taken")
        finally:
            mod.Unit = orig
        for n, s in enumerate(Capture.taken):
            check(s, ctx, f"{m}:{repr(c)[:150]}:{n}", types=m != "c10")


TLT = {"U": ("int", "7", "iv"), "B": ("bytes", '"r"', "bv")}


def run_sig(case, ctx):
    _, n, rets, use, body = case
    args = ", ".join("3" if i % 2 else '"a"' for i in range(n))
    params = ", ".join(f"p{i}: {'int' if i % 2 else 'bytes'}" for i in range(n))
    ret = "return " + ", ".join(TLT[t][1] for t in rets)
    ret = ret.strip()
    rt = ", ".join(TLT[t][0] for t in rets)
    call = f"f({args})"
    decl = ["int iv = 1", 'bytes bv = "b"']
    us = ", ".join("_" for _ in rets)
    if use == "stmt":
        if rets:
            return
        st = [call, call]
    elif use == "blank":
        if not rets:
            return
        st = [f"{us} = {call}"]
    elif use == "vars":
        if not rets:
            return
        for k, t in enumerate(rets):
            decl.append(f"{TLT[t][0]} r{k}")
        st = [", ".join(f"r{k}" for k in range(len(rets))) + " = " + call]
    elif use == "nested":
        if len(rets) != 1:
            return
        st = [f"log(concat({'itob(' + call + ')' if rets == 'U' else call}, {'itob(' + call + ')' if rets == 'U' else call}))"]
    elif use == "if":
        st = ["if iv:", "    " + (f"{us} = {call}" if rets else call), "elif iv == 2:", "    " + (f"{us} = {call}" if rets else call), "end"]
    elif use == "operand":
        if rets != "U":
            return
        st = [f"iv = (iv + {call}) * ({call} - 1)", f"if {call}:", '    log("t")', "end", f"while not {call}:", "    break", "end", f"assert({call} == {call})"]
    elif use == "field":
        if rets != "U":
            return
        st = [f"log(Gtxn[{call}].ApplicationArgs[{call}])", f"log(Txn.ApplicationArgs[{call}])"]
    else:
        c = f"{us} = {call}" if rets else call
        st = ["for i in 0:2:", "    " + c, "end", "for _ in 0:2:", "    " + c, "end", "while iv:", "    " + c, "    break", "end"]
    fb = {"plain": [], "early": ["if n:", "    " + ret, "elif n == 2:", "    log(\"e\")", "else:", "    " + ret, "end"], "loop": ["while n:", "    if n == 3:", "        " + ret, "    end", "    break", "end", "for i in 0:n:", "    " + ret, "end"],
          "for_": ["for _ in 0:n:", "    if n == 1:", "        log(\"x\")", "    end", "end"]}[body]
    src = ["#pragma version 8"] + decl + st + ["exit(1)", f"func f({params}) {rt}:".replace(") :", "):"), "    int n = Txn.NumAppArgs"] + ["    " + l for l in fb] + ["    " + ret, "end"]
    r = check("\n".join(src) + "\n", ctx, f"sig:{n}:{rets}:{use}:{body}")
    if r is None:
        ctx.violation(f"refused:sig:{n}:{rets}:{use}:{body}", "a valid program is refused", source="\n".join(src), error=repr(try_compile("\n".join(src) + "\n"))[:300])


def run_op(case, ctx):
    from .c22 import call_src
    n = case[1]
    o = avm.OPS.get(n)
    s = call_src(n, o) if o else None
    if s is None:
        return
    l = s.split("\n")
    head, call = l[:3], l[3]
    progs = ["\n".join(head + [call, call, "exit(1)"]), "\n".join(head + ["if v_int:", "    " + call, "else:", "    " + call, "end", "while v_int:", "    " + call, "    break", "end", "exit(1)"]),
             "\n".join(head + ["for _ in 0:2:", "    " + call, "end", "for i in 0:2:", "    " + call, "end", "exit(1)"]), "\n".join([head[0], "g()", "exit(1)", "func g():"] + ["    " + x for x in head[1:]] + ["    for _ in 0:2:", "        " + call, "    end", "    " + call, "    return", "end"])]
    rets = o.get("Returns", "")
    for p in product((0, 1), repeat=len(rets)):
        names = [("v_bytes" if t == "B" else "v_int") if x else "_" for x, t in zip(p, rets[::-1])]
        if len(names) > 0:
            progs.append("\n".join(head + [", ".join(names) + " = " + call.split(" = ")[1], "exit(1)"]))
    # the call where its results are not taken, or not by as many places
    rhs = call.split(" = ")[-1]
    fn = lambda ls: [head[0], "g()", "exit(1)", "func g():"] + ["    " + x for x in head[1:] + ls] + ["    return", "end"]
    for ls in ([rhs, rhs], [f"_ = {rhs}"] * 2, [f"_, _ = {rhs}"] * 2, [f"_, _, _ = {rhs}"] * 2, ["if v_int:", "    " + rhs, "end"], ["while v_int:", "    " + rhs, "end"], ["for _ in 0:2:", "    " + rhs, "end"],
               [f"if {rhs}:", "end"], [f"while {rhs}:", "    break", "end"], [f"assert({rhs})"] * 2, [f"log({rhs})"] * 2, [f"v_int = {rhs} + 1"], [f"v_int = 1 + {rhs}"], [f"v_int = !{rhs}"], [f"v_bytes = {rhs}"], [f"v_int = {rhs}"]):
        progs.append("\n".join(head + ls + ["exit(1)"]))
        progs.append("\n".join(fn(ls)))
    for k, p in enumerate(progs):
        # a result of type any may be used as any type
        check(p + "\n", ctx, f"op:{n}:{k}", types="." not in rets)


def run_traced(case, ctx):
    from . import c13
    _, c, ks = case

    def build(i):
        st = c13.Inner()
        if i == len(ks):
            return st
        mk = lambda: c13.Inner(c13.TR[ks[i]](i, build(i + 1)))
        st = mk()
        st.maker = mk
        return st
    try:
        p = c13.tprogram(c, list(build(0)))
    except Exception:
        ctx.count("not built")
        return
    check(p.source(), ctx, f"traced:{c}:{ks}")


# expressions with every number of results; everywhere an expression may stand they must be refused or leave the stack as it was
COUNT_E = {"f0": "f0()", "f1": "f1(iv)", "f2": "f2(iv)", "f3": "f3()", "op0": 'app_global_put("k", 1)', "op1": "itob(1)", "op1i": "btoi(bv)", "opany": 'app_global_get("k")', "op2": "addw(1, 2)", "op2any": 'app_global_get_ex(0, "k")', "op4": "divmodw(1, 2, 3, 4)",
           "std": "Rpad(bv, 4)", "stdi": "SizeOf(Aa)", "cast": "Cast(iv, uint8)", "any": "Cast(bv, any)", "field": "Txn.Fee", "int": "3", "str": '"s"', "var": "iv", "grp": "(iv + 2)", "un": "!iv", "sf": "st.a", "const": "KI", "enum": "NoOp"}
COUNT_P = {"stmt": ["@"], "blank": ["_ = @"], "blank2": ["_, _ = @"], "blank4": ["_, _, _, _ = @"], "asg": ["iv = @"], "asgb": ["bv = @"], "asg2": ["iv, iw = @"], "asg2b": ["bv, iv = @"], "asg3": ["iv, iw, ix = @"], "asg4": ["iv, iw, ix, iy = @"], "asg2_": ["_, iv = @"], "asg_2": ["iv, _ = @"],
           "decl": ["int z = @"], "declb": ["bytes z = @"], "left": ["iv = @ + 1"], "right": ["iv = 1 + @"], "both": ["iv = @ + @"], "leftb": ["bv = @ b+ bv"], "eq": ["iv = @ == @"], "neg": ["iv = !@"], "bneg": ["bv = b~@"], "grouped": ["iv = (@ + 1) * 2"],
           "farg": ["iv = f1(@)"], "farg2": ["iv = g2(@, 1)"], "farg3": ["iv = g2(@)"], "oparg": ["log(@)"], "oparg2": ["log(concat(bv, @))"], "oparg2s": ["log(concat(@))"], "oparg3": ["bv = substring3(bv, @)"], "stdarg": ["log(Rpad(@, 4))"], "stdarg2": ["log(Concat(bv, @))"], "stdcast": ["bv = Cast(@, bytes[4])"], "event": ['log(ARC28Event("e(uint64)", @))'],
           "if": ["if @:", "end"], "ifnot": ["if not @:", "    iv = 1", "end"], "elif": ["if iv:", "elif @:", "    iv = 1", "end"], "while": ["while @:", "    break", "end"], "start": ["for i in @:3:", "    iv = 1", "end"], "for_": ["for _ in 0:@:", "    iv = 1", "end"],
           "assert": ["assert(@)"], "assertm": ['assert(@, "m")'], "sf": ["st.a = @"], "bf": ["bx.a = @"], "index": ["bv = Txn.ApplicationArgs[@]"], "gindex": ["iv = Gtxn[@].Fee"], "itxn": ["inner_txn:", "    Fee: @", "end"], "itxnb": ["inner_txn:", "    Note: @", "    ApplicationArgs[0]: @", "end"], "box": ["box<Aa> by = OpenBox(@)"],
           "exit": ["exit(@)"], "switch": ["switch @:", "    1: bb", "    else: bb", "end"], "opt": ["switch iv:", "    @: bb", "    2: bb", "    else: bb", "end"], "ret1": ["return @"], "ret2": ["return @, @"], "ret12": ["return 1, @"]}


def run_counts(case, ctx):
    _, e, p = case
    ls = [l.replace("@", COUNT_E[e]) for l in COUNT_P[p]]
    decls = ["int iv = btoi(Txn.ApplicationArgs[0])", "bytes bv = Txn.ApplicationArgs[1]", "int iw = 1", "int ix = 1", "int iy = 1", "Aa st = bzero(8)", 'box<Aa> bx = CreateBox("k")']
    top = ["#pragma version 8", "struct Aa:", "    a: int", "end", "const int KI = 3"]
    fs = ["func f0():", "    return", "end", "func f1(a: int) int:", "    return a", "end", "func f2(a: int) int, bytes:", '    return a, "x"', "end", "func f3() int, int, int:", "    return 1, 2, 3", "end", "func g2(a: int, b: int) int:", "    return a + b", "end"]
    blk = ["block bb:", "    exit(2)", "end"]
    ind = lambda l: ["    " + x for x in l]
    if p.startswith("ret"):
        for r in ("", " int", " bytes", " int, int", " int, bytes"):
            n = 0 if not r else r.count(",") + 1
            use = ["h()"] if n == 0 else ["_, _"[: 4 if n == 2 else 1] + " = h()"]
            check("\n".join(top + use + use + ["exit(1)"] + [f"func h(){r}:"] + ind(decls + ["if iv:"] + ind(ls) + ["end"] + ls) + ["end"] + fs) + "\n", ctx, f"counts:{e}:{p}:{r}")
        return
    term = p in ("exit", "switch", "opt")
    if term:
        check("\n".join(top + decls + ["if iv:"] + ind(ls) + ["end"] + ls + blk + fs) + "\n", ctx, f"counts:{e}:{p}")
        return
    check("\n".join(top + decls + ls + ["iv = 2"] + ls[:0] + ["exit(1)"] + fs) + "\n", ctx, f"counts:{e}:{p}:main")
    check("\n".join(top + ["h(1)", "exit(1)", "func h(p: int):"] + ind(decls + ["for _ in 0:2:"] + ind([l.replace("int z", "int z2").replace("bytes z", "bytes z2").replace(" by ", " by2 ") for l in ls]) + ["end"] + ls + ["return"]) + ["end"] + fs) + "\n", ctx, f"counts:{e}:{p}:func")


# programs that come back to a block: @ is the statement, the block may be entered any number of times
REENTRY = {
    "self": ["jump zmain", "block zmain:", "    @", "    if iv:", "        exit(1)", "    end", "    jump zmain", "end"],
    "early": ["jump zmain", "block zmain:", "    @", "    if iv:", "        jump zmain", "    end", "    exit(1)", "end"],
    "switch": ["jump zmain", "block zmain:", "    @", "    switch iv:", "        1: zmain", "        2: zother", "    end", "end", "block zother:", "    exit(1)", "end"],
    "pair": ["jump zmain", "block zmain:", "    @", "    jump zother", "end", "block zother:", "    if iv:", "        exit(1)", "    end", "    jump zmain", "end"],
    "inner": ["jump zmain", "block zmain:", "    jump zin", "    block zin:", "        @", "        if iv:", "            exit(1)", "        end", "        jump zmain", "    end", "end"],
    "loop": ["jump zmain", "block zmain:", "    @", "    while iv:", "        if iv == 2:", "            jump zmain", "        end", "    end", "    exit(1)", "end"],
    "loop_": ["jump zmain", "block zmain:", "    @", "    while iv == 2:", "        for _ in 0:3:", "            if iv:", "                jump zmain", "            end", "        end", "    end", "    exit(1)", "end"],
}


def run_reentry(case, ctx):
    """the stack does not grow however often a block is entered again"""
    _, mech, a, k = case
    body = plug(inst(STMTS[a], 1), (lambda n: plug(inst(STMTS[k], 2 + n), None)) if k else None)
    lines = []
    for l in REENTRY[mech]:
        lines += [l[:l.index("@")] + x for x in body] if l.strip() == "@" else [l]
    head = catalog.STRUCT if catalog.words(lines) & {"S1", "st", "bx"} else []
    head = head + catalog.used(catalog.PRE[len(catalog.STRUCT):], lines)
    text = "\n".join(["#pragma version 8"] + head + lines + catalog.funcs(lines, catalog.FUNCS)) + "\n"
    st, out, _ = try_compile(text)
    if st != "ok":
        return
    ctx.distinct(text)
    try:
        asm = avm.assemble(out)
    except avm.AsmError as e:
        ctx.violation(f"asm:reentry:{mech}:{a}:{k}", f"emitted TEAL does not assemble: {e}", source=text)
        return
    x = Explorer(asm, {}, cap=10**9)
    try:
        x.run()
    except Bad as e:
        ctx.violation(f"reentry:{mech}:{a}:{k}", f"{e} when a block is entered again and again", source=text, teal="\n".join(out))
    ctx.states += x.states
    ctx.transitions += x.transitions
    ctx.traces += 1


def run_expr(case, ctx):
    from .. import atoms
    from ..ref import Assert, Assign, Bin, Decl, Expr, If, InnerTxn, Int, Log, Op, SetField, Str, While, Var
    _, loc, n = case

    def mk():
        return dict(atoms.int_atoms() + atoms.bytes_atoms())[n]
    isint = n in dict(atoms.int_atoms())
    i = (lambda: mk()) if isint else (lambda: Op("len", [mk()]))
    b = (lambda: mk()) if not isint else (lambda: Op("itob", [mk()]))
    st = [Log(b()), Decl("int", "zi", i()), Decl("bytes", "zb", b()), Assign("zi", Bin("+", i(), i())), Assert(i()), If([(i(), False, [Log(b())]), (Bin("==", i(), i()), True, [])], [Log(b())]),
          InnerTxn([("Fee", None, i()), ("Note", None, b())]), SetField("st", "fi", i()), SetField("bx", "fi", Bin("*", i(), Int(2))), Expr(Op("app_global_put", [b(), mk()])), While(i(), [Log(Op("concat", [b(), b()]))])]
    if check(atoms.in_loc(loc, st).source(), ctx, f"expr:{loc}:{n}") is None:
        for k, s in enumerate(st):
            check(atoms.in_loc(loc, [s]).source(), ctx, f"expr:{loc}:{n}:{k}")
