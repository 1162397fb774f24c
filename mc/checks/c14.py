"""C14: minify_teal and strip_comments keep the behaviour of TEAL programs, and the minifier's line map leads every output line to its
input line.  Decided by a bisimulation of the assembled programs (all reachable pairs of program points), so for every input at once;
where the control-flow graphs differ, by exhaustive execution over all oracle choices."""
import json
from itertools import product

from ..h import T, Chooser, next_prefix, try_compile
from .. import avm
from ..catalog import CTXS, ENDS, STMTS, inst, plug, program

ID = "C14"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of TEAL texts (all line sequences over label/branch/comment alphabets, all literal spellings over a lexical alphabet, "
             "compiler outputs); original and minified or stripped program are compared by explicit-state bisimulation over all reachable program points, "
             "falling back to exhaustive execution over all run-time choices")
NOTE = "Complete for all sequences of up to 5 lines over each alphabet, label chains of 7 (thorough: 9) lines and all literals of up to 6 (thorough: 8) lexical characters that the assembler model accepts."
RULE = "programs x {minify_teal, strip_comments}; distinct = distinct input texts; states = pairs of program points reached by the bisimulation"
ASSUMPTIONS = ["assembler syntax of mc/avm.py (go-algorand tokenizer), without #define macros"]

# label names: pairs that are parts of one another, of opcodes and of fields
NAMES = (("a", "ab"), ("l1", "l10"), ("b", "bz"), ("int", "x"), ("Fee", "main_Fee"), ("__if__0", "__if__01"), ("é", "aé"), ("a:", "a"), ("//", "x"))


def alphabet(kind, a, b):
    if kind == "branch":
        return [f"{a}:", f"{b}:", f"b {a}", f"bz {b}", "int 1", "// comment", ""]
    if kind == "comments":
        return [f"{a}: // {b}", f"  {b}:  //x", f"bnz {a} // {b} {a}", f"\tb {b}//{a}", "int 1 // a: b", "  // l:", "return"]
    if kind == "multi":
        return [f"switch {a} {b} {a}", f"match {b} {a}", f"{a}:", f"{b}:", f"callsub {b}; b {a}", f"bz {a};bnz {b} // ; b {a}", "// x:"]
    if kind == "strings":
        return [f"{a}:", f"{b}:", f'byte "{a}"', f'pushbytes "b {b}"; b {b}', f'byte "\\"// {a}: {b}"; pop', f"bz {b}", f'pushbytes "{b}:"']
    if kind == "inline":
        return [f"{a}: int 1", f"{a}:", f"{b}:", f"{b}: bz {a}", f"b {b}; callsub {a}", f"bnz {a}", "txn Fee"]
    if kind == "odd":
        return [";", f"{a}:;", f"{b}: ;int 1", f"{a}:", f"{b}:", f"b {a};;b {b}", "//"]
    raise AssertionError(kind)


KINDS = ("branch", "comments", "multi", "strings", "inline", "odd")
LEX = ['"', "\\", "/", ";", " ", "a", "x", "1"]
B64 = ["/", "A", "=", "+", ")", " ", ";"]


def families(tier):
    q = tier == "quick"
    return [("lines", {"shards": 64, "n": 5, "names": NAMES[:4] if q else NAMES}), ("names", {"shards": 64, "n": 3 if q else 4}), ("long", {"shards": 64, "n": 7 if q else 9}), ("lex", {"shards": 64, "n": 6 if q else 8}), ("b64", {"shards": 32, "n": 5 if q else 6}),
            ("catalog", {"shards": 64, "ctx": ("main", "func") if q else CTXS, "pairs": not q}), ("ends", {}), ("repo", {"shards": 16}), ("pad", {"shards": 8})]


def cases(fam, p):
    if fam == "lines":
        for k in KINDS:
            for nm in p["names"]:
                for n in range(1, p["n"] + 1):
                    for first in range(7):
                        yield ("lines", k, nm, n, first)
    elif fam == "names":
        for k in KINDS:
            for nm in NAMES[1:]:
                for sw in (0, 1):
                    for n in range(1, p["n"] + 1):
                        yield ("lines", k, nm[::-1] if sw else nm, n, None)
    elif fam == "long":
        # label chains: every sequence over labels, one branch and one instruction
        for n in range(p["n"], p["n"] + 1):
            for first in product(range(5), repeat=2):
                yield ("long", n, first)
    elif fam == "lex":
        for n in range(0, p["n"] + 1):
            for first in product(range(len(LEX)), repeat=min(n, 2)):
                yield ("lex", n, first)
    elif fam == "b64":
        for form in ("base64 {}", "base64({})", "b64 {}", "b64({})"):
            for n in range(1, p["n"] + 1):
                yield ("b64", form, n)
    elif fam == "catalog":
        for c_ in p["ctx"]:
            for k in STMTS:
                yield ("catalog", c_, (k,))
                if p["pairs"]:
                    for k2 in STMTS:
                        yield ("catalog", c_, (k, k2))
    elif fam == "ends":
        for c_ in ("main", "block", "nestedblock"):
            for e in ENDS:
                yield ("ends", c_, e)
    elif fam == "repo":
        from .c12 import corpus
        for f in corpus():
            yield ("repo", f)
    elif fam == "pad":
        for n in (0, 1, 2, 9, 10, 99, 100, 1000):
            yield ("pad", n)


def asm(lines):
    try:
        return avm.assemble(list(lines))
    except avm.AsmError:
        return None


def imm_of(i):
    return [] if i.imm is None else i.imm


LAB = {"b", "bz", "bnz", "callsub", "switch", "match"}


def bisimilar(p, q, ctx):
    """whether the two programs do the same instruction by instruction on every path"""
    seen = set()
    todo = [(0, 0)]
    np, nq = len(p.instrs), len(q.instrs)
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        i, j = x
        if i >= np or j >= nq:
            if (i >= np) != (j >= nq):
                return False
            continue
        a, b = p.instrs[i], q.instrs[j]
        if a.op != b.op:
            return False
        if a.op in LAB:
            ta, tb = (a.imm, b.imm) if a.op in ("switch", "match") else ([a.imm], [b.imm])
            if len(ta) != len(tb):
                return False
            todo.extend(zip(ta, tb))
            if a.op == "b":
                continue
        elif imm_of(a) != imm_of(b):
            return False
        todo.append((i + 1, j + 1))
        ctx.transitions += 1
    ctx.states += len(seen)
    return True


def behaviours(p, limit=8):
    """outcomes of all executions: opaque conditions are chosen in all ways"""
    out = []
    prefix = []
    while prefix is not None:
        ch = Chooser(prefix, limit, 0)

        def oracle(m, op, imm, args):
            if op == "txn":
                return [ch.choose(3)]
            return None
        m = avm.execute(p, avm.Env(oracle=oracle), 400)
        out.append((tuple(ch.log), m.status, m.value, repr(m.effects), repr(m.stack)))
        prefix = next_prefix(ch.log)
        if len(out) > 3000:
            break
    return out


def judge(lines, ctx, key, text=None):
    """lines: an input program the assembler accepts"""
    a = asm(lines)
    if a is None:
        return False
    ctx.distinct("\n".join(lines))
    ctx.traces += 1
    u = T().utils
    given = list(lines)
    try:
        mini, smap = u.minify_teal(list(given))
        strip = u.strip_comments(list(given))
    except Exception as e:
        ctx.violation("crash:" + key, f"minifying or stripping a valid program raises {type(e).__name__}: {e}", teal="\n".join(lines))
        return True
    for name, out in (("minify", mini), ("strip", strip)):
        b = asm(out)
        if b is None:
            ctx.violation(f"{name}:{key}", f"{name} makes a program the assembler refuses", teal="\n".join(lines), output="\n".join(out))
            return True
        if a.version != b.version:
            ctx.violation(f"{name}:{key}", f"{name} changes the version", teal="\n".join(lines), output="\n".join(out))
            return True
        if not bisimilar(a, b, ctx):
            x, y = behaviours(a), behaviours(b)
            if x != y:
                d = next((p for p in zip(x, y) if p[0] != p[1]), None)
                ctx.violation(f"{name}:{key}", f"{name} changes the behaviour: {d}", teal="\n".join(lines), output="\n".join(out))
                return True
            ctx.count("not bisimilar but same executions")
    # every output line that holds something is led to the input line it came from: instructions and pragmas keep their order
    b = asm(mini)
    bl = [i.line for i in b.instrs]
    al = [i.line for i in a.instrs]
    if [smap.get(l) for l in bl] != al:
        ctx.violation("map:" + key, f"the line map leads instruction lines {bl} to {[smap.get(l) for l in bl]} instead of {al}", teal="\n".join(lines), output="\n".join(mini))
        return True
    prev = 0
    for n in range(1, len(mini) + 1):
        s = smap.get(n)
        if not isinstance(s, int) or not prev < s <= len(lines):
            ctx.violation("map:" + key, f"output line {n} leads to {s!r} after {prev}", teal="\n".join(lines), output="\n".join(mini))
            return True
        prev = s
        if n not in bl:
            la = [k for k, v in b.labels.items() if f"{k}:" in mini[n - 1]]
            if la and not any(f"{k}:" in lines[s - 1] for k in la):
                ctx.violation("map:" + key, f"output line {n} ({mini[n - 1]}) leads to input line {s} ({lines[s - 1]})", teal="\n".join(lines), output="\n".join(mini))
                return True
    return True


def run_case(case, ctx):
    kind = case[0]
    if kind == "lines":
        _, k, nm, n, first = case
        al = alphabet(k, *nm)
        tail = ["// end", "int 1", "return"]
        hits = 0
        for seq in product(range(len(al)), repeat=n - 1 if first is not None else n):
            s = (first,) + seq if first is not None else seq
            lines = ["#pragma version 8", "txn Fee"] + [al[i] for i in s] + tail
            hits += judge(lines, ctx, f"lines:{k}:{nm}:{s}")
            ctx.evals = getattr(ctx, "evals", 0)
            if len(ctx.violations) > 20:
                return
        ctx.count("accepted inputs", hits)
        ctx.count("enumerated inputs", len(al) ** (n - 1 if first is not None else n))
    elif kind == "long":
        _, n, first = case
        for seq in product(range(5), repeat=n - 2):
            s = first + seq
            k = 0
            lines = ["#pragma version 8"]
            labels = []
            for i in s:
                if i == 0:
                    labels.append(f"l{'1' * (k + 1)}")
                    lines.append(labels[-1] + ":")
                    k += 1
                elif i == 1:
                    lines.append("@")
                elif i == 2:
                    lines.append("int 1")
                elif i == 3:
                    lines.append("// c:")
                else:
                    lines.append("")
            if not labels or "@" not in lines:
                continue
            # each branch to each label in turn
            for off in range(len(labels)):
                j = off
                out = []
                for l in lines:
                    if l == "@":
                        out.append(f"bz {labels[j % len(labels)]}" if j % 2 else f"switch {labels[j % len(labels)]} {labels[-1]}")
                        j += 1
                    else:
                        out.append(l)
                judge(out + ["return"], ctx, f"long:{s}:{off}")
            if len(ctx.violations) > 20:
                return
    elif kind == "lex":
        _, n, first = case
        for seq in product(range(len(LEX)), repeat=n - len(first)):
            t = "".join(LEX[i] for i in first + seq)
            for pre in ("pushbytes ", "  pushbytes\t"):
                judge(["#pragma version 8", pre + t, "len", "return"], ctx, f"lex:{pre!r}{t!r}")
                if len(ctx.violations) > 20:
                    return
    elif kind == "b64":
        _, form, n = case
        for seq in product(B64, repeat=n):
            t = form.format("".join(seq))
            for line in ("byte " + t, "byte " + t + " // c", "byte " + t + "; pop; int 1 // x;"):
                judge(["#pragma version 8", line, "int 1", "return"], ctx, f"b64:{line!r}")
                if len(ctx.violations) > 20:
                    return
    elif kind in ("catalog", "ends", "repo"):
        if kind == "catalog":
            body = []
            for n, k in enumerate(case[2], 1):
                body += plug(inst(STMTS[k], n), None)
            src = program(body, case[1])
        elif kind == "ends":
            src = program(inst(STMTS["elif"], 1)[:1] + ["    " + l for l in ENDS[case[2]]] + ["end"], case[1], case[2])
        else:
            import os
            from .. import runner
            src = open(os.path.join(runner.REPO, case[1])).read()
        st, lines, m = try_compile(src)
        if st != "ok":
            ctx.rejected += 1
            return
        if not judge(lines, ctx, ":".join(map(str, case))):
            ctx.rejected += 1
        # the compiler's own minified programs are fixed points and shifting the text shifts the map only
        judge(["#pragma version 8", "", "// x"] + lines[1:], ctx, "shift:" + ":".join(map(str, case)))
    elif kind == "pad":
        n = case[1]
        lines = ["#pragma version 8"] + ["// c", "", "lab_1:", "lab:", "int 1"] * 1 + ["// pad"] * n + ["bz lab", "bz lab_1"] + [""] * n + ["x:", "lab_2:"] + ["// y"] * n + ["z:", "b lab_2"]
        judge(lines, ctx, f"pad:{n}")
        judge(lines + ["", "// trailing"] * (n % 7), ctx, f"padt:{n}")
    if ctx.n % 53 == 1:
        ctx.sample({"case": repr(case)[:300]})
