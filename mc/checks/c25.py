"""C25: no text of an accepted program is ignored.  Every edit (insertion, deletion, duplication, exchange of a token) of every line of the
statement catalogue that is still accepted must keep all its words in the formatted program, which has the same meaning by C12."""
import re

from ..h import T, guarded, try_compile
from .. import catalog
from ..catalog import STMTS, inst, plug, program

ID = "C25"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of the token edits (insert each of a set of tokens at every place, delete, double, exchange) of every line of programs that hold "
             "every statement form in every context; the words of each accepted program are compared with the words of its parsed and formatted form, and its emitted "
             "TEAL with that of the formatted form")
NOTE = ("Complete for one edit (thorough: two edits of one line) in the catalogue of statement forms, in the main program, blocks, functions, routers, structs and "
        "inner transactions. Spacing, leading zeros of integers and the indentation of TEAL are not words.")
RULE = "programs x lines x places x edits; distinct = distinct accepted sources"
ASSUMPTIONS = ["the formatted program means the same as the parsed one (C12)"]

JUNK = ["x", "7", '"s"', ",", ":", 'log("x")', ")", "(", "# c", "// c", "=", "end", "not", ".", "[1]", "int", "_", ";", "-", "int y = 2"]
TOKEN = re.compile(r'"(?:[^"\\]|\\.)*"|\'(?:[^\'\\]|\\.)*\'|0x[0-9a-fA-F]*|[A-Za-z_][A-Za-z_0-9]*|[0-9]+|#.*|//.*|\S')

EXTRA = {
    "struct": ["struct S2:", "    a: int", "    # c", "    bb: bytes[4]", "    cc: addr", "end"],
    "funcs": ["func q0():", "    return", "end", "func q1(a: int, b: bytes[3]) int, bytes:", "    return a, b", "end", "func q2(s: S1) S1:", "    return s", "end"],
    "public": catalog.PUBLIC,
    "router": ["router:", "    pa", "    pb", "end"],
    "blocks": ["block zz:", "    exit(0)", "    block yy:", "        exit(1)", "    end", "    func xx(a: int) int:", "        return a", "    end", "end"],
}


def bases(every):
    """name -> (lines, lines to edit)"""
    out = []
    for k in STMTS:
        lines = plug(inst(STMTS[k], 1), None)
        for c in ("main", "func") if every else ("main",):
            out.append((f"{c}:{k}", program(lines, c), [l.strip() for l in lines if l.strip()]))
    for e in catalog.ENDS:
        out.append((f"end:{e}", program(['log("x")'], "main", e), [l.strip() for l in catalog.ENDS[e]]))
    S = catalog.STRUCT
    H = ["#pragma version 8"]
    X = EXTRA
    out.append(("struct", "\n".join(H + X["struct"] + ["exit(1)"]) + "\n", [l.strip() for l in X["struct"]] + H))
    out.append(("funcs", "\n".join(H + S + ["exit(1)"] + X["funcs"]) + "\n", [l.strip() for l in X["funcs"]]))
    out.append(("router", "\n".join(H + X["router"] + X["public"]) + "\n", [l.strip() for l in X["router"] + X["public"]]))
    out.append(("blocks", "\n".join(H + ["exit(1)"] + X["blocks"]) + "\n", [l.strip() for l in X["blocks"]]))
    out.append(("consts", "\n".join(H + catalog.PRE[len(S):len(S) + 3] + ["const addr KA = 0x" + "00" * 32, "exit(1)"]) + "\n", ["const int KI = 7", 'const bytes KB = "kb"', "const bytes KH = 0x6A0b", "const addr KA = 0x" + "00" * 32]))
    return out


def families(tier):
    q = tier == "quick"
    return [("insert", {"shards": 64, "every": not q}), ("token", {"shards": 64, "every": True}), ("cross", {"shards": 64}), ("two", {"shards": 64, "on": not q})]


def cases(fam, p):
    if fam == "two" and not p["on"]:
        return
    if fam == "cross":
        heads = sorted({l for _, _, ls in bases(False) for l in ls})
        for i, l in enumerate(heads):
            yield ("cross", l)
        return
    for name, src, ls in bases(p.get("every", False)):
        for n, l in enumerate(src.split("\n")):
            if l.strip() in ls:
                if fam == "two" and len(l) > 40:
                    continue
                yield (fam, name, src, n)


def words(text):
    """the words of a program: what may not get lost"""
    out = []
    for l in text.split("\n"):
        l = l.strip()
        if l.startswith("#"):
            out.append(l)
            continue
        for w in TOKEN.findall(l):
            w = w.rstrip()
            if w.startswith("#"):
                break                   # the documentation knows whole-line comments only; others are dropped
            if w.startswith("//") and "#" in w:
                w = w[:w.index("#")].rstrip()
            if re.fullmatch("[0-9]+", w):
                w = str(int(w))
            if w[0] == "'":
                # a string in single quotes may be written in double ones
                w = '"' + re.sub(r"\\(.)|(\")", lambda m: '\\"' if m.group(2) else "'" if m.group(1) == "'" else m.group(0), w[1:-1]) + '"'
            out.append(w)
    return out


def judge(src, ctx, key):
    ctx.transitions += 1
    ctx.traces += 1
    try:
        f = guarded(lambda: T().reformat_program(src))
    except Exception:
        return False
    st, out, _ = try_compile(src)
    if st != "ok":
        return False
    ctx.states += 1
    ctx.distinct(src)
    a, b = words(src), words(f)
    if a != b:
        lost = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        ctx.violation(key, f"a part of an accepted program is ignored: ...{' '.join(a[max(0, lost - 6):lost + 6])}... is read as ...{' '.join(b[max(0, lost - 6):lost + 6])}...", source=src, formatted=f)
        return True
    return True


def pieces(line):
    """places between tokens"""
    out = [m.start() for m in TOKEN.finditer(line)]
    return out + [len(line)]


def run_case(case, ctx):
    fam = case[0]
    if fam == "cross":
        # every line of the catalogue followed by every other on the same line
        others = ['log("x")', "x = 1", "int y = 1", "end", "exit(1)", "else:", "KI", "1", "Fee: 1", "a: int", "pa"]
        for name, src, ls in bases(False):
            if case[1] not in ls:
                continue
            L = src.split("\n")
            for n, l in enumerate(L):
                if l.strip() == case[1]:
                    for o in others:
                        for sep in (" ", "", "; ", ", "):
                            judge("\n".join(L[:n] + [l + sep + o] + L[n + 1:]), ctx, f"cross:{case[1]}:{sep}:{o}")
                    return
        return
    _, name, src, n = case
    L = src.split("\n")
    l = L[n]
    at = pieces(l)
    put = lambda x: "\n".join(L[:n] + [x] + L[n + 1:])
    if fam == "insert":
        for i in at:
            for j in JUNK:
                for a, b in (("", ""), (" ", " "), ("", " "), (" ", "")):
                    if ctx.tier == "quick" and a != b:
                        continue
                    judge(put(l[:i] + a + j + b + l[i:]), ctx, f"insert:{name}:{n}:{i}:{a}{j}{b}")
    elif fam == "token":
        ts = [(m.start(), m.end()) for m in TOKEN.finditer(l)]
        for k, (s, e) in enumerate(ts):
            judge(put(l[:s] + l[e:]), ctx, f"delete:{name}:{n}:{s}")
            judge(put(l[:e] + l[s:]), ctx, f"double:{name}:{n}:{s}")
            judge(put(l[:e] + " " + l[s:]), ctx, f"double2:{name}:{n}:{s}")
            for k2 in range(k + 1, len(ts)):
                s2, e2 = ts[k2]
                judge(put(l[:s] + l[s2:e2] + l[e:s2] + l[s:e] + l[e2:]), ctx, f"swap:{name}:{n}:{s}:{s2}")
    else:
        for i in at:
            for j in JUNK:
                one = l[:i] + " " + j + " " + l[i:]
                for i2 in pieces(one):
                    if i2 >= i:
                        for j2 in ("x", ",", ":", ")", "]", '"'):
                            judge(put(one[:i2] + j2 + one[i2:]), ctx, f"two:{name}:{n}:{i}:{j}:{i2}:{j2}")
    if ctx.n % 53 == 1:
        ctx.sample({"line": l, "edits": fam})
