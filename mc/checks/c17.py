"""C17: every accepted program assembles.  Names, numbers, sizes, counts, texts and nestings around everything that could collide or overflow."""
import itertools
import re

from ..h import try_compile
from .. import avm, catalog
from ..catalog import CTXS, STMTS, inst, plug, program

ID = "C17"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of programs over colliding names (taken from the labels the compiler itself emits and from every name of the assembler), numbers, sizes and "
             "counts around the limits, texts of special characters and nestings; each accepted program is assembled by an independent assembler")
NOTE = ("Whether a program is accepted is not judged here, except that the plain variants must be. The assembler (mc/avm.py) is bound to the pinned specification: "
        "mnemonics, immediates and their ranges, fields, labels, macros, literals.")
RULE = "families x parameters; distinct = distinct sources; states = emitted instructions of accepted programs"
ASSUMPTIONS = ["programs declare #pragma version 8, the version of the specification"]

H = ["#pragma version 8"]


def check(lines, ctx, key, plain=False):
    """accepted programs assemble"""
    src = "\n".join(lines)
    ctx.distinct(src)
    st, out, m = try_compile(src)
    ctx.transitions += 1
    if st != "ok":
        ctx.count("not accepted")
        if plain:
            ctx.violation(("refused:" if st == "refused" else "crash:") + key, "a plain valid program is not compiled", source=src[:3000], error=repr(out)[:300])
        return None
    try:
        asm = avm.assemble(out)
    except avm.AsmError as e:
        ctx.violation("asm:" + key, f"the emitted TEAL does not assemble: {str(e)[:200]}", source=src[:6000], teal="\n".join(out)[:6000])
        return None
    ctx.states += len(asm.instrs)
    ctx.traces += 1
    ctx.count("accepted")
    if ctx.n % 131 == 1:
        ctx.sample({"source": src[:1500]})
    return asm


# ------------------------------------------------------------------ names
def names_program(n=None):
    """every construct that makes labels; n: {place: name}"""
    g = lambda k, d: (n or {}).get(k, d)
    bb, cc, dd, ff, gg, hh, kk, jj, vv, lv, pa, PP = (g("block", "bb"), g("nested", "cc"), g("sibling", "dd"), g("func", "ff"), g("func2", "gg"), g("bfunc", "hh"), g("ffunc", "kk"), g("public", "jj"),
                                                  g("var", "vv"), g("loop", "lv"), g("param", "pa"), g("const", "PP"))
    return H + [f"const int {PP} = 7", f'const bytes {g("constb", "QQ")} = "q"', f"int {vv} = 1", f"if {vv}:", '    log("a")', f"elif {vv} == 2:", '    log("b")', "elif 0:", "    log(\"c\")", "else:", '    log("d")', "end",
                f"while {vv}:", "    break", "end", f"for {lv} in 0:2:", f"    log(itob({lv}))", "end", f"for _ in 0:2:", "    if not 0:", f"        log(itob({PP}))", "    end", "end", "if 1:", "    log(\"x\")", "else:", "    while not 1:",
                "        log(\"y\")", "    end", "end", "inner_group:", "    inner_txn:", "        TypeEnum: Pay", "    end", "end", f"if {vv}:", f"    jump {bb}", "end", f"switch {vv}:", f"    1: {bb}", f"    {PP}: {dd}", f"    else: {bb}", "end",
                "# blocks", f"block {bb}:", f"    {ff}({vv})", f"    {hh}()", f"    jump {cc}", f"    block {cc}:", "        if 1:", "            log(\"c\")", "        end", "        exit(1)", "    end", f"    func {hh}():", '        log("h")', "        return", "    end", "end",
                f"block {dd}:", "    router:", f"        {jj}", "    end", "end", f"func {ff}({pa}: int):", f"    log(itob({pa}))", f"    while {gg}():", "        break", "    end", f"    {kk}()", "    return", f"    func {kk}():", "        return", "    end", "end",
                f"func {gg}() int:", "    if 1:", "        return 1", "    end", "    return 0", "end", "@public()", f"func {jj}(aa: int) int:", "    return aa", "end"]


UPPER = (("block", "BB"), ("nested", "CC"), ("sibling", "DD"), ("public", "JJ"))


def labels_of(lines):
    st, out, m = try_compile("\n".join(lines))
    return [x.group(1) for x in (re.match(r"\s*(\w+):\s*$", l) for l in out) if x] if st == "ok" else []


PLACES = ("block", "nested", "sibling", "func", "func2", "bfunc", "ffunc", "public", "var", "loop", "param")
_labels = []


def label_names():
    """the labels of the plain program, parts of them and neighbours"""
    if not _labels:
        s = set()
        for n in labels_of(names_program()):
            s.add(n)
            parts = n.split("__")
            for i in range(len(parts)):
                for j in range(i + 1, len(parts) + 1):
                    s.add("__".join(parts[i:j]))
                    s.add("__" + "__".join(parts[i:j]))
                    s.add("__".join(parts[i:j]) + "__")
        s |= {"l0", "l1_else", "l2_end", "l0_elif_0", "l0_elif_1", "l9_end", "route_jj", "route_", "__", "_", "x", "main", "end", "bb__dd", "func__ff", "bb__func__ff", "ff__func__kk", "func__ff__func__kk", "0", "1x", "l0_while", "l0_for"}
        s |= {"err", "b", "bz", "return", "int", "byte", "txn", "callsub", "pushint", "match", "log", "not", "if", "jump", "switch", "func", "block"}
        _labels.extend(sorted(x for x in s if x and re.fullmatch(r"[a-zA-Z_0-9]+", x)))
    return _labels


def asm_names():
    out = set(avm.ONC) | set(avm.TYPES) | set(avm.TXN_FIELDS) | set(avm.TXNA_FIELDS) | set(avm.GLOBAL_FIELDS)
    for g in avm.GROUPS.values():
        out |= set(g)
    out |= {"AB", "A1", "Ab", "PP", "Aa_1", "B64", "Int", "Byte", "A__B", "TMPL_X", "E", "Err", "X0"}
    return sorted(out)


LIM = (0, 1, 2, 126, 127, 128, 129, 199, 200, 201, 202, 254, 255, 256, 257, 258, 300)
BIG = (0, 1, 127, 128, 254, 255, 256, 257, 511, 512, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 2**31, 2**32, 2**63, 2**64 - 1, 2**64, 10**25)
SPELL = [str(v) for v in BIG] + ["-1", "-0", "+1", "007", "0x10", "0xff", "0xFFFFFFFFFFFFFFFFFF", "1_0", "1_", "_1", "1.5", "1e3", "0b1", "0o7", "18446744073709551615_", "0018446744073709551615", "00018446744073709551616", "\u0661", "\u00b2", "\uff11"]
CHARS = ['"', "'", "\\", "\\\\", '\\"', "\\n", "\\t", "\\x41", "\\x00", "\\xff", "\\q", "\\x", "\\u0041", " ", "  ", "//", "/", ";", ":", "#", ",", "(", ")", "a", "\u00e9", "\u2028", "\x0b", "\x0c", "\x1c", "\x85", "\t", "\r", "\x00", "\U0001f600", "PP", "end", "}"]


def families(tier):
    q = tier == "quick"
    return [("name1", {"shards": 32}), ("name2", {"all": not q, "shards": 64}), ("const", {"shards": 32}), ("const2", {"shards": 16}), ("slots", {"shards": 32}), ("sizes", {"shards": 64, "all": not q}), ("imms", {"shards": 32}), ("index", {"shards": 16}), ("ints", {"shards": 32}),
            ("counts", {"shards": 64}), ("texts", {"n": 2 if q else 3, "shards": 64}), ("nest", {"shards": 64, "all": not q}), ("deep", {"n": 4 if q else 5, "shards": 64}), ("structs", {"shards": 8}), ("emptyish", {})]


TEXTPLACES = ("expr", "single", "const", "switch", "note", "message", "comment", "inline", "boxkey", "teal", "arg", "message2", "struct", "addr")
DEEP = ("if", "ifelse", "elif", "while", "for", "for_", "group")
LABELERS = ("block", "nested", "sibling", "func", "func2", "bfunc", "ffunc", "public")


def cases(fam, p):
    if fam == "name1":
        for pl in PLACES:
            for n in label_names():
                yield (fam, pl, n)
    elif fam == "name2":
        ns = label_names()
        ns = ns if p["all"] else [n for n in ns if "__" in n or re.match(r"l\d|route", n) or n in ("main", "x", "bb", "ff", "kk")]
        for a, b in itertools.combinations(LABELERS, 2):
            for n in ns:
                yield (fam, a, b, n)
    elif fam == "const":
        for n in asm_names() + [n for n in label_names() if n[0].isupper()]:
            for k in ("int", "bytes", "both"):
                yield (fam, n, k)
    elif fam == "const2":
        n = dict(UPPER)
        ls = set(labels_of(names_program(n))) | set(labels_of(names_program(dict(n, sibling="BB__func__hh", public="BB__CC"))))
        for l in sorted(ls):
            for x in {l, l.strip("_"), l.split("__")[-1], l.split("__")[0], l.replace("func", "FUNC"), l.upper()}:
                if re.fullmatch(r"[A-Z][a-zA-Z0-9_]*", x):
                    for k in ("const", "constb"):
                        yield (fam, x, k)
    elif fam == "slots":
        for where in ("main", "func", "funcs", "loop", "block", "mixed", "params", "branches", "forloops", "sibling", "boxes", "group"):
            for n in LIM:
                yield (fam, where, n)
    elif fam == "sizes":
        for off in (0, 1, 8, 127, 128, 246, 247, 248, 249, 254, 255, 256, 257, 511, 512, 4088, 4095, 4096, 4097, 32767, 32768, 65535, 65536):
            for t in ("int", "uint8", "uint16", "uint32", "bytes[1]", "bytes[8]", "bytes[127]", "bytes[128]", "bytes[255]", "bytes[256]", "bytes[257]", "bytes[4096]", "bytes[4097]", "bytes[65536]"):
                yield (fam, off, t)
    elif fam == "imms":
        for n, ks in avm.IMM.items():
            for i, k in enumerate(ks):
                if k in ("u8", "i8"):
                    for v in ("-129", "-128", "-1", "0", "1", "127", "128", "254", "255", "256", "257", "65536", str(2**64 - 1), str(2**64), "PP", "PB", "vv", "0x10", "1_0"):
                        yield (fam, n, i, v)
                elif k in ("grp", "txn", "txna", "itxnset", "global"):
                    for v in sorted(set(asm_names()) if k == "grp" else set(avm.TXN_FIELDS) | set(avm.TXNA_FIELDS) | set(avm.GLOBAL_FIELDS) | {"Nope", "PP", "1", '"Fee"'}):
                        yield (fam, n, i, v)
                else:
                    for v in ("1", '"a"', "PP", "PB", "aa", "bb", "vv"):
                        yield (fam, n, i, v)
    elif fam == "index":
        for o in ("Txn", "Gtxn", "Itxn", "Inner", "Gitxn"):
            for v in SPELL + ["+" + s for s in ("0", "1", "15", "16", "255", "256", "PP")] + ["-" + s for s in ("0", "1", "15", "16", "255", "256", "PP")] + ["PP", "PB", "vv", "vv + 1", '"a"', ""]:
                yield (fam, o, v)
    elif fam == "ints":
        for pos in ("expr", "var", "const", "exit", "for", "for_", "switch", "arg", "fee", "bin", "neg", "sizeof", "convert", "tobytes", "rpad", "return", "type", "fieldtype", "assert", "pragma"):
            for s in SPELL:
                # the version is passed on to the assembler as it is
                if pos == "pragma" and s.isascii() and s.isdigit() and (int(s) > 8 or s[0] == "0"):
                    continue
                yield (fam, pos, s)
    elif fam == "counts":
        for k in ("options", "routes", "returns", "args", "elifs", "ifs", "blocks", "funcs", "itxns", "fields", "structs", "consts", "stmts", "concat", "depth", "publicargs", "publicreturns", "loops", "breaks", "ensure", "ensurevars"):
            for n in (0, 1, 2, 15, 16, 17, 63, 64, 65, 127, 128, 200, 254, 255, 256, 257):
                yield (fam, k, n)
    elif fam == "texts":
        for pl in TEXTPLACES:
            for n in range(p["n"] + 1):
                for c in itertools.product(CHARS, repeat=n):
                    if n == 3 and pl not in ("expr", "const", "comment", "message"):
                        continue
                    yield (fam, pl, "".join(c))
    elif fam == "nest":
        outer = [k for k, s in STMTS.items() if any(l.strip() == "@" for l in s)]
        for c in CTXS if p["all"] else ("main", "func", "block"):
            for a in outer:
                for b in outer:
                    for k in STMTS if p["all"] else ("if", "while", "for", "for_", "inner", "call", "decl"):
                        if k in STMTS:
                            yield (fam, c, a, b, k)
    elif fam == "deep":
        for n in range(p["n"] + 1):
            for ks in itertools.product(DEEP, repeat=n):
                yield (fam, ks)
    elif fam == "structs":
        for n in asm_names() + [x.capitalize() for x in ("bb", "if", "int", "bytes", "uint", "box", "account", "asset", "app", "txn")]:
            yield (fam, n)
    elif fam == "emptyish":
        for k in range(len(EMPTY)):
            yield (fam, k)


EMPTY = [[], [""], ["exit(1)"], ["# c", "exit(1)"], ["if 1:", "end", "exit(1)"], ["while 0:", "end", "exit(1)"], ["for _ in 0:1:", "end", "exit(1)"], ["for i in 0:1:", "end", "exit(1)"], ["teal:", "end", "exit(1)"], ["teal:", "    ", "end", "exit(1)"],
         ["switch 1:", "end", "exit(1)"], ["switch 1:", "    else: b", "end", "block b:", "    exit(1)", "end"], ["router:", "end"], ["inner_txn:", "end", "exit(1)"], ["inner_group:", "end", "exit(1)"], ["struct Aa:", "end", "exit(1)"],
         ["inner_group:", "    inner_txn:", "    end", "end", "exit(1)"], ["inner_group:", "    # c", "end", "exit(1)"], ["f()", "exit(1)", "func f():", "end"], ["f()", "exit(1)", "func f():", "    return", "end"], ["block b:", "end"], ["block b:", "    exit(1)", "end"],
         ["exit(1)", "block b:", "    exit(1)", "end"], ["if 1:", "else:", "end", "exit(1)"], ["if 1:", "elif 2:", "elif 3:", "else:", "end", "exit(1)"], ["jump b", "block b:", "    jump b", "end"], ["exit(1)", "exit(1)"], ["log(\"\")", "exit(1)"]]


def run_case(case, ctx):
    globals()["run_" + case[0]](case, ctx)


def run_name1(case, ctx):
    _, pl, n = case
    check(names_program({pl: n}), ctx, f"name:{pl}:{n}")


def run_name2(case, ctx):
    _, a, b, n = case
    check(names_program({a: n, b: n}), ctx, f"name2:{a}:{b}:{n}")
    # one of them is the qualified name of another
    for o in ("cc", "kk", "hh", "ff", "bb") if ctx.tier == "thorough" else ():
        check(names_program({a: n, b: o}), ctx, f"name2:{a}={n}:{b}={o}")


def run_const2(case, ctx):
    _, x, k = case
    for n in (dict(UPPER), dict(UPPER, sibling="BB__func__hh", public="BB__CC"), dict(UPPER, block="AA"), dict(UPPER, nested=x), dict(UPPER, public=x)):
        check(names_program(dict(n, **{k: x})), ctx, f"const2:{x}:{k}:{sorted(n.values())}")


def run_const(case, ctx):
    _, n, k = case
    d = {"int": [f"const int {n} = 7"], "bytes": [f'const bytes {n} = "q"'], "both": [f"const int {n} = 7", f'const bytes {n}_ = 0x00ff']}[k]
    use = [f"log({n})"] if k == "bytes" else [f"log(itob({n}))", f"assert({n} == 7)"]
    tail = ["exit(1)"]
    generic = ["log(itob(Txn.Fee))", "log(Txn.ApplicationArgs[1])", "log(Global.ZeroAddress)", "log(itob(NoOp))", "inner_txn:", "    TypeEnum: Pay", "    Fee: 0", "end", "int e, uu = acct_params_get(AcctBalance, 1)"][:-1] + ["int a1", "int a2", "a1, a2 = acct_params_get(AcctBalance, 1)"]
    key = f"const:{n}:{k}"
    check(H + d + use + tail, ctx, key)
    check(H + d + tail, ctx, key + ":unused")
    check(H + d + use + generic + tail, ctx, key + ":generic")
    check(H + generic + d + use + tail, ctx, key + ":late")
    check(H + d + use + ["jump " + n, f"block {n}:", "    exit(1)", "end"], ctx, key + ":block")
    check(H + ["jump " + n, f"block {n}:"] + ["    " + l for l in d + use] + ["    exit(1)", "end"], ctx, key + ":inblock")
    check(H + ["f()", "jump bb", f"block bb:"] + ["    " + l for l in d + use] + ["    exit(1)", "end", "func f():"] + ["    " + l for l in d + use] + ["    return", "end"], ctx, key + ":two")
    check(H + [f"struct {n}:", "    a: int", "end"] + d + use + [f"log(itob(SizeOf({n})))"] + tail, ctx, key + ":struct")
    check(H + d + use + [f"{n}()"] + tail + [f"func {n}():", "    return", "end"], ctx, key + ":func")
    check(H + d + use + tail + [f"@public(OnCompletion={n})", f"func {n}():", "    return", "end"], ctx, key + ":public")
    if k != "bytes":
        for f in ("extract({0}, 1, \"abc\")", "substring(0, {0}, \"abcdefghijk\")", "arg({0})", "load({0})", "gload(0, {0})"):
            check(H + d + [f"log({f.format(n)})"] + tail, ctx, key + ":imm:" + f)
        check(H + d + [f"store({n}, 5)", f"for i in 0:{n}:", "    log(\"x\")", "end", f"log(Txn.ApplicationArgs[{n}])", f"log(itob(Gtxn[{n}].Fee))"] + tail, ctx, key + ":places")


def run_slots(case, ctx):
    _, where, n = case
    dv = [f"int v{i} = {i}" for i in range(n)]
    use = [f"log(itob(v{n - 1}))"] if n else []
    ind = lambda ls: ["    " + l for l in ls]
    key = f"slots:{where}:{n}"
    if where == "main":
        p = dv + use + ["exit(1)"]
    elif where == "func":
        p = ["f()", "exit(1)", "func f():"] + ind(dv + use) + ["    return", "end"]
    elif where == "funcs":
        p = [f"f{i}({i})" for i in range(n)] + ["exit(1)"]
        for i in range(n):
            p += [f"func f{i}(a: int):", "    log(itob(a))", "    return", "end"]
    elif where == "loop":
        p = ["while 1:"] + ind(dv + use) + ["    break", "end"] + ["exit(1)"]
    elif where == "block":
        p = ["jump b", "block b:"] + ind(dv + use) + ["    exit(1)", "end"]
    elif where == "mixed":
        h = n // 2
        p = dv[:h] + ["f()", "while 1:"] + ind([f"int w{i}" for i in range(n - h)]) + ["    break", "end", "jump b", "block b:"] + ind([f"int w{i} = {i}" for i in range(n - h)]) + ["    exit(1)", "end", "func f():"] + ind([f"int u{i} = {i}" for i in range(min(n, 60))]) + ["    return", "end"]
    elif where == "params":
        p = ["f(" + ", ".join(str(i) for i in range(n)) + ")", "exit(1)", "func f(" + ", ".join(f"a{i}: int" for i in range(n)) + "):"] + ([f"    log(itob(a{n - 1}))"] if n else []) + ["    return", "end"]
    elif where == "branches":
        p = []
        for i in range(n):
            p += ["if %d:" % i, f"    int v{i} = 1", "end"]
        p += ["exit(1)"]
    elif where == "forloops":
        p = dv[:-1] + ["for i in 0:3:", "    for j in 0:3:", "        log(itob(i + j))", "    end", "end", "exit(1)"]
    elif where == "sibling":
        p = []
        for i in range(n):
            p += ["while 1:", f"    int v{i} = 1", "    break", "end"]
        p += ["exit(1)"]
    elif where == "boxes":
        p = ["struct Aa:", "    a: int", "end"] + [f'box<Aa> b{i} = Box("k{i}")' for i in range(n)] + ["exit(1)"]
    else:
        p = dv + ["inner_group:", "    for i in 0:2:", "        inner_txn:", "            TypeEnum: Pay", "        end", "    end", "end", "exit(1)"]
    check(H + p, ctx, key, plain=n <= 2)


def run_sizes(case, ctx):
    _, off, t = case
    s = H + ["struct Aa:"] + ([f"    p: bytes[{off}]"] if off else []) + [f"    x: {t}", "    z: uint8", "end"]
    val = "7" if not t.startswith("bytes") else f"bzero({t[6:-1]})"
    lit = "7" if not t.startswith("bytes") else '"' + "a" * min(int(t[6:-1]), 300) + '"'
    show = "itob(s.x)" if not t.startswith("bytes") else "s.x"
    key = f"sizes:{off}:{t}"
    for fin in (["log(%s)" % show], ["s.x = " + val], ["s.x = " + lit], ["log(itob(s.z))", "s.z = 3", "int q = Cast(s.z, int)"], ["int q = SizeOf(Aa)"]):
        check(s + ["Aa s = bzero(SizeOf(Aa))"] + fin + ["exit(1)"], ctx, key + ":" + fin[0][:20])
        check(s + ['box<Aa> s = CreateBox("k")'] + fin + ["exit(1)"], ctx, key + ":box:" + fin[0][:20])
    for d in ("Aa s = Txn.ApplicationArgs[0]", "Aa s = Cast(Txn.ApplicationArgs[0], Aa)", "Aa s", 'box<Aa> s = OpenBox("k")', 'box<Aa> s = Box("k")', f"Aa s = bzero({off + 9})"):
        check(s + [d, "exit(1)"], ctx, key + ":" + d[:20])
    check(s + ["f(bzero(SizeOf(Aa)))", "exit(1)", "func f(s: Aa):", "    log(%s)" % show, "    return", "end"], ctx, key + ":param")
    if t.startswith("bytes"):
        n = t[6:-1]
        for e in (f'Rpad("ab", {n})', f'Lpad("ab", {n})', f"ToBytes(5, {n})", f"Convert(5, {t})", f"Cast(Txn.Sender, {t})", f"bzero({n})", f"EnsureType(Txn.Sender, {t})"):
            check(H + [f"{t} v = {e}", "log(v)", "exit(1)"], ctx, key + ":" + e[:12])
            check(H + [f"log({e})", "exit(1)"], ctx, key + ":log:" + e[:12])


DEF = {"u8": "1", "i8": "1", "txn": "Fee", "txna": "ApplicationArgs", "itxnset": "Fee", "global": "Round", "label": "bb", "labels": "bb", "int": "1", "bytes": '"a"', "ints": "1", "bytess": '"a"'}


def run_imms(case, ctx):
    _, n, i, v = case
    o = avm.OPS[n]
    kinds = avm.IMM[n]
    imm = [v if j == i else (next(iter(avm.GROUPS[n])) if k == "grp" else DEF[k]) for j, k in enumerate(kinds)]
    args = imm + ["vb" if a == "B" else "vv" for a in o.get("Args", "")]
    e = f"{n}({', '.join(args)})"
    r = o.get("Returns", "")
    head = H + ["const int PP = 255", "const int PQ = 256", 'const bytes PB = "a"', "int vv = 1", 'bytes vb = "b"']
    st = (", ".join(["_"] * len(r)) + " = " + e) if r else e
    tail = ["exit(1)", "block bb:", "    exit(1)", "end"]
    check(head + [st] + tail, ctx, f"imms:{n}:{i}:{v}")
    if v == "PP":
        check(head + [st.replace("PP", "PQ")] + tail, ctx, f"imms:{n}:{i}:PQ")
    if len(r) == 1:
        check(head + [("log(%s)" if r == "B" else "log(itob(%s))") % e] + tail, ctx, f"imms:{n}:{i}:{v}:expr")
    check(H + ["teal:", "    " + n + " " + " ".join(DEF.get(k, next(iter(avm.GROUPS.get(n, {"x": 0})))) for k in kinds), "    bb:", "end", "exit(1)"], ctx, f"imms:{n}:teal")


def run_index(case, ctx):
    _, o, v = case
    head = H + ["const int PP = 255", 'const bytes PB = "a"', "int vv = 1", "inner_txn:", "    TypeEnum: Pay", "end"]
    es = {"Txn": [f"Txn.ApplicationArgs[{v}]", f"Txn.Accounts[{v}]"], "Gtxn": [f"Gtxn[{v}].Sender", f"Gtxn[{v}].ApplicationArgs[1]", f"Gtxn[1].ApplicationArgs[{v}]", f"Gtxn[vv].ApplicationArgs[{v}]", f"Gtxn[{v}].ApplicationArgs[vv]", f"Gtxn[-1].ApplicationArgs[{v}]",
          f"Gtxn[{v}].ApplicationArgs[{v}]"], "Itxn": [f"Itxn.Logs[{v}]"], "Inner": [f"Inner.Logs[{v}]"], "Gitxn": [f"Gitxn[{v}].Sender", f"Gitxn[1].Logs[{v}]", f"Gitxn[{v}].Logs[{v}]"]}[o]
    for e in es:
        check(head + [f"log({e})", "exit(1)"], ctx, f"index:{e}")
        check(head + [f"if vv:", f"    bytes q = {e}", "end", "exit(1)"], ctx, f"index:assign:{e}")


def run_ints(case, ctx):
    _, pos, s = case
    p = {"expr": [f"log(itob({s}))"], "var": [f"int v = {s}"], "const": [f"const int AB = {s}", "log(itob(AB))"], "exit": [f"exit({s})"], "for": [f"for i in 0:{s}:", "    log(\"a\")", "end", f"for i in {s}:9:", "    log(\"a\")", "end"],
         "for_": [f"for _ in {s}:{s}:", "    log(\"a\")", "end"], "switch": [f"switch {s}:", f"    {s}: b", "end"], "arg": [f"f({s})"], "fee": ["inner_txn:", "    TypeEnum: Pay", f"    Fee: {s}", "end"], "bin": [f"log(itob(1 + {s}))", f"log(itob({s} - 1))"],
         "neg": [f"log(itob(~{s}))", f"log(itob(!{s}))"], "sizeof": [f"log(bzero({s}))"], "convert": [f"log(Convert({s}, bytes[8]))"], "tobytes": [f"log(ToBytes({s}, 8))", f"log(ToBytes(1, {s}))"], "rpad": [f'log(Rpad("a", {s}))', f'log(Lpad("a", {s}))'],
         "return": ["log(itob(g()))"], "type": [f"bytes[{s}] v"], "fieldtype": [], "assert": [f"assert({s})"], "pragma": []}[pos]
    if pos == "pragma":
        check([f"#pragma version {s}", "exit(1)"], ctx, f"ints:{pos}:{s}")
        return
    head = H + (["struct Aa:", f"    a: bytes[{s}]", "    b: int", "end"] if pos == "fieldtype" else [])
    if pos == "fieldtype":
        p = ["Aa v = bzero(SizeOf(Aa))", "log(v.a)", "log(itob(v.b))", "v.b = 1"]
    end = [] if pos in ("exit", "switch") else ["exit(1)"]
    tail = ["block b:", "    exit(1)", "end", "func f(a: int):", "    return", "end"] + (["func g() int:", f"    return {s}", "end"] if pos == "return" else [])
    check(head + p + end + tail, ctx, f"ints:{pos}:{s}")


def run_counts(case, ctx):
    _, k, n = case
    R = range(n)
    ind = lambda ls: ["    " + l for l in ls]
    blk = ["block b:", "    exit(1)", "end"]
    pub = lambda i: ["@public()", f"func f{i}():", "    return", "end"]
    if k == "options":
        p = ["switch 1:"] + [f"    {i}: b" for i in R] + ["end"] + blk
    elif k == "routes":
        p = ["router:"] + [f"    f{i}" for i in R] + ["end"] + [l for i in R for l in pub(i)]
    elif k == "returns":
        p = [f"int v{i}" for i in range(min(n, 100))] + ([", ".join(f"v{i}" if i < 100 else "_" for i in R) + " = f()"] if n else ["f()"]) + ["exit(1)", "func f() " * 1 + ", ".join(["int"] * n) + ":", "    return " + ", ".join(str(i) for i in R) if n else "    return", "end"]
        p = [l.replace("func f() :", "func f():") for l in p]
    elif k == "args":
        p = ["f(" + ", ".join("1" for i in R) + ")", "exit(1)", "func f(" + ", ".join(f"a{i}: int" for i in R) + "):", "    return", "end"]
    elif k == "elifs":
        p = ["if 0:", "    log(\"a\")"] + [l for i in R for l in (f"elif {i}:", "    log(\"a\")")] + ["else:", "    log(\"b\")", "end", "exit(1)"]
    elif k == "ifs":
        p = [l for i in R for l in ("if 1:", "    log(\"a\")", "else:", "    log(\"b\")", "end")] + ["exit(1)"]
    elif k == "blocks":
        p = ["jump b0" if n else "exit(1)"] + [l for i in R for l in (f"block b{i}:", f"    jump b{i + 1}" if i + 1 < n else "    exit(1)", "end")]
    elif k == "funcs":
        p = [f"f{i}()" for i in R] + ["exit(1)"] + [l for i in R for l in (f"func f{i}():", "    return", "end")]
    elif k == "itxns":
        p = ["inner_group:"] + ["    inner_txn:", "        TypeEnum: Pay", "    end"] * n + ["end", "exit(1)"]
    elif k == "fields":
        p = ["struct Aa:"] + [f"    a{i}: int" for i in R] + ["end", "Aa s = bzero(SizeOf(Aa))"] + [f"s.a{i} = {i}" for i in R] + [f"log(itob(s.a{i}))" for i in R] + ["exit(1)"]
    elif k == "structs":
        p = [l for i in R for l in (f"struct Aa{i}:", "    a: int", "end")] + ["exit(1)"]
    elif k == "consts":
        p = [f"const int AB{i} = {i}" for i in R] + [f"log(itob(AB{i}))" for i in R] + ["exit(1)"]
    elif k == "stmts":
        p = ["log(\"x\")"] * n * 10 + ["exit(1)"]
    elif k == "concat":
        p = ["log(Concat(" + ", ".join('"a"' for i in R) + "))", "exit(1)"]
    elif k == "depth":
        e = "1"
        for i in range(min(n, 40)):
            e = f"({e} + {i})"
        p = [f"log(itob({e}))" if n else 'log("a")', "exit(1)"]
    elif k == "publicargs":
        p = ["router:", "    f", "end", "@public()", "func f(" + ", ".join(f"a{i}: int" for i in R) + "):", "    return", "end"]
    elif k == "publicreturns":
        p = ["router:", "    f", "end", "@public()", "func f() " + ", ".join(("int", "bytes")[i % 2] for i in R) + ":", "    return " + ", ".join(("1", '"a"')[i % 2] for i in R), "end"]
        p = [l.replace("func f() :", "func f():").rstrip() for l in p]
    elif k in ("ensure", "ensurevars"):
        if not n:
            return
        ts = ", ".join(("int", "bytes[2]")[i % 2] for i in R)
        p = [f"int v{i}" for i in range(1 if k == "ensurevars" else 0)] + [", ".join("v0" if i == 0 and k == "ensurevars" else "_" for i in R) + f" = EnsureType(f(), {ts})", "exit(1)", "func f() " + ", ".join(("int", "bytes")[i % 2] for i in R) + ":", "    return " + ", ".join(("1", '"ab"')[i % 2] for i in R), "end"]
    elif k == "loops":
        p = [l for i in R for l in ("for i in 0:2:", "    log(itob(i))", "end", "for _ in 0:2:", "    log(\"a\")", "end")] + ["exit(1)"]
    else:
        p = ["while 1:"] + [l for i in R for l in ("    if 1:", "        break", "    end")] + ["    break", "end", "exit(1)"]
    check(H + p, ctx, f"counts:{k}:{n}", plain=n in (1, 2) and k != "concat")


def run_texts(case, ctx):
    _, pl, t = case
    p = {"expr": [f'log("{t}")'], "single": [f"log('{t}')"], "const": [f'const bytes AB = "{t}"', "log(AB)"], "switch": ["switch Txn.Note:", f'    "{t}": b', "end"], "note": ["inner_txn:", "    TypeEnum: Pay", f'    Note: "{t}"', "end"],
         "message": [f'assert(1, "{t}")'], "message2": ["if 1:", f'    assert(Txn.Fee > 1, "{t}")', "end"], "comment": [f"# {t}", "log(\"a\")", f"#{t}"], "inline": [f'log("a") # {t}'], "boxkey": ["struct Aa:", "    a: int", "end", f'box<Aa> b = CreateBox("{t}")', "b.a = 5"], "teal": ["teal:", f"    // {t}", "end"],
         "arg": [f'log(concat("{t}", f("{t}")))'], "struct": ["struct Aa:", f"    # {t}", "    a: int", "end", "if 1:", f"    # {t}", "end"], "addr": [f'const addr AB = "{t}"', "log(AB)"]}[pl]
    end = [] if pl == "switch" else ["exit(1)"]
    if "\n" in t:
        return
    check(H + p + end + ["block b:", "    exit(1)", "end", "func f(a: bytes) bytes:", "    return a", "end"], ctx, f"texts:{pl}:{t!r}")


def run_nest(case, ctx):
    _, c, a, b, k = case
    src = program(plug(inst(STMTS[a], 1), lambda n: plug(inst(STMTS[b], 2 + n), lambda m: plug(inst(STMTS[k], 5 + n + m), None))), c)
    check(src.split("\n"), ctx, f"nest:{c}:{a}:{b}:{k}")


def run_deep(case, ctx):
    ks = case[1]
    ind = lambda ls: ["    " + l for l in ls]

    def build(i):
        if i == len(ks):
            return ['log("x")', "f()"]
        b = ind(build(i + 1))
        k = ks[i]
        if k == "if":
            return ["if vv:"] + b + ["end"]
        if k == "ifelse":
            return ["if not vv:", "    log(\"n\")", "else:"] + b + ["end"]
        if k == "elif":
            return ["if vv:"] + b + ["elif vv == 2:"] + b + ["end"]
        if k == "while":
            return ["while vv:"] + b + ["    break", "end"]
        if k == "for":
            return [f"for i{i} in 0:2:"] + b + ["end"]
        if k == "for_":
            return ["for _ in 0:2:"] + b + ["end"]
        return ["inner_group:", "    inner_txn:", "        TypeEnum: Pay", "    end"] + b + ["end"]
    b = build(0)
    if len(b) > 120:
        return
    check(H + ["int vv = 1"] + b + ["exit(1)", "func f():", "    int vw = 2"] + [l.replace("vv", "vw") for l in ind(b[:-1] if b[-1] == "f()" else [x for x in b if x.strip() != "f()"])] + ["    return", "end"], ctx, f"deep:{ks}", plain=ks.count("group") == 0)


def run_structs(case, ctx):
    n = case[1]
    check(H + [f"struct {n}:", "    a: int", "end", f"{n} s = bzero(8)", "s.a = 1", "log(itob(s.a))", "exit(1)"], ctx, f"structs:{n}")
    check(H + [f"struct {n}:", "    a: int", "end", f'box<{n}> s = CreateBox("a")', "s.a = 1", "log(itob(s.a))", "log(Txn.Sender)", "exit(1)"], ctx, f"structs:box:{n}")
    f = n[0].lower() + n[1:]
    check(H + ["struct Aa:", f"    {f}: int", "end", "Aa s = bzero(8)", f"s.{f} = 1", f"log(itob(s.{f}))", "exit(1)"], ctx, f"structs:field:{f}")


def run_emptyish(case, ctx):
    b = EMPTY[case[1]]
    check(H + b, ctx, f"emptyish:{case[1]}")
    check(b, ctx, f"emptyish:{case[1]}:nopragma")
    for s in ("", "# x", "  "):
        check(H + [s] + b + [s], ctx, f"emptyish:{case[1]}:{s!r}")
        check([s] + H + b, ctx, f"emptyish:{case[1]}:{s!r}:first")
    if b:
        check(H + ["f()", "exit(1)", "func f():"] + ["    " + l for l in b] + ["    return", "end"], ctx, f"emptyish:{case[1]}:func")
        check(H + ["if 1:"] + ["    " + l for l in b] + ["end", "exit(1)"], ctx, f"emptyish:{case[1]}:if")
