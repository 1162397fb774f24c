"""Source-text catalogue of every statement form of the language, over one prelude, and the places statements can stand."""
import re

STRUCT = ["struct S1:", "    fi: int", "    fb: bytes[4]", "    fu: uint8", "end"]
PRE = STRUCT + [
    "const int KI = 7", 'const bytes KB = "kb"', "const bytes KH = 0x6A0b",
    "int iv = btoi(Txn.ApplicationArgs[0])", "bytes bv = Txn.ApplicationArgs[1]", "int ia = 0", 'bytes ba = ""',
    "S1 st = bzero(13)", 'box<S1> bx = CreateBox("k")']
# the prelude of a function: it may not assign the program's variables
FPRE = PRE[len(STRUCT) + 3:]
FUNCS = [
    "func fi(p: int) int:", '    log("fi")', "    return p + 1", "end",
    "func fj(p: int, q: bytes) int, bytes:", "    log(q)", '    return p * 10, concat(q, ",")', "end",
    "func fl(p: int):", "    log(itob(p))", "    return", "end",
    "func fz() int:", "    return 0", "end"]
PUBLIC = ["@public()", "func pa(p: int, q: bytes) int:", "    log(q)", "    return p + 2", "end",
          "@public(OnCompletion=OptIn)", "func pb() bytes, bytes:", '    return "x", "y"', "end"]

# straight-line and structured statements; each leaves control at its end.  @ marks the end of a body where another statement may be nested
STMTS = {
    "decl": ["int {v}"], "declb": ["bytes[3] {v}"], "declx": ["int {v} = iv + 1"], "declu8": ["uint8 {v} = 255"], "decls": ["S1 {v} = Cast(bzero(13), S1)"], "decla": ['addr {v} = Cast(Global.ZeroAddress, addr)'], "declbi": ["bigint {v} = itob(5)"],
    "boxopen": ['box<S1> {v} = OpenBox("k")'], "boxcreate": ['box<S1> {v} = CreateBox(concat("{v}", bv))'], "box": ['box<S1> {v} = Box("{v}")'],
    "asg": ["ia = iv * 2"], "asgb": ['ba = concat(ba, "x")'], "asg2": ["ia, ba = fj(iv, bv)"], "asg_": ["_, ba = fj(3, KB)"], "asgop": ["ia, _ = addw(iv, 5)"], "asg__": ["_ = fi(2)"],
    "sf": ["st.fi = iv"], "sfb": ['st.fb = "wxyz"'], "sfu": ["st.fu = Cast(st.fi, uint8)"], "bf": ["bx.fi = bx.fi + 1"], "bfb": ["bx.fb = st.fb"],
    "call": ["fl(iv)"], "log": ['log("a")'], "logc": ["log(concat(KB, bv))"], "opst": ['app_global_put("k", iv)'], "opimm": ["log(extract(1, 2, concat(bv, KH)))"], "std": ["log(Rpad(KB, 5))"], "std2": ["log(Convert(iv, bytes[4]))"],
    "event": ['log(ARC28Event("e(uint64)", itob(iv)))'], "address": ['log(Address("AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAY5HFKQ"))'],
    "assert": ["assert(iv < 300)"], "assertm": ['assert(iv != 77, "no, 77 \\"is\\" bad")'], "assertc": ['assert(fi(iv) == (iv + 1), "calls (f) // #1")'],
    "if": ["if iv == 1:", '    log("1")', "    @", "end"], "ifnot": ["if not iv:", '    log("0")', "    @", "end"],
    "ifelse": ["if iv == 1:", '    log("1")', "    @", "else:", '    log("e")', "    @", "end"],
    "elif": ["if iv == 1:", '    log("1")', "elif iv == 2:", "    @", '    log("2")', "elif not fi(iv):", '    log("3")', "else:", "    @", "end"],
    "emptyif": ["if iv:", "end"], "emptyelse": ["if iv:", "elif ia:", "else:", "end"],
    "while": ["while ia < 3:", "    ia = ia + 1", '    log("w")', "    @", "end"], "whilenot": ["while not ia >= 2:", "    ia = ia + 1", "    @", "end"], "break": ["while 1:", "    if iv:", "        break", "    end", "    break", "end"],
    "for": ["for {v} in 0:3:", "    log(itob({v}))", "    @", "end"], "forv": ["for {v} in ia:KI:", "    log(itob({v}))", "end"], "for_": ["for _ in 1:3:", '    log("_")', "    @", "end"],
    "itxn": ["inner_txn:", "    TypeEnum: Pay", "    Amount: iv * 3", "    Receiver: Txn.Sender", '    Note: concat("n: ", bv)', "    ApplicationArgs[0]: bv", '    ApplicationArgs[1]: "a:b"', "end"], "itxne": ["inner_txn:", "    Fee: 0", "end"],
    "group": ["inner_group:", "    inner_txn:", "        Fee: 1", "    end", "    if iv:", "        inner_txn:", "            Fee: fi(iv)", "        end", "    end", "end"],
    "teal": ["teal:", "    pushint 1", '    pushbytes "a  //;b" // c  d', "    pop; pop", "end"],
    "field": ["log(Gtxn[1].ApplicationArgs[0])"], "field2": ["log(Gtxn[iv % 2].ApplicationArgs[ia])"], "field3": ["log(itob(Gtxn[-1].Fee + Gtxn[+2].Fee))"], "field4": ["log(Txn.ApplicationArgs[iv % 2])"],
    "grp": ["ia = (iv + 2) * (ia + (3 - 1))"], "grp2": ["ia = !((iv == 1) && (ia != 2))"], "un": ["ia = ~iv"], "bop": ["ba = (bv b+ 0x) b| KB".replace("0x", '"\\x01"')], "bun": ["ba = b~bv"], "nest": ["log(concat(concat(itob(fi(fi(iv))), KB), bv))"],
    "sq": ["log('it\\'s \"q\"')"], "spc": ['log("two  spaces,(and) # // no comment ")'], "comment": ["# a comment"], "comment2": ["#no space: x = 1"], "commentn": ["# nested", "#", "#  end"], "blank": [""], "blank2": ["", ""],
    "const": ["const int K{V} = 5"], "constuse": ["ia = KI"], "enum": ["if Txn.OnCompletion == OptIn:", '    log("o")', "end"],
}
# statements ending the execution of a body
ENDS = {"exit": ["exit(1)"], "exitx": ["exit(iv + 1)"], "jump": ["jump b2"], "switch": ["switch iv:", "    1: b1", "    KI: b2", "    iv + 1: b1", "    else: b2", "end"], "switchb": ["switch bv:", '    "a: b": b1', '    concat(bv, ""): b2', "end"]}
BLOCKS = ["block b1:", '    log("b1")', "    exit(1)", "end", "block b2:", '    log("b2")', "    jump b1", "end"]


def inst(stmt, n):
    """instance number n of a statement: fresh names"""
    return [l.replace("{v}", f"v{n}").replace("{V}", f"V{n}") for l in stmt]


def ind(lines, k=1):
    return ["    " * k + l if l else l for l in lines]


def plug(lines, inner):
    """fills @ places"""
    out = []
    k = 0
    for l in lines:
        if l.strip() == "@":
            out += ["    " * (len(l) // 4) + x if x else x for x in (inner(k) if inner else [])]
            k += 1
        else:
            out.append(l)
    return out


CTXS = ("main", "block", "func", "public", "nestedblock")


def words(lines):
    return set(re.findall(r"[A-Za-z_][A-Za-z_0-9]*", "\n".join(lines)))


def used(decls, lines):
    """the declarations whose names the lines use"""
    w = words(lines)
    out = []
    for d in decls:
        name = re.match(r"(?:const \w+|box<\w+>|\w+(?:\[\d+\])?) (\w+)", d).group(1)
        if name in w:
            out.append(d)
    return out


def funcs(lines, defs):
    """the functions reachable from the lines"""
    groups, cur = [], []
    for l in defs:
        cur.append(l)
        if l == "end":
            groups.append(cur)
            cur = []
    out, w, todo = [], words(lines), True
    while todo:
        todo = False
        for g in groups:
            name = next(re.match(r"(?:func|block) (\w+)", l).group(1) for l in g if re.match("func|block", l))
            if name in w and g not in out:
                out.append(g)
                w |= words(g)
                todo = True
    return [l for g in groups if g in out for l in g]


def program(stmts, ctx="main", end="exit", extra=(), full=False):
    """a whole program with the statements (list of lines) in a context; only what is used is declared unless full"""
    e = ENDS[end]
    us = lambda d, l: list(d) if full else used(d, l)
    fs = lambda l, d: list(d) if full else funcs(l, d)
    st = STRUCT if full or words(stmts) & {"S1", "st", "bx"} else []
    consts, vs = PRE[len(STRUCT):len(STRUCT) + 3], FPRE
    if ctx in ("main", "block", "nestedblock"):
        f = fs(stmts + e, FUNCS)
        b = fs(stmts + e, BLOCKS)
        head = st + us(consts + vs, stmts + e)
    else:
        f = fs(stmts, FUNCS)
        chead, vhead = us(consts, stmts), us(vs, stmts)
    if ctx == "main":
        body = head + stmts + e + b + f
    elif ctx == "block":
        body = head + ["jump main"] + ["block main:"] + ind(stmts + e + b + f) + ["end"]
    elif ctx == "nestedblock":
        body = head + ["jump main", "block main:"] + ind(['log("m")', "jump inner", "block inner:"] + ind(stmts + e + b) + ["end"]) + ["end"] + f
    elif ctx == "func":
        body = st + chead + ["loc()", "exit(1)"] + ["func loc():"] + ind(vhead + stmts + ["return"]) + ["end"] + f
    else:
        body = st + chead + ["router:", "    pa", "    pb", "    loc", "end"] + ["@public()", "func loc():"] + ind(vhead + stmts + ["return"]) + ["end"] + f + PUBLIC
    return "\n".join(["#pragma version 8"] + list(extra) + body) + "\n"


def gaps(lines):
    """indices before which a comment (and a blank line) may be inserted, by the grammar of the documentation"""
    out, stack = [], []
    for i, l in enumerate(lines):
        s = l.strip()
        top = stack[-1] if stack else None
        if i and top not in ("struct", "router", "teal", "switch", "inner_txn") and not s.startswith(("elif ", "else:")) and not lines[i - 1].strip().startswith("@"):
            if not (s == "end" and top == "x"):
                out.append(i)
        if top == "teal" and s != "end":
            continue
        m = re.match(r"(struct|router|teal|switch|inner_txn|inner_group|if|while|for|block|func)\b.*:$", s)
        if m:
            stack.append(m.group(1))
        elif s == "end":
            stack.pop()
    return out
