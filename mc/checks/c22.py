"""C22: local language specifications.  Small specifications derived from the packaged one are placed in the working directory of fresh
processes; what these accept, emit and report is compared with the specification; fetches are driven into every outcome of the
server and every write fault."""
import copy
import http.server
import json
import os
import re
import threading
from itertools import combinations, product

from .. import avm, cli
from ..cliserver import REPO, Server

ID = "C22"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of small specifications (each opcode removed, only one kept, every small arity and type signature added or "
             "substituted, every field removed or added) loaded by fresh processes from their working directory; all pairs of opcode subsets for the "
             "difference; all server outcomes and all single write faults and crash points of a fetch")
NOTE = ("The compiler, the API and the command line run unchanged in fresh processes; the server is a local stand-in. Complete for every opcode of the "
        "packaged specification, signatures of up to 3 operands and 2 results, all pairs of subsets of 5 opcodes, and every injectable file operation of a fetch.")
RULE = "specifications x calls; pairs of specifications; server outcomes x previous files; server outcomes x fault points; distinct = distinct cases"
ASSUMPTIONS = ["a local specification has the format of the packaged file and keeps the opcodes txn and global, which the compiler needs to start"]

_spec = []


def packaged():
    if not _spec:
        _spec.append(json.load(open(os.path.join(REPO, "tealish", "langspec.json"))))
    return _spec[0]


CORE = ("txn", "global")
NOTCALLS = {"err", "return", "b", "bz", "bnz", "callsub", "retsub", "switch", "match", "proto", "frame_dig", "frame_bury",
            "intcblock", "intc", "intc_0", "intc_1", "intc_2", "intc_3", "bytecblock", "bytec", "bytec_0", "bytec_1", "bytec_2", "bytec_3",
            "pushint", "pushints", "pushbytes", "pushbytess", "assert", "pop", "dig", "bury", "cover", "uncover", "popn", "dupn"}


def spec_of(ops):
    s = {k: v for k, v in packaged().items() if k != "Ops"}
    s["Ops"] = copy.deepcopy(list(ops))
    return s


def ops(names=None, without=()):
    return [o for o in packaged()["Ops"] if (names is None or o["Name"] in names or o["Name"] in CORE) and o["Name"] not in without]


def newop(name, args, rets, imm=None):
    o = {"Opcode": 250, "Name": name, "Size": 1, "Doc": name, "Groups": ["Arithmetic"]}
    if args:
        o["Args"] = args
    if rets:
        o["Returns"] = rets
    if imm == "u8":
        o["Size"] = 2
        o["ImmediateNote"] = "{uint8 thing}"
    if imm == "u8u8":
        o["Size"] = 3
        o["ImmediateNote"] = "{uint8 one} {uint8 two}"
    if imm == "enum":
        o["Size"] = 2
        o["ImmediateNote"] = "{uint8 field}"
        o["ArgEnum"] = ["FieldA", "FieldB"]
        o["ArgEnumTypes"] = "UB"
    return o


# ------------------------------------------------------------------ run in fresh processes
def probe(sources):
    """compiles every source; [verdict, TEAL lines or error class, line of the error]"""
    from tealish import compile_program
    from tealish.errors import CompileError, ParseError
    out = []
    for s in sources:
        try:
            out.append(["ok", list(compile_program(s)[0]), None])
        except (CompileError, ParseError) as e:
            out.append(["refused", str(e)[:200], None])
        except Exception as e:
            out.append(["crash", f"{type(e).__name__}: {e}"[:200], None])
    return out


def differences(pairs, specs):
    from tealish.langspec import LangSpec, compare_langspecs, get_active_langspec, get_new_local_ops
    ls = [LangSpec(s) for s in specs]
    out = []
    for a, b in pairs:
        x, y = compare_langspecs(ls[a], ls[b])
        out.append([sorted(x), sorted(y), sorted(ls[b].new_ops(ls[a])), len(x), len(y)])
    return out, [sorted(get_new_local_ops(l)) for l in ls], sorted(get_new_local_ops()), sorted(get_active_langspec().ops)


def fresh(spec, task, args, extra=None, sub=""):
    files = dict(extra or {})
    if spec is not None:
        files["langspec.json"] = json.dumps(spec).encode() if not isinstance(spec, bytes) else spec
    d = cli.new_tree(files)
    try:
        return Server.get(cold=True).run(os.path.join(d, sub), task=f"mc.checks.c22.{task}", args=args, timeout=120)
    finally:
        cli.drop(d)


PRE = "#pragma version 8\nint v_int = 5\nbytes v_bytes = \"zz\"\n"


def tl_of(t):
    return "bytes" if t == "B" else "int"


def call_src(n, o, extra=""):
    """a program that calls the opcode as its definition says (None: not callable)"""
    args, rets = o.get("Args", ""), o.get("Returns", "")
    if not re.fullmatch(r"[a-z]\w*", n):
        if len(args) == 2:
            e = " ".join(("v_bytes" if args[0] == "B" else "v_int", n, "v_bytes" if args[1] == "B" else "v_int"))
        elif len(args) == 1:
            e = n + ("v_bytes" if args[0] == "B" else "v_int")
        else:
            return None
    else:
        if n in NOTCALLS:
            return None
        imm = []
        kinds = avm.IMM.get(n, []) if n in avm.OPS else []
        for k in kinds:
            if k == "u8":
                imm.append("1")
            elif k == "grp":
                imm.append(next(iter(avm.GROUPS[n])))
            elif k == "txn":
                imm.append("Fee")
            elif k == "txna":
                imm.append("ApplicationArgs")
            elif k == "itxnset":
                imm.append("Fee")
            elif k == "global":
                imm.append("Round")
            else:
                return None
        e = f"{n}({', '.join(imm + ['v_bytes' if a == 'B' else 'v_int' for a in args])})"
    return PRE + stmt(n, e, len(rets), extra) + "exit(1)\n"


def stmt(n, e, k, extra=""):
    if not k:
        return e + "\n"
    return ", ".join(["_"] * k) + " = " + e + "\n"


_calls = {}


def calls():
    """opcode -> program, of all packaged opcodes that can be called"""
    if not _calls:
        for o in packaged()["Ops"]:
            s = call_src(o["Name"], o)
            if s:
                _calls[o["Name"]] = s
    return _calls


# ------------------------------------------------------------------ cases
LETTERS = "UB."
EXTRA = [("xone", "U", "U"), ("xtwo", "UB", "B"), ("xnone", "", ""), ("xmany", "BUB", "UB"), ("xnil", "", "B")]


def families(tier):
    q = tier == "quick"
    return [("removed", {"shards": 64}), ("only", {"shards": 64}), ("place", {}), ("added", {"nargs": 2 if q else 3, "shards": 32}), ("changed", {"shards": 32}), ("fields", {}), ("diff", {"n": 4 if q else 5}),
            ("clidiff", {}), ("fetch", {}), ("urls", {}), ("fault", {"errnos": [28] if q else [5, 13, 28, 30], "shards": 16})]


def cases(fam, p):
    if fam == "removed":
        for n in calls():
            if n not in CORE:
                yield ("removed", n)
    elif fam == "only":
        for n in calls():
            yield ("only", n)
    elif fam == "place":
        for k in ("none", "here", "parent", "sub", "source"):
            yield ("place", k)
    elif fam == "added":
        for n in range(p["nargs"] + 1):
            for args in product(LETTERS, repeat=n):
                for imm in ("", "u8", "enum"):
                    yield ("added", "".join(args), imm)
    elif fam == "changed":
        for args in ("", "U", "B", "UB", "BU", "BUB", "BB", "UU"):
            for rets in ("U", "B"):
                yield ("changed", args, rets)
    elif fam == "fields":
        for ns in ("txn", "global", "txna", "itxn_field"):
            for how in ("added", "removed", "typed", "only"):
                yield ("fields", ns, how)
    elif fam == "diff":
        for base in ("core", "packaged"):
            yield ("diff", base, p["n"])
    elif fam == "clidiff":
        sub = [c for k in range(len(EXTRA) + 1) for c in combinations(range(len(EXTRA)), k)]
        for a in [None] + sub[:16]:
            yield ("clidiff", a, None)
            for b in sub[:16:3] + [(0, 1, 2, 3, 4)]:
                yield ("clidiff", a, b)
    elif fam == "fetch":
        for prev in PREV:
            for out in OUTCOMES:
                yield ("fetch", prev, out)
    elif fam == "urls":
        for k in range(len(URLS)):
            for old in (0, 1):
                yield ("urls", k, old)
    elif fam == "fault":
        for prev in PREV:
            for mode in ("fail", "short", "fail-from", "kill-before", "kill-after", "kill-torn", "partial"):
                for e in p["errnos"] if mode in ("fail", "short", "fail-from") else [5]:
                    yield ("fault", prev, mode, e)


def check_compiles(ctx, key, r, srcs, want):
    """want: source index -> must be accepted"""
    if r.result is None:
        ctx.violation("crash:" + key, f"the compiler does not start: {r.err[-300:]}", case=key)
        return None
    for s, (st, out, _), w in zip(srcs, r.result, want):
        ctx.traces += 1
        ctx.states += 1
        ctx.transitions += 1
        if w is None:
            continue
        if (st == "ok") != w or st == "crash":
            ctx.violation(f"{st}:{key}", f"{'a call that agrees with' if w else 'a call that does not agree with'} the specification in force is {'accepted' if st == 'ok' else st}", source=s, answer=out if st != "ok" else "\n".join(out))
            return None
    return r.result


def run_case(case, ctx):
    ctx.distinct(repr(case))
    globals()["run_" + case[0]](case, ctx)
    if ctx.n % 41 == 1:
        ctx.sample({"case": repr(case)[:300]})


def run_removed(case, ctx):
    n = case[1]
    names = list(calls())
    srcs = [calls()[x] for x in names]
    r = fresh(spec_of(ops(without=(n,))), "probe", [srcs])
    check_compiles(ctx, f"removed:{n}", r, srcs, [x != n for x in names])


def run_only(case, ctx):
    n = case[1]
    names = list(calls())
    srcs = [calls()[x] for x in names]
    r = fresh(spec_of(ops(names=(n,))), "probe", [srcs])
    check_compiles(ctx, f"only:{n}", r, srcs, [x == n or x in CORE for x in names])


def run_place(case, ctx):
    k = case[1]
    new = newop("xnew", "U", "U")
    spec = spec_of(ops(without=("sha256",)) + [new])
    names = list(calls())
    srcs = [calls()[x] for x in names] + [call_src("xnew", new)]
    b = json.dumps(spec).encode()
    local = k == "here"
    if k == "source":
        # the file lies next to the source, not in the working directory
        d = cli.new_tree({"src/langspec.json": b, "src/a.tl": srcs[-1].encode(), "src/b.tl": calls()["sha256"].encode()})
        for f, ok in (("a", False), ("b", True)):
            r = Server.get(cold=True).run(d, ["compile", f"src/{f}.tl"])
            if (r.status == 0) != ok:
                ctx.violation("place:source", "a specification next to the source changes what is accepted", file=f, out=r.out, err=r.err)
        cli.drop(d)
        d = cli.new_tree({"langspec.json": b, "src/a.tl": srcs[-1].encode(), "src/b.tl": calls()["sha256"].encode()})
        for f, ok in (("a", True), ("b", False)):
            r = Server.get(cold=True).run(d, ["compile", f"src/{f}.tl"])
            if (r.status == 0) != ok:
                ctx.violation("place:cwd", "the specification in the working directory is not used by the compile command", file=f, out=r.out, err=r.err)
        cli.drop(d)
        return
    if k == "none":
        r = fresh(None, "probe", [srcs])
    elif k == "here":
        r = fresh(spec, "probe", [srcs])
    elif k == "parent":
        r = fresh(None, "probe", [srcs], {"langspec.json": b, "w": None}, "w")
    else:
        r = fresh(None, "probe", [srcs], {"w/langspec.json": b})
    want = [x != "sha256" or not local for x in names] + [local]
    check_compiles(ctx, f"place:{k}", r, srcs, want)


TYPED = {"U": ("v_int", "7", "Txn.Fee"), "B": ("v_bytes", '"q"', "Txn.Sender")}


def fits(t, v):
    return t == "." or t == v


RETS = [""] + list("UB.") + ["".join(x) for x in product("UB", repeat=2)] + ["UBU"]


def emitted(lines, name, nargs, rets, imm):
    """executes the program with the opcode replaced by a recorder: operands of the call, immediates, values of the variables"""
    out, seen = [], []
    for l in lines:
        w = re.sub(r"\s*//.*", "", l).strip()
        if w.split(" ")[0] == name:
            seen.append(w.split()[1:])
            out += [f"store {200 + k}" for k in range(nargs)][::-1]
            out += ["pushint %d" % (70 + k) if t != "B" else 'pushbytes "r%d"' % k for k, t in enumerate(rets)]
        else:
            out.append(l)
    if len(seen) != 1 or seen[0] != imm:
        return f"emitted as {seen}"
    m = avm.execute(avm.assemble(out), avm.Env())
    if m.status != "accept":
        return f"the program does not finish: {m.fail}"
    return [m.scratch[200 + k] for k in range(nargs)], m.scratch


def run_added(case, ctx):
    """opcodes with these operands and every list of results"""
    _, args, imm = case
    defs = [newop(f"x{k}", args, r, imm) for k, r in enumerate(RETS)]
    srcs, want, show = [], [], []
    good_imm = {"": [], "u8": ["3"], "enum": ["FieldB"]}[imm]
    for o in defs:
        rets = o.get("Returns", "")
        if imm == "enum" and rets:
            rets = rets
        n = o["Name"]

        def put(names, e, ok, sh=None):
            srcs.append(PRE + (", ".join(names) + " = " if names else "") + e + "\nexit(1)\n")
            want.append(ok)
            show.append(sh)
        recv = [{"B": "v_bytes", "U": "v_int", ".": "v_int"}[t] for t in rets[::-1]]
        blank = ["_"] * len(rets)
        lits = ["11" if t != "B" else '"b%d"' % k for k, t in enumerate(args)]
        lits = [x if x != "11" else str(11 + k) for k, x in enumerate(lits)]
        dup = len(set(recv)) != len(recv)
        enum_typed = imm == "enum" and len(rets) == 1
        # the call as defined
        put(blank, f"{n}({', '.join(good_imm + lits)})", True, (o, lits, None))
        if not enum_typed:
            put(recv, f"{n}({', '.join(good_imm + lits)})", True, None if dup else (o, lits, recv))
        else:
            # the member selects the type of the only result
            put(["v_int"], f"{n}({', '.join(['FieldA'] + lits)})", True if rets in "U." else None)
            put(["v_bytes"], f"{n}({', '.join(['FieldB'] + lits)})", True if rets in "B." else None)
        # counts
        for k in range(0, len(args) + 3):
            if k != len(args):
                put(blank, f"{n}({', '.join(good_imm + (lits + ['1', '2'])[:k])})", False)
        if imm:
            put(blank, f"{n}({', '.join(lits)})", False if imm == "enum" or len(args) == 0 else None)
        if imm == "enum":
            put(blank, f"{n}({', '.join(['FieldC'] + lits)})", False)
            put(blank, f"{n}({', '.join(['0'] + lits)})", None)
        if imm == "u8":
            put(blank, f"{n}({', '.join(['300'] + lits)})", False)
            put(blank, f"{n}({', '.join(['v_int'] + lits)})", False)
        # operand types
        for k, t in enumerate(args):
            for v in ("U", "B"):
                for e in TYPED[v]:
                    put(blank, f"{n}({', '.join(good_imm + lits[:k] + [e] + lits[k + 1:])})", fits(t, v))
        # results
        if not enum_typed:
            for k in range(1, 4):
                if k != len(rets):
                    put(["_"] * k, f"{n}({', '.join(good_imm + lits)})", False)
            for k, t in enumerate(rets[::-1]):
                if t != ".":
                    put(blank[:k] + ["v_int" if t == "B" else "v_bytes"] + blank[k + 1:], f"{n}({', '.join(good_imm + lits)})", False)
        if rets:
            put([], f"{n}({', '.join(good_imm + lits)})", False)
        if len(rets) != 1:
            put(["v_int"], f"({n}({', '.join(good_imm + lits)}) + 1)", False)
    base = ops(names=("+",))
    r = fresh(spec_of(base + defs), "probe", [srcs])
    res = check_compiles(ctx, f"added:{args}:{imm}", r, srcs, want)
    if res:
        for s, (st, lines, _), sh in zip(srcs, res, show):
            if sh is None or st != "ok":
                continue
            o, lits, recv = sh
            rets = o.get("Returns", "")
            e = emitted(lines, o["Name"], len(args), rets, good_imm)
            vals = [int(x) if x[0] != '"' else x[1:-1].encode() for x in lits]
            if isinstance(e, str) or e[0] != vals:
                ctx.violation(f"emitted:{args}:{imm}", f"the call is not emitted once with its operands in order: {e if isinstance(e, str) else e[0]}", source=s, teal="\n".join(lines))
                return
            if recv:
                got = [70 + k if t != "B" else b"r%d" % k for k, t in enumerate(rets)][::-1]
                sc = e[1][:200]
                if any(g not in sc for g in got):
                    ctx.violation(f"results:{args}:{imm}", "the results do not reach the variables", source=s, teal="\n".join(lines))
                    return
    # the packaged specification has none of them
    r = fresh(None, "probe", [srcs])
    check_compiles(ctx, f"notadded:{args}:{imm}", r, srcs, [False] * len(srcs))


def run_changed(case, ctx):
    """all callable opcodes given other operands and results; the compiler must follow the file"""
    _, args, rets = case
    defs, srcs, want = [], [], []
    for o in ops():
        n = o["Name"]
        if n not in calls() or not re.fullmatch(r"[a-z]\w*", n) or o.get("ArgEnum") or n in CORE or avm.IMM.get(n) or n == "bzero":     # the compiler knows the width of its result
            continue
        o2 = dict(o)
        o2["Args"], o2["Returns"] = args, rets
        defs.append(o2)
        lits = [str(11 + k) if t != "B" else '"b"' for k, t in enumerate(args)]
        v = "v_bytes" if rets == "B" else "v_int"
        w = "v_int" if rets == "B" else "v_bytes"
        for name, e, ok in ((v, f"{n}({', '.join(lits)})", True), (w, f"{n}({', '.join(lits)})", False), (v, f"{n}({', '.join(lits + ['1'])})", False)):
            srcs.append(PRE + f"{name} = {e}\nexit(1)\n")
            want.append(ok)
        for other in ("", "U", "B", "UB", "BU", "BUB", "BB", "UU"):
            l2 = ", ".join("v_int" if t == "U" else "v_bytes" for t in other)
            srcs.append(PRE + f"{v} = {n}({l2})\nexit(1)\n")
            want.append(other == args)
    names = {d["Name"] for d in defs}
    r = fresh(spec_of([o for o in ops() if o["Name"] not in names] + defs), "probe", [srcs])
    check_compiles(ctx, f"changed:{args}:{rets}", r, srcs, want)


def run_fields(case, ctx):
    _, ns, how = case
    spec = spec_of(ops())
    users = {"txn": ("txn", "gtxn", "gtxns", "itxn", "gitxn"), "txna": ("txna", "gtxna", "gtxnsa", "itxna", "gitxna", "txnas", "gtxnas", "gtxnsas"), "global": ("global",), "itxn_field": ("itxn_field",)}[ns]
    byname = {o["Name"]: o for o in spec["Ops"]}
    scalar = [f for f in avm.TXN_FIELDS if f not in avm.TXNA_FIELDS]
    base = {"txn": scalar, "txna": list(avm.TXNA_FIELDS), "global": list(avm.GLOBAL_FIELDS), "itxn_field": list(avm.ITXN_SET)}[ns]
    enum0 = byname[users[0]].get("ArgEnum", [])
    types0 = byname[users[0]].get("ArgEnumTypes", "U" * len(enum0))
    t = dict(zip(enum0, types0))
    if how == "removed":
        gone = set(base[::3])
        new = [f for f in enum0 if f not in gone]
    elif how == "only":
        new = [f for f in enum0 if f == base[1]]
    else:
        new = list(enum0)
    typ = {f: t[f] for f in new}
    if how == "added":
        for f, x in (("NewInt", "U"), ("NewBytes", "B")):
            new.append(f)
            typ[f] = x
    if how == "typed":
        typ = {f: "B" if typ[f] == "U" else "U" for f in new}
    for u in users:
        if u in byname:
            byname[u]["ArgEnum"] = list(new)
            if "ArgEnumTypes" in byname[users[0]] or how in ("added", "typed"):
                byname[u]["ArgEnumTypes"] = "".join(typ[f] for f in new)
    if ns == "txna":
        # the field types of array fields are those of txn
        for u in ("txn", "gtxn", "gtxns", "itxn", "gitxn"):
            o = byname.get(u)
            if o and "ArgEnum" in o:
                e, ty = list(o["ArgEnum"]), o["ArgEnumTypes"]
                d = dict(zip(e, ty))
                d.update(typ)
                if how in ("removed", "only"):
                    d = {f: x for f, x in d.items() if f in typ or f not in avm.TXNA_FIELDS}
                o["ArgEnum"], o["ArgEnumTypes"] = list(d), "".join(d.values())
    srcs, want = [], []
    for f in base + ["NewInt", "NewBytes"]:
        x = typ.get(f)
        if ns == "itxn_field":
            srcs.append(PRE + f"inner_txn:\n    {f}: v_int\nend\nexit(1)\n")
            want.append(x is not None)
            continue
        if f == "Sender":
            continue            # its width is known to the compiler
        forms = {"txn": ["Txn.F", "Gtxn[0].F", "Gtxn[v_int].F", "Gtxn[+1].F", "Gtxn[-1].F", "Itxn.F"], "txna": ["Txn.F[0]", "Txn.F[v_int]", "Gtxn[0].F[0]", "Gtxn[v_int].F[v_int]", "Itxn.F[0]"], "global": ["Global.F"]}[ns]
        for form in forms:
            e = form.replace("F", f, 1) if not form.startswith(("Gtxn", "Itxn")) else form[:4] + form[4:].replace("F", f, 1)
            for d, k in (("int", "U"), ("bytes", "B")):
                srcs.append(PRE + f"{d} z = {e}\nexit(1)\n")
                want.append(x == k)
    r = fresh(spec, "probe", [srcs])
    check_compiles(ctx, f"fields:{ns}:{how}", r, srcs, want)


def subsets(n):
    return [c for k in range(n + 1) for c in combinations(range(n), k)]


def run_diff(case, ctx):
    _, base, n = case
    b = ops(names=()) if base == "core" else ops()
    rm = [o["Name"] for o in ops() if o["Name"] not in CORE][5:5 + 2 * n:2]
    subs = subsets(n)
    # specification k has the k-th subset of the extra opcodes (and lacks the packaged ones of the mirrored subset)
    specs, sets = [], []
    for c in subs:
        if base == "core":
            o = b + [newop(*EXTRA[i]) for i in c]
        else:
            o = [x for x in b if x["Name"] not in {rm[i] for i in c if i % 2}] + [newop(*EXTRA[i]) for i in c if not i % 2]
        specs.append(spec_of(o))
        sets.append({x["Name"] for x in o} | {"method"})
    # the same opcodes in another order and with other definitions
    specs.append(spec_of(list(reversed(specs[-1]["Ops"]))))
    sets.append(sets[-1])
    ch = copy.deepcopy(specs[0])
    for o in ch["Ops"]:
        if o["Name"] not in CORE:
            o["Args"], o["Returns"] = "U", "B"
    specs.append(ch)
    sets.append(sets[0])
    pairs = list(product(range(len(specs)), repeat=2))
    pk = {o["Name"] for o in packaged()["Ops"]} | {"method"}
    for local in (None, 0, len(specs) - 2):
        r = fresh(None if local is None else specs[local], "differences", [pairs, specs])
        if r.result is None:
            ctx.violation("crash:diff", r.err[-300:])
            return
        out, new, loc, active = r.result
        for (a, c), got in zip(pairs, out):
            ctx.traces += 1
            ctx.states += 1
            ctx.transitions += 1
            x, y = sorted(sets[a] - sets[c]), sorted(sets[c] - sets[a])
            if got != [x, y, y, len(x), len(y)]:
                ctx.violation(f"diff:{base}", f"the difference of two specifications is reported as {got[:3]} instead of {[x, y]}", a=sorted(sets[a])[:50], b=sorted(sets[c])[:50])
                return
        for k, g in enumerate(new):
            if g != sorted(sets[k] - pk):
                ctx.violation(f"newlocal:{base}", f"new opcodes reported as {g} instead of {sorted(sets[k] - pk)}")
                return
        if loc != (sorted(sets[local] - pk) if local is not None else []) or set(active) - {"method"} != (sets[local] if local is not None else pk) - {"method"}:
            ctx.violation(f"active:{base}", "the specification in force is not that of the working directory", local=local)


# ------------------------------------------------------------------ fetching
class Handler(http.server.BaseHTTPRequestHandler):
    def log_message(self, *a):
        pass

    def do_CONNECT(self):
        self.server.seen.append("CONNECT " + self.path)
        self.send_response(503)
        self.send_header("Content-Length", "0")
        self.end_headers()

    def do_GET(self):
        s = self.server
        s.seen.append(self.path)
        out, body = s.out, s.body
        if out == "redirect" and "moved" not in self.path:
            self.send_response(302)
            self.send_header("Location", "/moved/langspec.json")
            self.send_header("Content-Length", "0")
            self.end_headers()
            return
        if out in ("404", "500", "403", "503"):
            return self.reply(int(out), body)         # an error with a valid body is an error
        if out == "close":
            self.close_connection = True
            return
        if out in ("half", "most", "nearly"):
            self.send_response(200)
            self.send_header("Content-Length", str(len(body)))
            self.end_headers()
            self.wfile.write(body[: {"half": len(body) // 2, "most": len(body) - 40, "nearly": len(body) - 1}[out]])
            self.close_connection = True
            return
        if out == "chunkcut":
            self.protocol_version = "HTTP/1.1"
            self.send_response(200)
            self.send_header("Transfer-Encoding", "chunked")
            self.end_headers()
            self.wfile.write(b"%x\r\n" % len(body) + body[: len(body) // 2])
            self.close_connection = True
            return
        self.reply(200, body)

    def reply(self, code, t):
        self.send_response(code)
        self.send_header("Content-Type", "application/json")
        self.send_header("Content-Length", str(len(t)))
        self.end_headers()
        self.wfile.write(t)


_srv = {}


def server():
    pid = os.getpid()
    if pid not in _srv:
        s = http.server.ThreadingHTTPServer(("127.0.0.1", 0), Handler)
        s.daemon_threads = True
        threading.Thread(target=s.serve_forever, daemon=True).start()
        _srv[pid] = s
    s = _srv[pid]
    s.seen, s.out, s.body = [], "ok", b""
    return s


def new_spec():
    return spec_of(ops(without=("sha256", "+")) + [newop(*e) for e in EXTRA])


OLD = lambda: spec_of(ops(names=("len",)) + [newop("xold", "B", "U")])
PREV = {"absent": lambda: None, "small": lambda: json.dumps(OLD()).encode(), "pretty": lambda: json.dumps(new_spec(), indent=3).encode(), "long": lambda: json.dumps(packaged()).encode() + b" " * 5000}
BODIES = {"ok": lambda: json.dumps(new_spec()), "same": lambda: json.dumps(packaged()), "pretty": lambda: json.dumps(new_spec(), indent=2, sort_keys=True), "unicode": lambda: json.dumps(dict(new_spec(), Note="é日\u2028\x7f"), ensure_ascii=False),
          "core": lambda: json.dumps(spec_of(ops(names=())))}
BAD = {"notjson": "<html>", "empty": "", "list": "[]", "object": "{}", "null": "null", "string": '"x"', "cutjson": '{"Ops": [{"Name": "txn"', "noops": '{"Ops": []}', "badops": '{"Ops": [{}]}', "badop": '{"Ops": [1]}', "number": "3",
       "extra": "{} {}", "badargs": None, "noname": None, "opsnull": '{"Ops": null}'}
OUTCOMES = list(BODIES) + ["redirect", "404", "500", "403", "503", "close", "half", "most", "nearly", "chunkcut", "refused"] + ["bad:" + k for k in BAD]


def bad_body(k):
    if BAD[k] is not None:
        return BAD[k]
    s = new_spec()
    if k == "badargs":
        s["Ops"][-1]["Args"] = "XYZ"
    else:
        del s["Ops"][-1]["Name"]
    return json.dumps(s)


def setup(out):
    """(url, fetched specification or None when the fetch must fail)"""
    s = server()
    url = f"http://127.0.0.1:{s.server_address[1]}/spec/langspec.json"
    body = json.dumps(new_spec())
    good = new_spec()
    if out in BODIES:
        body = BODIES[out]()
        good = json.loads(body)
    elif out.startswith("bad:"):
        body, good = bad_body(out[4:]), None
    elif out == "refused":
        from .c24 import closed_port
        url, good = f"http://127.0.0.1:{closed_port()}/langspec.json", None
    elif out != "redirect":
        good = None
    s.out, s.body = (out if out not in BODIES and not out.startswith("bad:") else "ok"), body.encode()
    return s, url, good


def reported(text):
    """opcodes named by a report of signatures"""
    out = []
    for l in text.splitlines():
        m = re.match(r"(\w+)\(", l)
        if m:
            out.append(m.group(1))
            continue
        m = re.fullmatch(r"A (\S+) B", l) or re.fullmatch(r"(\S+)A", l)
        if m:
            out.append(m.group(1))
    return sorted(out)


def stored(d):
    p = os.path.join(d, "langspec.json")
    return open(p, "rb").read() if os.path.exists(p) else None


def loads(b):
    try:
        return json.loads(b.decode("utf8"))
    except (ValueError, AttributeError):
        return None


def others(d):
    return sorted(f for f in os.listdir(d) if f != "langspec.json")


def run_fetch(case, ctx):
    _, prev, out = case
    old = PREV[prev]()
    s, url, good = setup(out)
    key = f"fetch:{prev}:{out}"
    tree = {"keep.txt": b"k"}
    if old is not None:
        tree["langspec.json"] = old
    d = cli.new_tree(tree)
    try:
        r = Server.get(cold=True).run(d, ["langspec", "fetch", url], timeout=30)
        ctx.traces += 1
        ctx.states += 1
        ctx.transitions += 1
        now = stored(d)
        if others(d) != ["keep.txt"]:
            ctx.violation("litter:" + key, f"a fetch leaves {others(d)}")
        if good is None:
            if r.status == 0:
                ctx.violation("success:" + key, "a failed fetch reports success", out=r.out, err=r.err[-300:])
            if now != old:
                ctx.violation("lost:" + key, "a failed fetch changes the stored specification", before=repr(old)[:100], after=repr(now)[:300])
            if not (r.out + r.err).strip():
                ctx.violation("silent:" + key, "a failed fetch prints nothing")
            return
        if r.status != 0:
            ctx.violation("failed:" + key, f"a fetch fails: {r.err[-300:]}")
            return
        if loads(now) != good:
            ctx.violation("stored:" + key, "the stored specification is not the fetched one", after=repr(now)[:300])
            return
        pk = {o["Name"] for o in packaged()["Ops"]}
        new = sorted({o["Name"] for o in good["Ops"]} - pk)
        if reported(r.out) != new:
            ctx.violation("report:" + key, f"new opcodes reported as {reported(r.out)} instead of {new}", out=r.out)
        # the next process uses it
        names = list(calls())
        srcs = [calls()[x] for x in names] + [call_src(e[0], newop(*e)) for e in EXTRA]
        have = {o["Name"] for o in good["Ops"]}
        r = Server.get(cold=True).run(d, task="mc.checks.c22.probe", args=[srcs], timeout=60)
        check_compiles(ctx, key, r, srcs, [x in have for x in names + [e[0] for e in EXTRA]])
    finally:
        cli.drop(d)


GH = "https://github.com/algorand/go-algorand/"
# argument -> host, path that must be fetched (None: a local server, rewritten)
URLS = [("master", "github.com", r"/algorand/go-algorand/(raw|blob)/master/data/transactions/logic/langspec.json"), ("rel/stable", "github.com", r"/algorand/go-algorand/raw/rel/stable/data/transactions/logic/langspec.json"),
        (GH + "raw/v3/data/transactions/logic/langspec.json", "github.com", r"/algorand/go-algorand/raw/v3/data/transactions/logic/langspec.json"),
        (GH + "blob/v3/data/transactions/logic/langspec.json", "github.com", r"/algorand/go-algorand/raw/v3/data/transactions/logic/langspec.json"),
        ("https://example.org/blob/langspec.json", "example.org", r"/blob/langspec.json"), (None, "github.com", r"/algorand/go-algorand/raw/master/data/transactions/logic/langspec.json")]


def fetch_recorded(argv, body):
    """runs the command with a stand-in for the network; returns the requested addresses"""
    import requests
    seen = []

    def send(self, req, **kw):
        seen.append(req.url)
        r = requests.Response()
        r.status_code = 200
        r._content = body.encode()
        r.url = req.url
        r.request = req
        return r
    requests.adapters.HTTPAdapter.send = send
    from tealish.cli import cli as main
    try:
        main.main(args=argv, prog_name="tealish", standalone_mode=True)
    except SystemExit as e:
        return [e.code, seen]
    return [0, seen]


def run_urls(case, ctx):
    _, k, old = case
    arg, host, path = URLS[k]
    tree = {"langspec.json": json.dumps(OLD()).encode()} if old else {}
    argv = ["langspec", "fetch", arg] if arg else ["langspec", "update"]
    d = cli.new_tree(tree)
    try:
        r = Server.get(cold=True).run(d, task="mc.checks.c22.fetch_recorded", args=[argv, json.dumps(new_spec())], timeout=30)
        ctx.traces += 1
        ctx.states += 1
        ctx.transitions += 1
        if r.result is None or r.result[0] not in (0, None):
            ctx.violation(f"url:{k}", f"the fetch fails: {r.err[-300:]} {r.result}")
            return
        seen = r.result[1]
        from urllib.parse import urlsplit
        u = urlsplit(seen[0]) if len(seen) == 1 else None
        if u is None or u.netloc != host or not re.fullmatch(path, u.path):
            ctx.violation(f"url:{k}", f"fetched {seen} for {arg}")
        elif loads(stored(d)) != new_spec():
            ctx.violation(f"url:{k}", "the stored specification is not the fetched one")
    finally:
        cli.drop(d)


def run_clidiff(case, ctx):
    """the diff command: local = extra opcodes a (None: no file), remote = extra opcodes b (None: no address given)"""
    _, a, b = case
    pk = {o["Name"] for o in packaged()["Ops"]}
    mk = lambda c: spec_of([o for o in ops() if o["Name"] not in ("sha256", "b+")[: len(c)]] + [newop(*EXTRA[i]) for i in c])
    s = server()
    local = None if a is None else mk(a)
    remote = None if b is None else mk(b)
    d = cli.new_tree({} if local is None else {"langspec.json": json.dumps(local).encode()})
    try:
        before = cli.snapshot(d)
        argv = ["langspec", "diff"]
        if remote is not None:
            s.body = json.dumps(remote).encode()
            argv.append(f"http://127.0.0.1:{s.server_address[1]}/x.json")
        r = Server.get(cold=True).run(d, argv, timeout=30)
        ctx.traces += 1
        ctx.states += 1
        ctx.transitions += 1
        lset = pk if local is None else {o["Name"] for o in local["Ops"]}
        want = sorted(({o["Name"] for o in remote["Ops"]} - lset) if remote is not None else (lset - pk))
        if r.status != 0 or reported(r.out) != want:
            ctx.violation("clidiff", f"the diff command reports {reported(r.out)} instead of {want}", local=a, remote=b, out=r.out, err=r.err[-300:])
        if cli.snapshot(d) != before:
            ctx.violation("clidiff:writes", "the diff command changes files")
    finally:
        cli.drop(d)


def run_fault(case, ctx):
    _, prev, mode, errno = case
    old = PREV[prev]()
    new = new_spec()
    k, n = 0, 1
    while k < n:
        s, url, good = setup("ok")
        tree = {"keep.txt": b"k"}
        if old is not None:
            tree["langspec.json"] = old
        d = cli.new_tree(tree)
        try:
            r = Server.get(cold=True).run(d, ["langspec", "fetch", url], prefix=d, k=k, mode=mode, errno=errno, timeout=30)
            ctx.traces += 1
            ctx.states += 1
            ctx.transitions += 1
            if r.n is not None:
                n = max(n, r.n)
            elif k == 0 and n == 1:
                n = 40
            now = stored(d)
            key = f"fault:{prev}:{mode}:{errno}:{k}"
            killed = r.status == 99
            isnew = loads(now) == new if now is not None else False
            if not (now == old or isnew):
                ctx.violation("torn:" + key, "a fault during a fetch leaves neither the old nor the new specification", after=repr(now)[:200], trace=r.trace)
                return
            if r.status == 0 and not isnew:
                ctx.violation("success:" + key, "the fetch reports success but the file does not hold the fetched specification", trace=r.trace)
                return
            if not killed and r.status != 0 and mode in ("fail", "short", "fail-from") and now != old:
                ctx.violation("lost:" + key, "a failed fetch changes the stored specification", trace=r.trace)
                return
            if open(os.path.join(d, "keep.txt"), "rb").read() != b"k":
                ctx.violation("other:" + key, "a fetch changes another file")
            if killed and k and r.n is None and k > 40:
                return
        finally:
            cli.drop(d)
        k += 1
