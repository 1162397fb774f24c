"""C15: compiling, formatting and inspecting depend only on the source text.  Every sequence of calls, every interleaving of the steps of
several compilers and every word of calls on one compiler is executed from a pristine process and compared with the answer a pristine
process gives to the single call; inspection is compared with the layout computed from the declarations."""
import contextlib
import gc
import glob
import importlib
import io
import os
import pickle
import re
import subprocess
import sys
import threading
from itertools import combinations, permutations, product

from ..h import T
from .. import avm, catalog, runner

ID = "C15"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive exploration of histories: every sequence of API calls over a corpus of interfering programs, every interleaving of the steps of two "
             "and three compilers, every word of method calls on one compiler, every single preemption of one thread by another, strided walks over a corpus of every statement form, opcode, field and library call in which items follow each other in every order; each history runs from a "
             "forked pristine process and every answer is compared with the answer in isolation; inspection is compared with every bounded struct layout")
NOTE = ("Complete for call sequences of length 2 over the whole corpus and length 3 over its interfering core (thorough: 3 and 4), all interleavings of 2 compilers "
        "x 4 steps and 3 compilers x 2 steps, words of up to 4 (thorough 5) methods, strided walks over 727 calls (quick: 20 strides; thorough: all of them, so that every ordered pair of calls is adjacent once), hash seeds 0..7, struct layouts of up to 3 fields.")
RULE = "histories (sequences, interleavings, words, preemption points) x programs; distinct = distinct histories; states = calls executed"
ASSUMPTIONS = ["a forked child of a process that imported tealish but handled no program is pristine (validated against fresh interpreters over hash seeds)",
               "object addresses in messages are not part of an answer"]

H = "#pragma version 8\n"
S_A = "struct S:\n    a: int\n    b: bytes[4]\nend\n"
S_B = "struct S:\n    b: bytes[8]\n    c: uint8\n    a: int\nend\n"
PROGS = {
    "SA": H + S_A + 'S s = bzero(12)\ns.a = 3\nlog(s.b)\nbox<S> x = OpenBox("k")\nx.a = s.a\nexit(x.a)\n',
    "SB": H + S_B + 'S s = bzero(17)\ns.a = 3\nlog(s.b)\nbox<S> x = OpenBox("k")\nx.a = s.a\nlog(itob(s.c))\nexit(x.a)\n',
    "useS": H + "S s = bzero(12)\ns.a = 3\nlog(s.b)\nexit(1)\n",
    "useboxS": H + 'box<S> x = OpenBox("k")\nexit(x.a)\n',
    "Tonly": H + "struct T:\n    s: bytes[2]\nend\nT s = bzero(2)\nlog(s.s)\nexit(1)\n",
    "parsefail": H + S_B + "int x = 1\nif x:\n    log(itob(x))\n",
    "procfail": H + S_B + 'S s = bzero(17)\nint x = "a"\nexit(1)\n',
    "fieldfail": H + S_A + "S s = bzero(12)\ns.zz = 1\nexit(1)\n",
    "labelfail": H + "struct S:\n    a: int\nend\nteal:\n    l:\n    l:\nend\nexit(1)\n",
    "group": H + "const int X = 1\ninner_group:\n    inner_txn:\n        Fee: X\n    end\nend\nexit(f(X))\nfunc f(a: int) int:\n    return a\nend\n",
    "single": H + 'const bytes X = "x"\ninner_txn:\n    Note: X\nend\nint r = f(X, 2)\nexit(r)\nfunc f(a: bytes, b: int) int:\n    int r = b + 1\n    return r + len(a)\nend\n',
    "router": H + 'router:\n    m\n    n\nend\n@public()\nfunc m(a: int) bytes:\n    assert(a, "no a")\n    return itob(a)\nend\n@public(OnCompletion=OptIn)\nfunc n():\n    log("n")\n    return\nend\n',
    "loops": H + 'int x = 1\nwhile x < 3:\n    for _ in 0:2:\n        if x:\n            x = x + 1\n        elif not x:\n            x = 0\n        end\n    end\nend\nassert(x, "msg")\nassert(x)\njump e\nblock e:\n    exit(x)\nend\n',
    "unknown": H + 'log(nosuch("a"))\nexit(1)\n',
    "event": H + 'const int X = 2\nlog(ARC28Event("E(uint64)", itob(X)))\nbytes[4] y = Cast("abcd", bytes[4])\nlog(Rpad(y, 9))\nexit(1)\n',
    "empty": "",
    "badstruct": H + "struct S:\n    a: nosuchtype\nend\nexit(1)\n",
    "dupstruct": H + S_A + S_B + "exit(1)\n",
    "two": H + S_A + "struct T:\n    x: bytes[3]\n    y: uint8\nend\nT t = bzero(4)\nS s = bzero(12)\ns.b = Cast(concat(t.x, \"a\"), bytes[4])\nexit(s.a)\n",
    "funcs": H + 'int q = g(1)\nexit(q)\nfunc g(x: int) int:\n    for i in 0:x:\n        x = x + i\n    end\n    int a, int b = addw(x, 1)\n    return h(x)\nend\nfunc h(x: int) int:\n    return x\nend\n'.replace("    int a, int b = addw(x, 1)\n", "    int a\n    int b\n    a, b = addw(x, 1)\n"),
    "noprag": "# c\nint x = 1\n\nexit(x)\n",
}
CORE = ("SA", "SB", "useS", "parsefail", "procfail", "labelfail", "group", "single", "router")
CORE3 = ("SA", "SB", "useS", "procfail", "labelfail", "group", "single")
APIS = ("compile", "reformat", "inspect")


def bank():
    """a wide corpus: every statement form, every opcode (accepted and with its results declared of the wrong types or discarded), every
    field, every function of the standard library, valid and not"""
    out = {}
    decl = {"U": "int", "B": "bytes", ".": "int"}
    wrong = {"U": "bytes", "B": "int", ".": "bytes"}
    lit = {"U": "1", "B": '"ab"', ".": '"ab"'}

    def add(name, body):
        out[name] = H + body + "exit(1)\n"
    for n in catalog.STMTS:
        out["stmt " + n] = catalog.program(catalog.inst(catalog.STMTS[n], 1))
    for n, o in avm.OPS.items():
        if not re.fullmatch("[a-z][a-z_0-9]*", n) or n in ("func", "if", "while", "for", "end", "switch", "match", "return"):
            continue
        im = {"ecdsa_verify": ["Secp256k1"], "ecdsa_pk_decompress": ["Secp256k1"], "ecdsa_pk_recover": ["Secp256k1"], "gtxn": ["0", "Sender"], "gitxn": ["0", "Sender"], "gtxna": ["0", "ApplicationArgs", "0"],
              "gitxna": ["0", "ApplicationArgs", "0"], "gtxnas": ["0", "ApplicationArgs"], "gitxnas": ["0", "ApplicationArgs"], "itxnas": ["ApplicationArgs"], "base64_decode": ["StdEncoding"], "json_ref": ["JSONUint64"],
              "vrf_verify": ["VrfAlgorand"], "block": ["BlkTimestamp"]}.get(n, [])
        if not im and o.get("ArgEnum"):
            im.append(o["ArgEnum"][0])
        im += ["0"] * ((o["Size"] or 1) - 1 - len(im))
        e = n + "(" + ", ".join(im + [lit[t] for t in o.get("Args", "")]) + ")"
        rs = o.get("Returns", "")
        if len(rs) > 1:
            vs = [f"v{i}" for i in range(len(rs))]
            d = lambda ts: "".join(f"{t} {v}\n" for t, v in zip(ts, vs))
            good = [decl[t] for t in rs]
            add(f"op {n}", d(good) + ", ".join(vs) + f" = {e}\n")
            add(f"op {n} discard", ", ".join("_" for _ in vs) + f" = {e}\n")
            for i in range(len(rs)):
                add(f"op {n} wrong{i}", d(good[:i] + [wrong[rs[i]]] + good[i + 1:]) + ", ".join(vs) + f" = {e}\n")
                add(f"op {n} discard{i}", d(good) + ", ".join("_" if k == i else v for k, v in enumerate(vs)) + f" = {e}\n")
        elif rs:
            add(f"op {n}", f"{decl[rs]} v = {e}\n")
            add(f"op {n} wrong", f"{wrong[rs]} v = {e}\n")
            if o.get("Args"):
                add(f"op {n} args", f"{decl[rs]} v = " + n + "(" + ", ".join(im + [lit["B" if t == "U" else "U"] for t in o["Args"]]) + ")\n")
        else:
            add(f"op {n}", e + "\n")
    some = ("Sender", "Fee", "Type", "OnCompletion", "NumAppArgs", "LastLog")
    for f in some:
        for t in ("int", "bytes"):
            add(f"txn {f} {t}", f"{t} v = Txn.{f}\n{t} w = Gtxn[0].{f}\n")
            add(f"itxn {f} {t}", f"inner_txn:\n    {f}: Txn.{f}\nend\n{t} v = Itxn.{f}\n")
    for f in ("MinTxnFee", "ZeroAddress", "GroupSize", "CreatorAddress"):
        for t in ("int", "bytes"):
            add(f"global {f} {t}", f"{t} v = Global.{f}\n")
    for i, e in enumerate(('Rpad("ab", 5)', "Rpad(1, 5)", 'Lpad("ab", 4)', "SizeOf(S)", "SizeOf(Q)", "Cast(1, uint8)", 'Cast("ab", bytes[2])', 'Cast("ab", S)', "Convert(1, bytes[3])", 'Convert("ab", int)', 'Concat("a", "b")',
                           'FromBytes("a", int)', "ToBytes(1, bytes[2])", 'ARC28Event("e(uint64)", "x")', "Address(\"x\")", 'Method("m()void")', "Txn.ApplicationArgs[0]", "Gtxn[1].Sender", "(1 + 2) * 3", '"a" b+ "b"', "!1", "~1", "NoOp", "KA", '"a" + 1', "bzero(3)", "f(1)")):
        for t in ("int", "bytes", "bytes[3]", "uint8"):
            add(f"expr {i} {t}", "struct S:\n    a: bytes[2]\nend\nconst int KA = 3\n" + f"{t} v = {e}\n")
    return out


ALL = dict(PROGS)
BANK = bank()
ALL.update(BANK)


def items():
    """(api, program); their number is prime, so that the multiples of every stride visit all of them"""
    its = [("compile", n) for n in ALL] + [("reformat", n) for n in ALL if n in PROGS or n.startswith("stmt")] + [("inspect", n) for n in PROGS]
    k = len(its)
    while any(k % d == 0 for d in range(2, int(k ** 0.5) + 1)):
        k -= 1
    return its[:k]


def families(tier):
    q = tier == "quick"
    return [("seq2", {"shards": 64, "core": tuple(PROGS)}), ("seq3", {"shards": 64, "core": CORE3 if q else tuple(PROGS)}),
            ("seq4", {"shards": 64, "core": () if q else ("SA", "SB", "useS", "procfail", "labelfail", "group")}), ("steps2", {"shards": 64, "all": not q}),
            ("steps3", {"shards": 64, "progs": ("SA", "SB", "procfail") if q else CORE}), ("words", {"shards": 64, "n": 4 if q else 5}),
            ("threads", {"shards": 64, "all": not q}), ("seeds", {"shards": 8}), ("strides", {"shards": 64, "k": 10 if q else len(items())}), ("lists", {}), ("layouts", {"shards": 64, "n": 3 if q else 4})]


def cases(fam, p):
    ops = lambda c: list(product(APIS, c))
    if fam == "seq2":
        for a in ops(p["core"]):
            yield ("seq", (a,), ops(p["core"]))
    elif fam == "seq3":
        for a in product(ops(p["core"]), repeat=2):
            yield ("seq", a, ops(p["core"]))
    elif fam == "seq4":
        for a in product(ops(p["core"]), repeat=3):
            yield ("seq", a, ops(p["core"]))
    elif fam == "steps2":
        for a, b in product(PROGS, repeat=2):
            if p["all"] or a in CORE3 and b in CORE3:
                yield ("steps2", a, b)
    elif fam == "steps3":
        for t in product(p["progs"], repeat=3):
            yield ("steps3",) + t
    elif fam == "words":
        for a in PROGS:
            for first in product(METHODS, repeat=2):
                yield ("words", a, first, p["n"] if a in CORE or p["n"] > 4 else p["n"] - 1)
    elif fam == "threads":
        for a, b in product(PROGS if p["all"] else ("SA", "SB", "useS", "procfail"), repeat=2):
            for api in APIS if p["all"] else APIS[:1]:
                yield ("threads", api, a, b)
    elif fam == "seeds":
        for s in range(8):
            yield ("seeds", s)
    elif fam == "strides":
        n = len(items())
        for k in sorted({k for d in range(1, min(p["k"], n // 2) + 1) for k in (d, n - d)}):
            yield ("strides", k)
    elif fam == "lists":
        for a in PROGS:
            yield ("lists", a)
    elif fam == "layouts":
        types = ("int", "uint8", "uint64", "bytes[1]", "bytes[4]", "bytes[32]", "addr") if p["n"] == 3 else ("int", "uint8", "uint64", "bytes[1]", "bytes[0]", "bytes[300]", "addr")
        for n in range(1, p["n"] + 1):
            for ts in product(types, repeat=n):
                yield ("layouts", ts)


# ------------------------------------------------------------------ answers
def norm(x):
    return re.sub(r"0x[0-9a-f]{6,}", "0x", str(x))


def answer(f):
    """the observable answer of a call, standard output included"""
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        try:
            r = ("ok", f())
        except Exception as e:
            r = (type(e).__name__, norm(e))
    return r + (out.getvalue(),)


def maps(m):
    d = m.as_dict()
    return (sorted(d.get("teal_tealish", {}).items()), sorted(d.get("errors", {}).items()), sorted(d.get("pc_teal", {}).items()))


def spoil(x):
    """a caller may do what it likes with its answer"""
    if isinstance(x, list):
        x.append("spoilt")
    elif isinstance(x, dict):
        for v in list(x.values()):
            spoil(v)
        x["spoilt"] = 1
    elif isinstance(x, tuple):
        for v in x:
            spoil(v)
    elif hasattr(x, "as_dict"):
        x.teal_tealish[999999] = 7
        x.errors[7] = "spoilt"


def call(api, name):
    t = T()
    src = ALL[name]

    def f():
        if api == "compile":
            r = t.compile_program(src)
            v = (list(r[0]), maps(r[1]))
        elif api == "reformat":
            r = v = t.reformat_program(src)
        else:
            r = t.inspect_program(src)
            v = repr(r)
        spoil(r)
        return v
    return answer(f)


def in_child(f):
    """f() in a forked copy of this (pristine) process"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            data = pickle.dumps(f())
        except BaseException as e:
            data = pickle.dumps(("child failed", repr(e)))
        with os.fdopen(w, "wb") as fh:
            fh.write(data)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


def patterns():
    """the regular expressions used by handling the corpus, found in a child: compiling them here changes nothing but speed"""
    def f():
        for n in ALL:
            for api in APIS:
                call(api, n)
        return [(k[1], k[2]) for k in re._cache]
    return in_child(f)


_ready = []


def worker_init():
    if _ready:
        return
    _ready.append(1)
    T()
    for f in sorted(glob.glob(os.path.join(runner.REPO, "tealish", "*.py"))):
        m = os.path.basename(f)[:-3]
        if not m.startswith("__"):
            try:
                importlib.import_module("tealish." + m)
            except ImportError:
                pass
    for p, fl in patterns():
        try:
            re.compile(p, fl)
        except Exception:
            pass
    gc.collect()
    gc.freeze()


_base = {}


def baseline(api, name):
    T()
    if (api, name) not in _base:
        _base[api, name] = in_child(lambda: call(api, name))
    return _base[api, name]


def shared_baselines(its):
    """the baselines of many items, each computed by one of the workers of this run"""
    d = os.environ.get("VERIF_SCRATCH")
    T()
    if d:
        at = os.getpid() * 97 % len(its)
        for i in list(range(at, len(its))) + list(range(at)):
            o = its[i]
            if o in _base:
                continue
            p = os.path.join(d, f"base{i}")
            if not os.path.exists(p):
                with open(f"{p}.{os.getpid()}", "wb") as fh:
                    pickle.dump(baseline(*o), fh)
                os.rename(f"{p}.{os.getpid()}", p)
            with open(p, "rb") as fh:
                _base[o] = pickle.load(fh)
    return [baseline(*o) for o in its]


_steps = {}


def alone(name):
    """answers of each step of a compiler alone in a pristine process"""
    if name not in _steps:
        T()
        _steps[name] = in_child(lambda: [s for s in run_steps([name], [0] * len(STEPS))])
    return _steps[name]


STEPS = ("parse", "process", "compile", "rest")


def step(c, k):
    if k == "parse":
        return answer(lambda: c.parse() and None)
    if k == "process":
        return answer(lambda: c.process() and None)
    if k == "compile":
        return answer(lambda: list(c.compile()))
    if k == "rest":
        return answer(lambda: (maps(c.get_map()), c.reformat(), sorted((n, s.size, [(f, str(x.tealish_type), x.offset, x.size) for f, x in s.fields.items()]) for n, s in c.get_structs().items())))


def run_steps(names, order):
    cs = [T().TealishCompiler(PROGS[n].split("\n")) for n in names]
    at = [0] * len(names)
    out = []
    for i in order:
        out.append(step(cs[i], STEPS[at[i]]))
        at[i] += 1
    return out


METHODS = ("parse", "process", "compile", "reformat", "get_map", "get_structs")


def run_words(name, words):
    """for every word the answers of its calls on one compiler"""
    res = []
    for w in words:
        c = T().TealishCompiler(PROGS[name].split("\n"))
        out = []
        for m in w:
            if m in ("parse", "process"):
                out.append(answer(lambda: getattr(c, m)() and None))
            elif m == "compile":
                out.append(answer(lambda: list(c.compile())))
            elif m == "reformat":
                out.append(answer(c.reformat))
            elif m == "get_map":
                out.append(answer(lambda: maps(c.get_map())))
            else:
                out.append(answer(lambda: sorted(c.get_structs())))
        res.append(out)
    return res


class Preempt(Exception):
    pass


def threaded(api, a, b, point):
    """answers of a and b when thread b runs entirely at the point-th call inside thread a; None when there is no such point"""
    res = {}
    n = [0]
    pkg = os.path.join(runner.REPO, "tealish") + os.sep

    def tr(frame, event, arg):
        if event == "call" and frame.f_code.co_filename.startswith(pkg) and frame.f_code.co_name != "<module>":
            n[0] += 1
            if n[0] == point:
                t = threading.Thread(target=lambda: res.__setitem__("b", raw(api, b)))
                t.start()
                t.join(10)      # unless it waits for something thread a holds
                res["t"] = t
        return None
    sys.settrace(tr)
    try:
        res["a"] = raw(api, a)
    finally:
        sys.settrace(None)
    if "t" in res:
        res.pop("t").join(30)
    return res, n[0]


def raw(api, name):
    t = T()
    try:
        src = PROGS[name]
        if api == "compile":
            r = t.compile_program(src)
            return ("ok", (list(r[0]), maps(r[1])), "")
        return ("ok", t.reformat_program(src) if api == "reformat" else repr(t.inspect_program(src)), "")
    except Exception as e:
        return (type(e).__name__, norm(e), "")


def interleavings(counts):
    def go(left, acc):
        if not any(left):
            yield tuple(acc)
            return
        for i, k in enumerate(left):
            if k:
                left[i] -= 1
                acc.append(i)
                yield from go(left, acc)
                acc.pop()
                left[i] += 1
    yield from go(list(counts), [])


SIZES = {"int": 8, "uint64": 8, "uint8": 1, "addr": 32}


def size_of(t):
    return SIZES[t] if t in SIZES else int(t[6:-1])


def run_case(case, ctx):
    kind = case[0]
    if kind == "seq":
        _, prefix, lasts = case
        def tree():
            """the prefix once, then every last call in a copy of the process"""
            first = [call(*o) for o in prefix]
            return first, [in_child(lambda: call(*o)) for o in lasts]
        first, gots = in_child(tree)
        for last, g in zip(lasts, gots):
            seq = prefix + (last,)
            ctx.traces += 1
            ctx.states += 1
            ctx.transitions += 1
            ctx.distinct(repr(seq))
            for o, y in zip(seq, first + [g]):
                x = baseline(*o)
                if x != y:
                    ctx.violation(f"seq:{seq}", f"the answer of {o} depends on the calls before it", history=repr(seq), source=PROGS[o[1]], alone=repr(x)[:2000], actual=repr(y)[:2000])
                    return
    elif kind == "steps2":
        _, a, b = case
        wa, wb = alone(a), alone(b)
        for order in interleavings((len(STEPS), len(STEPS))):
            got = in_child(lambda: run_steps([a, b], order))
            check_steps(ctx, (a, b), order, (wa, wb), got)
            if len(ctx.violations) > 5:
                return
    elif kind == "steps3":
        names = case[1:]
        ws = [alone(n) for n in names]
        for order in interleavings((3, 3, 3) if ctx.tier == "thorough" else (2, 2, 2)):
            got = in_child(lambda: run_steps(list(names), order))
            check_steps(ctx, names, order, ws, got)
            if len(ctx.violations) > 5:
                return
    elif kind == "words":
        _, name, first, n = case
        base = {"compile": baseline("compile", name), "reformat": baseline("reformat", name)}
        al = alone(name)
        words = [first + w for k in range(0, n - 1) for w in product(METHODS, repeat=k)]
        for w, got in zip(words, in_child(lambda: run_words(name, words))):
            ctx.traces += 1
            ctx.states += len(w)
            ctx.transitions += len(w)
            check_word(ctx, name, w, got, base, al)
        ctx.distinct(repr(case))
    elif kind == "threads":
        _, api, a, b = case
        wa, wb = baseline(api, a), baseline(api, b)
        n = in_child(lambda: threaded(api, a, b, 0))[1]
        step_ = max(1, n // 30) if ctx.tier == "quick" else 1
        for p in range(1, n + 1, step_):
            res, _ = in_child(lambda: threaded(api, a, b, p))
            ctx.traces += 1
            ctx.states += 2
            ctx.transitions += 2
            ctx.distinct(f"{case}{p}")
            if res.get("a") != wa or res.get("b") != wb:
                ctx.violation(f"threads:{case}:{p}", f"two threads handling {a} and {b} disturb each other (thread 2 runs at call {p} of thread 1)", alone=repr((wa, wb))[:2000], actual=repr(res)[:2000])
                return
    elif kind == "seeds":
        seed = case[1]
        ops = [(api, n) for api in APIS for n in PROGS]
        want = [baseline(*o) for o in ops]
        code = ("import sys, pickle; sys.path[:0] = [%r, %r]; from mc.checks import c15; T = c15.T; T();"
                "sys.stdout.buffer.write(pickle.dumps([c15.in_child(lambda o=o: c15.call(*o)) for o in %r]))" % (runner.REPO, runner.VERIF, ops))
        env = dict(os.environ, PYTHONHASHSEED=str(seed), PYTHONDONTWRITEBYTECODE="1")
        p = subprocess.run([sys.executable, "-c", code], capture_output=True, env=env, cwd=runner.VERIF)
        got = pickle.loads(p.stdout)
        for o, x, y in zip(ops, want, got):
            ctx.traces += 1
            ctx.states += 1
            ctx.transitions += 1
            if x != y:
                ctx.violation(f"seeds:{seed}:{o}", f"the answer of {o} depends on the hash seed", alone=repr(x)[:2000], actual=repr(y)[:2000])
    elif kind == "strides":
        # every ordered pair of items is adjacent in exactly one of these histories
        its = items()
        n, k = len(its), case[1]
        order = [i * k % n for i in range(n + 1)]
        want = shared_baselines(its)

        def walk():
            for pos, i in enumerate(order):
                g = call(*its[i])
                if g != want[i]:
                    return pos, g
        r = in_child(walk)
        ctx.traces += 1
        ctx.states += len(order)
        ctx.transitions += len(order)
        ctx.distinct(repr(case))
        if r:
            pos, g = r
            o = its[order[pos]] if pos != "child failed" else None
            ctx.violation(f"strides:{k}", f"the answer of {o} depends on the calls before it", history=repr([its[i] for i in order[:pos]][-12:]) if o else "", source=ALL[o[1]] if o else "", alone=repr(want[order[pos]])[:2000] if o else "", actual=repr(g)[:2000])
    elif kind == "lists":
        name = case[1]
        want = baseline("compile", name)

        def f():
            lines = PROGS[name].split("\n")
            copy = list(lines)
            c1, c2 = T().TealishCompiler(lines), T().TealishCompiler(lines)
            r = [answer(lambda c=c: list(c.compile())) for c in (c1, c2, c1)]
            return lines == copy, r
        same, r = in_child(f)
        ctx.traces += 1
        if not same or any(x[0] != want[0] or (x[1] != want[1][0] if x[0] == "ok" else x[1] != want[1]) for x in r):
            ctx.violation(f"lists:{name}", "compilers sharing a list of source lines disturb each other", actual=repr(r)[:2000])
    elif kind == "layouts":
        ts = case[1]
        fields = [("f%d" % i, t) for i, t in enumerate(ts)]
        rev = fields[::-1]
        src = H + "struct Aa:\n" + "".join(f"    {n}: {t}\n" for n, t in fields) + "end\nstruct B_1:\n" + "".join(f"    {n}: {t}\n" for n, t in rev) + "end\nexit(1)\n"
        a = in_child(lambda: answer(lambda: T().inspect_program(src)))
        ctx.distinct(src)
        ctx.traces += 1
        ctx.states += 2 * len(ts)
        ctx.transitions += 2 * len(ts)
        if a[0] != "ok":
            ctx.rejected += 1
            # a layout that is refused by compiling may be refused by inspection
            if "bytes[0]" not in ts:
                ctx.violation(f"layouts:{ts}", f"inspection refuses a valid program: {a}", source=src)
            return
        want = {}
        for n, fs in (("Aa", fields), ("B_1", rev)):
            off = 0
            d = {}
            for f, t in fs:
                d[f] = (t, size_of(t), off)
                off += size_of(t)
            want[n] = (off, d)
        got = {n: (s["size"], {f: (v["type"], v["size"], v["offset"]) for f, v in s["fields"].items()}) for n, s in a[1]["structs"].items()}
        alias = lambda t: "int" if t in ("int", "uint64") else t
        ok = list(got) == list(want) and all(got[n][0] == want[n][0] and list(got[n][1]) == list(want[n][1]) for n in want)
        ok = ok and all(got[n][1][f][1:] == want[n][1][f][1:] and alias(got[n][1][f][0]) == alias(want[n][1][f][0]) for n in want for f in want[n][1])
        if not ok:
            ctx.violation(f"layouts:{ts}", f"inspection reports {got} instead of {want}", source=src)
    if ctx.n % 47 == 1:
        ctx.sample({"case": repr(case)[:300]})


def check_steps(ctx, names, order, alone_, got):
    ctx.traces += 1
    ctx.states += len(order)
    ctx.transitions += len(order)
    ctx.distinct(repr((names, order)))
    at = [0] * len(names)
    for i, g in zip(order, got):
        w = alone_[i][at[i]]
        if g != w:
            ctx.violation(f"steps:{names}:{order}", f"step {STEPS[at[i]]} of the compiler of {names[i]} depends on the steps of others", history=repr([(names[k], ) for k in order]), source=PROGS[names[i]], alone=repr(w)[:2000], actual=repr(g)[:2000])
            return
        at[i] += 1


def check_word(ctx, name, w, got, base, al):
    """compile and reformat answer like the functions whatever was called before on the same compiler"""
    bc, bf = base["compile"], base["reformat"]
    compiled = False
    for k, (m, g) in enumerate(zip(w, got)):
        bad = None
        if m == "compile":
            bad = g[0] != bc[0] or g[2] != "" or g[1] != (bc[1][0] if bc[0] == "ok" else bc[1])
            compiled = g[0] == "ok"
        elif m == "reformat":
            bad = g[0] != bf[0] or g[2] != "" or (g[1].strip() + "\n" if g[0] == "ok" else g[1]) != bf[1]
        elif m == "get_map":
            # the map of a compiler that compiled is the map of the program; parsing again may forget it
            if compiled and bc[0] == "ok" and "parse" not in w[w.index("compile"):k]:
                bad = g[0] != "ok" or g[1] != bc[1][1]
        elif m == "parse":
            bad = g != al[0]
        elif m == "get_structs":
            if compiled and "parse" not in w[w.index("compile"):k]:
                bad = g != ("ok", [s[0] for s in al[3][1][2]], "")
        if bad:
            ctx.violation(f"words:{name}:{w[:k + 1]}", f"{m} answers differently after {w[:k]} on the same compiler", source=PROGS[name], actual=repr(g)[:2000], alone=repr(base.get(m, al))[:2000])
            return
