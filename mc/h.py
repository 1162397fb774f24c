"""Shared machinery of the checks: compile with the real compiler, assemble and execute with the
AVM model, compare with the reference interpreter, and enumerate environment choices exhaustively."""
import contextlib
import io
import signal

from . import avm, ref

_t = None


def T():
    """the tealish package under test (imported lazily, from TEALISH_REPO)"""
    global _t
    if _t is None:
        import tealish
        _t = tealish
    return _t


def errors():
    from tealish.errors import CompileError, ParseError
    return (CompileError, ParseError)


class Refused(Exception):
    def __init__(self, exc):
        self.exc = exc
        Exception.__init__(self, f"{type(exc).__name__}: {str(exc)[:300]}")


class Crashed(Exception):
    """an exception that is neither of the two documented errors, or a hang"""

    def __init__(self, exc):
        self.exc = exc
        Exception.__init__(self, f"{type(exc).__name__}: {str(exc)[:300]}")


class Hang(BaseException):
    pass


def _alarm(signum, frame):
    raise Hang()


_hangs = 0


def guarded(f, *a, limit=10):
    """runs f, classifying exceptions: Refused (documented), Crashed (everything else, incl. hangs)"""
    global _hangs
    if _hangs >= 2:
        limit = 1          # a violation is established: finish the enumeration quickly
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        return f(*a)
    except errors() as e:
        signal.setitimer(signal.ITIMER_REAL, 0)
        raise Refused(e) from None
    except Hang:
        _hangs += 1
        signal.setitimer(signal.ITIMER_REAL, 0)
        raise Crashed(TimeoutError(f"no result after {limit} s")) from None
    except RecursionError as e:
        signal.setitimer(signal.ITIMER_REAL, 0)
        raise Crashed(e) from None
    except Exception as e:
        signal.setitimer(signal.ITIMER_REAL, 0)
        raise Crashed(e) from None
    except SystemExit as e:
        signal.setitimer(signal.ITIMER_REAL, 0)
        raise Crashed(e) from None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def compile_lines(src, limit=10):
    """(teal lines, TealishMap)"""
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        lines, m = guarded(T().compile_program, src, limit=limit)
    return list(lines), m


def try_compile(src, limit=10):
    """('ok', lines, map) | ('refused', exc, None) | ('crash', exc, None)"""
    try:
        lines, m = compile_lines(src, limit)
        return "ok", lines, m
    except Refused as e:
        return "refused", e.exc, None
    except Crashed as e:
        return "crash", e.exc, None


class Chooser:
    """one path of the choice tree"""

    def __init__(self, prefix, limit, forced):
        self.prefix, self.limit, self.forced = prefix, limit, forced
        self.log = []      # (chosen, alternatives)

    def choose(self, n, forced=0):
        i = len(self.log)
        if i < len(self.prefix):
            c = self.prefix[i]
        elif i < self.limit:
            c = 0
        else:
            return forced
        self.log.append((c, n))
        return c


def next_prefix(log):
    log = list(log)
    while log:
        c, n = log.pop()
        if c + 1 < n:
            return [x for x, _ in log] + [c + 1]
    return None


def explore(run, limit):
    """run(chooser) for every choice sequence of at most `limit` choices"""
    prefix = []
    while prefix is not None:
        ch = Chooser(prefix, limit, 0)
        run(ch)
        prefix = next_prefix(ch.log)


def cond_oracle(ch, vals=(0, 1)):
    """`balance(k)` is a nondeterministic condition; beyond the choice limit it yields k % 2"""

    def oracle(m, op, imm, args):
        if op == "balance":
            return [vals[ch.choose(len(vals), args[0] % 2)]]
        return None
    return oracle


def cond(k, neg=0):
    return ref.Op("balance", [ref.Int(2 * k + (1 if neg else 0))])


def describe(m):
    o = avm.outcome(m)
    return repr(o)[:900] + (f"  [{m.fail}]" if m.fail else "")


def same(r, m):
    """reference and implementation behave alike"""
    if r.status == "budget" or m.status == "budget":
        k = min(len(r.effects), len(m.effects))
        return r.status == m.status and r.effects[:k] == m.effects[:k]
    return avm.outcome(r) == avm.outcome(m)


class Unit:
    """a reference program compiled by the implementation"""

    def __init__(self, prog, ctx, key=None, expect="ok", limit=10):
        self.prog, self.ctx = prog, ctx
        self.src = prog.source()
        self.key = key or self.src
        self.asm = None
        ctx.distinct(self.src)
        st, a, b = try_compile(self.src, limit)
        self.status = st
        if st != "ok":
            self.exc = a
            if expect == "ok":
                ctx.violation(("refused:" if st == "refused" else "crash:") + self.key,
                              f"a valid program is {'refused' if st == 'refused' else 'not compiled'}: {type(a).__name__}: {str(a)[:200]}",
                              source=self.src)
            return
        self.lines, self.map = a, b
        if expect != "ok":
            ctx.violation("accepted:" + self.key, "a program that must be refused is accepted", source=self.src,
                          teal="\n".join(self.lines))
            return
        try:
            self.asm = avm.assemble(self.lines)
        except avm.AsmError as e:
            ctx.violation("asm:" + self.key, f"emitted TEAL does not assemble: {e}", source=self.src,
                          teal="\n".join(self.lines))

    def check(self, env, what="behaviour differs from the source", max_ticks=3000, max_steps=20000, ref_env=None):
        """one environment"""
        if self.asm is None:
            return False
        r = ref.run_ref(self.prog, ref_env or env, max_ticks)
        m = avm.execute(self.asm, env, max_steps)
        self.r, self.m = r, m
        ctx = self.ctx
        ctx.traces += 1
        ctx.transitions += m.steps
        ctx.states += m.steps + 1
        if not same(r, m):
            ctx.violation("run:" + self.key, what, source=self.src, expected=describe(r), actual=describe(m),
                          env=repr((env.args, env.fields, env.group_index)), teal="\n".join(self.lines))
            return False
        return True

    def check_dfs(self, limit, vals=(0, 1), oracle_of=cond_oracle, what="behaviour differs from the source",
                  stop=True, env=None, **kw):
        """every choice sequence of at most `limit` nondeterministic conditions"""
        if self.asm is None:
            return
        prefix = []
        env = env or {}
        while prefix is not None:
            c1 = Chooser(prefix, limit, 0)
            c2 = Chooser(prefix, limit, 0)
            ok = self.check(avm.Env(oracle=oracle_of(c2, vals), **env),
                            ref_env=avm.Env(oracle=oracle_of(c1, vals), **env), what=what, **kw)
            if not ok and stop:
                return
            prefix = next_prefix(c1.log)


def run_teal(lines, env, max_steps=20000):
    return avm.execute(avm.assemble(lines), env, max_steps)
