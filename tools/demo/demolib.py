"""Helpers of the demonstrations: compile with the tealish package of the current directory, execute with the AVM model."""
import contextlib
import io
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.getcwd())
import avm          # noqa: E402
import tealish      # noqa: E402
from tealish.errors import CompileError, ParseError     # noqa: E402,F401

assert os.path.realpath(tealish.__file__).startswith(os.path.realpath(os.getcwd())), tealish.__file__


def compiled(src):
    return tealish.compile_program(src)


def run(src, **env):
    lines, _ = compiled(src)
    m = avm.execute(avm.assemble(list(lines)), avm.Env(**env))
    return m


def logs(src, **env):
    m = run(src, **env)
    return m.status, m.value, [e[1] for e in m.effects if e[0] == "log"]


def accepted(src):
    try:
        compiled(src)
        return True
    except (CompileError, ParseError):
        return False
