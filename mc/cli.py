"""Shared by the checks of the command line tools: scratch trees, snapshots, expected outputs."""
import itertools
import os
import shutil
import stat

from . import h
from .cliserver import Server, scratch

_n = itertools.count()


def new_tree(files):
    """files: relative path -> bytes | None (folder) | ("link", target) | (bytes, mode)"""
    d = os.path.join(scratch(), f"t{next(_n)}")
    os.mkdir(d)
    for rel, c in files.items():
        p = os.path.join(d, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if c is None:
            os.makedirs(p, exist_ok=True)
        elif isinstance(c, tuple) and c[0] == "link":
            os.symlink(c[1], p)
        else:
            mode = None
            if isinstance(c, tuple):
                c, mode = c
            with open(p, "wb") as f:
                f.write(c)
            if mode is not None:
                os.chmod(p, mode)
    return d


def drop(d):
    if d.startswith(scratch() + "/t"):
        shutil.rmtree(d)


def snapshot(d):
    out = {}
    for root, dirs, files in os.walk(d):
        for n in dirs + files:
            p = os.path.join(root, n)
            rel = os.path.relpath(p, d)
            st = os.lstat(p)
            if stat.S_ISLNK(st.st_mode):
                out[rel] = ("link", os.readlink(p))
            elif stat.S_ISDIR(st.st_mode):
                out[rel] = ("dir",)
            else:
                out[rel] = ("file", open(p, "rb").read(), stat.S_IMODE(st.st_mode))
    return out


def text_of(data):
    """what a text reader sees, or None when it is not text"""
    try:
        return data.decode("utf-8").replace("\r\n", "\n").replace("\r", "\n")
    except UnicodeDecodeError:
        return None


_compiled = {}


def compiled(data):
    """(expected TEAL bytes, lines, map) or None when the source is refused"""
    if data not in _compiled:
        t = text_of(data)
        r = None
        if t is not None:
            st, a, m = h.try_compile(t)
            if st == "ok":
                r = ("\n".join(list(a) + [""]).encode(), a, m)
        _compiled[data] = r
    return _compiled[data]


_formatted = {}


def formatted(data):
    if data not in _formatted:
        t = text_of(data)
        r = None
        if t is not None:
            try:
                r = h.guarded(h.T().reformat_program, t).encode()
            except (h.Refused, h.Crashed):
                r = None
        _formatted[data] = r
    return _formatted[data]


def inspected(data):
    t = text_of(data)
    if t is None:
        return None
    try:
        return h.guarded(h.T().inspect_program, t)
    except (h.Refused, h.Crashed):
        return None


def stem(name):
    return name[:-3] if name.endswith(".tl") else name


def server(cold=False):
    return Server.get(cold)


V1 = b"#pragma version 8\nint x = 1\nassert(x, \"no x\")\nexit(x)\n"
V2 = ("#pragma version 8\n\n# comment \u00e9\n" + "".join(f"const bytes C{i:03d} = \"value \u00fc {i}\"\n" for i in range(160)) + "int v\n" + "".join(f"v = v + len(C{i:03d})\n" for i in range(160))
      + "if v:\n    log(\"\u4f60\u597d // x\")\nend\nexit(1)\n").encode()
MESSY = b"#pragma version 8\nint  x = 1\n"
UNFMT = b"#pragma version 8\nstruct A:\n  a: int\n     b: int\nend\nint x = (1   +  2)\n# c\nif x:\nlog( \"a\" )\n   end\nexit( x )"
PARSE_ERR = b"#pragma version 8\nint x = = 1\nexit(1)\n"
COMPILE_ERR = b"#pragma version 8\nint x = y\nexit(1)\n"
BADUTF8 = b"#pragma version 8\n# \xff\xfe\nexit(1)\n"
CRLF = V1.replace(b"\n", b"\r\n")
NOEOL = V1.rstrip(b"\n")
EMPTY = b""
FORMATTED = b"#pragma version 8\n\nint x = 1\nexit(x)\n"
BADLATE = V2 + b"nonsense nonsense\n"
