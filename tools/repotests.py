"""The repository's own test files as jobs."""
import glob, os, subprocess
from vlib import *

_cache = {}


def load(name):
    p = os.path.join(REPO, "tests", name)
    if p not in _cache:
        try:
            with open(p, encoding="latin1") as f:
                _cache[p] = pall(f.read())
        except (SxError, OSError):
            _cache[p] = None
    return _cache[p]


def includes(cmds):
    for c in cmds:
        if c[0] == "l" and len(c[1]) >= 2 and c[1][0] in (["s", "include"], ["s", "reference"]) and c[1][1][0] == "str":
            yield "/".join(c[1][1][2])


def closure(name):
    out, todo = [], [name]
    while todo:
        n = os.path.normpath(todo.pop())
        if n in out:
            continue
        c = load(n)
        if c is None:
            if n == name:
                return None
            continue
        out.append(n)
        todo += includes(c)
    return out


def uses(a, ns):
    if a[0] in ("s", "qs"):
        return a[1] in ns
    return a[0] == "l" and any(uses(x, ns) for x in a[1])


# terms of exponential size as trees
TOO_LARGE = {"pf-substitution-large.eo"}


def test_names():
    return sorted(f for f in os.listdir(os.path.join(REPO, "tests"))
                  if (f.endswith(".eo") or f.endswith(".smt2")) and f not in TOO_LARGE)


def test_job(name, cmds=None, **kw):
    cl = closure(name)
    if cl is None:
        return None
    files = [(["t", n], load(n)) for n in cl[1:]]
    return job(cmds if cmds is not None else load(name), main="sig" if name.endswith(".eo") else "proof",
               files=files, mainpath=["t", name], tag=name, **kw)
