"""Common pieces of generated scripts."""
from sx import *

PROBE_RULE = "(declare-rule $probe ((x Bool)) :args (x x) :conclusion true)\n"
PROBE_RULE += "(declare-rule $copy ((x Bool)) :premises (x) :conclusion x)\n"

LITS = """
(declare-const Int Type)
(declare-const Real Type)
(declare-const String Type)
(declare-const Q Type)
(declare-const H Type)
(declare-const BitVec (-> Int Type))
(declare-consts <numeral> Int)
(declare-consts <decimal> Real)
(declare-consts <rational> Q)
(declare-consts <string> String)
(declare-consts <binary> (BitVec (eo::len eo::self)))
(declare-consts <hexadecimal> H)
"""


def ev(t, types=True):
    """directive that asks for the value (and type) of t"""
    if isinstance(t, str):
        t = p1(t)
    return ["l", [["s", "?eval"], t] + ([["s", "t"]] if types else [])]


def proves(n):
    return ["l", [["s", "?proves"], ["s", n]]]


def chunks(xs, n):
    xs = list(xs)
    return [xs[i:i+n] for i in range(0, len(xs), n)]


def app(f, *args):
    return ["l", [f if isinstance(f, list) else ["s", f]] + list(args)]
