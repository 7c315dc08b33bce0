"""Written syntax: text <-> the syntax trees of spec/EoElab.tla."""
import re
from fractions import Fraction

SYM0 = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ~!@$%^&*_-+=<>.?/")
SYMC = SYM0 | set("0123456789:")
RESERVED = {"!", "par", "Bool", "eo::define"}


def big(n):
    s = (n > 0) - (n < 0)
    n = abs(n)
    out = [s]
    while n:
        out.append(n % 10000)
        n //= 10000
    return out


def unbig(b):
    n = 0
    for l in reversed(b[1:]):
        n = n * 10000 + l
    return b[0] * n


def S(n): return ["s", n]
def K(n): return ["k", n]
def Z(n): return ["z", big(n)]
def frac(f): return [big(f.numerator), big(f.denominator)]
def Q(n, d=1): return ["q", frac(Fraction(n, d))]
def D(x): return ["d", frac(Fraction(x))]
def B(bits): return ["b", [int(c) for c in bits]]
def X(h): return ["x", [int(c) for d in h for c in format(int(d, 16), "04b")]]
def STR(s): return ["str", [ord(c) for c in s], pathcomps(s)]
def L(*xs): return ["l", list(xs)]


def pathcomps(s):
    if not all(32 <= ord(c) < 127 for c in s):
        return ["?"]
    r = []
    if s.startswith("/"):
        r.append("/")
    return r + s.split("/")


class SxError(Exception):
    pass


def unescape(s):
    """code points of the text between the quotes ("" already undone)"""
    out = []
    i = 0
    while i < len(s):
        if s[i] != "\\":
            out.append(ord(s[i])); i += 1; continue
        j = i + 1
        ok = False
        if j < len(s) and s[j] == "u":
            j += 1
            if j < len(s) and s[j] == "{":
                k = j + 1
                while k < len(s) and s[k] in "0123456789abcdefABCDEF":
                    k += 1
                if k < len(s) and s[k] == "}" and 1 <= k - j - 1 <= 5:
                    v = int(s[j+1:k], 16)
                    if v < 196608:
                        ok = True; e = k + 1
            else:
                h = s[j:j+4]
                if len(h) == 4 and all(c in "0123456789abcdefABCDEF" for c in h):
                    v = int(h, 16); ok = True; e = j + 4
        if ok:
            out.append(v); i = e
        else:
            out.append(ord("\\")); i += 1
    return out


def classify(tok):
    """syntax tree of a symbol-like token"""
    if tok[0] == "-" and len(tok) >= 2:
        body = tok[1:]
        for sep, k in (("", "z"), (".", "d"), ("/", "q")):
            if sep == "":
                if body.isdigit():
                    return number("z", tok)
            elif body.count(sep) == 1:
                a, b = body.split(sep)
                if a.isdigit() and b.isdigit():
                    return number(k, tok)
    return ["s", tok]


def number(k, tok):
    if k == "z":
        return ["z", big(int(tok))]
    if k == "d":
        return ["d", frac(Fraction(tok))]
    n, d = tok.split("/")
    if int(d) == 0:
        return ["bad"]
    return ["q", frac(Fraction(int(n), int(d)))]


def tokens(text):
    i, n, line = 0, len(text), 1
    while True:
        while i < n and text[i] in " \t\r\n":
            line += text[i] == "\n"; i += 1
        if i >= n:
            return
        c = text[i]
        if c == ";":
            while i < n and text[i] != "\n":
                i += 1
            continue
        st = line
        if c in "()":
            yield c, st; i += 1
        elif c == "|":
            j = text.find("|", i+1)
            if j < 0:
                raise SxError("unterminated quoted symbol")
            line += text.count("\n", i, j)
            yield ["qs", text[i+1:j]], st; i = j + 1
        elif c == '"':
            j = i + 1
            buf = []
            while True:
                if j >= n:
                    raise SxError("unterminated string")
                if text[j] == '"':
                    if j + 1 < n and text[j+1] == '"':
                        buf.append('"'); j += 2; continue
                    break
                buf.append(text[j]); j += 1
            line += "".join(buf).count("\n")
            raw = "".join(buf)
            yield ["str", unescape(raw), pathcomps(raw)], st; i = j + 1
        elif c == "#":
            j = i + 2
            cs = "01" if text[i+1:i+2] == "b" else "0123456789abcdefABCDEF" if text[i+1:i+2] == "x" else None
            if cs is None:
                raise SxError("#")
            while j < n and text[j] in cs:
                j += 1
            if j == i + 2:
                raise SxError("#")
            yield (B(text[i+2:j]) if cs == "01" else X(text[i+2:j])), st; i = j
        elif c == ":":
            j = i + 1
            while j < n and text[j] in SYMC:
                j += 1
            if j == i + 1 or text[i+1] not in SYM0:
                raise SxError(":")
            yield ["k", text[i:j]], st; i = j
        elif c.isdigit():
            j = i
            while j < n and text[j].isdigit():
                j += 1
            k = "z"
            if j < n and text[j] in "./":
                k = "d" if text[j] == "." else "q"
                j0 = j = j + 1
                while j < n and text[j].isdigit():
                    j += 1
                if j == j0:
                    raise SxError("number")
            yield number(k, text[i:j]), st; i = j
        elif c in SYM0:
            j = i + 1
            while j < n and text[j] in SYMC:
                j += 1
            yield classify(text[i:j]), st; i = j
        else:
            raise SxError("character %r" % c)


def parse(text):
    """[(tree, first line, last line)]"""
    out, stack = [], []
    for t, ln in tokens(text):
        if t == "(":
            stack.append(([], ln))
        elif t == ")":
            if not stack:
                raise SxError("unbalanced )")
            items, l0 = stack.pop()
            if stack:
                stack[-1][0].append(["l", items])
            else:
                out.append((["l", items], l0, ln))
        elif stack:
            stack[-1][0].append(t)
        else:
            out.append((t, ln, ln))
    if stack:
        raise SxError("unbalanced (")
    return out


def p1(text):
    return parse(text)[0][0]


def pall(text):
    return [c[0] for c in parse(text)]


def strtext(codes):
    return "".join('""' if c == 34 else chr(c) if 32 <= c <= 126 and c != 92 else "\\u{%x}" % c for c in codes)


class Unwritable(Exception):
    pass


def dec_text(n, d):
    """decimal text of n/d"""
    k = 0
    while (n * 10**k) % d:
        k += 1
        if k > 60:
            raise Unwritable()
    v = n * 10**k // d
    s = str(abs(v)).rjust(k + 1, "0")
    ip, fp = (s[:-k], s[-k:]) if k else (s, "0")
    return ("-" if v < 0 else "") + ip + "." + fp


def unname(n):
    """the characters of a name; a tab and two hexadecimal digits stand for a character that is not printable"""
    return re.sub("\t([0-9a-f][0-9a-f])", lambda m: chr(int(m.group(1), 16)), n)


def render(a):
    k = a[0]
    if k == "l":
        return "(" + " ".join(render(x) for x in a[1]) + ")"
    if k == "s":
        return a[1]
    if k == "qs":
        if a[1] and a[1][0] in SYM0 and all(c in SYMC for c in a[1]) and a[1] not in RESERVED \
                and a[1] not in ("let", "Type") and classify(a[1])[0] == "s":
            return a[1]
        if "|" in a[1]:
            raise Unwritable()
        return "|" + unname(a[1]) + "|"
    if k == "k":
        return a[1]
    if k == "z":
        return str(unbig(a[1]))
    if k == "q":
        return "%d/%d" % (unbig(a[1][0]), unbig(a[1][1]))
    if k == "d":
        return dec_text(unbig(a[1][0]), unbig(a[1][1]))
    if k == "b":
        return "#b" + "".join(map(str, a[1]))
    if k == "x":
        if len(a[1]) % 4 or not a[1]:
            raise Unwritable()
        return "#x" + "".join(format(int("".join(map(str, a[1][i:i+4])), 2), "x") for i in range(0, len(a[1]), 4))
    if k == "str":
        return '"' + strtext(a[1]) + '"'
    if k == "raw":
        return a[1]
    if k == "txt":
        return "".join(map(chr, a[1]))
    raise Unwritable()


def writable(a):
    try:
        render(a)
        return True
    except Unwritable:
        return False


def names(a, acc):
    if a[0] in ("s", "qs"):
        acc.add(a[1])
    elif a[0] == "l":
        for x in a[1]:
            names(x, acc)
