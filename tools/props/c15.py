"""C15: literals and tokens, read character by character (EoLex)."""
from gen import *
from repotests import *
import itertools
import mc

PRE = PROBE_RULE + """
(declare-const Int Type)
(declare-const Real Type)
(declare-const String Type)
(declare-const Q Type)
(declare-const H Type)
(declare-const BitVec (-> Int Type))
(declare-consts <numeral> Int)
(declare-consts <decimal> Real)
(declare-consts <rational> Q)
(declare-consts <string> String)
(declare-consts <binary> (BitVec (eo::len eo::self)))
(declare-consts <hexadecimal> H)
"""
INC = '(include "pre.eo")'
NUMC = "01./-"
BITC = "bx012aAFg#"
STRC = "\\u{}04f1g\""
SYMC = "a|:-1@.; \n\x00\xff\t!"
# what the value of a literal is, by the operators: category, parts
CATS = ["(eo::is_z %s)", "(eo::is_q %s)", "(eo::is_bin %s)", "(eo::is_str %s)", "(eo::is_neg %s)", "(eo::to_q %s)", "(eo::to_z %s)", "(eo::add %s %s)", "(eo::neg %s)", "(eo::len %s)", "(eo::eq %s %s)", "(eo::mul %s 2)", "(eo::mul %s 8/3)", "(eo::and %s %s)", "(eo::concat %s %s)",
        "(eo::add %s 1/1)", "(eo::add %s 1)", "(eo::extract %s 0 1)", "(eo::extract %s 1 2)", "(eo::to_bin 8 %s)", "(eo::to_str %s)"]
STRS = ["(eo::len %s)", "(eo::to_z (eo::extract %s 0 0))", "(eo::to_z (eo::extract %s 1 1))", "(eo::to_z (eo::extract %s 2 2))", "(eo::concat %s %s)", "(eo::find %s \"u\")", "(eo::eq %s (eo::concat %s \"\"))", "(eo::extract %s 1 100)"]
CONF = [dict(num=a, dec=b, hex=c) for a in (False, True) for b in (False, True) for c in (False, True)]
SEPS = [" ", "\n", "\t", "\r", "\r\n", "  ", " ; comment ( \" |\n", ";\n", ";;;)\n ", "\t;\xff\x00|\n"]


def prejob(cmds, main, **kw):
    """main: sig, proof, stdin (through an included signature), or the class of an included file"""
    return job(pall(INC) + cmds, main=main, files=[(["t", "pre.eo"], PRE)] + list(kw.pop("files", [])), **kw)


def words(alpha, n):
    for k in range(n + 1):
        for w in itertools.product(alpha, repeat=k):
            yield "".join(w)


def value_items(rng, toks, ops, nops):
    """commands that define each token's value under a name, and look at it"""
    out = []
    for k, w in enumerate(toks):
        ob = rng.sample(ops, nops)
        out.append([txt("(define @%d () %s)" % (k, w)), txtev("@%d" % k)] + [txtev(o.replace("%s", "@%d" % k)) for o in ob] + ([txtev(w)] if rng.random() < .3 else []))
    return out


def pack(rng, items, tag, n=10, configs=True):
    js = []
    for i in range(0, len(items), n):
        its = items[i:i+n]
        cls = rng.choice(["sig", "proof", "proof", "stdin", "incl", "ref"]) if configs else "sig"
        opt = rng.choice(CONF) if configs and rng.random() < .75 else {}
        cmds = [c for it in its for c in it]
        if cls in ("incl", "ref"):
            # the definitions in a file (one that is rejected spoils the file: each in its own), looked at from a proof
            files, main = [], []
            for k, it in enumerate(its):
                fn = "f%d.%s" % (k, "eo" if cls == "incl" else "smt2")
                d = [c for c in it if len(c) == 2]
                files.append((["t", fn], d))
                main.append(p1('(%s "%s")' % ("include" if cls == "incl" else "reference", fn)))
                main += [c for c in it if len(c) == 3]
            if cls == "ref":        # only the first reference counts
                files = [(["t", "f.smt2"], [c for it in its for c in it if len(c) == 2])]
                main = pall('(reference "f.smt2")') + [c for it in its for c in it if len(c) == 3]
            js.append(prejob(main, "proof", files=files, opt=opt, tag="%s-%s-%d" % (tag, cls, i)))
        else:
            js.append(prejob(cmds, cls, opt=opt, tag="%s-%s-%d" % (tag, cls, i)))
    return js


def rnd_num(rng):
    d = lambda lo, hi: "".join(rng.choice("0123456789" if rng.random() < .8 else "09") for _ in range(rng.randint(lo, hi)))
    return rng.choice(["", "", "-"]) + d(1, rng.choice([2, 5, 12, 25, 45])) + rng.choice(["", ".", "/", ".", "/", "x", ". ", "e1", "-", ".-", "//", ".."]) + d(0, rng.choice([2, 5, 22, 40]))


def rnd_hex(rng):
    return "#" + rng.choice("bbbxxxBX") + "".join(rng.choice("01" if rng.random() < .7 else "0123456789abcdefABCDEF_g") for _ in range(rng.choice([0, 1, 3, 4, 8, 16, 33, 64])))


def esc(rng):
    k = rng.random()
    h = lambda lo, hi: "".join(rng.choice("0123456789abcdefABCDEF" if rng.random() < .6 else "0012") for _ in range(rng.randint(lo, hi)))
    if k < .3:
        return "\\u{%s}" % h(0, 6)
    if k < .55:
        return "\\u%s" % h(3, 5)
    if k < .7:
        return rng.choice(["\\u{110000}", "\\u{2FFFF}", "\\u{30000}", "\\u{2ffff}", "\\u{00041}", "\\u{000041}", "\\u{0}", "\\u0000", "\\uFFFF", "\\uffff", "\\u{}", "\\u{ }", "\\u", "\\", "\\\\", "\\\\u0041", "\\u{41", "\\u{4g}", "\\u004", "\\U0041", "\\x41", "\\n", "\\u{41}}", "\\u{{41}", "\\u00e9", "\\u{41\\u{42}}", "\\u004\\u0041", "\\\"\""])
    return rng.choice(["a", "Z", " ", "\"\"", "\t", "\n", "\x00", "\x01", "\x7f", "}", "{", "u", "0", "/", "|", ";", "(", ")", "#", "~", "\r"] + (["\x80", "\xff", "\xc3\xa9"] if rng.random() < .2 else []))


def rnd_str(rng):
    return '"' + "".join(esc(rng) for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))) + '"'


def rnd_sym(rng):
    if rng.random() < .5:
        return "|" + "".join(rng.choice("ab1 ;\"()\\\n\t\x00\xff\x80:#.{u" + "|" * (rng.random() < .05)) for _ in range(rng.choice([0, 1, 2, 4]))) + "|"
    return "".join(rng.choice("ab10-+./*=%?!$_~&^<>@:" + "'`,[]{}\\\x7f\xff" * (rng.random() < .1)) for _ in range(rng.choice([1, 1, 2, 3, 4])))


def symbol_items(toks):
    """declare the symbol, then look at it: as written, quoted, its name and the name's length"""
    out = []
    for k, w in enumerate(toks):
        it = [txt("(declare-const %s Bool)" % w)]
        it += [txtev(w), txtev("(eo::len (eo::nameof %s))" % w), txtev("(eo::eq %s true)" % w)]
        if not w.startswith("|") and "|" not in w:
            it.append(txtev("|%s|" % w))
        elif len(w) > 2 and w[0] == w[-1] == "|":
            it.append(txtev(w[1:-1]))
        out.append(it)
    return out


def respace(rng, s):
    """the same tokens with other white space and comments between them"""
    out, i = [], 0
    while i < len(s):
        c = s[i]
        if c in '"|':
            j = i + 1
            while s[j] != c or (c == '"' and s[j+1:j+2] == '"'):
                j += 2 if s[j] == c else 1
            out.append(s[i:j+1]); i = j + 1
        elif c in "()":
            out.append(rng.choice(["", rng.choice(SEPS)]) + c + rng.choice(["", "", rng.choice(SEPS)])); i += 1
        elif c == " ":
            out.append(rng.choice(SEPS)); i += 1
        else:
            out.append(c); i += 1
    return "".join(out)


def batches(ctx):
    thorough = ctx["tier"] == "thorough"
    rng = ctx["rng"]
    cut = lambda xs, n: xs if thorough or len(xs) <= n else rng.sample(xs, n)
    # 0. the reading of characters on its own
    yield mc.check_spec("EoLexMC", {"EO_LEN": "5" if thorough else "4"})
    # 1. every token over a small alphabet: the states of EoLexMC
    nums = [w for w in words(NUMC, 5 if thorough else 4) if w]
    bits = ["#" + w for w in words(BITC, 4 if thorough else 3)]
    yield pack(rng, value_items(rng, cut(nums, 450), CATS, 2), "number")
    # well-formed numbers of every shape
    ints, fracs = ["0", "1", "00", "01", "10", "7", "4294967296", "00000000000000000000001"], ["0", "5", "05", "50", "00", "125", "1", "3", "18446744073709551616", "0000000001"]
    well = [sg + i + sep + f for sg in ("", "-") for i in ints for sep in "./" for f in fracs] + [sg + i for sg in ("", "-") for i in ints]
    if not thorough:
        well = [w for w in well if rng.random() < (.8 if w[0] == "-" and w.strip("-").startswith("0") else .5)]
    for _ in range(1 if not thorough else 6):
        rng.shuffle(well)
        yield pack(rng, value_items(rng, well, CATS, 2), "wellformed")
    yield pack(rng, value_items(rng, cut(bits, 450), CATS, 2), "bits")
    strs = [w for w in words(STRC, 4 if thorough else 3)]
    yield pack(rng, value_items(rng, ['"%s"' % w for w in cut(strs, 350)], STRS, 2), "string")
    esch = ["\\u{" + w for w in words("04f}g", 5 if thorough else 3)] + ["\\u" + w for w in words("04fg", 5 if thorough else 4)]
    yield pack(rng, value_items(rng, ['"%s"' % w for w in cut(esch, 250)], STRS, 2), "escape")
    syms = [w for w in words(SYMC, 3) if w]
    yield pack(rng, symbol_items(cut(syms, 350)), "symbol", configs=False, n=8)
    # 2. long tokens
    n = 300 if not thorough else 6000
    yield pack(rng, value_items(rng, [rnd_num(rng) for _ in range(n)], CATS, 3), "longnum")
    yield pack(rng, value_items(rng, [rnd_hex(rng) for _ in range(n // 3)], CATS[2:4] + CATS[5:12] + CATS[13:15] + CATS[17:19], 3), "longbits")
    yield pack(rng, value_items(rng, [rnd_str(rng) for _ in range(n)], STRS, 3), "longstr")
    yield pack(rng, symbol_items([rnd_sym(rng) for _ in range(n // 2)]), "longsym", configs=False, n=8)
    # 3. one value spelled in different ways, under every setting and in every class of files
    js = []
    same = [["1", "01", "2/2", "1.0", "-0", "0", "0.0", "0/5", "#b0001", "#x1", "#b1", "#x01"], ["1.5", "3/2", "1.50", "15/10", "-1.5", "-3/2", "-15/10", "6/4"], ["#xA", "#xa", "#b1010", "10", "10/1", "10.0", "#x0a"],
            ['"A"', '"\\u{41}"', '"\\u0041"', '"\\u{00041}"', '"\\u{041}"', '"a"', '"\\u{61}"'], ['"\\\\u{41}"', '"\\u{5c}u{41}"', '"\\"', '"\\u005c"'], ['""""', '"\\u{22}"', '"\'"'], ["-12", "-12/1", "-12.0", "-24/2", "-012", "-12.00"]]
    for g in same:
        for conf in (CONF if thorough else rng.sample(CONF, 4)):
            for main in ("sig", "proof", "stdin"):
                cmds = []
                for k, w in enumerate(g):
                    cmds.append(txt("(define @%d () %s)" % (k, w)))
                for k in range(len(g)):
                    cmds.append(txtev("@%d" % k))
                    for k2 in range(k):
                        cmds.append(txtev("(eo::eq @%d @%d)" % (k, k2)))
                js.append(prejob(cmds, main, opt=conf, tag="same"))
    yield js
    # 4. white space, comments, positions: programs of the repository and commands spaced differently
    js = []
    src = [n for n in test_names()]
    for nme in (rng.sample(src, 25) if not thorough else src):
        cl = closure(nme)
        if not cl or len(load(nme)) > 60:
            continue
        try:
            cmds = [txt(respace(rng, render(c))) for c in load(nme)]
        except Exception:
            continue
        j = job(cmds, main="sig" if nme.endswith(".eo") else "proof", files=[(["t", x], load(x)) for x in cl[1:]], mainpath=["t", nme], tag="respace-" + nme)
        j["raws"] = True
        js.append(j)
    yield [j for j in js if ok_size(j)]
    # 5. the same commands broken: a character dropped, doubled or replaced
    js = []
    base = ["(declare-const a Bool)", "(define b ((x Int)) (eo::add x 1))", "(define c () (eo::concat \"a\\u{41}\" \"b\"\"\"))", "(push 1)", "(pop 1)", "(set-option :normalize-num true)", "(echo \"a \\u{41} b\")", "(declare-type T 2)", "(define d () (eo::add -1/3 0.25))", "(assume h a)",
            "(step s :rule $copy :premises (h))", "(define |x y| () #b01)", "(define e () (eo::len #xFf))", "(declare-fun f (Int Bool) Bool)", "(assert true)", "(check-sat)", "(set-logic ALL)", "(set-info :status \"x\")", "(define-fun g ((x Int)) Int x)", "(declare-datatype D ((mk (sel Int))))", "(declare-sort S 02)", "(program p ((x Int)) :signature (Int) Int (((p x) 1)))"]
    for k in range(150 if not thorough else 4000):
        cmds = []
        for _ in range(rng.randint(2, 8)):
            c = rng.choice(base)
            r = rng.random()
            if r < .65:
                i = rng.randrange(1, len(c) - 1)
                ch = rng.choice(list("0123456789.-/#\"|:;\\ \n\t!_ab{}") + ["\x00", "\xff", "\x0b"])
                c = c[:i] + rng.choice(["", ch, c[i] + ch, c[i] * 2]) + c[i+1:]
            if good(c):
                cmds.append(txt(c))
        cmds.append(txtev(rng.choice(["b", "c", "d", "|x y|", "e"])))
        js.append(prejob(cmds, rng.choice(["sig", "proof", "stdin"]), opt=rng.choice(CONF), tag="broken-%d" % k))
    yield js
    # 6. numerals that commands take
    js = []
    for k in range(12 if not thorough else 100):
        cmds = []
        for _ in range(12):
            cmds.append(txt(rng.choice(["(push %s)", "(pop %s)", "(declare-type T%d %%s)" % rng.randint(0, 9), "(declare-sort S%d %%s)" % rng.randint(0, 9)]) % rng.choice(["0", "1", "2", "3", "01", "00", "-1", "1.0", "2/1", "#b1", "#x1", '"1"', "a", "1 1", "", "4294967296", "99999999999999999999", "|1|", "+1"])))
        js.append(prejob(cmds, rng.choice(["sig", "proof"]), tag="numerals-%d" % k))
    yield js


def good(c):
    """at most one command: no closing parenthesis outside of strings, symbols and comments brings the depth to zero before the end"""
    d, i = 0, 0
    while i < len(c):
        x = c[i]
        if x in '"|':
            j = c.find(x, i + 1)
            if j < 0:
                return True
            i = j
        elif x == ";":
            j = c.find("\n", i)
            if j < 0:
                return True
            i = j
        elif x == "(":
            d += 1
        elif x == ")":
            d -= 1
            if d == 0:
                return c[i+1:].strip() == ""
            if d < 0:
                return True
        i += 1
    return True


def ok_size(j):
    return sum(len(c[1]) for f in j["files"] for c in f["cmds"] if c[0] == "txt") < 20000
