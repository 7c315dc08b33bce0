"""C07: values of the literal operators."""
from fractions import Fraction
from prelude import *
from vlib import job

INTS = [0, 1, -1, 2, -2, 3, -3, 5, 7, -7, 10, 16, 255, 256, 65535, 196607, 196608, 2**31-1, 2**31, 2**32, 2**63, 2**64, -2**64, 10**19, -10**21]
SMALL = [0, 1, -1, 2, -2, 3, -3, 5, 7, -7, 65, 255, 2**32, -2**64]
RATS = [(0, 1), (1, 1), (1, 2), (-1, 2), (3, 2), (-3, 2), (7, 3), (-7, 3), (4, 1), (-5, 1), (2**64, 3), (1, 2**65)]
DECS = ["0.0", "0.5", "-0.5", "1.0", "2.25", "-1.5", "3.0", "1000000000000000000000.5"]
BINS = ["0", "1", "00", "01", "10", "11", "000", "101", "111", "1000", "0111", "1111", "00001111", "10000000", "1" * 32, "0" * 33, "1" + "0" * 64]
HEXS = ["0", "f", "8", "0f", "a0", "ff", "7fff", "0" * 9, "f" * 17]
STRS = ["", "a", "b", "ab", "ba", "aba", "abab", "bb", "\u00e9", "\x00", "\x7f", "\\", '"', chr(196607), "a" * 40]
NONLIT = [p1(t) for t in ("a", "(f a)", "Int", "or", "(eo::add a 1)", "b1")]
BOOLS = [["s", "true"], ["s", "false"]]

PRE = LITS + """
(declare-const a Int)
(declare-const b1 Bool)
(declare-const f (-> Int Int))
(declare-const or (-> Bool Bool Bool))
""" + PROBE_RULE

UN = ["eo::not", "eo::neg", "eo::is_neg", "eo::len", "eo::to_z", "eo::to_q", "eo::to_str"]
BI = ["eo::and", "eo::or", "eo::xor", "eo::add", "eo::mul", "eo::concat", "eo::qdiv", "eo::zdiv", "eo::zmod", "eo::gt", "eo::find", "eo::to_bin"]


def pools(ints):
    return dict(z=[Z(n) for n in ints], q=[Q(*r) for r in RATS], d=[D(x) for x in DECS],
                b=[B(x) for x in BINS], x=[X(x) for x in HEXS], s=[STR(x) for x in STRS], t=BOOLS, n=NONLIT)


def rand_lit(rng, k):
    if k == "z":
        return Z(rng.choice([rng.randint(-9, 9), rng.randint(-300, 300), rng.randint(-2**70, 2**70)]))
    if k == "q":
        return Q(rng.randint(-30, 30), rng.randint(1, 12)) if rng.random() < .7 else Q(rng.randint(-2**70, 2**70), rng.randint(1, 2**40))
    if k == "d":
        return D(Fraction(rng.randint(-4000, 4000), rng.choice([1, 2, 4, 5, 8, 10, 1000])))
    if k == "b":
        w = rng.choice([1, 2, 3, 4, 5, 8, 16, 31, 32, 33, 63, 64, 65, 100])
        return B("".join(rng.choice("01") for _ in range(w)))
    if k == "x":
        w = rng.choice([1, 2, 3, 4, 8, 9, 16, 17])
        return X("".join(rng.choice("0123456789abcdef") for _ in range(w)))
    if k == "s":
        return STR("".join(rng.choice("aab\x01\\\"\u00ff\U0001f600z") for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 9]))))
    if k == "t":
        return rng.choice(BOOLS)
    return rng.choice(NONLIT)


def rand_expr(rng, k, d):
    """an expression that usually has kind k"""
    if d == 0 or rng.random() < .15:
        return rand_lit(rng, rng.choice("zqdbxstn") if rng.random() < .03 else k)
    e = lambda kk: rand_expr(rng, kk, d-1)
    c = {
        "z": [lambda: app("eo::add", *[e("z") for _ in range(rng.choice([2, 2, 3, 4]))]), lambda: app("eo::mul", *[e("z") for _ in range(rng.choice([2, 2, 3]))]),
              lambda: app("eo::neg", e("z")), lambda: app("eo::zdiv", e("z"), e("z")), lambda: app("eo::zmod", e("z"), e("z")),
              lambda: app("eo::len", e(rng.choice("bs"))), lambda: app("eo::to_z", e(rng.choice("qdbsz"))), lambda: app("eo::find", e("s"), e("s"))],
        "q": [lambda: app("eo::add", *[e("q") for _ in range(rng.choice([2, 3]))]), lambda: app("eo::mul", e("q"), e("q")), lambda: app("eo::neg", e("q")),
              lambda: app("eo::qdiv", e("z"), e("z")), lambda: app("eo::qdiv", e("q"), e("q")), lambda: app("eo::qdiv", e("d"), e("d")), lambda: app("eo::to_q", e(rng.choice("zqd")))],
        "d": [lambda: app("eo::add", e("d"), e("d")), lambda: app("eo::mul", e("d"), e("d"), e("d")), lambda: app("eo::neg", e("d"))],
        "b": [lambda: app(rng.choice(["eo::and", "eo::or", "eo::xor", "eo::add", "eo::mul"]), *[app("eo::to_bin", Z(rng.choice([1, 4, 7, 8, 33])), e("z"))] * 1, rand_lit(rng, "b")),
              lambda: bvpair(rng, e), lambda: bvpair(rng, e), lambda: app("eo::concat", *[e("b") for _ in range(rng.choice([2, 3]))]), lambda: app("eo::not", e("b")), lambda: app("eo::neg", e("b")),
              lambda: app("eo::extract", e("b"), Z(rng.randint(-1, 9)), Z(rng.randint(-1, 12))), lambda: app("eo::to_bin", Z(rng.choice([0, 1, 3, 8, 40, -1])), e(rng.choice("zbx")))],
        "x": [lambda: app("eo::concat", e("x"), e("x")), lambda: app("eo::not", e("x")), lambda: app("eo::neg", e("x"))],
        "s": [lambda: app("eo::concat", *[e("s") for _ in range(rng.choice([2, 2, 3]))]), lambda: app("eo::extract", e("s"), Z(rng.randint(-1, 4)), Z(rng.randint(-1, 6))),
              lambda: app("eo::to_str", e(rng.choice("zqdbxs")))],
        "t": [lambda: app(rng.choice(["eo::and", "eo::or", "eo::xor"]), *[e("t") for _ in range(rng.choice([2, 2, 3]))]), lambda: app("eo::not", e("t")),
              lambda: app("eo::gt", *[e(kk) for kk in [rng.choice("zqdbx")] * 2]), lambda: app("eo::is_neg", e(rng.choice("zqd"))),
              lambda: app("eo::eq", *[e(kk) for kk in [rng.choice("zqdbxst")] * 2])],
        "n": [lambda: rng.choice(NONLIT)],
    }[k]
    return rng.choice(c)()


def bvpair(rng, e):
    w = rng.choice([1, 2, 4, 8, 13, 32, 64, 65])
    f = lambda: app("eo::to_bin", Z(w), e("z"))
    return app(rng.choice(["eo::and", "eo::or", "eo::xor", "eo::add", "eo::mul", "eo::zdiv", "eo::zmod"]), f(), f())


def batches(ctx):
    rng = ctx["rng"]
    thorough = ctx["tier"] == "thorough"
    P = pools(INTS)
    everything = [x for k in P for x in P[k]]
    terms = []
    for op in UN:
        terms += [app(op, x) for x in everything]
    small = pools(SMALL)
    for k in small:
        for x in small[k]:
            for y in small[k]:
                for op in BI:
                    if op == "eo::to_bin" and k != "z":
                        continue
                    if op == "eo::to_bin" and x[1][0] > 0 and len(x[1]) > 2:
                        continue
                    terms.append(app(op, x, y))
    # mixed kinds
    reps = [r for k in P for r in rng.sample(P[k], min(3, len(P[k])))]
    for x in reps:
        for y in reps:
            for op in BI:
                if op == "eo::to_bin" and x[0] == "z" and len(x[1]) > 2:
                    continue
                terms.append(app(op, x, y))
    for w in [Z(n) for n in (-1, 0, 1, 2, 3, 4, 5, 8, 9, 33, 64)]:
        for x in P["z"] + P["b"] + P["x"]:
            terms.append(app("eo::to_bin", w, x))
    idx = [Z(n) for n in (-1, 0, 1, 2, 3, 4, 7, 8, 31, 32, 33, 2**32, 2**33 + 1)]
    for x in P["b"] + P["x"] + P["s"]:
        for i in idx:
            for j in idx:
                terms.append(app("eo::extract", x, i, j))
    for x in reps:
        terms.append(app("eo::extract", x, Z(0), rng.choice(reps)))
        terms.append(app("eo::extract", rng.choice(P["b"]), x, Z(0)))
    # wrong numbers of arguments
    for op in UN + BI:
        terms += [app(op), app(op, Z(1), Z(2), Z(3)), app(op, B("1"), B("0"), B("1")), app(op, BOOLS[0], BOOLS[1], BOOLS[0])]
        terms += [app(op, Z(5)), app(op, B("01")), app(op, BOOLS[0]), app(op, STR("a"), STR("b"))]
    rng.shuffle(terms)
    pre = pall(PRE)
    js = []
    for k, c in enumerate(chunks(terms, 120)):
        js.append(job(pre + [ev(t) for t in c], main="sig", tag="table-%d" % k))
    yield js
    n = 40 if not thorough else 700
    js = []
    for k in range(n):
        ts = [rand_expr(rng, rng.choice("zzqdbbxstn"), rng.choice([2, 3, 3, 4])) for _ in range(60)]
        # decimals are rationals and hexadecimals are binary in proofs
        js.append(job(pre + [ev(t) for t in ts], main=rng.choice(["sig", "sig", "proof0"]).replace("proof0", "proof"), tag="random-%d" % k)
                  if False else job(pre + [ev(t) for t in ts], main="sig", tag="random-%d" % k))
    for part in chunks(js, 100):
        yield part
