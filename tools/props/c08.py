"""C08: list operators."""
from gen import *
from itertools import product

PRE = PROBE_RULE + """
(declare-const Int Type)
(declare-const String Type)
(declare-const BitVec (-> Int Type))
(declare-consts <numeral> Int)
(declare-consts <string> String)
(declare-consts <binary> (BitVec (eo::len eo::self)))
(declare-const U Type)
(declare-const Seq (-> Type Type))
(declare-const a U)
(declare-const b U)
(declare-const c U)
(declare-const e U)
(declare-const f (-> U U))
(declare-const P Bool)
(declare-const Q Bool)
(declare-const R Bool)
(declare-const s1 (Seq Int))
(declare-const s2 (Seq Int))
(declare-const t1 (Seq U))
(declare-const v1 (BitVec 4))
(declare-const v2 (BitVec 4))
(declare-const w1 (BitVec 8))
(program $stuck ((x U)) :signature (U) U)
(declare-const plain (-> Bool Bool Bool))
(declare-const or (-> Bool Bool Bool) :right-assoc-nil false)
(declare-const and (-> Bool Bool Bool) :left-assoc-nil true)
(declare-const orn (-> Bool Bool Bool) :right-assoc-non-singleton-nil false)
(declare-const andn (-> Bool Bool Bool) :left-assoc-non-singleton-nil true)
(declare-const imp (-> Bool Bool Bool) :right-assoc)
(declare-const xor (-> Bool Bool Bool) :left-assoc)
(declare-const < (-> Int Int Bool) :chainable or)
(declare-const rc (-> U U U) :right-assoc-nil e)
(declare-const lc (-> U U U) :left-assoc-nil (f e))
(declare-const fold (-> Bool U U) :right-assoc-nil e)
(declare-const lfold (-> U Bool U) :left-assoc-nil e)
(declare-const nilev (-> Int Int Int) :right-assoc-nil (eo::add 1 -1))
(declare-parameterized-const snil ((T Type)) (Seq T))
(declare-parameterized-const ++ ((T Type :implicit)) (-> (Seq T) (Seq T) (Seq T)) :right-assoc-nil (snil T))
(declare-parameterized-const l++ ((T Type :implicit)) (-> (Seq T) (Seq T) (Seq T)) :left-assoc-nil (snil T))
(declare-parameterized-const ++n ((T Type :implicit)) (-> (Seq T) (Seq T) (Seq T)) :right-assoc-non-singleton-nil (snil T))
(declare-parameterized-const bvor ((m Int)) (-> (BitVec m) (BitVec m) (BitVec m)) :right-assoc-nil (eo::to_bin m 0))
(declare-parameterized-const bvand ((m Int :implicit)) (-> (BitVec m) (BitVec m) (BitVec m)) :left-assoc-nil (eo::not (eo::to_bin m 0)))
(declare-parameterized-const bvc ((m Int :implicit) (n Int :implicit)) (-> (BitVec m) (BitVec n) (BitVec (eo::add m n))) :right-assoc-nil (eo::to_bin 0 0))
"""
# operator: (left?, nil, type, elements, element type)
OPS = {
    "or": (0, "false", "Bool", ["P", "Q", "R", "true", "(or P Q)", "false"]),
    "and": (1, "true", "Bool", ["P", "Q", "R", "false", "(and P Q)", "true"]),
    "orn": (0, "false", "Bool", ["P", "Q", "R", "false", "(orn P Q)"]),
    "andn": (1, "true", "Bool", ["P", "Q", "R", "true", "(andn P Q)"]),
    "rc": (0, "e", "U", ["a", "b", "c", "e", "(f a)", "(rc a b)"]),
    "lc": (1, "(f e)", "U", ["a", "b", "e", "(f e)", "(lc a b)"]),
    "fold": (0, "e", "U", ["P", "Q", "true"]),
    "lfold": (1, "e", "U", ["P", "Q", "false"]),
    "nilev": (0, "0", "Int", ["0", "1", "2", "-1"]),
    "eo::List::cons": (0, "eo::List::nil", "eo::List", ["a", "P", "1", "U", "eo::List::nil", "Bool", "(f a)"]),
    "++": (0, "snil", "(Seq Int)", ["s1", "s2", "t1", "(++ s1 s2)"]),
    "l++": (1, "snil", "(Seq Int)", ["s1", "s2", "t1"]),
    "++n": (0, "snil", "(Seq Int)", ["s1", "s2", "t1"]),
    "bvor": (0, "#b0000", "(BitVec 4)", ["v1", "v2", "#b0000", "#b1010", "w1"]),
    "bvand": (1, "#b1111", "(BitVec 4)", ["v1", "v2", "#b1111"]),
    "bvc": (0, "#b", "(BitVec 4)", ["v1", "w1", "#b1"]),
}
OPS["++"] = (0, "(eo::nil ++ (Seq Int))", "(Seq Int)", OPS["++"][3])
OPS["l++"] = (1, "(eo::nil l++ (Seq Int))", "(Seq Int)", OPS["l++"][3])
OPS["++n"] = (0, "(eo::nil ++n (Seq Int))", "(Seq Int)", OPS["++n"][3])
OPS["bvor"] = (0, "(eo::nil bvor (BitVec 4))", "(BitVec 4)", OPS["bvor"][3])
OPS["bvand"] = (1, "(eo::nil bvand (BitVec 4))", "(BitVec 4)", OPS["bvand"][3])
OPS["bvc"] = (0, "(eo::to_bin 0 0)", "(BitVec 4)", OPS["bvc"][3])
NOLIST = ["plain", "imp", "xor", "<", "f", "a", "eo::add", "$stuck"]
UNL = ["eo::list_len", "eo::list_rev", "eo::list_setof", "eo::list_singleton_elim"]
BIL = ["eo::list_concat", "eo::list_minclude", "eo::list_meq", "eo::list_diff", "eo::list_inter"]


def curried(op, xs):
    left, nil = OPS[op][:2]
    t = nil
    for x in (xs if left else reversed(xs)):
        t = "(_ (_ %s %s) %s)" % ((op, t, x) if left else (op, x, t))
    return t


def sugar(op, xs):
    return "(%s %s)" % (op, " ".join(xs)) if xs else OPS[op][1]


def lists(op, n, k=2):
    es = OPS[op][3][:k]
    return [list(xs) for m in range(n+1) for xs in product(es, repeat=m)]


def batches(ctx):
    rng = ctx["rng"]
    thorough = ctx["tier"] == "thorough"
    js = []
    for op in OPS:
        left, nil, ty, es = OPS[op]
        ts = ["(eo::nil %s %s)" % (op, t) for t in [ty, "Bool", "U", "Int", "(Seq U)", "(BitVec 8)", "a", "eo::List", "1"]]
        ts += ["(eo::nil %s)" % op, "(eo::nil %s %s %s)" % (op, ty, ty)]
        L3 = lists(op, 4 if thorough else 3)
        some = L3 + [rng.sample(es * 2, min(len(es), rng.randint(2, 5))) for _ in range(8)]
        bads = ["plain", "U", "(f a)", es[0], "(%s %s)" % (op, es[0]), "(_ %s %s)" % (op, es[0]), op, "(plain P Q)", "1", "($stuck a)"]
        form = lambda xs: curried(op, xs) if rng.random() < .7 else sugar(op, xs)
        for xs in some:
            l = form(xs)
            ts.append(l)
            for u in UNL:
                ts.append("(%s %s %s)" % (u, op, l))
            for x in es[:3] + [nil]:
                ts += ["(%s %s %s %s)" % (u, op, l, x) for u in ("eo::list_find", "eo::list_erase", "eo::list_erase_all")]
                if rng.random() < .5:
                    ts.append("(eo::cons %s %s %s)" % (op, x, l))
            for i in range(-1, len(xs) + 2):
                ts.append("(eo::list_nth %s %s %d)" % (op, l, i))
            ts.append("(eo::list_nth %s %s %s)" % (op, l, rng.choice(["4294967296", "18446744073709551616", "a", "-4294967295", "\"0\"", "#b0", "18446744073709551617"])))
        L2 = lists(op, 2) + rng.sample(some, 6)
        for xs in L2:
            for ys in L2:
                if not thorough and rng.random() < .45:
                    continue
                for u in BIL:
                    ts.append("(%s %s %s %s)" % (u, op, form(xs), form(ys)))
        # longer ones
        for _ in range(60 if not thorough else 600):
            xs = [rng.choice(es[:3]) for _ in range(rng.randint(2, 6))]
            ys = [rng.choice(es[:4]) for _ in range(rng.randint(1, 5))]
            if rng.random() < .3:
                ys = rng.sample(xs, len(xs))
            for u in BIL:
                ts.append("(%s %s %s %s)" % (u, op, form(xs), form(ys)))
            ts.append("(%s %s %s)" % (rng.choice(UNL), op, form(xs)))
        # not a list
        for bd in bads:
            l = form(rng.choice(L2))
            for u in UNL:
                ts.append("(%s %s %s)" % (u, op, bd))
            for u in BIL:
                ts += ["(%s %s %s %s)" % (u, op, bd, l), "(%s %s %s %s)" % (u, op, l, bd)]
            for u in ("eo::list_find", "eo::list_erase", "eo::list_erase_all", "eo::cons"):
                ts += ["(%s %s %s %s)" % (u, op, l, bd), "(%s %s %s %s)" % (u, op, bd, es[0]), "(%s %s %s %s)" % (u, op, es[0], bd)]
            ts.append("(eo::list_nth %s %s 0)" % (op, bd))
            # with another operator or no operator
        for op2 in rng.sample(sorted(OPS), 4) + NOLIST:
            l = form(rng.choice(L3))
            ts.append("(eo::nil %s %s)" % (op2, ty))
            for u in UNL:
                ts.append("(%s %s %s)" % (u, op2, l))
            for u in BIL:
                ts.append("(%s %s %s %s)" % (u, op2, l, form(rng.choice(L2))))
            ts.append("(eo::list_erase %s %s %s)" % (op2, l, es[0]))
            ts.append("(eo::cons %s %s %s)" % (op2, es[0], l))
        # counts of arguments
        for u in UNL + BIL + ["eo::list_find", "eo::list_erase", "eo::list_erase_all", "eo::cons", "eo::list_nth"]:
            for n in (1, 2, 3, 4):
                ts.append("(%s %s)" % (u, " ".join(([op, form(rng.choice(L2)), form(rng.choice(L2)), es[0]])[:n])))
        # chains
        for _ in range(40 if not thorough else 300):
            def le(d):
                if d == 0:
                    return form(rng.choice(some))
                u = rng.choice(["eo::list_rev", "eo::list_setof", "eo::list_concat", "eo::list_diff", "eo::list_inter", "eo::list_erase", "eo::list_erase_all", "eo::cons"])
                if u in UNL:
                    return "(%s %s %s)" % (u, op, le(d-1))
                if u in BIL:
                    return "(%s %s %s %s)" % (u, op, le(d-1), le(d-1))
                x = rng.choice(es[:3])
                return "(%s %s %s %s)" % ((u, op, x, le(d-1)) if u == "eo::cons" else (u, op, le(d-1), x))
            t = le(rng.choice([2, 3]))
            ts += [t, "(%s %s %s)" % (rng.choice(UNL), op, t)]
        rng.shuffle(ts)
        if not thorough:
            ts = ts[:900]
        for k, ck in enumerate(chunks(ts, 110)):
            js.append(job(pall(PRE) + [ev(t) for t in ck], main="sig", tag="%s-%d" % (op, k)))
    yield js
    # inside programs and rules: parameters become lists when they get values
    js = []
    for k in range(50 if not thorough else 400):
        op = rng.choice(["or", "and", "orn", "andn"])
        cmds = pall(PRE)
        u1 = rng.choice(UNL)
        u2 = rng.choice(BIL)
        cmds += pall("""
(program $p1 ((x Bool) (xs Bool :list) (y Bool)) :signature (Bool Bool) Bool ((($p1 (%(op)s x xs) y) (eo::cons %(op)s x ($p1 xs (eo::list_concat %(op)s y y)))) (($p1 x y) y)))
(program $p2 ((x Bool) (y Bool) (n Int)) :signature (Bool Bool) Bool ((($p2 x y) (eo::%(u3)s %(op)s (eo::list_setof %(op)s x) (eo::%(u4)s %(op)s x y)))))
(program $p3 ((x Bool) (n Int)) :signature (Bool Int) Bool ((($p3 x n) (eo::ite (eo::eq n 0) (eo::nil %(op)s Bool) (eo::cons %(op)s (eo::list_nth %(op)s x (eo::add n -1)) ($p3 x (eo::add n -1)))))))
(program $p4 ((o (-> Bool Bool Bool)) (x Bool) (y Bool)) :signature ((-> Bool Bool Bool) Bool Bool) Bool ((($p4 o x y) (eo::list_concat o x y))))
(program $p5 ((o (-> Bool Bool Bool)) (x Bool)) :signature ((-> Bool Bool Bool) Bool) Int ((($p5 o x) (eo::list_len o x))))
(define $d1 ((x Bool :list) (y Bool :list)) (%(op)s x Q y))
(define $d2 ((x Bool :list) (y Bool)) (%(op)s y x))
(declare-rule r1 ((x Bool) (y Bool)) :premises (x y) :conclusion (eo::list_concat %(op)s x y))
(declare-rule r2 ((x Bool) (y Bool) (n Int)) :premises (x) :args (n) :conclusion (eo::list_nth %(op)s x n))
(declare-rule r3 ((x Bool) (y Bool)) :premises (x) :args (y) :requires (((eo::list_minclude %(op)s y x) true)) :conclusion y)
""" % dict(op=op, u3=rng.choice(["list_diff", "list_inter", "list_concat"]), u4=rng.choice(["list_diff", "list_inter", "list_concat"])))
        def L():
            xs = [rng.choice(["P", "Q", "R"]) for _ in range(rng.randint(0, 4))]
            return curried(op, xs) if rng.random() < .8 else rng.choice(["P", "(plain P Q)", "(eo::list_rev %s P)" % op])
        for _ in range(12):
            cmds.append(ev("($p1 %s %s)" % (L(), L())))
            cmds.append(ev("($p2 %s %s)" % (L(), L())))
            cmds.append(ev("($p3 %s %d)" % (L(), rng.randint(0, 3))))
            cmds.append(ev("($p4 %s %s %s)" % (rng.choice([op, op, "plain", "imp"]), L(), L())))
            cmds.append(ev("($p5 %s %s)" % (rng.choice([op, op, "plain", "(plain P)"]), L())))
            cmds.append(ev("($d1 %s %s)" % (L(), L())))
            cmds.append(ev("($d2 %s %s)" % (L(), L())))
            cmds.append(p1("(assume @a %s)" % L())); cmds.append(p1("(assume @b %s)" % L()))
            cmds += pall("(step @s :rule r1 :premises (@a @b))(step @s :rule r2 :premises (@a) :args (%d))(step @s :rule r3 :premises (@b) :args (%s))" % (rng.randint(-1, 3), L()))
            cmds.append(proves("@s"))
        js.append(job(cmds, main="sig", tag="programs-%d" % k, fuel=60))
    yield js
    yield repo_jobs(rng, has(*UNL, *BIL, "eo::cons", "eo::nil", "eo::list_nth", "eo::list_find", "eo::list_erase", "eo::list_erase_all"), 250 if not thorough else 4000)
