"""C13: well-formed declarations."""
import itertools
from gen import *

PRE = PROBE_RULE + UNI + """
(declare-const cons (-> U eo::List eo::List) :right-assoc-nil eo::List::nil)
(declare-const lambda (-> eo::List U (-> U U)))
(program $d ((x U)) :signature (U) U ((($d x) (f x))))
(program $fwd ((x U)) :signature (U) U)
(define M ((x U)) (g x x))
(declare-datatype Lst ((nil) (cn (hd U) (tl Lst))))
"""
TYS = ["U", "Bool", "(-> U U)", "(-> U U U)", "(-> U V U)", "(-> U V V)", "(-> U U Bool)", "(-> Bool Bool Bool)", "(-> U V Bool)", "Type", "(-> Type Type)", "(-> Type U)", "(-> U Type)", "a", "(-> a U)", "(-> U a)", "()", "(U)", "(Pair U)",
       "(Pair U V)", "(Pair U a)", "(Pair U V U)", "(BitVec 1)", "(BitVec i1)", "(BitVec a)", "(BitVec (eo::add 1 1))", "(-> (BitVec 1) U)", "nosuch", "(->)", "(-> U)", "1", "eo::List", "(-> eo::List U)", "(-> eo::List U U)", "(-> eo::List Bool Bool)",
       "(M a)", "($d a)", "(-> (-> U U) U)", "(-> U (-> U U))", "true", "(! U)", "(! U :list)", "Proof", "(eo::Proof P)", "(-> (! U :list) U)", "(-> (! U :opaque) U)", "(-> (! Type :var T) T U)", "(-> (! U :implicit) U)", "(-> (! U :var y) (! V :var z) U)",
       "(eo::quote U)", "(-> (eo::quote a) U)", "(eo::ite true U V)", "(eo::requires 1 1 U)", "(eo::requires 1 2 U)", "(-> (eo::requires 1 1 U) U)", "(eo::typeof a)", "(-> U (eo::typeof a))"]
ATT = ["", ":right-assoc", ":left-assoc", ":right-assoc-nil a", ":left-assoc-nil a", ":right-assoc-nil true", ":right-assoc-nil nosuch", ":right-assoc-nil", ":chainable and", ":chainable P", ":chainable g", ":chainable", ":pairwise and", ":pairwise nosuch", ":arg-list cons",
       ":arg-list and", ":arg-list eo::List::cons", ":binder eo::List::cons", ":binder cons", ":binder", ":right-assoc-non-singleton-nil a", ":left-assoc-non-singleton-nil a", ":right-assoc :left-assoc", ":right-assoc-nil a :chainable and", ":list", ":implicit", ":opaque", ":sorry",
       ":foo", ":foo 1", ":foo (a b)", ":type U", ":premises (P)", ":right-assoc true", "a", ":chainable and :right-assoc", ":let-binder (eo::List::cons and)", ":right-assoc-nil (f a)", ":right-assoc-nil $d", ":right-assoc-nil ($d a)", ":var x", ":syntax a", ":restrict a", ":program", ":is_eq", ":conclusion P"]
PARAMS = ["()", "((x U))", "((x U) (y V))", "((x U) (x U))", "((x U) (x V))", "((T Type))", "((T Type) (x T))", "((T Type :implicit) (x T))", "((x T))", "((x T) (T Type))", "((x U :list))", "((x U :implicit))", "((x U :opaque))", "((x U :foo))", "((x U :foo 1))", "((x nosuch))", "(x U)", "((x))",
          "((x U V))", "((x U :list) (y U :list))", "((x a))", "((x (-> U U)))", "((x Bool) (y Bool))", "((F Bool))", "((F Bool) (G Bool))", "((F Bool) (x U))", "((a V))", "((and Bool))", "((x U :type V))", "((x U :right-assoc))", "((x U :implicit :list))", "((n Int) (x (BitVec n)))", "((x (BitVec 2)))",
          "((x U :requires (a a)))", "((x U :opaque) (y U))", "((x U) (y U :opaque))", "((x U :implicit) (y U :opaque) (z V))", "((x U :opaque) (y U :implicit))", "x", "((x Type) (y x))", "(((x U)))", "((\"x\" U))", "((true U))", "((x (eo::requires 1 1 U)))", "((f (-> U U)) (x U))", "((A Type) (B Type) (q A) (w B))"]
PATS = ["x", "y", "F", "T", "(f x)", "(g x y)", "(g x x)", "(f a)", "a", "(p x)", "($d x)", "($d a)", "(M x)", "(eo::add 1 2)", "(eo::add x 1)", "(x a)", "(g x)", "(f (f x))", "true", "1", "nosuch", "(f x y)", "(ite F x y)", "(or F G)", "(or F x)", "(= x y)", "(h x y)", "(eo::ite true x y)", "eo::self",
        "(eo::requires x x x)", "(eo::is_ok x)", "\"s\"", "(pair x y)", "(forall ((x U)) F)", "(forall x F)", "(eo::as x U)", "(_ f x)", "(f ($d a))", "(and F (eo::eq x x))", "(eo::var \"x\" U)", "(eo::define ((z x)) (f z))", "((f x))", "()", "(+ x 1)", "$fwd", "($fwd a)", "$d", "(eo::quote x)", "(-> U U)", "(eo::cons and F G)", "nil", "(cn x nil)"]


def rule(rng, ps):
    pt = lambda: rng.choice(["x", "x", "y", "(f x)", "(g x y)", "F", "(g x x)", "(f (f y))", "(or F G)", "T", "a"]) if rng.random() < .8 else rng.choice(PATS)
    fm = lambda: rng.choice(["F", "G", "(p x)", "(= x y)", "(= x x)", "(or F G)", "true", "P", "(not F)", "(p a)"]) if rng.random() < .7 else pt()
    many = lambda f: "(" + " ".join(f() for _ in range(rng.choice([0, 1, 1, 2]))) + ")"
    parts = []
    r = rng.random
    if r() < .2:
        parts.append(":assumption " + fm())
    if r() < .5:
        parts.append(":premises " + many(fm))
    elif r() < .3:
        parts.append(":premise-list %s %s" % (fm(), rng.choice(["and", "or", "and", "f", "=>", "a"])))
    if r() < .6:
        parts.append(":args " + many(pt))
    if r() < .3:
        parts.append(":requires (%s)" % " ".join("(%s %s)" % (pt(), pt()) for _ in range(rng.choice([0, 1, 1, 2]))) if r() < .9 else ":requires ((x))")
    parts.append((":conclusion " if r() < .85 else ":conclusion-explicit ") + fm())
    if r() < .2:
        parts.append(rng.choice([":sorry", ":sorry", ":foo", ":foo a", ":list", ":sorry :sorry", ":right-assoc"]))
    if r() < .15:
        i = rng.randrange(len(parts)); j = rng.randrange(len(parts))
        parts[i], parts[j] = parts[j], parts[i]
    if r() < .1:
        parts.insert(rng.randrange(len(parts)+1), rng.choice(parts))
    if r() < .1:
        parts.pop(rng.randrange(len(parts)))
    return "(declare-rule %%s %s %s)" % (ps, " ".join(parts))


def program(rng, ps):
    sg = [rng.choice(["U", "V", "Bool", "T", "(-> U U)", "Int", "Type"]) for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3]))]
    pt = lambda: rng.choice(["x", "x", "y", "(f x)", "(g x y)", "F", "(g x x)", "(f (f y))", "(or F G)", "a"]) if rng.random() < .85 else rng.choice(PATS)
    cases = []
    for _ in range(rng.choice([0, 1, 1, 2])):
        n = len(sg) if rng.random() < .85 else rng.choice([0, 1, 2, 3])
        h = "%s" if rng.random() < .95 else rng.choice(["$d", "f", "x", "nosuch"])
        lhs = "(%s%s)" % (h, "".join(" " + pt() for _ in range(n))) if rng.random() < .95 else pt()
        rhs = rng.choice([pt(), pt(), "(%s " + pt() + ")"]) if rng.random() < .97 else ""
        cases.append("(%s %s)" % (lhs, rhs) if rng.random() < .97 else lhs)
    body = "(%s)" % " ".join(cases) if cases or rng.random() < .3 else ""
    return "(program %%s %s :signature (%s) %s %s)" % (ps, " ".join(sg), rng.choice(["U", "Bool", "T", "V", "a", "Type"]), body)


USES = [(" ".join(pr), " ".join(a)) for pr in ([], [], [], ["hP"], ["hp"], ["hE"], ["hP", "hp"], ["hO", "hE"], ["hP", "hP"]) for m in range(3) for a in itertools.product(["a", "b", "(f a)", "(g a b)", "P", "(or P Q)"], repeat=m)]
USES += [x for x in USES for _ in range(30) if x[1] in ("", "a", "(f a)", "P")]


def use(rng, n, kind):
    """probes of a name that may have been declared"""
    if kind == "const":
        return [ev(n)] + [ev("(%s %s)" % (n, a)) for a in ("a", "d", "a a", "a d", "P Q", "a b c", "U", "a U", "((a U)) P", "#b11", "true", "f")]
    if kind == "rule":
        return [p1("(step @%s%d :rule %s :premises (%s) :args (%s))" % (n, k, n, pr, a)) for k, (pr, a) in enumerate(rng.sample(USES, 9))] + \
               [p1("(step @%se P :rule %s :premises (hP))" % (n, n))]
    return [ev("(%s %s)" % (n, a)) for a in ("a", "(f a)", "a a", "P", "d", "(f a) b", "(g a a)", "1", "U", "f", "a d P", "(g a b) (f a)", "P a", "a P", "(f (f a))", "(or P Q)", "a b", "b (g b b)", "Q a b", "a b (f b)")] + [ev(n)]


# well-formed declarations, which are changed in one place
BASES = ["(program N ((x U) (y U)) :signature (U U) U (((N x (f y)) (g y x)) ((N x y) x)))", "(program N ((F Bool) (G Bool :list)) :signature (Bool) Bool (((N (or F G)) (N G)) ((N false) true)))",
         "(program N ((T Type) (x T) (y T)) :signature (T T) Bool (((N x x) true) ((N x y) (= x y))))", "(program N ((x U)) :signature (U) U)", "(program N ((x U)) :signature ((eo::quote x)) U (((N (f x)) ($fwd x)) ((N x) x)))",
         "(declare-rule N ((x U) (y U) (F Bool)) :premises (F (= x y)) :args ((f x)) :requires (((eo::eq x y) true)) :conclusion (or F (p x)))", "(declare-rule N ((x U) (F Bool) (G Bool)) :assumption F :premises (G) :args (x) :conclusion (or F G))",
         "(declare-rule N ((x U) (F Bool) (G Bool)) :premise-list F and :args (x) :conclusion-explicit G)", "(declare-rule N () :conclusion (p a))", "(declare-rule N ((x U) (y U)) :premises ((= x y)) :conclusion (= y x) :sorry)", "(declare-parameterized-const N ((x U :opaque) (y U)) (-> U Bool))",
         "(declare-parameterized-const N ((n Int) (m Int)) (-> (BitVec n) (BitVec m) U))", "(declare-parameterized-const N ((T Type :implicit)) (-> T T Bool) :pairwise and)", "(declare-parameterized-const N ((T Type)) (Pair T T))", "(declare-const N (-> Bool Bool Bool) :right-assoc-nil true)",
         "(define N ((x U) (y U)) (g x (f y)) :type (-> U U U))", "(define N ((T Type :implicit) (x T)) (= x x))", "(program $fwd ((x U)) :signature (U) U ((($fwd (f x)) x)))", "(declare-const N (-> eo::List Bool Bool) :binder eo::List::cons)"]
BPOOL = ["x", "y", "F", "G", "T", "U", "Bool", "Type", "a", "true", "1", "(f x)", "(g x y)", "(f a)", "N", "$d", "$fwd", "($d x)", "($d a)", "(N x)", "(N x y)", "($fwd x)", "(M x)", "(eo::add 1 1)", "(eo::requires x x x)", "nosuch", "()", "(= x y)", "(or F G)", "f", "g", "or", "and", "eo::self", "\"s\"", "(x U)", "((x U))",
         "(-> U U)", "eo::List::nil", "(eo::quote x)", "0", "(eo::var \"x\" U)", "lambda", "p", "(eo::add x x)", "(y Bool)", "(z U)", "eo::List::cons", "=", "V", "(x U :list)", "(x U :implicit)", "(f (f x))", "(or G F)", "(eo::is_ok x)"]
BKEYS = [["k", k] for k in (":args", ":premises", ":signature", ":conclusion", ":list", ":implicit", ":opaque", ":right-assoc", ":requires", ":conclusion-explicit", ":assumption", ":sorry", ":premise-list", ":type", ":left-assoc-nil", ":chainable", ":foo")]


def named(t, n):
    if t == ["s", "N"]:
        return ["s", n]
    return ["l", [named(x, n) for x in t[1]]] if t[0] == "l" else t


def oneplace(rng, limit):
    pool = [p1(x) for x in BPOOL]
    allv = [(b, v) for b in map(p1, BASES) for v in single(b, pool) + [x for path, y in subtrees(b) if y[0] == "k" for x in [replace(b, path, k) for k in BKEYS]]]
    rng.shuffle(allv)
    if limit:
        allv = allv[:limit]
    hyp = pall("(assume hP P)(assume hp (p a))(assume hE (= a b))(assume hO (or P Q))")
    for k, ch in enumerate(chunks(allv, 50)):
        cmds = pall(PRE) + hyp
        for n, (b, v) in enumerate(ch):
            nm = "$n%d" % n
            cmds.append(named(v, nm))
            if ["s", "$fwd"] in b[1][1:2]:
                # the definition applies to a program declared for it
                f = "$fw%d" % n
                cmds[-1:] = [p1("(program %s ((x U)) :signature (U) U)" % f), named(subst(v, {"$fwd": ["s", f]}), nm)]
                nm = f
            kind = "rule" if b[1][0][1] == "declare-rule" else "prog" if b[1][0][1] == "program" else "const"
            cmds += rng.sample(use(rng, nm, kind), 3)
        yield job(cmds, main="sig", tag="oneplace-%d" % k, fuel=100)


def batches(ctx):
    thorough = ctx["tier"] == "thorough"
    rng = ctx["rng"]
    hyp = pall("(assume hP P)(assume hp (p a))(assume hE (= a b))(assume hO (or P Q))")
    js = []
    # constants: every type with every attribute
    combos = list(itertools.product(TYS, ATT))
    rng.shuffle(combos)
    sub = combos if thorough else combos[:900]
    for k, ch in enumerate(chunks(sub, 60)):
        cmds = pall(PRE)
        for n, (t, a) in enumerate(ch):
            try:
                cmds.append(p1("(declare-const c%d %s %s)" % (n, t, a)))
            except SxError:
                continue
            if rng.random() < .5:
                us = use(rng, "c%d" % n, "const")
                cmds += rng.sample(us, 4)
        js.append(job(cmds, main="sig", tag="const-%d" % k, fuel=100))
    # parameterized constants, definitions
    for k in range(30 if not thorough else 500):
        cmds = pall(PRE)
        for n in range(40):
            ps = rng.choice(PARAMS)
            r = rng.random()
            t = rng.choice(["T", "(-> T T)", "(-> x U)", "(BitVec n)", "(-> (BitVec n) U)", "U", "(-> T T Bool)", "(Pair T T)", "x", "A", "(-> A B)", "(Pair A B)"] + TYS[:14])
            if r < .5:
                c = "(declare-parameterized-const n%d %s %s %s)" % (n, ps, t, rng.choice(["", "", "", rng.choice(ATT)]))
            elif r < .9:
                c = "(define n%d %s %s %s)" % (n, ps, rng.choice(PATS), rng.choice(["", "", "", ":type " + rng.choice(TYS[:8]), ":type (-> U U)", ":foo 1", ":list", ":type", ":foo"]))
            else:
                c = rng.choice(["(declare-consts %s %s)" % (rng.choice(["<numeral>", "<string>", "<foo>", "<binary>", "<hexadecimal>", "<decimal>", "<rational>"]), rng.choice(["Int", "U", "Bool", "(BitVec (eo::len eo::self))", "a", "nosuch", "Type"])),
                                "(declare-sort n%d %s)" % (n, rng.choice(["0", "1", "2", "-1", "a", "\"x\""])), "(declare-const n%d)" % n, "(declare-const n%d U V)" % n, "(define n%d)" % n, "(define n%d a)" % n, "(declare-const \"x\" U)", "(declare-const 1 U)",
                                "(declare-const true U)", "(declare-const (n) U)", "(declare-const :n U)", "(declare-const |n%d| U)" % n, "(define-fun n%d () U a)" % n, "(declare-fun n%d (U) U)" % n, "(define-const n%d U a)" % n, "(declare-parameterized-const n%d U)" % n])
            try:
                cmds.append(p1(c))
            except SxError:
                continue
            cmds += rng.sample(use(rng, "n%d" % n, "const"), 3)
        js.append(job(cmds, main="sig", tag="params-%d" % k, fuel=100))
    yield js
    js = []
    for k in range(45 if not thorough else 800):
        cmds = pall(PRE) + hyp
        for n in range(35):
            ps = rng.choice(["((x U) (y U))", "((x U) (y U) (F Bool) (G Bool))", "((T Type) (x T) (y T) (F Bool) (G Bool))", "((x U) (y U) (F Bool) (G Bool))", "((x U) (y U) (F Bool) (G Bool))", "((x U) (y V) (F Bool))"]) if rng.random() < .75 else rng.choice(PARAMS)
            isr = rng.random() < .6
            nm = "$n%d" % n
            c = (rule if isr else program)(rng, ps).replace("%s", nm)
            if rng.random() < .05:
                c = rng.choice(["(declare-rule n)", "(declare-rule n ())", "(program n)", "(program n () :signature () U)", "(program n ((x U)) :signature (U) U)", "(program n ((x U)) (U) U (((n x) x)))", "(declare-rule n () :conclusion)", "(declare-rule \"n\" () :conclusion true)",
                                "(program n ((x U)) :signature (U) U (((n x) a)) foo)", "(declare-rule n ((x U)) :args (x) :conclusion true foo)", "(program $fwd ((y U)) :signature (U) U ((($fwd y) y)))", "(program $fwd ((y U)) :signature (V) U ((($fwd y) a)))",
                                "(program $fwd ((y U)) :signature (U) U ((($fwd y) b)))", "(program $d ((y U)) :signature (U) U ((($d y) b)))", "(declare-rule concl ((F Bool)) :args (F) :conclusion F)", "(program f ((y U)) :signature (U) U (((f y) b)))", "(declare-rule f ((F Bool)) :args (F) :conclusion F)"])
            try:
                cmds.append(p1(c))
            except SxError:
                continue
            x = rng.random()
            if x < .1:
                # in a local scope, and again
                cmds += [p1("(push)"), p1(c.replace(nm, nm + "l")), p1("(pop)"), p1(c)]
            elif x < .15:
                cmds += [p1("(assume-push hh%d P)" % n), p1(c.replace(nm, nm + "l")), p1("(declare-const w U)"), p1("(define w2 () a)")]
                break
            cmds += rng.sample(use(rng, nm, "rule" if isr else "prog"), 8)
        js.append(job(cmds, main=rng.choice(["sig", "sig", "sig", "proof"]) if False else "sig", tag="rules-%d" % k, fuel=100, opt=dict(rst=rng.random() < .7)))
    yield js
    yield list(oneplace(rng, 3000 if not thorough else 0))
    yield repo_jobs(rng, has("declare-rule", "program", "declare-parameterized-const"), 250 if not thorough else 5000, nmut=(1, 1, 2, 3))
