"""C12: identity of terms."""
from gen import *
import itertools
import mc

PRE = PROBE_RULE + UNI + """
(declare-consts <hexadecimal> (BitVec (eo::len eo::self)))
(declare-parameterized-const pp ((T Type :implicit)) (-> T Bool))
(program $same ((T Type) (S Type) (x T) (y S)) :signature (T S) Bool ((($same x x) true) (($same x y) false)))
(program $in ((T Type) (S Type) (x T) (y S) (F Bool) (G Bool)) :signature (T Bool) Bool ((($in x (pp x)) true) (($in x (and F G)) true) (($in x F) false)))
(declare-rule req ((T Type) (S Type) (x T) (y S)) :args (x y) :requires ((x y)) :conclusion true)
(declare-rule concl ((F Bool)) :args (F) :conclusion F)
"""
SPELL = {"0": ["00", "-0"], "1": ["01"], "2": ["002"], "-1": ["-01"], "3": ["03"]}
NIL = {"or": "false", "and": "true", "+": "0"}


def variant(rng, t, defs, ty=None):
    """another way to write t (an AST); defs collects commands that have to come before"""
    subs = [(p, x) for p, x in subtrees(t) if not (p and p[-1] == 0)]
    path, x = rng.choice(subs)
    k = rng.random()
    if k < .2:
        n = "@d%d" % len(defs)
        defs.append("(define %s () %s)" % (n, render(x)))
        return replace(t, path, ["s", n])
    if k < .4:
        n = "@z%d" % rng.randint(0, 3)
        v = "(%s ((%s %s)) %s)"
        y = replace(t, path, ["s", n])
        return p1(v % ("eo::define", n, render(x), render(y)))
    if k < .5:
        n = "@m%d" % len(defs)
        y = replace(t, path, ["s", "x"])
        defs.append("(define %s ((T Type :implicit) (x T)) %s)" % (n, render(y)))
        return app(n, x)
    if x[0] == "l" and x[1][0][0] == "s" and k < .7:
        h = x[1][0][1]
        if h in NIL and len(x[1]) > 2:
            if rng.random() < .5:
                return replace(t, path, ["l", [x[1][0], x[1][1], ["l", [x[1][0]] + x[1][2:] + ([p1(NIL[h])] if len(x[1]) == 3 else [])]]])
            return replace(t, path, app(h, *(x[1][1:] + [p1(NIL[h])])))
        if len(x[1]) > 2:
            return replace(t, path, ["l", [["l", [["s", "_"]] + x[1][:2]]] + x[1][2:]])
        return replace(t, path, ["l", [["s", "_"]] + x[1]])
    if k < .8:
        return replace(t, path, app("eo::ite", ["s", "true"], x, ["s", rng.choice(["a", "P", "i1"])]))
    if k < .9:
        return replace(t, path, app("eo::requires", ["s", "a"], ["s", "a"], x))
    r = render(x)
    if r in SPELL:
        return replace(t, path, p1(rng.choice(SPELL[r])))
    if x[0] == "s" and not x[1].startswith("eo::"):
        return replace(t, path, ["qs", x[1]])
    return t


def binder_term(rng):
    vs = ["(%s %s)" % (rng.choice("xyz"), rng.choice(["U", "V", "Int"])) for _ in range(rng.choice([1, 1, 2]))]
    v = vs[0][1]
    return "(forall (%s) (pp %s))" % (" ".join(vs), rng.choice([v, "(pp %s)" % v, "a", "(eo::var \"x\" U)", "(pair %s %s)" % (v, rng.choice(vs)[1])]))


OPEN = ["(-> U U)", "(-> U U U)", "(-> U U U U)", "(-> U V)", "(-> V U U)", "(-> Int U)", "(-> (-> U U) U)", "(-> U (-> U U))", "(-> (-> U U) U U)", "(Pair U V)", "(Pair U U)", "(Pair (-> U U) V)", "(BitVec 1)", "(BitVec 2)", "(BitVec 12)",
        "(-> U U U U U)", "(-> (-> U U U) U)", "(-> (-> U V) (-> U V U))", "(-> V U)", "(-> Type Type)", "(-> Type Type Type)", "(-> Type U)"]
STUCK = ["(eo::add i1 i2)", "(eo::add i1 i2 i1)", "(eo::add i2 i1)", "(eo::add i1 (eo::add i2 i1))", "(eo::mul i1 i2)", "(eo::mul i1 i2 i1)", "(eo::neg i1)", "(eo::zdiv i1 i2)", "(eo::add i1 i1)", "(eo::add i1 i2 i1 i2)", "(eo::ite P i1 i2)",
         "(eo::ite Q i1 i2)", "(eo::requires i1 i2 i1)", "(eo::requires i1 i2 i2)", "(eo::len i1)", "(eo::add i1 1)", "(eo::add 1 i1)", "(eo::mul i1 1)", "(eo::add i1 i2 1)", "(+ i1 i2)", "(+ i1 (eo::add i1 i2))"]
LITSP = ["0", "00", "-0", "1", "-1", "01", "10", "0/1", "1/1", "1/2", "2/4", "-1/2", "-2/4", "0.5", "0.50", "1.0", "1.00", "-0.5", "0.0", "-0.0", "#b0", "#b1", "#b01", "#b001", "#b1010", "#xA", "#xa", "#x0A", "#x0a", "#x0", "#x00", "#b0000", "#b00001010",
         '"a"', '"\\u{61}"', '"\\u0061"', '"\\u{00061}"', '"A"', '""', '"aa"', '"0"', '"1"', "4294967296", "-4294967296", "18446744073709551616", "18446744073709551617", "1/18446744073709551616", "\"a\"\"\"", "(eo::add 1 0)", "(eo::add 1/2 1/2)",
         "(eo::to_z \"a\")", "(eo::to_bin 4 10)", "(eo::concat #b1 #b0)", "(eo::concat \"a\" \"\")", "(eo::neg 0)", "(eo::qdiv 2 4)", "(eo::to_q 1)", "(eo::add #b1 #b1)", "(eo::add #xf #x1)", "(eo::to_str 97)", "(eo::mul 4294967296 4294967296)"]


def eqs(s, t):
    return [ev("($same %s %s)" % (s, t)), ev("(eo::eq %s %s)" % (s, t))]


def batches(ctx):
    thorough = ctx["tier"] == "thorough"
    rng = ctx["rng"]
    # --- sequences of declarations, redeclarations and definitions ------------
    A = mc.auto
    sig = PROBE_RULE + """
(declare-const U Type)
(declare-const V Type)
(declare-const p (-> U Bool))
(declare-const q (-> V Bool))
(declare-rule same ((T Type) (S Type) (x T) (y S)) :args (x y) :requires ((x y)) :conclusion true)
(program $same ((T Type) (S Type) (x T) (y S)) :signature (T S) Bool ((($same x x) true) (($same x y) false)))
"""
    al = [A("(declare-const c U)"), A("(declare-const c V)"), A("(define c () d)"), A("(define k () c)"), A("(define d () c)"), A("(assume h (p c))"), A("(assume h (p d))"), A("(push)"), A("(pop)"),
          A("(step x :rule same :args (c d))"), A("(step x :rule same :args (k d))"), A("(step x :rule same :args (c k))"), A("(step x (p c) :rule $copy :premises (h))"), A("(step x (p k) :rule $copy :premises (h))"),
          A('(define k () (eo::var "c" U))'), A('(step x :rule same :args (c (eo::var "c" U)))'), A("(reset)")]
    ms = [mc.model(sig, al[:16], ["h", "x", "c", "d", "k"], 5 if thorough else 4, main="sig", tag="redeclare")]
    yield mc.explore(ms, ctx["exes"], keep=None if thorough else .5, rng=rng)
    # --- literals: all pairs ---------------------------------------------------
    js = []
    pairs = list(itertools.product(LITSP, LITSP))
    rng.shuffle(pairs)
    for k, ch in enumerate(chunks(pairs if thorough else pairs[:1500], 100)):
        cmds = pall(PRE)
        for n, (s, t) in enumerate(ch):
            cmds.append(ev("($same %s %s)" % (s, t)))
            cmds.append(ev("(eo::eq %s %s)" % (s, t)))
            if n % 5 == 0:
                cmds.append(p1("(step @r%d :rule req :args (%s %s))" % (n, s, t)))
            if n % 7 == 0:
                cmds += pall("(define k () %s)" % s) + [ev("($same k %s)" % t)]
        js.append(job(cmds, main=rng.choice(["sig", "sig", "proof"]) if False else "sig", tag="literals-%d" % k))
    yield js
    # --- terms and their variants ----------------------------------------------
    js = []
    for k in range(120 if not thorough else 2500):
        cmds = pall(PRE)
        g = Gen(rng)
        ty = rng.choice(["Bool", "Bool", "U", "Int"])
        base = [p1(g.term(ty, rng.choice([1, 2, 3]))) for _ in range(2)] + [p1(binder_term(rng)) for _ in range(1)]
        ts = []
        for b in base:
            ts.append(b)
            for _ in range(3):
                defs = []
                v = b
                for _ in range(rng.choice([1, 1, 2])):
                    v = variant(rng, v, defs)
                ren = {"@%s%d" % (c, n): ["s", "@%s%d.%d" % (c, n, len(cmds))] for n in range(len(defs)) for c in "dm"}
                cmds += [subst(p1(d), ren) for d in defs]
                ts.append(subst(v, ren))
            w = b
            path, _ = rng.choice(subtrees(w))
            pool = [y for x in base for _, y in subtrees(x)]
            ts.append(replace(w, path, rng.choice(pool)))
        for i, s in enumerate(ts):
            cmds.append(ev(s))
            for j2 in range(5):
                t = rng.choice(ts)
                cmds.append(ev(app("$same", s, t))); cmds.append(ev(app("eo::eq", s, t)))
        for i in range(6):
            s, t = rng.choice(ts), rng.choice(ts)
            cmds.append(p1("(step @r%d :rule req :args (%s %s))" % (i, render(s), render(t))))
            cmds.append(p1("(step @c%d %s :rule concl :args (%s))" % (i, render(s), render(t))))
            cmds.append(p1("(assume @h%d (pp %s))" % (i, render(s))))
            cmds.append(p1("(step @i%d (pp %s) :rule $copy :premises (@h%d))" % (i, render(t), i)))
            cmds.append(ev("($in %s (pp %s))" % (render(s), render(t))))
        js.append(job(cmds, main="sig", tag="variants-%d" % k))
    yield js
    # --- terms are built, kept and discarded in every order ----------------------
    js = []
    for k in range(120 if not thorough else 2500):
        cmds = pall(PRE)
        held = {}
        depth = 0
        pool = rng.sample(OPEN, 8) + rng.sample(STUCK, 9) + rng.sample(LITSP, 8) + [Gen(rng).term("Bool", 2) for _ in range(4)] + [Gen(rng).term("U", 2) for _ in range(2)]
        names_ = []
        for i in range(rng.choice([30, 50, 80])):
            r = rng.random()
            t = rng.choice(pool)
            if r < .25:
                n = "k%d" % i
                cmds += pall("(define %s () %s)" % (n, t)); names_.append((n, t))
            elif r < .35:
                n = "h%d" % i
                cmds += pall("(assume %s (pp %s))" % (n, t)); names_.append((n, "(pp %s)" % t))
            elif r < .43:
                cmds += pall("(push)"); depth += 1
            elif r < .55 and depth:
                cmds += pall("(pop)"); depth -= 1
            elif r < .6:
                cmds += pall("(declare-const %s %s)" % (rng.choice(["i1", "i2", "a", "P", "w"]), rng.choice(["Int", "U", "Bool"])))
            elif r < .72:
                # built and discarded at once
                cmds += pall("(define tmp ((x Int) (y Int)) (pp %s))" % t)
                cmds.append(ev("(tmp 1 2)"))
            elif names_:
                n, t0 = rng.choice(names_)
                t = rng.choice([t, t0, t0])
                if n[0] == "k":
                    cmds += pall("(assume g%d (pp %s))" % (i, n))
                    cmds += pall("(step s%d (pp %s) :rule $copy :premises (g%d))" % (i, t, i))
                    cmds += pall("(step r%d :rule req :args (%s %s))" % (i, n, t))
                    cmds.append(ev("($same %s %s)" % (n, t)))
                else:
                    cmds += pall("(step s%d %s :rule $copy :premises (%s))" % (i, t if t.startswith("(pp") else "(pp %s)" % t, n))
        js.append(job(cmds, main="sig", tag="discard-%d" % k, fuel=200))
    yield js
    # --- a name declared again, also with the type it had, in scopes opened and closed --
    js = []
    for k in range(80 if not thorough else 2500):
        cmds = pall(PRE)
        kept, depth = [], 0
        ns = rng.sample(["c", "d", "a", "w", "f"], rng.choice([1, 1, 2]))
        tys = rng.choice([["U"], ["U"], ["U", "V"], ["U", "Bool"], rng.sample(["U", "V", "Bool", "Int", "(-> U U)", "Type", "Rw"], 2)])
        for i in range(rng.choice([20, 30, 45])):
            r = rng.random()
            n = rng.choice(ns)
            if r < .13:
                cmds += pall("(push)"); depth += 1
            elif r < .25 and depth:
                cmds += pall("(pop)"); depth -= 1
            elif r < .32:
                # what the name meant, and what it means now
                t = rng.choice(tys[:2])
                cmds += pall("(define k%d () %s)" % (i, n)) + pall("(declare-const %s %s)" % (n, t))
                kept.append("k%d" % i)
                cmds += [ev("($same %s %s)" % (x, n)) for x in rng.sample(kept, min(len(kept), 2))] + [ev("($same %s k%d)" % (rng.choice(kept), i)), ev("(eo::eq k%d %s)" % (i, n))]
            elif r < .45:
                cmds += pall(rng.choice(["(declare-const %s %s)"] * 5 + ["(declare-parameterized-const %s ((x U)) %s)", "(declare-const %s (-> U %s))"]) % (n, rng.choice(tys)))
            elif r < .48:
                cmds += pall(rng.choice(["(declare-sort Rw 0)", "(declare-datatype Rw ((mk) (c (sel U))))", "(declare-const Rw Type)", "(declare-const V Type)"]))
            elif r < .7:
                cmds += pall("(define k%d () %s)" % (i, rng.choice(["%s", "%s", "%s", "%s", "(pp %s)", '(forall ((x U)) (pp %s))', "(eo::typeof %s)"]) % n)); kept.append("k%d" % i)
            elif kept:
                x, y = rng.choice(kept), rng.choice(kept + ns + ns)
                cmds += [ev("($same %s %s)" % (x, y)), ev("(eo::eq %s %s)" % (x, y)), ev(x)]
                if rng.random() < .3:
                    cmds += pall("(assume h%d (pp %s))" % (i, x)) + pall("(step s%d (pp %s) :rule $copy :premises (h%d))" % (i, y, i))
        js.append(job(cmds, main="sig", tag="again-%d" % k, fuel=100))
    yield js
    yield mc.walks(rng, ms, 60 if not thorough else 1500)
    yield repo_jobs(rng, has("eo::define", "define", "let", "push"), 60 if not thorough else 2000)
