"""C17: premise lists and explicit conclusions."""
import itertools
from gen import *
import mc

PRE = PROBE_RULE + UNI + """
(declare-const sor (-> Bool Bool Bool) :right-assoc-non-singleton-nil false)
(declare-const lor (-> Bool Bool Bool) :left-assoc-non-singleton-nil false)
(declare-const lst (-> Bool Bool Bool) :right-assoc-nil (not P))
(declare-const un Bool)
(declare-parameterized-const poly ((T Type :implicit)) (-> T T Bool) :right-assoc-nil true)
(declare-const argl (-> eo::List Bool) :arg-list eo::List::cons)
(declare-const cl (-> eo::List Bool))
(declare-const ch (-> Bool Bool Bool) :chainable and)
(declare-const pw (-> Bool Bool Bool) :pairwise and)
(program $conj ((F Bool) (G Bool :list)) :signature (Bool) Bool ((($conj (and F G)) F)))
(program $rest ((F Bool) (G Bool :list)) :signature (Bool) Bool ((($rest (and F G)) G)))
(program $cnt ((F Bool) (G Bool :list)) :signature (Bool) Int ((($cnt (and F G)) (eo::add 1 ($cnt G))) (($cnt true) 0)))
(define $mac ((f (-> Bool Bool Bool))) f)
"""
OPS = ["and", "or", "land", "xor", "=>", "sor", "lor", "lst", "poly", "ch", "pw", "not", "argl", "=", "P", "$conj", "eo::List::cons", "un", "eo::and", "(and P)", "distinct", "$mac", "nosuch", "F", "eo::cons", "ite", "eo::var"]
FORMS = ["P", "Q", "(and P Q)", "(not P)", "(or P Q)", "(=> P Q)", "(and P Q R)", "(r a b)", "(not Q)", "true", "(and P)", "(land P Q)", "(xor P Q)", "(= a b)", "false", "(lst P Q)", "(sor P Q)"]


def rules(rng, n, good):
    """rule text, and (has assumption, premise kind, number of args, requires, explicit)"""
    vs = "((F Bool) (G Bool) (H Bool) (x Bool) (y Bool) (C Bool) (A Bool) (f (-> Bool Bool Bool)) (L Bool :list))"
    parts = []
    asm = rng.random() < .3
    bound = []
    if asm:
        t = rng.choice(["A", "A", "A", "(not A)", "P", "x", "(or A x)"])
        parts.append(":assumption " + t); bound.append(t)
    k = rng.random()
    prem = None
    if k < .65:
        op = rng.choice(OPS[:10] if rng.random() < .85 else OPS)
        t = rng.choice(["F", "F", "F", "(and F G)", "(%s F G)" % op, "(%s F L)" % op, "(not F)", "(%s F G H)" % op, "(and F L)", "true", "(%s F F)" % op, "(%s F x)" % op, "P"])
        parts.append(":premise-list %s %s" % (t, op)); prem = "list"; bound.append(t)
    elif k < .8:
        ps = [rng.choice(["F", "G", "(=> F G)", "(not F)", "(and F G)", "x"]) for _ in range(rng.choice([0, 1, 2, 2]))]
        parts.append(":premises (%s)" % " ".join(ps)); prem = "plain"; bound += ps
    na = rng.choice([0, 0, 1, 1, 2])
    if na or rng.random() < .1:
        ps = [rng.choice(["x", "y", "(not x)", "(and x y)", "F", "x"]) for _ in range(na)]
        parts.append(":args (%s)" % " ".join(ps)); bound += ps
    vars_ = [v for v in ("F", "G", "H", "x", "y", "A", "L") if any(re.search(r"\b%s\b" % v, b) for b in bound)]
    term = lambda: rng.choice(vars_ + vars_ + ["P", "true"]) if rng.random() < .75 else rng.choice(["(not %s)", "(and %s P)", "(or %s %s)" if False else "($conj %s)", "($rest %s)", "(=> %s Q)", "(= ($cnt %s) 2)"]) % rng.choice(vars_ + ["P"])
    if rng.random() < .3:
        parts.append(":requires (%s)" % " ".join("(%s %s)" % (rng.choice(["($conj %s)", "($cnt %s)", "%s", "%s"]) % rng.choice(vars_ + ["P"]), rng.choice(["P", "2", "1", "Q", term(), term()])) for _ in range(rng.choice([1, 1, 2]))))
    ex = rng.random() < .4
    if ex:
        c = rng.choice(["C", "C", "(or C %s)" % (vars_ + ["P"])[0], "(and C P)", "(=> C C)"])
        parts.append(":conclusion-explicit " + c)
    else:
        parts.append(":conclusion " + (term() if not asm or rng.random() < .4 else "(=> %s %s)" % ("A" if "A" in vars_ else "P", term())))
    if rng.random() < .06:
        i, j = rng.randrange(len(parts)), rng.randrange(len(parts))
        parts[i], parts[j] = parts[j], parts[i]
    return "(declare-rule %s %s %s)" % (n, vs, " ".join(parts)), asm, prem, na, ex


import re


# things in the place of a premise that are not proofs
NOPROOF = ["P", "Q", "true", "(and P Q)", "(and P)", "h0x", "and", "Int", "1", "(not P)", "a", "(eo::and true true)", "($conj (and P Q))", "U", "(and h0 h1)", "(not h0)", "fin0"]


def mixin(rng, ps, p=.15):
    """replace or add a premise that is not a proof, in any position"""
    ps = list(ps)
    if rng.random() < p:
        x = rng.choice(NOPROOF)
        i = rng.randrange(len(ps) + 1)
        if i < len(ps) and rng.random() < .6:
            ps[i] = x
        else:
            ps.insert(i, x)
    return ps


def batches(ctx):
    thorough = ctx["tier"] == "thorough"
    rng = ctx["rng"]
    js = []
    # systematic: operator x number of premises x shape of the pattern
    hyps = "".join("(assume h%d %s)" % (i, f) for i, f in enumerate(FORMS))
    pats = ["F", "(and F G)", "(OP F G)", "(OP F L)", "(OP F)", "(OP F G H)", "(OP F G L)", "P", "true"]
    combos = list(itertools.product(OPS, pats, [":conclusion F", ":conclusion-explicit C", ":conclusion (and F P)"]))
    rng.shuffle(combos)
    for k, ch in enumerate(chunks(combos if thorough else combos[:260], 26)):
        cmds = pall(PRE + hyps)
        for n, (op, pt, cn) in enumerate(ch):
            pt = pt.replace("OP", op)
            if ("F" not in pt.replace("nosuch", "")) and cn != ":conclusion-explicit C":
                cn = ":conclusion P"
            c = "(declare-rule r%d ((F Bool) (G Bool) (H Bool) (C Bool) (L Bool :list)) :premise-list %s %s %s)" % (n, pt, op, cn)
            cmds.append(p1(c))
            for m in (0, 1, 2, 3, 4):
                for _ in range(1 if m != 2 else 2):
                    hs = [rng.randrange(len(FORMS)) for _ in range(m)]
                    fs = [FORMS[h] for h in hs]
                    stated = rng.choice([None, None, "P", "true", "(%s %s)" % (op, " ".join(fs)) if fs else "true", "(and (%s %s) P)" % (op, " ".join(fs)) if fs else "false", fs[0] if fs else "true", "(%s)" % " ".join([op] + fs[::-1])])
                    if "-explicit" in cn and stated is None and rng.random() < .8:
                        stated = "P"
                    cmds.append(p1("(step @s%d_%d_%d%s :rule r%d :premises (%s))" % (n, m, len(cmds), " " + stated if stated else "", n, " ".join(mixin(rng, ["h%d" % h for h in hs], .25)))))
                    cmds.append(proves(cmds[-1][1][1][1]))
        js.append(job(cmds, main="sig", tag="lists-%d" % k, fuel=100))
    # random combinations of all clauses
    for k in range(150 if not thorough else 4000):
        hs = [rng.choice(FORMS) for _ in range(6)]
        cmds = pall(PRE) + [p1("(assume h%d %s)" % (i, f)) for i, f in enumerate(hs)]
        for n in range(6):
            c, asm, prem, na, ex = rules(rng, "r%d" % n, True)
            cmds.append(p1(c))
            for q in range(6):
                ps = [rng.randrange(6) for _ in range(rng.choice([0, 1, 1, 2, 2, 3]))]
                args = [rng.choice(["P", "Q", "(not P)", "(and P Q)", "R"] + [hs[i] for i in ps]) for _ in range(na if rng.random() < .93 else rng.choice([0, 1, 2, 3]))]
                st = None
                pool = ["P", "Q", "(and P Q)", "(or P Q)", "(=> P P)", "(=> Q P)", "true"] + [hs[i] for i in ps] + ["(and %s)" % " ".join(hs[i] for i in ps) if ps else "true"] + ["(=> Q %s)" % hs[i] for i in ps]
                if rng.random() < (.9 if ex else .25):
                    st = rng.choice(pool)
                pop = asm if rng.random() < .95 else not asm
                nm = "@s%d_%d" % (n, q)
                if pop:
                    cmds.append(p1("(assume-push @a%s %s)" % (nm, rng.choice(["P", "Q", "(not P)", "(or P Q)"]))))
                    pstr = " ".join("h%d" % i for i in ps) if rng.random() < .5 else " ".join(rng.choice(["@a" + nm, "h%d" % i]) for i in ps)
                else:
                    pstr = " ".join(mixin(rng, ["h%d" % i for i in ps]))
                cl = "(%s %s%s :rule r%d%s%s)" % ("step-pop" if pop else "step", nm, " " + st if st else "", n, " :premises (%s)" % pstr if pstr or rng.random() < .3 else "", " :args (%s)" % " ".join(args) if args or rng.random() < .2 else "")
                cmds.append(p1(cl))
                if pop:
                    # whatever happened, close the scope
                    cmds.append(p1("(step-pop @z%s :rule fin :premises (h0))" % nm))
                cmds.append(proves(nm))
        cmds.insert(len(pall(PRE)), p1("(declare-rule fin ((F Bool) (G Bool)) :assumption F :premises (G) :conclusion (=> F G))"))
        js.append(job(cmds, main="sig", tag="clauses-%d" % k, fuel=100))
    yield js
    # positions: every subset of clauses, every order of the values
    js = []
    for k, (asm, pk, na, rq, ex) in enumerate(itertools.product([0, 1], ["none", "plain", "list"], [0, 1, 2], [0, 1], [0, 1])):
        cmds = pall(PRE + "(declare-const r4 (-> Bool Bool Bool Bool Bool Bool))\n(declare-rule fin ((F Bool) (G Bool)) :assumption F :premises (G) :conclusion (=> F G))\n(assume p P)\n(assume q Q)\n(assume nn (not R))\n")
        vs = ["A"] * asm + {"none": [], "plain": ["F", "G"], "list": ["F"]}[pk] + ["x", "y"][:na]
        pad = lambda xs: " ".join((xs + ["true"] * 5)[:5])
        cs = (["C"] if ex else []) + vs
        r = "(declare-rule rr ((A Bool) (F Bool) (G Bool) (x Bool) (y Bool) (C Bool))"
        if asm: r += " :assumption A"
        r += {"none": "", "plain": " :premises (F (not G))", "list": " :premise-list F and"}[pk]
        if na: r += " :args (%s)" % " ".join(["x", "y"][:na])
        if rq: r += " :requires (%s)" % (" ".join("(%s %s)" % (v, v) for v in cs) + (" ((eo::eq x P) true)" if na else " ((eo::eq true true) true)"))
        r += (" :conclusion-explicit C" if ex else " :conclusion (r4 %s)" % pad(vs)) + ")"
        cmds.append(p1(r))
        vals = ["P", "Q", "R"]
        for n in range(30 if not thorough else 60):
            av = rng.choice(vals)
            args = [rng.choice(vals) for _ in range(na)]
            ps = {"none": [], "plain": ["p", "nn"], "list": rng.choice([[], ["p"], ["q", "p"], ["p", "q", "nn"]])}[pk]
            if rng.random() < .2:
                ps = [rng.choice(["p", "q", "nn"]) for _ in range(rng.choice([0, 1, 2]))]
            fs = {"p": "P", "q": "Q", "nn": "(not R)"}
            given = ([av] if asm else []) + (["P", "R"] if pk == "plain" else ["(and %s)" % " ".join(fs[x] for x in ps) if ps else "true"] if pk == "list" else []) + args
            if rng.random() < .3:
                rng.shuffle(given)
            st = rng.choice(["P", "(or P Q)", None]) if ex else rng.choice([None, "(r4 %s)" % pad(given), "(r4 %s)" % pad(given)])
            if asm:
                cmds.append(p1("(assume-push a%d %s)" % (n, av)))
            cmds.append(p1("(%s s%d%s :rule rr%s%s)" % ("step-pop" if asm else "step", n, " " + st if st else "", " :premises (%s)" % " ".join(ps) if ps else "", " :args (%s)" % " ".join(args) if args else "")))
            cmds.append(proves("s%d" % n))
            if asm:
                cmds.append(p1("(step-pop z%d :rule fin :premises (p))" % n))
        js.append(job(cmds, main="sig", tag="positions-%d" % k, fuel=100))
    yield js
    yield repo_jobs(rng, has(":premise-list", ":conclusion-explicit", ":conclusion-given"), 200 if not thorough else 4000, nmut=(1, 1, 2))
