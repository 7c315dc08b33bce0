"""C11: names, overloads and scopes."""
from gen import *
import mc

PRE = PROBE_RULE + """
(declare-const Int Type)
(declare-consts <numeral> Int)
(declare-const U Type)
(declare-const V Type)
(declare-const W Type)
(declare-const Seq (-> Type Type))
(declare-const u0 U)
(declare-const v0 V)
(declare-const w0 W)
(declare-const su (Seq U))
(declare-const forall (-> eo::List Bool Bool) :binder eo::List::cons)
(declare-const and (-> Bool Bool Bool) :right-assoc-nil true)
(declare-const = (-> U U Bool))
"""
NAMES = ["x", "y", "z", "and", "="]
TYPES_ = ["U", "V", "Int", "Bool", "(-> U U)", "(-> V U)", "(-> U V)", "(-> U U U)", "(-> U V Bool)", "(-> Bool Bool)", "(-> (-> U U) U)", "(-> Int Int)", "(-> Bool Bool Bool)", "(-> U U Bool)", "Type", "(-> Type Type)", "(-> U (-> V W))"]
ARGS = ["u0", "v0", "w0", "1", "true", "x", "y", "z", "su", "(x u0)", "(x v0)", "(y u0)", "and", "U", "(x u0 u0)", "(and true true)", "(= u0 u0)"]


def rterm(rng, d=2):
    k = rng.random()
    if d == 0 or k < .2:
        return rng.choice(ARGS)
    n = rng.choice(NAMES)
    if k < .3:
        return "(eo::as %s %s)" % (n, rng.choice(TYPES_))
    if k < .4:
        return "(_ (eo::as %s %s) %s)" % (n, rng.choice(TYPES_), rterm(rng, d-1))
    if k < .45:
        return "(as %s %s)" % (n, rng.choice(TYPES_))
    if k < .55:
        return "(forall ((%s %s)) %s)" % (n, rng.choice(["U", "V", "Int", "Bool"]), rterm(rng, d-1))
    if k < .65:
        return "(eo::define ((%s %s)) %s)" % (n, rterm(rng, d-1), rterm(rng, d-1))
    if k < .7:
        n2 = rng.choice(NAMES)
        return "(eo::define ((%s %s) (%s %s)) %s)" % (n, rterm(rng, d-1), n2, rterm(rng, d-1), rterm(rng, d-1))
    if k < .75:
        return "(_ %s %s)" % (n, rterm(rng, d-1))
    return "(%s%s)" % (n, "".join(" " + rterm(rng, d-1) for _ in range(rng.choice([1, 1, 2, 2, 3, 0]))))


def decl(rng, depth):
    n = rng.choice(NAMES[:3] if rng.random() < .85 else NAMES)
    k = rng.random()
    ps = " ".join("(%s %s)" % (rng.choice(NAMES), rng.choice(["U", "V", "Bool", "Int", "Type", "(-> U U)"])) for _ in range(rng.choice([0, 1, 2])))
    if k < .34:
        return "(declare-const %s %s%s)" % (n, rng.choice(TYPES_), rng.choice(["", "", "", "", " :right-assoc", " :left-assoc", " :right-assoc-nil u0", " :chainable and", " :right-assoc-nil true"]))
    if k < .4:
        return "(declare-parameterized-const %s ((T Type :implicit)%s) %s%s)" % (n, rng.choice(["", " (S Type :implicit)", " (%s Type)" % n, " (k Int)"]), rng.choice(["(-> T T)", "(-> T T Bool)", "(Seq T)", "T", "(-> T U)", "(-> (Seq T) T)"]), rng.choice(["", "", "", " :chainable and", " :right-assoc"]))
    if k < .55:
        return "(define %s (%s) %s)" % (n, ps, rterm(rng))
    if k < .62:
        a = rng.choice(NAMES)
        return "(program %s (%s) :signature (%s) %s %s)" % (n, ps or "(x U)", rng.choice(["U", "V", "Bool"]), rng.choice(["U", "V", "Bool"]),
                                                         rng.choice(["", "(((%s %s) %s))" % (n, rng.choice(["x", "y", "u0", "true"]), rterm(rng, 1))]))
    if k < .68:
        return "(declare-rule %s (%s) :premises () :args (%s) :conclusion %s)" % (n, ps or "(x Bool)", rng.choice(["x", "y", "z", "u0", ""]), rng.choice(["x", "true", "(= u0 u0)", rterm(rng, 1)]))
    if k < .76:
        return "(assume %s %s)" % (n, rng.choice(["true", "(= u0 u0)", rterm(rng)]))
    if k < .80:
        return "(step %s :rule %s :args (%s))" % (n, rng.choice(NAMES[:3] + ["$copy"]), rng.choice(["true", "u0"]))
    if k < .84:
        return "(step %s :rule $copy :premises (%s))" % (n, rng.choice(NAMES))
    if k < .90 and depth:
        return "(step-pop %s :rule %s :premises (%s))" % (n, rng.choice(["$sc", "$sc", "$copy"]), rng.choice(NAMES[:3]))
    if k < .95:
        return rng.choice(["(push)", "(pop)", "(pop)", "(push 2)", "(pop)"])
    return "(assume-push %s %s)" % (n, rng.choice(["true", "(= u0 u0)", rterm(rng, 1)]))


def batches(ctx):
    rng = ctx["rng"]
    thorough = ctx["tier"] == "thorough"
    sc = "(declare-rule $sc ((F Bool) (G Bool)) :assumption F :premises (G) :conclusion (and F G))\n"
    js = []
    for k in range(150 if not thorough else 3000):
        cmds = pall(PRE + sc)
        depth = 0
        for i in range(rng.choice([5, 10, 20, 30])):
            c = decl(rng, depth)
            if c.startswith("(assume-push"):
                depth += 1
            if c.startswith("(step-pop"):
                depth = max(0, depth - 1)
            try:
                cmds.append(p1(c))
            except SxError:
                continue
            for _ in range(rng.choice([0, 1, 2, 3])):
                cmds.append(ev(rterm(rng)))
            for n in rng.sample(NAMES, 2):
                cmds.append(ev(n))
                cmds.append(ev("(%s %s)" % (n, rng.choice(ARGS))))
                cmds.append(ev("(eo::as %s %s)" % (n, rng.choice(TYPES_))))
                if rng.random() < .4:
                    cmds.append(proves(n))
        for _ in range(4):
            cmds.append(p1("(pop)"))
            for n in NAMES:
                cmds.append(ev(n)); cmds.append(ev("(%s %s)" % (n, rng.choice(ARGS))))
        js.append(job(cmds, main=rng.choice(["sig", "sig", "proof"]), tag="names-%d" % k, opt=dict(rst=rng.random() < .8), fuel=25))
    yield js
    # overload tables: all pairs and triples of types, applied to all argument lists
    js = []
    OT = [t for t in TYPES_ if t.startswith("(->")] + ["U", "V", "Bool"]
    combos = [rng.sample(OT, rng.choice([2, 2, 3, 4])) for _ in range(64 if not thorough else 1000)]
    for k, combo in enumerate(combos):
        cmds = pall(PRE)
        kinds = []
        for t in combo:
            r = rng.random()
            if r < .7:
                cmds += pall("(declare-const o %s%s)" % (t, rng.choice(["", "", "", " :right-assoc", " :right-assoc-nil u0", " :left-assoc-nil true", " :chainable and"])))
            elif r < .8:
                cmds += pall("(declare-parameterized-const o ((T Type :implicit)) %s)" % rng.choice(["(-> T T)", "(-> T T Bool)", "(-> (Seq T) T)", "(-> T U)", "(Seq T)"]))
            elif r < .87:
                cmds += pall("(define o () %s)" % rng.choice(["u0", "and", "(eo::as o %s)" % t, "u0", "o"]))
            elif r < .94:
                cmds += pall("(define o ((x U)) %s)" % rng.choice(["x", "(o x)", "v0"]))
            else:
                cmds += pall("(push)")
                cmds += pall("(declare-const o %s)" % rng.choice(OT))
                cmds += pall("(pop)")
            if rng.random() < .15:
                cmds += pall("(define alias () o)")
        ats = ["u0", "v0", "w0", "1", "true", "su", "o", "and", "(o u0)", "(o v0)", "(o u0 u0)", "(eo::as o %s)" % rng.choice(OT), "(eo::requires u0 v0 u0)", "(eo::var \"x\" U)"]
        for a in ats:
            cmds.append(ev("(o %s)" % a))
            cmds.append(ev("(alias %s)" % a))
            for b in rng.sample(ats, 5):
                cmds.append(ev("(o %s %s)" % (a, b)))
        cmds += [ev("(o)"), ev("o"), ev("(o u0 u0 u0)"), ev("(_ o u0)"), ev("(_ o v0 u0)"), ev("(o true true true)"), ev("(o u0 v0 u0)")]
        for t in TYPES_ + ["W", "(-> U U U U)", "(Seq U)", "a", "(-> T U)"]:
            cmds.append(ev("(eo::as o %s)" % t)); cmds.append(ev("(_ (eo::as o %s) u0)" % t)); cmds.append(ev("(as o %s)" % t))
        # overloads below parameters
        cmds += pall("""(program $o1 ((x U) (y V)) :signature (U V) U ((($o1 x y) (o x))))
(program $o2 ((T Type) (x T)) :signature (T) U ((($o2 x) (o x))))
(program $o3 ((x U)) :signature (U) U ((($o3 (o x)) x)))
(define $o4 ((x U) (o V)) (= o x))
(declare-rule $o5 ((x U)) :args (x) :conclusion (o x))""")
        for a in ats[:9]:
            cmds.append(ev("($o1 %s v0)" % a)); cmds.append(ev("($o2 %s)" % a)); cmds.append(ev("($o3 %s)" % a))
            cmds.append(p1("(step @o :rule $o5 :args (%s))" % a))
            cmds.append(ev("($o3 (o %s))" % a))
        js.append(job(cmds, main="sig", tag="overloads-%d" % k, fuel=60))
    yield js
    # all sequences of declarations of one name in scopes, and what it means after them
    A = mc.auto
    sig = PRE + sc + "(declare-const p (-> U Bool))\n(declare-const q (-> V Bool))\n"
    use = [A("(assume h %s)" % t) for t in ("(p x)", "(q x)", "(p (x u0))", "(q (x u0))", "(p (x x))", "(p (eo::as x U))", "(p k)", "(p (k u0))")]
    dec = [A(c) for c in ("(declare-const x U)", "(declare-const x V)", "(declare-const x (-> U U))", "(declare-const x (-> U V))", "(define k () x)", "(define x () u0)", "(define x () k)", "(define x ((x U)) x)",
                          "(declare-const k (-> U U))", "(program x ((y U)) :signature (U) U (((x y) y)))", "(declare-rule x ((F Bool)) :args (F) :conclusion F)")]
    scp = [A("(push)"), A("(pop)"), A("(assume-push x true)"), A("(assume-push g true)"), A("(step-pop k :rule $sc :premises (g))"), A("(step-pop h :rule $sc :premises (x))")]
    ms = [mc.model(sig, dec[:6] + scp[:2] + use[:6], ["h", "x", "k"], 5 if thorough else 4, main="sig", tag="mc-overloads"),
          mc.model(sig, rng.sample(dec, 5) + scp + rng.sample(use, 4), ["h", "x", "k"], 4 if thorough else 3, main="sig", tag="mc-scopes")]
    yield mc.explore(ms, ctx["exes"], keep=None if thorough else .4, rng=rng)
    yield mc.walks(rng, ms + [mc.model(sig, dec + scp + use, ["h", "x", "k"], 3, main="sig", tag="mc-all")], 80 if not thorough else 1500)
    yield repo_jobs(rng, has("eo::as", "as", "let", "eo::define", "push", "pop"), 150 if not thorough else 3000)
    yield repo_jobs(rng, None, 100 if not thorough else 3000)
