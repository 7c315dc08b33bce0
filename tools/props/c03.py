"""C03: references."""
from gen import *
import mc

DECL = """(declare-const U Type)
(declare-const P Bool)
(declare-const Q Bool)
(declare-const not (-> Bool Bool))
(declare-const and (-> Bool Bool Bool) :right-assoc-nil true)
(declare-const or (-> Bool Bool Bool) :right-assoc-nil false)
(declare-parameterized-const = ((A Type :implicit)) (-> A A Bool) :chainable and)
(declare-const => (-> Bool Bool Bool) :right-assoc)
(declare-parameterized-const lambda ((L eo::List) (T Type :implicit)) (-> (! eo::List :var L) T (-> U T)) :binder eo::List::cons)
"""
SIG = DECL.replace("(declare-parameterized-const lambda ((L eo::List) (T Type :implicit)) (-> (! eo::List :var L) T (-> U T)) :binder eo::List::cons)\n", "") + """
(declare-const lambda (-> eo::List Bool (-> U Bool)) :binder eo::List::cons)
(declare-const a U)
(declare-const p (-> U Bool))
(declare-const c Bool)
(declare-const d Bool)
(declare-const pf (-> U Bool))
(program $nn ((F Bool)) :signature (Bool) Bool ((($nn (not (not F))) ($nn F)) (($nn (not F)) (not ($nn F))) (($nn F) F)))
(program $par ((F Bool)) :signature (Bool) Bool ((($par (not F)) F)))
(program $all ((F Bool)) :signature (Bool) Bool ((($all F) true)))
(define $dbl ((F Bool)) (and F F))
(declare-rule scope ((F Bool) (G Bool)) :assumption F :premises (G) :conclusion (=> F G))
(declare-rule ident ((F Bool)) :premises (F) :conclusion F)
"""

REF = """(set-logic QF)
(set-info :status unsat)
(assert P)
(assert (not (not Q)))
(assert (p a))
(assert (or P Q))
(check-sat)
(exit)
(assert (not P))
"""
REF2 = """(set-option :produce-proofs true)
(define-fun e () Bool (not P))
(assert e)
(define-fun pp ((x U)) Bool (p x))
(assert (pp a))
(define-const k Bool Q)
(assert (or k P))
(push 1)
(declare-const P Bool)
(assert (=> P P))
(pop 1)
(assert (let ((z Q)) (=> z z)))
(assert (= P Q P))
(check-sat-assuming (Q))
"""
REFBAD = "(assert P)\n(assume h P)\n"
REFEMPTY = "(check-sat)\n"

FORMS = ["P", "Q", "(not P)", "(not (not Q))", "(not (not P))", "(p a)", "(or P Q)", "(or Q P)", "(or P Q false)", "(and P P)", "true", "(=> P P)", "(=> Q Q)",
         "(= P Q P)", "(and (= P Q) (= Q P))", "(lambda ((x U)) (p x))", "(= c d)", "(not c)", "(p (p a))", "(let ((z P)) z)"]


def batches(ctx):
    thorough = ctx["tier"] == "thorough"
    rng = ctx["rng"]
    A = mc.auto
    asm = [A("(assume h %s)" % f) for f in FORMS]
    refs = [A('(reference "%s"%s)' % (f, n)) for f in ("ref.smt2", "ref2.smt2", "empty.smt2", "none.smt2", "bad.smt2")
            for n in ("", " $nn")] + [A('(reference "ref.smt2" %s)' % n) for n in ("$par", "$all", "$dbl", "not", "Q", "$undef", "p")]
    other = [A("(assume-push g P)"), A("(assume-push g (not P))"), A("(step-pop x :rule scope :premises (g))"), A("(push)"), A("(pop)"), A("(step x :rule ident :premises (h))"),
             A('(include "extra.eo")'), A('(include "ref.smt2")'), A("(reset)"), A("(assume h e)"), A("(assume h (= e (not P)))"), A("(assume h (pp a))"),
             A("(assume h (= pp (lambda ((x U)) (p x))))"), A("(assume h (or k P))"), A("(declare-const P Bool)"), A("(define e () Q)"), A('(include "asm.eo")')]
    files = [(["t", "ref.smt2"], REF), (["t", "ref2.smt2"], REF2), (["t", "empty.smt2"], REFEMPTY), (["t", "bad.smt2"], REFBAD),
             (["t", "extra.eo"], "(declare-const u U)\n"), (["t", "asm.eo"], "(assume w P)\n(assume w2 Q)\n"), (["t", "sig.eo"], SIG)]
    names = ["h", "g", "x"]
    ms = []

    def add(tag, al, depth, **kw):
        ms.append(mc.model(PROBE_RULE + (SIG if kw.get("main") == "sig" else '(include "sig.eo")\n'), al, names, depth, tag=tag, files=files, **kw))
    add("refs", refs + asm[:2] + other[:1], 2, main="proof")
    nf = lambda *xs: [a for a in refs if any(a["cmd"] == p1(x) for x in xs)]
    core = [asm[k] for k in (0, 2, 3, 4, 9)] + other[:6]
    add("assume", nf('(reference "ref.smt2")') + core, 4 if thorough else 3, main="proof")
    add("nf", nf('(reference "ref.smt2" $nn)', '(reference "ref.smt2" $par)') + core, 4 if thorough else 3, main="sig")
    add("all-forms", nf('(reference "ref.smt2")', '(reference "ref.smt2" $nn)', '(reference "ref.smt2" $all)', '(reference "ref.smt2" $dbl)', '(reference "ref2.smt2")', '(reference "ref2.smt2" $nn)', '(reference "empty.smt2")') + asm + other[9:16], 2, main="proof")
    add("include", nf('(reference "ref2.smt2")') + [other[k] for k in (0, 3, 4, 6, 7, 8, 16)] + [asm[0], asm[1], asm[6]], 4 if thorough else 3, main="proof")
    pres = [[("ref", ["ref.smt2"])], [("ref", ["ref2.smt2"])], [("sig", ["extra.eo"]), ("ref", ["ref2.smt2"])], [("ref", ["ref.smt2"]), ("sig", ["extra.eo"])], [("ref", ["ref.smt2"]), ("ref", ["empty.smt2"])],
            [("sig", ["ref.smt2"]), ("ref", ["ref.smt2"])]]
    for k, pr in enumerate(pres):
        for main in ("proof", "stdin"):
            # the declarations come from a file of the command line as well
            m = mc.model("", asm[:8] + other[:6] + [A('(reference "empty.smt2")')], names, 1 if not thorough else 3, tag="options-%d-%s" % (k, main), files=files, main=main,
                         pre=[("sig", ["sig.eo"])] + pr)
            m["probe"] = ""
            ms.append(m)
    yield mc.explore(ms, ctx["exes"])
    yield mc.walks(rng, ms[1:5], 60 if not thorough else 1500)
    # random references, assumptions that are variants of the assertions
    js = []
    for k in range(120 if not thorough else 2000):
        g = Gen(rng, funs=FUNS)
        fs = [g.term("Bool", rng.choice([1, 2, 3])) for _ in range(rng.randint(1, 6))]
        ref = []
        scope = 0
        defs, apps = [], []
        for f in fs:
            x = rng.random()
            if x < .12:
                n = "df%d" % len(defs)
                defs.append(n)
                ref.append("(define-fun %s () Bool %s)" % (n, f))
            elif x < .2:
                n = "df%d" % len(defs)
                defs.append(n)
                ps = [("xyz"[i], rng.choice(["U", "V", "Bool", "Int"])) for i in range(rng.choice([1, 1, 2, 2, 3]))]
                env = {}
                for v, t in ps:
                    env.setdefault(t, []).append(v)
                rt = rng.choice(["Bool", "Bool", "U", "V", "Int"])
                ref.append("(define-fun %s (%s) %s %s)" % (n, " ".join("(%s %s)" % p for p in ps), rt, Gen(rng, env).term(rt if rng.random() < .9 else "Bool", 2)))
                # an assertion that applies it, and assumptions of it with the arguments in some order
                g2 = Gen(rng)
                mk = lambda ts: "(%s %s)" % (n, " ".join(g2.term(t, 1) for t in ts))
                wrap = {"Bool": "%s", "U": "(p %s)", "V": "(q %s)", "Int": "(pi %s)"}[rt]
                ts = [t for _, t in ps]
                ap = wrap % mk(ts)
                ref.append("(assert %s)" % ap)
                apps += [ap, ap, wrap % mk(ts[::-1]), wrap % mk(rng.sample(ts, len(ts)))]
            elif x < .25:
                ref.append("(define-const ck Bool %s)" % f)
            elif x < .3:
                ref += ["(push)", "(declare-const a U)", "(assert %s)" % f, "(pop)"]
            else:
                ref.append("(assert %s)" % f)
        sig = (UNI + rng.choice(["(declare-const lambda (-> eo::List Bool (-> U Bool)) :binder eo::List::cons)\n",
                            "(declare-parameterized-const lambda ((T Type :implicit)) (-> eo::List T T) :binder eo::List::cons)\n"]) +
               "(program $nn ((F Bool)) :signature (Bool) Bool ((($nn (not (not F))) ($nn F)) (($nn F) F)))\n(program $eqs ((T Type) (x T) (y T)) :signature (Bool) Bool ((($eqs (= x y)) (= y x)) (($eqs x) x)))\n")
        cmds = pall(PROBE_RULE + '(include "sig.eo")\n')
        cmds.append(p1('(reference "r.smt2"%s)' % rng.choice(["", "", " $nn", " $eqs", " not"])))
        for i in range(14):
            f = p1(rng.choice(fs))
            if rng.random() < .5:
                pool = [y for f2 in fs for _, y in subtrees(p1(f2))]
                path, _ = rng.choice(subtrees(f))
                f = replace(f, path, rng.choice(pool))
            for _ in range(rng.choice([0, 0, 0, 1, 2])):
                f = ["l", [["s", "not"], f]]
            if rng.random() < .25 and apps:
                f = p1(rng.choice(apps))
            elif rng.random() < .15 and defs:
                f = p1(rng.choice(["%s", "(= %s P)", "(%s a)", "(= %s (not P))"]) % rng.choice(defs))
            cmds.append(["l", [["s", rng.choice(["assume", "assume", "assume", "assume-push"])], ["s", "@h%d" % i], f]])
        js.append(job(cmds, main=rng.choice(["proof", "sig", "stdin"]), files=[(["t", "r.smt2"], "\n".join(ref)), (["t", "sig.eo"], sig)], tag="random-%d" % k))
    yield js
    yield repo_jobs(rng, has("reference"), 40 if not thorough else 800)
