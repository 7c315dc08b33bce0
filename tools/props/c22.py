"""C22: push, pop and reset."""
from gen import *
import mc

PRE = PROBE_RULE + """
(declare-const U Type)
(declare-const V Type)
(declare-const u U)
(declare-const p (-> U Bool))
(declare-const and (-> Bool Bool Bool) :right-assoc-nil true)
(declare-const => (-> Bool Bool Bool) :right-assoc)
(declare-const P Bool)
(declare-const Q Bool)
(declare-rule same ((T Type) (S Type) (x T) (y S)) :args (x y) :requires ((x y)) :conclusion true)
(declare-rule scope ((F Bool) (G Bool)) :assumption F :premises (G) :conclusion (=> F G))
(declare-rule trust ((F Bool)) :args (F) :conclusion F :sorry)
(declare-rule conj ((F Bool)) :premise-list F and :conclusion F)
"""
REF = "(assert P)\n(assert (p u))\n(declare-const RB Bool)\n(assert RB)\n"
FS = [(["t", "a.eo"], "(declare-const ca U)\n(declare-rule ra () :conclusion P)\n"),
      (["t", "b.eo"], "(declare-const cb Type)\n(declare-rule rb () :conclusion true :sorry)\n"),
      (["t", "ref.smt2"], REF), (["t", "ref2.smt2"], "(declare-const RB Bool)\n(assert RB)\n(assert true)\n")]
RNAMES = ["P", "Q", "U", "u", "and", "k", "h", "x", "s", "c"]


def batches(ctx):
    thorough = ctx["tier"] == "thorough"
    rng = ctx["rng"]
    A = lambda c: mc.auto(c, ("trust", "rb"))
    scope = ["(push)", "(push 2)", "(push 0)", "(pop)", "(pop 2)", "(pop 3)", "(pop 0)"]
    decl = ["(declare-const c U)", "(declare-const c V)", "(declare-const c (-> U U))", "(define c () u)", "(define k () c)", "(define k () (c u))", "(define k () (c c))"]
    proof = ["(assume h P)", "(assume-push g P)", "(step x P :rule $copy :premises (h))", "(step-pop x :rule scope :premises (h))", "(step h Q :rule trust :args (Q))", "(step x (and P P) :rule conj :premises (h g))", "(step x :rule $copy :premises (g))"]
    other = ["(program $q ((x U)) :signature (U) U ((($q x) x)))", "(program $q ((x U)) :signature (U) U)", "(define k () ($q u))", "(declare-rule same ((F Bool)) :args (F) :conclusion F)", "(declare-consts <numeral> U)", "(define k () (p 1))", "(declare-datatype D ((d1) (d2 (s1 U))))",
             "(define k () (d2 u))", "(define k () (s1 (d2 u)))", "(declare-const and (-> Bool Bool Bool))", "(define k () (and P P P))", '(include "a.eo")', "(define k () ca)", "(step x :rule ra)"]
    names = ["c", "k", "h", "g", "x", "$q"]
    d = 5 if thorough else 4
    ms = [
        mc.model(PRE, [A(c) for c in scope[:1] + scope[1:2] + scope[3:5] + decl], names, d, main="sig", tag="decls"),
        mc.model(PRE, [A(c) for c in ["(push)", "(push 2)", "(pop)", "(pop 2)"] + proof], names, d, main="proof" if False else "sig", tag="proof", sound=True, plain=True),
        mc.model(PRE, [A(c) for c in ["(push)", "(pop)"] + other], names, d - 1, main="sig", tag="kinds"),
        mc.model(PRE, [A(c) for c in scope + ["(push -1)", "(push U)", "(pop 1 1)", "(push \"1\")", "(pop -1)"] + decl[:2] + proof[:2]], names, 3, main="sig", tag="counts"),
        mc.model(PRE, [A(c) for c in ["(push)", "(pop)"] + other], names, d - 1, main="sig", tag="kinds-norst", opt=dict(rst=False)),
    ]
    # reset: what is declared again before and after it
    again = ["(reset)", "(declare-const P Bool)", "(declare-const U Type)", "(declare-const u U)", "(assume h P)", "(assume h true)", "(push)", "(pop)", "(declare-rule $copy ((x Bool)) :premises (x) :conclusion x)", "(step x :rule $copy :premises (h))",
             "(declare-rule t ((F Bool)) :args (F) :conclusion F :sorry)", "(step x P :rule t :args (P))", "(assume-push g P)", '(include "b.eo")', "(declare-const k cb)", "(step x :rule rb)"]
    A2 = lambda c: mc.auto(c, ("t", "rb"))
    rn = ["P", "U", "u", "h", "x", "g", "k"]
    ms2 = [mc.model("", [A2(c) for c in again], rn, 5 if thorough else 4, main="sig", tag="reset", files=FS)]
    # built-in symbols and options after reset
    bi = ["(reset)", "(declare-const k Bool)", "(declare-const k Type)", "(define k () (eo::add 1 2))", "(declare-consts <numeral> Bool)", "(define k () 1)", "(define k () (-> Bool Bool))", "(define k () (eo::ite true Bool Type))", "(define k () (eo::List::cons true eo::List::nil))",
          "(define k () (eo::List::cons true false))", "(declare-const k eo::List)", "(declare-datatype k ((kz)))", "(define k () kz)", "(define k () (eo::var \"x\" Bool))", "(declare-const lam (-> eo::List Bool Bool) :binder eo::List::cons)", "(define k () (lam ((x Bool)) x))",
          "(set-option :rule-sym-table false)", "(declare-rule rr () :conclusion true)", "(step x :rule rr)", "(define k () (eo::eq true false))", "(define k () (eo::is_ok (eo::neg true)))", "(declare-parameterized-const k ((T Type)) (-> T T))"]
    for o in (dict(), dict(rst=False)):
        ms2.append(mc.model("", [mc.auto(c) for c in bi], ["k", "x"], 3, main="sig", tag="builtin-%s" % len(o), opt=o))
    # the reference and its assertions
    rf = ["(reset)", '(reference "ref.smt2")', '(reference "ref2.smt2")', '(include "a.eo")', "(declare-const RB Bool)", "(assume h RB)", "(assume h true)", "(assume h P)", "(push)", "(pop)", "(declare-const P Bool)", "(assume-push g P)", "(assume h (eo::eq 1 1))"]
    ms2.append(mc.model('(include "pre.eo")\n', [mc.auto(c) for c in rf], ["h", "g"], 4 if thorough else 3, main="proof", tag="reference", files=FS + [(["t", "pre.eo"], PRE)]))
    for m in ms2:
        m["probe"] = ""
    yield mc.explore(ms, ctx["exes"], keep=None if thorough else .5, rng=rng)
    yield mc.explore(ms2, ctx["exes"], keep=None if thorough else .6, rng=rng)
    yield mc.walks(rng, ms, 80 if not thorough else 2500)
    yield mc.walks(rng, ms2, 60 if not thorough else 1500, length=(8, 30))
    # long random runs with scopes, local assumptions and resets
    js = []
    for k in range(80 if not thorough else 2500):
        cmds = pall(PRE)
        js.append(job(cmds, main="sig", tag="random-%d" % k, files=FS, opt=dict(rst=rng.random() < .7), fuel=100))
        for i in range(rng.randint(10, 60)):
            x = rng.random()
            if x < .18:
                c = rng.choice(["(push)", "(push)", "(push 2)", "(push 3)", "(push 0)"])
            elif x < .36:
                c = rng.choice(["(pop)", "(pop)", "(pop)", "(pop 2)", "(pop 3)"])
            elif x < .4:
                c = "(assume-push %s %s)" % (rng.choice("hgx"), rng.choice(["P", "Q", "(p u)", "true"]))
            elif x < .46:
                c = "(step-pop %s :rule scope :premises (%s))" % (rng.choice("hgx"), rng.choice("hgx"))
            elif x < .5:
                c = "(assume %s %s)" % (rng.choice("hgx"), rng.choice(["P", "Q", "(p u)", "(p c)"]))
            elif x < .515:
                c = "(reset)"
                cmds.append(p1(c))
                if rng.random() < .85:
                    cmds += pall(PRE)
                continue
            elif x < .65:
                c = rng.choice(other)
            elif x < .8:
                c = rng.choice(decl + proof)
            elif x < .95:
                c = "(declare-const %s %s)" % (rng.choice(["c", "k", "u", "P", "and", "d", "p"]), rng.choice(["U", "V", "(-> U U)", "Bool", "(-> V Bool)", "Type"]))
            else:
                c = "(define %s () %s)" % (rng.choice(["c", "k", "u", "P", "d"]), rng.choice(["c", "k", "u", "P", "d", "(c u)", "(p u)"]))
            cmds.append(p1(c))
            for _ in range(rng.choice([0, 0, 1, 2])):
                cmds.append(p1("(define @k%d () %s)" % (i, rng.choice(["c", "k", "u", "(p u)", "(p c)", "(c u)", "(c c)", "($q u)", "1", "and", "(and P P)", "d", "ca", "D", "d1"]))))
                cmds.append(p1("(step @s%d :rule %s)" % (i, rng.choice(["same :args (c k)", "same :args (c d)", "same :args (u u)", "ra", "$copy :premises (h)", "$copy :premises (g)", "same :args (k @k%d)" % i]))))
        js[-1]["files"][0]["cmds"] = cmds
    yield js
    yield repo_jobs(rng, has("push", "pop", "reset"), 60 if not thorough else 1500)
