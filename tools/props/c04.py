"""C04: answers."""
from gen import *
import mc

PRE = PROBE_RULE + """
(declare-const P Bool)
(declare-const Q Bool)
(declare-const not (-> Bool Bool))
(declare-const and (-> Bool Bool Bool) :right-assoc-nil true)
(declare-const => (-> Bool Bool Bool) :right-assoc)
(declare-rule scope ((F Bool) (G Bool)) :assumption F :premises (G) :conclusion (=> F G))
(declare-rule ident ((F Bool)) :premises (F) :conclusion F)
(declare-rule trust ((F Bool)) :args (F) :conclusion F :sorry)
(declare-rule trust0 () :conclusion Q :sorry)
(declare-rule texp ((F Bool)) :conclusion-explicit F :sorry)
(declare-rule tscope ((F Bool) (G Bool)) :assumption F :premises (G) :conclusion G :sorry)
(declare-rule tlist ((F Bool)) :premise-list F and :conclusion F :sorry)
"""
SORRY = ["trust", "trust0", "texp", "tscope", "tlist", "t2"]
FILES = [(["t", "s.eo"], "(step fs P :rule trust :args (P))\n"), (["t", "ok.eo"], "(declare-rule t2 ((F Bool)) :args (F) :conclusion F :sorry)\n(step fo :rule trust0)\n(reset)\n"),
         (["t", "plain.eo"], "(declare-const R Bool)\n(assume fa R)\n(step fr :rule ident :premises (fa))\n"),
         (["t", "nested.eo"], "(include \"plain.eo\")\n(push)\n(step q :rule trust0)\n(pop)\n"), (["t", "err.eo"], "(step q :rule trust0)\n(assume w nothere)\n"),
         (["t", "open.eo"], "(assume-push w P)\n"), (["t", "exit.eo"], "(step q :rule ident :premises (h))\n(exit)\n(step r :rule trust0)\n"),
         (["t", "lonely.eo"], "(declare-rule unused ((F Bool)) :args (F) :conclusion F :sorry)\n")]


def batches(ctx):
    thorough = ctx["tier"] == "thorough"
    rng = ctx["rng"]
    A = lambda c: mc.auto(c, SORRY)
    S = lambda c: mc.alpha(c, "none", sorry=True)
    cmds = [A("(assume h P)"), A("(assume-push h P)"), A("(step x :rule ident :premises (h))"), A("(step x :rule trust :args (Q))"), A("(step x :rule trust0)"),
            A("(step x Q :rule texp)"), A("(step x :rule texp)"), A("(step-pop x :rule scope :premises (h))"), A("(step-pop x :rule tscope :premises (h))"),
            A("(step x :rule tlist :premises (h h))"), A("(step x :rule trust :args (P Q))"), A("(push)"), A("(pop)"), A("(reset)"), A("(exit)"),
            A("(step x P :rule trust :args (Q))")]
    inc = [S('(include "s.eo")'), A('(include "plain.eo")'), A('(include "err.eo")'), A('(include "open.eo")'), A('(include "exit.eo")'), A('(include "lonely.eo")'),
           A('(include "missing.eo")'), S('(include "nested.eo")')]
    names = ["h", "x"]
    nonames = dict(files=FILES)
    ms = [mc.model(PRE, cmds, names, 5 if thorough else 4, tag="answers", main="proof", **nonames),
          mc.model(PRE, cmds[:5] + cmds[7:9] + inc, [], 4 if thorough else 3, tag="includes", main="sig", **nonames),
          mc.model(PRE, rng.sample(cmds, 6) + rng.sample(inc, 4), [], 4, tag="random", main="stdin", **nonames),
          mc.model("(declare-const P Bool)", [A("(push)"), A("(pop)"), mc.alpha("(declare-rule t ((F Bool)) :args (F) :conclusion F :sorry)", binds=["t"]),
                   mc.alpha("(declare-rule t ((F Bool)) :args (F) :conclusion F)", binds=["t"]), mc.alpha("(declare-rule u () :conclusion P :sorry)", binds=["u"]), A("(reset)"),
                   A("(define a () true)"), A("(exit)")], ["a"], 4 if thorough else 3, tag="declared", main="sig", opt=dict(rst=False))]
    ms[3]["probe"] = ""
    # rules named in scopes: which one a step uses
    sc = mc.model("(declare-const P Bool)(declare-rule tt ((F Bool)) :args (F) :conclusion F)", [A("(push)"), A("(pop)"), mc.alpha("(declare-rule t ((F Bool)) :args (F) :conclusion F :sorry)", "none"),
                   mc.alpha("(declare-rule t ((F Bool)) :args (F) :conclusion F)", "none"), mc.alpha("(define t () tt)", "none"), mc.alpha("(step z :rule tt :args (P))", "none"),
                   mc.alpha("(reset)", "reset")], [], 5 if thorough else 4, tag="scoped", main="sig", opt=dict(rst=False))
    sc["probe"] = ""
    ms.append(sc)
    yield mc.explore(ms, ctx["exes"])
    # which rule a step uses, with scopes
    js = []
    for k in range(60 if not thorough else 1500):
        cmds2 = pall(PRE)
        n = 0
        for i in range(rng.randint(5, 30)):
            n += 1
            c = rng.choice(["(push)", "(pop)", "(declare-rule r ((F Bool)) :args (F) :conclusion F%s)" % rng.choice(["", " :sorry", " :sorry"]),
                            "(declare-rule r () :conclusion P%s)" % rng.choice(["", " :sorry"]), "(define r () %s)" % rng.choice(["trust", "ident", "r"]),
                            "(step s%d :rule r :args (P))" % n, "(step s%d :rule r)" % n, "(step s%d :rule %s :premises (s%d))" % (n, rng.choice(["r", "ident", "tlist", "scope"]), rng.randint(1, n)),
                            "(assume s%d P)" % n, "(assume-push s%d Q)" % n, "(step-pop s%d :rule %s :premises (s%d))" % (n, rng.choice(["scope", "scope", "tscope"]), rng.randint(1, n)),
                            '(include "%s.eo")' % rng.choice(["s", "plain", "ok", "lonely", "exit", "err"]) if rng.random() < .15 else "(push)",
                            "(set-option :rule-sym-table %s)" % rng.choice(["true", "false"]) if rng.random() < .1 else "(pop)",
                            "(reset)" if rng.random() < .03 else "(assume s%d Q)" % n, "(exit)" if rng.random() < .03 else "(assume s%d Q)" % n,
                            "(echo \"so far\")" if rng.random() < .2 else "(push 1)"])
            cmds2.append(p1(c))
        js.append(job(cmds2, main=rng.choice(["proof", "sig", "stdin"]), files=FILES, opt=dict(rst=rng.random() < .5), tag="rules-%d" % k))
    yield js
    yield mc.walks(rng, ms[:3], 60 if not thorough else 1500)
    yield repo_jobs(rng, has(":sorry", "step-pop", "assume-push", "include"), 120 if not thorough else 3000)
