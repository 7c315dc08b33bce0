"""C02: local assumptions."""
from gen import *
import mc

PRE = PROBE_RULE + """
(declare-const P Bool)
(declare-const Q Bool)
(declare-const not (-> Bool Bool))
(declare-const and (-> Bool Bool Bool) :right-assoc-nil true)
(declare-const or (-> Bool Bool Bool) :right-assoc-nil false)
(declare-const => (-> Bool Bool Bool) :right-assoc)
(declare-rule scope ((F Bool) (G Bool)) :assumption F :premises (G) :conclusion (=> F G))
(declare-rule scopen ((F Bool)) :assumption F :premises (false) :conclusion (not F))
(declare-rule scope0 ((F Bool)) :assumption F :conclusion (=> F F))
(declare-rule mp ((F Bool) (G Bool)) :premises (F (=> F G)) :conclusion G)
(declare-rule conj ((Fs Bool)) :premise-list Fs and :conclusion Fs)
(declare-rule contra ((F Bool)) :premises (F (not F)) :conclusion false)
(declare-rule ident ((F Bool)) :premises (F) :conclusion F)
"""


def batches(ctx):
    thorough = ctx["tier"] == "thorough"
    rng = ctx["rng"]
    A = mc.auto
    base = [A("(assume-push h P)"), A("(assume-push g Q)"), A("(assume h Q)"), A("(push)"), A("(pop)"),
            A("(step x :rule ident :premises (h))"), A("(step x :rule conj :premises (h g))"), A("(step y :rule ident :premises (x))"),
            A("(step-pop x :rule scope :premises (h))"), A("(step-pop y :rule scope :premises (x))"), A("(step-pop y :rule scope0)"),
            A("(step x :rule scope :premises (h))"), A("(step-pop x :rule ident :premises (h))")]
    more = [A("(assume-push h (not P))"), A("(assume g (=> P Q))"), A("(step x :rule mp :premises (h g))"), A("(step y :rule contra :premises (h x))"),
            A("(step-pop h :rule scopen :premises (y))"), A("(step-pop g (=> P P) :rule scope0)"), A("(step-pop x (=> P Q) :rule scope :premises (x))"),
            A("(define x () h)"), A("(step y :rule $copy :premises (y))"), A("(pop 2)"), A("(push 2)"), A("(step-pop h :rule scope :premises (h))")]
    names = ["h", "g", "x", "y"]
    ms = [mc.model(PRE, base, names, 6 if thorough else 5, sound=True, plain=True, tag="scopes", main="proof"),
          mc.model(PRE, more[:10] + base[:5] + [base[8]], names, 5 if thorough else 4, sound=True, tag="refutation", main="stdin")]
    for k in range(3 if not thorough else 12):
        al = base + more
        sub = rng.sample(al, 11)
        ms.append(mc.model(PRE, sub, names, 4 if not thorough else 5, sound=True, tag="random-%d" % k, main=rng.choice(["proof", "sig", "stdin"])))
    yield mc.walks(rng, ms, 60 if not thorough else 1500)
    yield mc.explore(ms, ctx["exes"])
