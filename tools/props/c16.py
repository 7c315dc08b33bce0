"""C16: datatypes."""
from gen import *
import mc

PRE = PROBE_RULE + """
(declare-const Int Type)
(declare-consts <numeral> Int)
(declare-const U Type)
(declare-const V Type)
(declare-const a U)
(declare-const b V)
(declare-const Arr (-> Type Type Type))
(declare-parameterized-const = ((T Type :implicit)) (-> T T Bool))
(program $conss ((D Type) (T Type) (DC (-> Type Type))) :signature (Type) eo::List ((($conss (DC T)) (eo::dt_constructors DC)) (($conss D) (eo::dt_constructors D))))
(program $hd ((T Type) (x T) (xs eo::List :list)) :signature (eo::List) T ((($hd (eo::List::cons x xs)) x)))
(program $len ((T Type) (x T) (xs eo::List :list)) :signature (eo::List) Int ((($len (eo::List::cons x xs)) (eo::add 1 ($len xs))) (($len eo::List::nil) 0)))
(program $head ((T Type) (S Type) (f (-> T S)) (x T)) :signature (S) S ((($head (f x)) f) (($head x) x)))
(declare-rule split ((D Type) (x D) (l eo::List)) :args (x l) :requires (((eo::dt_constructors (eo::typeof x)) l)) :conclusion true)
"""


class Block:
    """a random declaration"""
    def __init__(self, rng, k):
        self.rng, self.k = rng, k
        n = rng.choice([1, 1, 2, 2, 3])
        self.single = n == 1 and rng.random() < .4
        self.dts = []
        for i in range(n):
            par = [rng.choice("XYZ") + str(q) for q in range(rng.choice([0, 0, 0, 1, 1, 2]))]
            self.dts.append(("D%d%d" % (k, i), par))
        self.cons, self.sels = [], []

    def dtref(self, d, ar):
        return d if not ar else "(%s %s)" % (d, " ".join(ar))

    def ty(self, par):
        rng = self.rng
        x = rng.random()
        if par and x < .4:
            return rng.choice(par)
        if x < .7:
            d, ps = rng.choice(self.dts)
            if self.rng.random() < .05:
                return d
            return self.dtref(d, [rng.choice(par + ["U", "Int"]) if rng.random() < .9 else self.ty(par) for _ in ps])
        if x < .74:
            return "(Arr %s %s)" % (self.ty(par), self.ty(par))
        if x < .77:
            return "(-> %s %s)" % (self.ty(par), self.ty(par))
        if x < .79:
            return rng.choice(["nosuch", "a", "(U U)", "Type", "0"])
        return rng.choice(["U", "V", "Int", "Bool"])

    def body(self, i):
        rng = self.rng
        d, par = self.dts[i]
        cs = []
        for c in range(rng.choice([1, 1, 2, 2, 3])):
            cn = "%sc%d" % (d, c) if rng.random() < .96 else rng.choice(["D00c0", "a", "U", d])
            sels = []
            for s in range(rng.choice([0, 0, 1, 1, 2, 3])):
                sn = "%ss%d" % (cn, s) if rng.random() < .96 else rng.choice(["D00c0s0", "a", cn, d])
                sels.append((sn, self.ty(par)))
            self.cons.append((cn, i, len(sels)))
            self.sels += [(s, i) for s, _ in sels]
            cs.append("(%s)" % " ".join([cn] + ["(%s %s)" % x for x in sels]))
        t = "(%s)" % " ".join(cs)
        if par or rng.random() < .01:
            t = "(par (%s) %s)" % (" ".join(par), t)
        return t

    def text(self):
        rng = self.rng
        if self.single:
            return "(declare-datatype %s %s)" % (self.dts[0][0], self.body(0))
        heads = " ".join("(%s %d)" % (d, len(p) if rng.random() < .98 else rng.choice([0, 1, 2])) for d, p in self.dts)
        return "(declare-datatypes (%s) (%s))" % (heads, " ".join(self.body(i) for i in range(len(self.dts))))

    def inst(self, i, d=1):
        rng = self.rng
        n, ps = self.dts[i]
        return self.dtref(n, [rng.choice(["U", "V", "Int"]) if d == 0 or rng.random() < .8 else self.inst(rng.randrange(len(self.dts)), d-1) for _ in ps])


def batches(ctx):
    thorough = ctx["tier"] == "thorough"
    rng = ctx["rng"]
    js = []
    for k in range(200 if not thorough else 4000):
        cmds = pall(PRE)
        for b_ in range(rng.choice([1, 1, 2])):
            B = Block(rng, b_)
            c = p1(B.text())
            if rng.random() < .15:
                c = mutate_term(rng, c, [p1(x) for x in ("U", "a", "()", "par", "1", "(X)", "(par (X) ((c1)))", "((c1))", "(c1 (s1 U))", "X0")])
            loc = rng.random() < .1
            if loc:
                cmds.append(p1("(push)"))
            cmds.append(c)
            insts = []
            for i in range(len(B.dts)):
                for q in range(2):
                    t = B.inst(i)
                    v = "v%d%d%d" % (b_, i, q)
                    cmds.append(p1("(declare-const %s %s)" % (v, t)))
                    insts.append((v, t, i))
            vs = [v for v, _, _ in insts] + ["a", "b", "0", "true"]
            for d, ps in B.dts:
                cmds += [ev("(eo::dt_constructors %s)" % d), ev(d), ev("($conss %s)" % d), ev("($len (eo::dt_constructors %s))" % d)]
            for v, t, i in insts:
                cmds += [ev("(eo::dt_constructors %s)" % t), ev("(eo::dt_constructors (eo::typeof %s))" % v), ev("($conss %s)" % t), ev("(eo::dt_constructors %s)" % v), ev("($hd (eo::dt_constructors %s))" % t)]
                if rng.random() < .5:
                    cs = " ".join("(as %s %s)" % (cn, t) if rng.random() < .2 else cn for cn, j, _ in B.cons if j == i)
                    for w in (cs, " ".join(cs.split(" ")[:-1])):
                        try:
                            cmds.append(p1("(step @r%s%d :rule split :args (%s (eo::List::cons %s)))" % (v, len(w), v, w)))
                        except SxError:
                            pass
            for cn, i, n in B.cons:
                mine = [t for _, t, j in insts if j == i]
                t = rng.choice(mine)
                own = [v for v, _, j in insts if j == i]
                cmds += [ev(cn), ev("(eo::dt_selectors %s)" % cn), ev("(as %s %s)" % (cn, t)), ev("(eo::dt_selectors (as %s %s))" % (cn, t)), ev("(eo::typeof is-%s)" % cn), ev("(is-%s %s)" % (cn, rng.choice(own))), ev("(is-%s %s)" % (cn, rng.choice(vs))),
                         ev("(as %s %s)" % (cn, rng.choice(["U", "Int", "(-> U U)"] + [x for _, x, _ in insts]))), ev("(eo::dt_constructors %s)" % cn), ev("(eo::as %s %s)" % (cn, t))]
                for _ in range(3):
                    m = n if rng.random() < .85 else n + rng.choice([-1, 1])
                    args = [rng.choice(vs) for _ in range(max(m, 0))]
                    if args:
                        cmds.append(ev("(%s %s)" % (cn, " ".join(args))))
                        cmds.append(ev("($head (%s %s))" % (cn, " ".join(args))))
                        cmds.append(ev("((as %s %s) %s)" % (cn, t, " ".join(args))))
                        cmds.append(ev("(is-%s (%s %s))" % (cn, cn, " ".join(args))))
                        cmds.append(ev("(eo::dt_selectors (%s %s))" % (cn, " ".join(args))))
            for sn, i in B.sels:
                own = [v for v, _, j in insts if j == i]
                cmds += [ev("(%s %s)" % (sn, rng.choice(own))), ev("(%s %s)" % (sn, rng.choice(vs))), ev("(update-%s %s %s)" % (sn, rng.choice(own), rng.choice(vs))), ev("(update-%s %s)" % (sn, rng.choice(own))), ev("(eo::dt_selectors %s)" % sn), ev(sn), ev("update-" + sn),
                         ev("(= (%s %s) %s)" % (sn, rng.choice(own), rng.choice(vs)))]
            cmds += [ev(x) for x in rng.sample(["(eo::dt_constructors U)", "(eo::dt_constructors Int)", "(eo::dt_constructors a)", "(eo::dt_selectors a)", "(eo::dt_selectors U)", "(eo::dt_constructors (-> U U))", "(eo::dt_constructors eo::List)", "(eo::dt_constructors (eo::add 1 1))", "(eo::dt_selectors (-> U U))", "X0", "par",
                                                "(eo::dt_constructors)", "(eo::dt_constructors D00 D00)", "is-nosuch", "update-a"], 5)]
            # matching on constructors
            if B.cons:
                cn, i, n = rng.choice(B.cons)
                ps = " ".join("(x%d T%d)" % (q, q) for q in range(n))
                ts = " ".join("(T%d Type)" % q for q in range(n))
                lhs = "(%s%s)" % (cn, "".join(" x%d" % q for q in range(n))) if n else cn
                dt = B.dts[i]
                cmds += pall("(program $m%d (%s %s (S Type) (y S)) :signature (S) Bool ((($m%d %s) true) (($m%d y) false)))" % (b_, ts, ps, b_, lhs, b_))
                for v in vs:
                    cmds.append(ev("($m%d %s)" % (b_, v)))
                cmds.append(ev("($m%d (%s %s))" % (b_, cn, " ".join(rng.choice(vs) for _ in range(n))) if n else "($m%d %s)" % (b_, cn)))
                if dt[1]:
                    cmds.append(ev("($m%d (as %s %s))" % (b_, cn, B.inst(i))))
            # names of a block the block does not declare
            if loc:
                cmds.append(p1("(pop)"))
                for cn, i, n in B.cons:
                    cmds += [ev(cn), ev("is-" + cn)]
                for sn, _ in B.sels:
                    cmds += [ev(sn), ev("update-" + sn)]
        js.append(job(cmds, main=rng.choice(["sig"]), tag="random-%d" % k, fuel=100))
    yield js
    # in files of every class, nested parametric use
    js = []
    for k in range(30 if not thorough else 500):
        B = Block(rng, 0)
        txt = B.text()
        main = rng.choice(["proof", "stdin"])
        cmds = pall('(include "pre.eo")\n') + [p1(txt)]
        for cn, i, n in B.cons:
            t = B.inst(i)
            cmds += [ev(cn), ev("(eo::dt_selectors %s)" % cn), ev("(as %s %s)" % (cn, t)), ev("(eo::dt_constructors %s)" % t), p1("(declare-const w%s %s)" % (cn, t)), ev("(is-%s w%s)" % (cn, cn))]
        js.append(job(cmds, main=main, files=[(["t", "pre.eo"], PRE)], tag="classes-%d" % k))
    yield js
    A = mc.auto
    al = [mc.alpha("(declare-datatype D ((d1) (d2 (s1 U))))", "bind", ["D", "d1", "d2", "s1", "is-d1", "is-d2", "update-s1"]), mc.alpha("(declare-datatypes ((D 0) (E 0)) (((d1 (s1 E))) ((d2 (s2 D)) (e0))))", "bind", ["D", "E", "d1", "s1", "d2", "s2", "e0", "is-d1", "is-d2", "is-e0", "update-s1", "update-s2"]),
          mc.alpha("(declare-datatype L (par (X) ((nl) (cn (hd X) (tl (L X))))))", "bind", ["L", "nl", "cn", "hd", "tl", "is-nl", "is-cn", "update-hd", "update-tl"]), A("(push)"), A("(pop)"), A("(define k () (d2 a))"), A("(define k () (s1 k))"), A("(define k () (cn a (as nl (L U))))"), A("(define k () (hd k))"),
          A("(define k () (is-d2 d1))"), A("(define k () (update-s1 (d2 a) a))"), A("(declare-const k D)"), A("(step x :rule split :args (k (eo::List::cons d1 d2)))"), A("(step x :rule split :args (k (eo::List::cons d2 e0)))"), A("(declare-const k E)"), A("(define k () X)")]
    m = mc.model(PRE, al, ["D", "E", "d1", "d2", "s1", "s2", "e0", "L", "nl", "cn", "hd", "tl", "is-d1", "is-d2", "is-e0", "is-nl", "is-cn", "update-s1", "update-s2", "update-hd", "update-tl", "k", "x"], 4 if thorough else 3, main="sig", tag="scopes")
    yield mc.explore([m], ctx["exes"])
    yield repo_jobs(rng, has("declare-datatype", "declare-datatypes"), 120 if not thorough else 3000)
