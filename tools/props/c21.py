"""C21: binders, variables and substitution by define."""
from gen import *
import mc

PRE = PROBE_RULE + """
(declare-const Int Type)
(declare-consts <numeral> Int)
(declare-consts <string> Int)
(declare-const U Type)
(declare-const V Type)
(declare-const Set (-> Type Type))
(declare-const a U)
(declare-const d V)
(declare-const P Bool)
(declare-const x U)
(declare-const f (-> U U))
(declare-const r (-> U U Bool))
(declare-const p (-> U Bool))
(declare-const q (-> V Bool))
(declare-const and (-> Bool Bool Bool) :right-assoc-nil true)
(declare-parameterized-const = ((T Type :implicit)) (-> T T Bool))
(declare-parameterized-const pp ((T Type :implicit)) (-> T Bool))
(declare-parameterized-const pr ((T Type :implicit) (S Type :implicit)) (-> T S Bool))
(declare-const forall (-> eo::List Bool Bool) :binder eo::List::cons)
(declare-const exists (-> eo::List Bool Bool) :binder eo::List::cons)
(declare-parameterized-const lam ((T Type :implicit)) (-> eo::List T (-> U T)) :binder eo::List::cons)
(declare-const VL Type)
(declare-const vnil VL)
(declare-parameterized-const vcons ((T Type :implicit)) (-> T VL VL) :right-assoc-nil vnil)
(declare-const all (-> VL Bool Bool) :binder vcons)
(declare-const ulist (-> U U U) :right-assoc)
(declare-const allu (-> U Bool Bool) :binder ulist)
(declare-const choose (-> eo::List Bool U) :binder eo::List::cons)
(declare-const multi (-> eo::List Bool U Bool) :binder eo::List::cons)
(declare-const none (-> eo::List Bool Bool))
(declare-const PL Type)
(declare-parameterized-const bnd ((T Type :implicit)) (-> T T PL))
(declare-const pnil PL)
(declare-const pcons (-> PL PL PL) :right-assoc-nil pnil)
(declare-parameterized-const mylet ((T Type :implicit)) (-> PL T T) :let-binder (bnd pcons))
(program $body ((L eo::List) (F Bool)) :signature (Bool) Bool ((($body (forall L F)) F) (($body (exists L F)) F)))
(program $vars ((L eo::List) (F Bool)) :signature (Bool) eo::List ((($vars (forall L F)) L) (($vars (exists L F)) L)))
(program $first ((T Type) (v T) (L eo::List) (F Bool)) :signature (Bool) T ((($first (forall (eo::List::cons v L) F)) v)))
(program $same ((T Type) (S Type) (x T) (y S)) :signature (T S) Bool ((($same x x) true) (($same x y) false)))
(program $subst ((T Type) (S Type) (R Type) (v T) (t T) (g (-> S R)) (z S)) :signature (T T R) R ((($subst v t v) t) (($subst v t (g z)) (_ ($subst v t g) ($subst v t z))) (($subst v t z) z)))
(program $isv ((T Type) (v T)) :signature (T) Bool ((($isv v) (eo::is_var v))))
(declare-rule inst ((L eo::List) (F Bool) (T Type) (v T) (t T)) :premises ((forall (eo::List::cons v L) F)) :args (t) :conclusion ($subst v t F))
(declare-rule gen ((F Bool)) :args (F) :conclusion F)
"""
VN = ["x", "y", "z", "u v", "forall", "T", "a", "f"]
VT = ["U", "U", "U", "V", "Bool", "Int", "(-> U U)", "(Set U)", "Type", "(-> U V)"]


def qn(n):
    return "|%s|" % n if " " in n else n


def vlist(rng, k=None):
    n = rng.choice([1, 1, 2, 2, 3]) if k is None else k
    return [(rng.choice(VN[:3] if rng.random() < .8 else VN), rng.choice(VT[:4] if rng.random() < .75 else VT)) for _ in range(n)]


def term(rng, env, d, bool_=True):
    k = rng.random()
    av = list(env) or ["a"]
    if d <= 0 or k < .15:
        return rng.choice(["P", "true"] if bool_ and rng.random() < .3 else av + ["a", "d", "x"])
    if not bool_:
        if rng.random() < .12:
            return define(rng, env, d-1, False)
        return rng.choice(["(f %s)" % term(rng, env, d-1, False), rng.choice(av), '(eo::var "%s" %s)' % (rng.choice(VN[:4]), rng.choice(VT[:5])), rng.choice(VN[:3])])
    if k < .5:
        vs = vlist(rng)
        b = rng.choice(["forall", "forall", "exists", "all", "lam", "allu", "choose", "multi", "none", "mylet"])
        e2 = set(env) | {qn(n) for n, _ in vs}
        if b == "mylet":
            bl = " ".join("(%s %s)" % (qn(n), rng.choice(["a", "d", "P", "(f a)", "1", "x", "y", "z", "(f x)", "(mylet ((y a)) y)", "(mylet ((x d) (y x)) y)", "(eo::define ((x a)) x)"])) for n, _ in vs)
        else:
            bl = " ".join("(%s %s)" % (qn(n), t) for n, t in vs)
        body = term(rng, e2, d-1)
        t = "(%s (%s) %s%s)" % (b, bl, body, " a" if b == "multi" else "")
        return t if b in ("forall", "exists", "all", "allu", "multi", "none") or rng.random() < .2 else "(pp %s)" % t
    if k < .75:
        return "(%s %s)" % (rng.choice(["pp", "pp", "p", "q", "pp"]), term(rng, env, d-1, False))
    if k < .85:
        return "(pr %s %s)" % (term(rng, env, d-1, False), term(rng, env, d-1, False))
    if k < .92:
        return "(and %s %s)" % (term(rng, env, d-1), term(rng, env, d-1))
    return define(rng, env, d, bool_)


def define(rng, env, d, bool_=True):
    """local definitions; those that follow a nested one come after its names are gone"""
    bs, e2 = [], set(env)
    for _ in range(rng.choice([1, 1, 2, 3])):
        n = rng.choice(VN[:3])
        t = define(rng, env, d-1, False) if rng.random() < .3 and d > 1 else term(rng, env if rng.random() < .5 else e2, d-1, False)
        bs.append("(%s %s)" % (n, t))
        e2.add(n)
    return "(%s (%s) %s)" % (rng.choice(["eo::define", "eo::define", "let"]), " ".join(bs), term(rng, e2, d-1, bool_))


FIXED = ["(forall eo::List::nil P)", "(forall (eo::List::cons a) P)", "(forall (eo::List::cons (eo::var \"x\" U)) (p x))", "(forall (eo::List::cons (eo::var \"x\" U)) (p (eo::var \"x\" U)))", "(forall ((x U)) (p x))", "(forall ((x U)) (p (eo::var \"x\" U)))", "(forall ((y U)) (p x))",
         "(forall ((x V)) (q x))", "(forall ((x U) (x V)) (q x))", "(forall ((x V) (x U)) (q x))", "(forall ((x U) (x U)) (p x))", "(forall () P)", "(forall (x U) P)", "(forall ((x)) P)", "(forall ((x U V)) P)", "(forall ((x a)) P)", "(forall ((x nosuch)) P)", "(forall ((x U)) )", "(forall ((x U)))", "(forall ((x U)) P P)",
         "(forall ((|x| U)) (p x))", "(forall ((x U)) (exists ((x V)) (q x)))", "(forall ((x U)) (exists ((x V)) (p x)))", "(forall ((x U)) (and (exists ((x V)) (q x)) (p x)))", "(and (forall ((x V)) (q x)) (p x))", "(and (forall ((x V)) (q x)) (q x))", "(exists ((x U)) (p x))", "(forall ((x U) (y V)) (and (p x) (q y)))",
         "(forall ((y V) (x U)) (and (p x) (q y)))", "(forall (eo::List::cons (eo::var \"x\" U) (eo::var \"y\" V)) (and (p (eo::var \"x\" U)) (q (eo::var \"y\" V))))", "(_ forall (eo::List::cons (eo::var \"x\" U)) (p x))", "((_ forall (eo::List::cons (eo::var \"x\" U))) (p x))", "(forall ((forall U)) (p forall))",
         "(forall ((x U)) (forall ((x U)) (p x)))", "(all ((x U)) (p x))", "(all ((x U) (y V)) (pr x y))", "(all (vcons a) P)", "(all vnil P)", "(allu ((x U)) (p x))", "(allu ((x U) (y U)) (r x y))", "(allu ((x U) (y U) (z U)) (r x z))", "(allu ((x V)) (q x))", "(allu a P)", "(lam ((x U)) x)", "(lam ((x U)) (f x))", "((lam ((x U)) (f x)) a)",
         "(none ((x U)) (p x))", "(none (eo::List::cons (eo::var \"x\" U)) (p a))", "(mylet ((y a)) (p y))", "(mylet ((y a) (z d)) (pr y z))", "(mylet ((y a) (z y)) (pr y z))", "(mylet ((y a)) (p (eo::var \"y\" U)))", "(mylet () P)", "(mylet ((x d) (z x)) (pr x z))", "(mylet ((x d)) (mylet ((z x)) (pr x z)))", "(mylet ((z (mylet ((x d)) x)) (y x)) (pr z y))", "(mylet ((x a) (x d) (y x)) (pr x y))", "(mylet ((y nosuch)) P)", "(mylet (pcons (bnd a a)) P)", "(mylet pnil a)", "(choose ((x U)) (p x))", "(p (choose ((x U)) (p x)))",
         "(multi ((x U)) (p x) x)", "(multi ((x U)) (p x) a)", "(multi ((x V)) (q x) x)", "(forall ((x Type)) P)", "(forall ((x Type) (y x)) P)", "(forall ((T Type) (y T)) (pp y))", "(forall ((g (-> U U))) (p (g a)))", "(forall ((f (-> U V))) (q (f a)))", "(forall ((x (Set U))) (pp x))", "(lam ((x U)) (lam ((y U)) (r x y)))", "(forall ((x Bool)) x)",
         "(eo::define ((x d)) (forall ((x U)) (p x)))", "(eo::define ((y d)) (forall ((x U)) (pr x y)))", "(forall ((x U)) (eo::define ((x d)) (q x)))", "(eo::define ((y x)) (forall ((x V)) (p y)))", "(eo::define ((y x) (x y)) P)", "(eo::define ((y a) (z (f a))) (r y z))", "(eo::define ((y a) (y d)) (q y))", "(eo::define () P)", "(eo::define ((y (eo::define ((x d)) a)) (z x)) (r y z))", "(eo::define ((y (eo::define ((x d) (z x)) z)) (z x)) (pr y z))", "(eo::define ((y x) (x d) (z x)) (pr y z))", "(eo::define ((x d) (y x)) (pr x y))", "(eo::define ((x (eo::define ((x (f x))) (f x))) (y x)) (r x y))", "(let ((z (let ((z (let ((z a)) (f z)))) (f z))) (y z)) (r z y))", "(eo::define ((y (eo::define () a)) (z d)) (pr y z))", "(pr (eo::define ((y d)) y) y)", "(r (eo::define ((x (f x))) x) x)", "(forall ((x U)) (forall ((y U)) (r x y)))",
         "(forall ((y U)) (forall ((x U)) (r y x)))", "(forall ((x Int)) (pp x))", "(forall ((x (eo::ite true U V))) (p x))", "(forall ((x (eo::typeof a))) (p x))"]


def batches(ctx):
    thorough = ctx["tier"] == "thorough"
    rng = ctx["rng"]
    js = []
    base = pall(PRE)
    for ch in chunks(list(enumerate(FIXED)), 6):
        cmds = []
        for n, t in ch:
            cmds += [ev(t), ev("($body %s)" % t), ev("($vars %s)" % t), ev("($first %s)" % t), ev("(eo::nameof ($first %s))" % t), ev("(eo::typeof ($first %s))" % t), ev("(eo::is_var ($first %s))" % t), ev("($subst ($first %s) a ($body %s))" % (t, t)), ev("($subst x a %s)" % t), ev("($subst (eo::var \"x\" U) a %s)" % t)]
            cmds += [p1("(assume h%d %s)" % (n, t)), p1("(step s%d :rule inst :premises (h%d) :args (a))" % (n, n)), proves("s%d" % n), p1("(step t%d :rule inst :premises (h%d) :args (d))" % (n, n)), proves("t%d" % n)]
        js.append(job(base + cmds, main="sig", tag="fixed-%d" % ch[0][0]))
        js.append(job(pall('(include "pre.eo")') + cmds, main=rng.choice(["proof", "stdin"]), tag="fixed-proof-%d" % ch[0][0], files=[(["t", "pre.eo"], PRE)]))
    prs = [(s, t) for s in FIXED for t in FIXED]
    rng.shuffle(prs)
    for k, ch in enumerate(chunks(prs if thorough else prs[:700], 100)):
        cmds = list(base)
        for s, t in ch:
            cmds += [ev("($same %s %s)" % (s, t))]
        js.append(job(cmds, main="sig", tag="pairs-%d" % k))
    cmds = list(base)
    vs = ["(eo::var %s %s)" % (s, t) for s in ('"x"', '"y"', '""', '"u v"', '"x y"', '"forall"', "1", "x", "(eo::concat \"x\" \"\")") for t in ("U", "V", "(-> U U)", "a", "Type", "(Set U)", "nosuch", "1")] + ["(eo::var)", '(eo::var "x")', '(eo::var "x" U U)', '(eo::var U "x")', "a", "x", "1", '"x"', "(f a)", "(forall ((x U)) P)", "(lam ((x U)) x)", "U", "f", "$isv"]
    for n, v in enumerate(vs):
        if n % 12 == 11:
            js.append(job(cmds, main="sig", tag="vars-%d" % n))
            cmds = list(base)
        cmds += [ev(v), ev("(eo::is_var %s)" % v), ev("(eo::nameof %s)" % v), ev("(eo::typeof %s)" % v), ev("($isv %s)" % v), ev("(p %s)" % v), ev("(eo::eq %s (eo::var \"x\" U))" % v), ev("(forall (eo::List::cons %s) P)" % v), ev("(eo::var (eo::nameof %s) (eo::typeof %s))" % (v, v)), ev("($same %s (eo::var (eo::nameof %s) (eo::typeof %s)))" % (v, v, v)),
                 ev("(forall ((x (eo::typeof %s))) (pp x))" % v)]
    js.append(job(cmds, main="sig", tag="vars"))
    # random terms
    for k in range(80 if not thorough else 2500):
        cmds = list(base)
        ts = [term(rng, set(), rng.choice([2, 3, 4])) for _ in range(18)]
        for n, t in enumerate(ts):
            cmds += [ev(t), ev("($same %s %s)" % (t, rng.choice(ts))), ev("($body %s)" % t), ev("($first %s)" % t), ev("($subst (eo::var \"%s\" %s) %s %s)" % (rng.choice("xyz"), rng.choice(["U", "V"]), rng.choice(["a", "d", "x", "(f a)", '(eo::var "y" U)']), t))]
            if rng.random() < .3:
                cmds += [p1("(assume h%d %s)" % (n, t)), p1("(step s%d :rule inst :premises (h%d) :args (%s))" % (n, n, rng.choice(["a", "d", "(f a)"]))), proves("s%d" % n)]
            if rng.random() < .1:
                cmds.append(p1(rng.choice(["(declare-const y U)", "(declare-const x V)", "(declare-const z (-> U U))", "(push)", "(pop)", "(define y () a)", "(declare-const y V)"])))
        js.append(job(cmds, main="sig", tag="random-%d" % k, fuel=100))
    yield js
    # definitions with arguments
    js = []
    for k in range(90 if not thorough else 2500):
        cmds = list(base)
        defs = []
        for n in range(8):
            ps = [(rng.choice(["x", "y", "z", "w", "a", "T"]), rng.choice(["U", "U", "V", "Bool", "Type", "(-> U U)"])) for _ in range(rng.choice([1, 1, 2, 2, 3]))]
            impl = rng.random() < .3
            if impl:
                ps = [("S", "Type")] + [(m, "S" if rng.random() < .5 else t) for m, t in ps]
            txt = " ".join("(%s %s%s)" % (m, t, " :implicit" if impl and i == 0 else rng.choice(["", "", "", "", " :list"]) if rng.random() < .1 else "") for i, (m, t) in enumerate(ps))
            env = {m for m, _ in ps}
            b = term(rng, env, rng.choice([1, 2, 3]), rng.random() < .6)
            if defs and rng.random() < .4:
                m, na = rng.choice(defs)
                b = rng.choice(["(%s %s)" % (m, " ".join(rng.choice(sorted(env) + ["a"]) for _ in range(na))), "(pp (%s %s))" % (m, " ".join(rng.choice(sorted(env) + ["a"]) for _ in range(na)))])
            m = rng.choice(["m%d" % n] * 6 + ["x", "y"])
            cmds.append(p1("(define %s (%s) %s)" % (m, txt, b)))
            na = len(ps) - impl
            defs.append((m, na))
            for _ in range(5):
                args = [rng.choice(["a", "x", "d", "P", "U", "f", "y", "z", "(f a)", "(f x)", '(eo::var "x" U)', '(eo::var "y" U)', '(eo::var "z" V)', "(m0 a)", "(lam ((x U)) x)"]) for _ in range(na if rng.random() < .9 else rng.choice([0, 1, 2, 3]))]
                t = "(%s %s)" % (m, " ".join(args))
                cmds.append(ev(t))
                cmds.append(ev(rng.choice(["(forall ((x U)) %s)", "(forall ((y U) (z V)) (pp %s))", "(eo::define ((x a)) %s)", "(pp %s)", "(eo::typeof %s)"]) % t))
                cmds.append(ev("($same %s (%s %s))" % (t, m, " ".join(args[::-1]))))
            cmds.append(ev(m))
        js.append(job(cmds, main="sig", tag="defs-%d" % k, fuel=100))
    yield js
    yield repo_jobs(rng, has(":binder", ":let-binder", "eo::var", "eo::is_var"), 100 if not thorough else 3000)
