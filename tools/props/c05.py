"""C05: programs."""
from gen import *

PTY = {"x": "U", "y": "U", "z": "U", "v": "V", "F": "Bool", "G": "Bool", "m": "Int", "n": "Int", "xs": "Bool", "k": "(-> U U)"}
ENV = {"U": ["x", "y", "z"], "V": ["v"], "Bool": ["F", "G"], "Int": ["m", "n"]}
LISTS = {"or": ["xs"], "and": ["xs"]}
PARAMS = " ".join("(%s %s)" % (n, t) for n, t in PTY.items() if n != "xs") + " (xs Bool :list)"
FIELDS = ["U", "U", "Bool", "Int", "V"]


def occ(text):
    acc = set()
    names(p1(text), acc)
    return {n for n in acc if n in PTY}


class PGen(Gen):
    """right-hand sides: terms that call programs"""
    def __init__(self, rng, env, lists, progs):
        super().__init__(rng, env, lists, pvar=.7)
        self.progs = progs
        self.rec = None

    def term(self, ty, d):
        rng = self.rng
        if d > 0 and rng.random() < .3:
            c = [x for x in self.progs if x[2] == ty]
            if self.rec and self.rec[0][2] == ty and rng.random() < .6:
                # a structurally recursive call
                (n, args, _), i, vs = self.rec
                return "(%s %s)" % (n, " ".join(rng.choice(vs) if k == i else self.term(t, 0) for k, t in enumerate(args)))
            if c:
                n, args, _ = rng.choice(c)
                return "(%s %s)" % (n, " ".join(self.term(t, d-1) for t in args))
        if d > 0 and rng.random() < .12:
            return rng.choice([
                lambda: "(eo::ite (eo::is_eq %s %s) %s %s)" % (self.term("U", d-1), self.term("U", d-1), self.term(ty, d-1), self.term(ty, d-1)),
                lambda: "(eo::ite %s %s %s)" % (self.term("Bool", d-1), self.term(ty, d-1), self.term(ty, d-1)),
                lambda: "(eo::requires %s %s %s)" % (self.term("U", 0), self.term("U", 0), self.term(ty, d-1))])()
        if ty == "Int" and d > 0 and rng.random() < .4:
            return "(eo::%s %s %s)" % (rng.choice(["add", "mul", "add"]), self.term("Int", d-1), self.term("Int", d-1))
        return super().term(ty, d)


def make_prog(rng, k, progs):
    n = rng.choice([1, 1, 2, 2, 3])
    tys = [rng.choice(FIELDS) for _ in range(n)]
    ret = rng.choice(FIELDS)
    name = "$p%d" % k
    me = progs + ([(name, tys, ret)] if rng.random() < .04 else [])
    cases = []
    for _ in range(rng.choice([1, 2, 3, 4, 5])):
        g = Gen(rng, ENV, LISTS, pvar=.6)
        pats = [g.term(t, rng.choice([0, 1, 1, 2])) for t in tys]
        if rng.random() < .08 and "U" in tys:
            pats[tys.index("U")] = rng.choice(["(k x)", "(k (k x))", "(k (f x))"])
        used = set()
        for t in pats:
            used |= occ(t)
        env = {ty: [v for v in vs if v in used] for ty, vs in ENV.items()}
        g2 = PGen(rng, env, LISTS if "xs" in used else {}, me)
        cand = [(i, [v for v in occ(t) if PTY[v] == tys[i]]) for i, t in enumerate(pats) if t.startswith("(")]
        cand = [x for x in cand if x[1]]
        if cand:
            g2.rec = ((name, tys, ret),) + rng.choice(cand)
        rhs = g2.term(ret, rng.choice([0, 1, 2, 3]))
        if occ(rhs) - used and rng.random() < .97:
            rhs = Gen(rng).term(ret, 1)
        cases.append("((%s %s) %s)" % (name, " ".join(pats), rhs))
    dup = rng.random() < .08
    if dup:
        cases.insert(rng.randrange(len(cases) + 1), rng.choice(cases))
    text = "(program %s (%s) :signature (%s) %s (%s))" % (name, PARAMS, " ".join(tys), ret, " ".join(cases))
    pats = [[a for a in p1(c)[1][0][1][1:]] for c in cases]
    return text, (name, tys, ret), pats


def calls(rng, prog, pats, progs, n):
    """applications that mostly match some case"""
    name, tys, ret = prog
    out = []
    for _ in range(n):
        g = PGen(rng, {}, {}, progs)
        m = {v: p1(g.term(t, rng.choice([0, 0, 1]))) for v, t in PTY.items() if t in TYPES}
        m["xs"] = [p1(g.term("Bool", 0)) for _ in range(rng.choice([0, 1, 2]))]
        m["k"] = p1(rng.choice(["f", "ff", "(g a)"]))
        k = rng.random()
        args = [subst(a, m) for a in rng.choice(pats)] if k < .75 else [p1(g.term(t, rng.choice([0, 1, 2]))) for t in tys]
        if rng.random() < .08:
            i = rng.randrange(len(args))
            args[i] = p1(rng.choice(["Int", "(eo::add i1 1)", "(eo::requires a b a)", name, "(eo::is_ok %s)" % name, "f", "d", "(eo::var \"x\" U)"]))
        if rng.random() < .05:
            args = args[:-1] if rng.random() < .5 else args + [p1("a")]
        out.append(app(name, *args))
    return out


LIB = """
(program $subst ((x U) (y U) (t U) (s U)) :signature (U U U) U
  ((($subst x y x) y) (($subst x y (f t)) (f ($subst x y t))) (($subst x y (g t s)) (g ($subst x y t) ($subst x y s))) (($subst x y t) t)))
(program $subst2 ((T Type) (S Type) (x S) (y S) (k (-> T U)) (t T) (z U)) :signature (S S U) U
  ((($subst2 x y x) y) (($subst2 x y (k t)) (_ ($subst2 x y k) ($subst2 x y t))) (($subst2 x y z) z)))
(program $len ((F Bool) (xs Bool :list)) :signature (Bool) Int ((($len false) 0) (($len (or F xs)) (eo::add 1 ($len xs)))))
(program $rev ((F Bool) (xs Bool :list) (ys Bool :list)) :signature (Bool Bool) Bool ((($rev false ys) ys) (($rev (or F xs) ys) ($rev xs (or F ys)))))
(program $ev ((n Int)) :signature (Int) Bool)
(program $od ((n Int)) :signature (Int) Bool ((($od 0) false) (($od n) ($ev (eo::add n -1)))))
(program $ev ((n Int)) :signature (Int) Bool ((($ev 0) true) (($ev n) ($od (eo::add n -1)))))
(program $fact ((n Int)) :signature (Int) Int ((($fact 0) 1) (($fact n) (eo::ite (eo::is_neg n) 0 (eo::mul n ($fact (eo::add n -1)))))))
(program $fib ((n Int)) :signature (Int) Int ((($fib 0) 0) (($fib 1) 1) (($fib n) (eo::add ($fib (eo::add n -1)) ($fib (eo::add n -2))))))
(program $eqp ((T Type) (x T) (y T)) :signature (T T) Bool ((($eqp x x) true) (($eqp x y) false)))
(program $nl ((x U) (y U) (z U)) :signature (U U U) U ((($nl x x x) (f x)) (($nl x x y) (g x y)) (($nl x y y) (g y x)) (($nl x y x) (g x x)) (($nl x y z) z)))
(program $hd ((k (-> U U)) (x U)) :signature (U) U ((($hd (k x)) x)))
(program $und ((x U)) :signature (U) U)
(program $cst ((x U)) :signature (U) Int ((($cst x) (eo::add 1 2))))
(program $grd ((x U)) :signature (U) U ((($grd x) ($und a))))
(program $dig ((x U)) :signature (U) U ((($dig (f (f x))) ($dig (f x))) (($dig (f x)) x)))
(program $lits ((n Int)) :signature (Int) Bool ((($lits 1) P) (($lits -1) Q) (($lits 0) R)))
(program $ord ((x U) (y U)) :signature (U U) Int ((($ord x a) 1) (($ord a y) 2) (($ord x x) 3) (($ord (f x) y) 4) (($ord x (f y)) 5) (($ord x y) 6)))
(program $tt ((T Type) (x T)) :signature (T) Type ((($tt x) (eo::typeof x))))
(program $nested ((x U) (y U)) :signature (U U) U ((($nested (g x y) (g y x)) ($nested x y)) (($nested x y) (g x y))))
(program $part ((x U) (k (-> U U))) :signature ((-> U U)) U ((($part (g x)) x) (($part k) (k a))))
"""
US = ["a", "b", "(f a)", "(f b)", "(f (f a))", "(f (f (f a)))", "(g a b)", "(g a a)", "(g (f a) (g b a))", "(g b a)", "c"]
BS = ["false", "(or P)", "(or P Q)", "(or P Q P)", "P", "(or P (or Q R))", "true"]
IS = ["0", "1", "2", "3", "5", "7", "-1", "-3", "i1", "(eo::add 1 1)", "(+ 1 2)"]


def lib_terms(rng):
    ts = []
    for x in US:
        for y in US[:5]:
            for z in US:
                ts.append("($subst %s %s %s)" % (x, y, z))
                if rng.random() < .2:
                    ts.append("($subst2 %s %s %s)" % (x, y, z))
                if z in US[:4]:
                    ts.append("($nl %s %s %s)" % (x, y, z))
        for y in US:
            ts += ["($ord %s %s)" % (x, y), "($eqp %s %s)" % (x, y), "($nested %s %s)" % (x, y)]
        ts += ["($%s %s)" % (n, x) for n in ("hd", "und", "cst", "grd", "dig", "tt")]
        ts += ["(f ($und %s))" % x, "($dig ($und %s))" % x, "($dig (f (f ($dig %s))))" % x, "($eqp ($und %s) ($und %s))" % (x, x), "($hd ($hd %s))" % x]
    for x in BS:
        ts += ["($len %s)" % x, "($rev %s false)" % x, "($rev %s %s)" % (x, BS[2]), "($len ($rev %s (or R)))" % x, "($tt %s)" % x, "($eqp %s %s)" % (x, BS[2])]
    for x in IS:
        ts += ["(%s %s)" % (n, x) for n in ("$ev", "$od", "$fact", "$lits", "$tt")]
        if x not in ("-1", "-3"):
            ts.append("($fib %s)" % x)
        ts.append("(eo::add ($fact %s) ($fact %s))" % (x, x))
    ts += ["($part %s)" % x for x in ("f", "(g a)", "(g (f b))", "($und)", "$hd", "$und", "(h a)")]
    ts += ["($ev)", "($ev 1 2)", "($nl a b)", "$ev", "($len or)", "(_ $ev 1)", "(_ $ord a b)", "(_ (_ $ord a) b)", "(p ($hd (f a)))", "($subst2 a b (p a))", "($subst2 a d (h a d))", "($subst2 f ff (f a))", "($ord $und a)"]
    return ts


def batches(ctx):
    rng = ctx["rng"]
    thorough = ctx["tier"] == "thorough"
    ts = lib_terms(rng)
    if not thorough:
        ts = rng.sample(ts, 900)
    else:
        rng.shuffle(ts)
    js = []
    for k, c in enumerate(chunks(ts, 60)):
        cmds = pall(UNI + PROBE_RULE + LIB) + [ev(t) for t in c]
        # the same applications again, after all the others and inside other terms
        for t in rng.sample(c, 12):
            cmds.append(ev(t))
            cmds.append(ev("(eo::is_ok %s)" % t))
        js.append(job(cmds, main="sig", tag="library-%d" % k))
    yield js
    for rnd in range(2 if not thorough else 16):
        js = []
        for k in range(80):
            progs, cmds, all_calls = [], pall(UNI + PROBE_RULE), []
            for i in range(4):
                text, pr, pats = make_prog(rng, i, progs)
                if rng.random() < .15:
                    cmds.append(p1("(program %s () :signature (%s) %s)" % (pr[0], " ".join(pr[1]), pr[2])))
                cmds.append(p1(text))
                progs.append(pr)
                all_calls.append((pr, pats))
            seen = []
            for pr, pats in all_calls:
                seen += calls(rng, pr, pats, progs, 12)
            for t in seen:
                cmds.append(ev(t))
            # history: earlier applications again, from a definition, a let and a rule
            for i, t in enumerate(rng.sample(seen, 6)):
                cmds.append(ev(t))
                cmds.append(p1("(define w%d ((x U)) %s)" % (i, render(t))))
                cmds.append(ev("(w%d b)" % i))
                cmds.append(ev("(eo::is_eq %s %s)" % (render(t), render(rng.choice(seen)))))
                cmds.append(ev("(eo::define ((u %s)) (g a u))" % render(t)))
            js.append(job(cmds, main="sig", tag="programs-%d" % k, fuel=60))
        yield js
        yield repo_jobs(rng, has("program"), 300)
