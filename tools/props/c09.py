"""C09: desugaring of applications by attribute."""
from gen import *

PRE = PROBE_RULE + """
(declare-const Int Type)
(declare-const BitVec (-> Int Type))
(declare-consts <numeral> Int)
(declare-consts <binary> (BitVec (eo::len eo::self)))
(declare-const U Type)
(declare-const Seq (-> Type Type))
(declare-const a U)
(declare-const b U)
(declare-const e U)
(declare-const f (-> U U))
(declare-const g (-> U U U))
(declare-const P Bool)
(declare-const Q Bool)
(declare-const R Bool)
(declare-const s1 (Seq Int))
(declare-const s2 (Seq Int))
(declare-const t1 (Seq U))
(declare-const v1 (BitVec 4))
(declare-const v2 (BitVec 4))
(declare-const or (-> Bool Bool Bool) :right-assoc-nil false)
(declare-const and (-> Bool Bool Bool) :left-assoc-nil true)
(declare-const orn (-> Bool Bool Bool) :right-assoc-non-singleton-nil false)
(declare-const andn (-> Bool Bool Bool) :left-assoc-non-singleton-nil true)
(declare-const imp (-> Bool Bool Bool) :right-assoc)
(declare-const xor (-> Bool Bool Bool) :left-assoc)
(declare-const eq (-> Bool Bool Bool) :chainable and)
(declare-const eqo (-> Bool Bool Bool) :chainable orn)
(declare-const eqx (-> Bool Bool Bool) :chainable xor)
(declare-const ne (-> Bool Bool Bool) :pairwise or)
(declare-const nen (-> Bool Bool Bool) :pairwise andn)
(declare-const nei (-> Bool Bool Bool) :pairwise imp)
(declare-const plain (-> Bool Bool Bool))
(declare-const not (-> Bool Bool))
(declare-const chn (-> Bool Bool Bool) :chainable not)
(declare-const tern (-> Bool Bool Bool Bool))
(declare-const al (-> eo::List Bool) :arg-list eo::List::cons)
(declare-const alo (-> Bool Bool) :arg-list or)
(declare-const alx (-> Bool Bool) :arg-list xor)
(declare-const alf (-> Bool Bool) :arg-list not)
(declare-const rc (-> U U U) :right-assoc-nil e)
(declare-const fold (-> Bool U U) :right-assoc-nil e)
(declare-const lfold (-> U Bool U) :left-assoc-nil e)
(declare-const rfold (-> Bool U U) :right-assoc)
(declare-const llfold (-> U Bool U) :left-assoc)
(declare-parameterized-const snil ((T Type)) (Seq T))
(declare-parameterized-const ++ ((T Type :implicit)) (-> (Seq T) (Seq T) (Seq T)) :right-assoc-nil (snil T))
(declare-parameterized-const l++ ((T Type :implicit)) (-> (Seq T) (Seq T) (Seq T)) :left-assoc-nil (snil T))
(declare-parameterized-const ++n ((T Type :implicit)) (-> (Seq T) (Seq T) (Seq T)) :right-assoc-non-singleton-nil (snil T))
(declare-parameterized-const bvor ((m Int)) (-> (BitVec m) (BitVec m) (BitVec m)) :right-assoc-nil (eo::to_bin m 0))
(declare-parameterized-const bvand ((m Int :implicit)) (-> (BitVec m) (BitVec m) (BitVec m)) :left-assoc-nil (eo::not (eo::to_bin m 0)))
(declare-parameterized-const = ((A Type :implicit)) (-> A A Bool) :chainable and)
(declare-parameterized-const distinct ((A Type :implicit)) (-> A A Bool) :pairwise and)
(declare-const forall (-> eo::List Bool Bool) :binder eo::List::cons)
(declare-const ex (-> Bool Bool Bool) :binder or)
(declare-const exU (-> U Bool Bool) :binder rc)
"""
BOOLOPS = ["or", "and", "orn", "andn", "imp", "xor", "eq", "eqo", "eqx", "ne", "nen", "nei", "plain", "not", "chn", "tern", "al", "alo", "alx", "alf"]
PARAMD = {"++": ["s1", "s2", "t1"], "l++": ["s1", "s2"], "++n": ["s1", "s2"], "bvor": ["v1", "v2", "#b0000"], "bvand": ["v1", "v2", "#b1"],
          "=": ["a", "b", "P", "e"], "distinct": ["a", "b", "P", "e"], "rc": ["a", "b", "e", "(f a)"], "al": ["a", "P", "1", "U"], "eo::List::cons": ["a", "P", "1", "U"]}
MIXED = {"fold": (["P", "Q"], ["a", "e"], 1), "rfold": (["P", "Q"], ["a", "e"], 1), "lfold": (["P", "Q"], ["a", "e"], 0), "llfold": (["P", "Q"], ["a", "e"], 0)}
BVALS = ["P", "Q", "R", "true", "false"]


def lst(op, xs):
    return "(%s%s)" % (op, "".join(" " + x for x in xs))


def bterm(rng, d, ops, vals):
    if d == 0 or rng.random() < .25:
        return rng.choice(vals)
    op = rng.choice(ops)
    n = {"not": 1, "tern": 3, "plain": 2}.get(op) or rng.choice([1, 2, 2, 3, 3, 4])
    return lst(op, [bterm(rng, d-1, ops, vals) for _ in range(n)])


def shapes(rng, op, pool, n):
    """argument lists of length n"""
    return [[rng.choice(pool) for _ in range(n)] for _ in range(3)]


def batches(ctx):
    rng = ctx["rng"]
    thorough = ctx["tier"] == "thorough"
    ops2 = [o for o in BOOLOPS if o not in ("al",)]
    ts = []
    for op in BOOLOPS + list(PARAMD):
        pool = PARAMD.get(op, BVALS)
        for n in range(0, 7):
            for xs in shapes(rng, op, pool, n)[:3 if n else 1]:
                ts.append(lst(op, xs))
                ts.append(lst("_ " + op, xs))
                if n >= 2:
                    ts.append("(_ %s %s)" % (lst(op, xs[:-1]), xs[-1]))
                    ts.append("(_ (_ %s %s) %s)" % (op, " ".join(xs[:-1]), xs[-1]))
                if op in ("or", "imp", "xor", "and", "orn", "andn", "eq", "ne", "plain"):
                    ts.append("(tern %s)" % " ".join(lst(op, xs) for _ in range(2)))
                    ts.append("(%s P %s)" % (op, lst(op, xs)))
                    ts.append("(%s %s P)" % (op, lst(op, xs)))
        ts += [op, "(_ %s)" % op, "(%s)" % op, "(eo::typeof %s)" % op]
    for op, (els, tails, right) in MIXED.items():
        for n in range(0, 5):
            for _ in range(3):
                xs = [rng.choice(els) for _ in range(n)]
                t = rng.choice(tails)
                ts += [lst(op, xs), lst(op, xs + [t]), lst(op, [t] + xs), lst("_ " + op, xs + [t]), lst("_ " + op, [t] + xs)]
    # explicit forms next to the sugared ones
    for _ in range(300 if not thorough else 4000):
        ts.append(bterm(rng, rng.choice([1, 2, 3]), ops2, BVALS))
    rng.shuffle(ts)
    js = [job(pall(PRE) + [ev(t) for t in c], main=rng.choice(["sig", "proof"]), tag="ground-%d" % k) for k, c in enumerate(chunks(ts, 70))]
    yield js
    # parameters, some of them lists, in programs, definitions, rules and attributes
    js = []
    for k in range(110 if not thorough else 1000):
        cmds = pall(PRE)
        ops = rng.sample(["or", "and", "orn", "andn", "imp", "xor", "eq", "eqo", "ne", "nen", "alo", "plain", "eqx"], 4)
        vals = ["x", "y", "xs", "ys", "xs", "ys", "P", "Q"]
        ps = "(x Bool) (y Bool) (xs Bool :list) (ys Bool :list)"
        for i in range(5):
            body = bterm(rng, rng.choice([1, 2]), ops, vals)
            body2 = bterm(rng, rng.choice([1, 2]), ops, vals)
            pat = bterm(rng, 1, ops, ["x", "y", "xs", "ys"] if rng.random() < .8 else ["x", "xs", "P"])
            used = [v for v in ("x", "y", "xs", "ys") if v in pat.replace("(", " ").replace(")", " ").split()]
            rhs = bterm(rng, rng.choice([1, 2]), ops, used * 2 + ["P"])
            cmds += pall("(define $d%d (%s) %s)" % (i, ps, body))
            cmds += pall("(program $p%d (%s) :signature (Bool Bool Bool Bool) Bool ((($p%d x y xs ys) %s)))" % (i, ps, i, body2))
            cmds += pall("(program $m%d (%s) :signature (Bool) Bool ((($m%d %s) %s)))" % (i, ps, i, pat, rhs))
            cmds += pall("(declare-rule $r%d (%s) :premises (%s) :args (x) :conclusion %s)" % (i, ps, pat, bterm(rng, 1, ops, used + ["x"])))
            for _ in range(5):
                m = {}
                for v in ("x", "y"):
                    m[v] = p1(bterm(rng, 1, ops, BVALS))
                ext = {}
                for v in ("xs", "ys"):
                    n = rng.choice([0, 1, 2])
                    ext[v] = [p1(rng.choice(BVALS)) for _ in range(n)]
                    # a value in list form for one of the operators
                    op = rng.choice(ops)
                    m[v] = p1(rng.choice(["false", "true", "P", lst(op, [rng.choice(BVALS) for _ in range(rng.choice([1, 2, 3]))])]))
                args = [m[v] for v in ("x", "y", "xs", "ys")]
                cmds.append(ev(app("$d%d" % i, *args)))
                cmds.append(ev(app("$p%d" % i, *args)))
                gt = subst(p1(pat), dict(m, **(ext if rng.random() < .7 else {})))
                cmds.append(ev(app("$m%d" % i, gt)))
                cmds.append(ev(gt))
                cmds.append(["l", [["s", "assume"], ["s", "@a"], gt]])
                cmds.append(p1("(step @s :rule $r%d :premises (@a) :args (%s))" % (i, render(m["x"]))))
                cmds.append(proves("@s"))
        js.append(job(cmds, main="sig", tag="lists-%d" % k, fuel=60))
    yield js
    # parametric operators below parameters, and declared nil terminators
    js = []
    for k in range(25 if not thorough else 250):
        cmds = pall(PRE)
        nil = rng.choice(["false", "(or P)", "P", "(eo::ite true P Q)", "(eo::not true)", "(or P Q)", "xz", "(eo::requires P Q R)", "plain"])
        at = rng.choice([":right-assoc-nil", ":left-assoc-nil", ":right-assoc-non-singleton-nil", ":left-assoc-non-singleton-nil"])
        cmds += pall("""
(declare-const op (-> Bool Bool Bool) %(at)s %(nil)s)
(declare-parameterized-const op2 ((A Type)) (-> (Seq A) (Seq A) (Seq A)) %(at)s (snil A))
(declare-parameterized-const op3 ((n Int)) (-> (BitVec n) (BitVec n) (BitVec n)) %(at)s %(nil3)s)
(declare-parameterized-const op4 ((n Int :implicit) (k Int :implicit)) (-> (BitVec n) (BitVec k) (BitVec n)) %(at)s (eo::to_bin %(nk)s 1))
(declare-const op5 (-> Bool Bool Bool) %(con)s op)
(program $s ((T Type) (x T) (y T)) :signature (T T) Bool ((($s x y) (op2 x y))))
(program $s2 ((T Type) (x (Seq T)) (y (Seq T))) :signature ((Seq T) (Seq T)) (Seq T) ((($s2 x y) (op2 x y))))
(program $s3 ((n Int) (x (BitVec n)) (y (BitVec n) :list)) :signature ((BitVec n) (BitVec n)) (BitVec n) ((($s3 x y) (op3 x x y))))
(program $s4 ((n Int) (x (BitVec n)) (y (BitVec n) :list)) :signature ((BitVec n)) (BitVec n) ((($s4 (op3 x y)) y)))
(define $d3 ((n Int :implicit) (x (BitVec n)) (y (BitVec n) :list)) (op3 x y))
(define $d2 ((T Type) (x (Seq T)) (y (Seq T) :list)) (op2 x x y))
(define $d4 ((T Type :implicit) (x (Seq T)) (y (Seq T))) (op2 x y))
""" % dict(at=at, nil=nil, nil3=rng.choice(["(eo::to_bin n 0)", "#b0000", "v1", "(eo::not (eo::to_bin n 0))"]), nk=rng.choice(["n", "k", "(eo::add n k)"]), con=rng.choice([":chainable", ":pairwise", ":arg-list"])))
        for _ in range(14):
            S = lambda: rng.choice(["s1", "s2", "t1", "(op2 s1 s2)", "(op2 s1)", "(snil Int)", "(op2 s1 s2 s1)"])
            V = lambda: rng.choice(["v1", "v2", "#b0000", "(op3 v1 v2)", "(op3 v1)", "#b1", "(op3 #b11 #b10)"])
            B = lambda: rng.choice(["P", "Q", "(op P Q)", nil, "(op P)", "(op5 P Q)", "(op5 P Q R)"])
            for t in ["(op2 %s %s)" % (S(), S()), "(op2 %s)" % S(), "(op2 %s %s %s)" % (S(), S(), S()), "(op3 %s %s)" % (V(), V()), "(op3 %s)" % V(), "(op4 %s %s)" % (V(), V()), "(op4 %s %s %s)" % (V(), V(), V()),
                      "(op %s %s)" % (B(), B()), "(op %s)" % B(), "(op %s %s %s)" % (B(), B(), B()), "(op5 %s %s %s)" % (B(), B(), B()), "(op5 %s)" % B(), "(op5 %s %s %s %s)" % (B(), B(), B(), B()),
                      "($s2 %s %s)" % (S(), S()), "($s %s %s)" % (S(), S()), "($s3 %s %s)" % (V(), V()), "($s4 %s)" % V(), "($d2 Int %s %s)" % (S(), S()), "($d3 %s %s)" % (V(), V()), "($d4 %s %s)" % (S(), S()),
                      "(op3)", "op3", "(_ op3 %s)" % V(), "(_ op2 %s %s)" % (S(), S()), "(op3 4)", "(op3 4 v1 v2)", "(op2 Int s1 s2)"]:
                if rng.random() < .6:
                    cmds.append(ev(t))
        js.append(job(cmds, main="sig", tag="nil-%d" % k, fuel=60))
    yield js
    yield repo_jobs(rng, has(":right-assoc-nil", ":left-assoc-nil", ":list", ":chainable", ":pairwise", ":arg-list", ":right-assoc-non-singleton-nil", ":left-assoc-non-singleton-nil"), 250 if not thorough else 4000)
