"""C06: core evaluation operators."""
from gen import *

PRE = UNI + PROBE_RULE + """
(declare-consts <hexadecimal> (BitVec (eo::len eo::self)))
(program $und ((x U)) :signature (U) U)
(program $one ((x U)) :signature (U) U ((($one (f x)) x)))
(program $loop ((x U)) :signature (U) U ((($loop x) ($loop (f x)))))
(declare-datatype Nat ((zero) (succ (pred Nat))))
(declare-datatypes ((Lst 1)) ((par (X) ((nil) (cons (head X) (tail (Lst X)))))))
(declare-const nl (Lst U))
(define lam ((x U)) (f x))
(define dcl () (g a b))
(declare-const ho (-> (-> U U) U))
(declare-parameterized-const opq ((x U :opaque) (y U)) U)
(declare-const ty (-> Type Type))
(declare-const a U)
(declare-const both U) (declare-const both V)
"""
GROUND = ["true", "false", "P", "a", "b", "(f a)", "(f b)", "dcl", "(g a b)", "(g a)", "g", "f", "U", "Int", "Bool", "Type", "(-> U U)", "(BitVec 3)",
          "0", "1", "-1", "1/2", "2/1", "0.5", "2.0", "#b1", "#b01", "#x1", "#x01", "\"\"", "\"a\"", "zero", "(succ zero)", "succ", "pred", "Nat", "Lst", "(Lst U)", "(as nil (Lst U))", "nil", "cons", "(_ cons a)",
          "nl", "eo::List", "eo::List::nil", "(eo::List::cons a)", "(eo::List::cons 1 b)", "(eo::var \"x\" U)", "(eo::var \"x\" V)", "(eo::var \"y\" U)", "(opq a)", "(opq a b)", "opq",
          "(forall ((x U)) (p x))", "(or P)", "or", "(= a b)", "(pair a d)", "(ho f)", "both", "Pair", "(Pair U V)", "BitVec", "(or)", "(* 2)", "lam", "is-succ", "(is-succ zero)", "update-pred"]
STUCK = ["(eo::add i1 1)", "($und a)", "($one a)", "($und ($und a))", "$und", "$one", "(eo::ite P a b)", "(eo::requires a b a)", "(eo::typeof ($und a))", "(eo::nameof (f a))", "(eo::concat \"a\" 1)",
         "(f ($und a))", "(eo::is_neg P)", "(eo::list_len f a)", "(eo::nil f U)", "(eo::not P)", "(eo::is_ok)", "(eo::eq ($und a) b)", "(BitVec (eo::add i1 1))", "(eo::to_bin P 1)", "(eo::var a U)"]
UN = ["eo::is_ok", "eo::typeof", "eo::nameof", "eo::is_z", "eo::is_q", "eo::is_bin", "eo::is_str", "eo::is_bool", "eo::is_var", "eo::dt_constructors", "eo::dt_selectors"]


def rexpr(rng, d, leaves):
    """random core expression"""
    if d == 0 or rng.random() < .12:
        return rng.choice(leaves)
    e = lambda: rexpr(rng, d-1, leaves)
    c = lambda: rng.choice(["true", "false", "P", "(eo::is_ok %s)" % e(), "(eo::is_eq %s %s)" % (e(), e()), "(eo::eq %s %s)" % (e(), e()), "(%s %s)" % (rng.choice(UN[3:9]), e()), "(eo::is_neg %s)" % rng.choice(["1", "-1", "i1"])])
    return rng.choice([
        lambda: "(eo::ite %s %s %s)" % (c(), e(), e()), lambda: "(eo::ite %s %s %s)" % (c(), e(), e()),
        lambda: "(eo::requires %s %s %s)" % ((lambda x: (x, x))(e()) + (e(),) if rng.random() < .7 else (e(), e(), e())),
        lambda: "(eo::eq %s %s)" % (e(), e()), lambda: "(eo::is_eq %s %s)" % (e(), e()), lambda: "(eo::is_ok %s)" % e(),
        lambda: "(eo::typeof %s)" % e(), lambda: "(eo::nameof %s)" % e(), lambda: "(%s %s)" % (rng.choice(UN), e()),
        lambda: "(f %s)" % e(), lambda: "(g %s %s)" % (e(), e()), lambda: "($one %s)" % e(), lambda: "(eo::var (eo::nameof %s) (eo::typeof %s))" % (e(), e()),
        lambda: "(eo::add %s %s)" % (rng.choice("12"), rng.choice(["1", "(eo::ite %s 1 2)" % c()])),
    ])()


def batches(ctx):
    rng = ctx["rng"]
    thorough = ctx["tier"] == "thorough"
    pool = GROUND + STUCK
    ts = []
    for x in pool:
        for op in UN:
            ts.append("(%s %s)" % (op, x))
        ts.append("(eo::var \"x\" %s)" % x)
        ts.append("(eo::var %s U)" % x)
        ts.append("(eo::requires %s %s %s)" % (x, x, rng.choice(pool)))
        ts.append("(eo::ite %s a b)" % x)
        ts.append("(eo::ite true %s ($loop a))" % x)
        ts.append("(eo::ite false ($loop a) %s)" % x)
        ts.append("(eo::ite P %s %s)" % (x, x))
        ts.append("(f (eo::ite (eo::is_ok %s) a b))" % x)
    pairs = [(x, y) for x in pool for y in pool]
    keep = pairs if thorough else rng.sample(pairs, 1100) + [(x, x) for x in pool]
    for x, y in keep:
        for op in ("eo::is_eq", "eo::eq"):
            ts.append("(%s %s %s)" % (op, x, y))
        if thorough or rng.random() < .3:
            ts.append("(eo::requires %s %s %s)" % (x, y, rng.choice(pool)))
        if thorough or rng.random() < .2:
            ts.append("(eo::ite %s %s %s)" % (rng.choice(["true", "false", "P", "(eo::is_ok %s)" % x]), x, y))
    for op in UN + ["eo::is_eq", "eo::eq", "eo::requires", "eo::ite", "eo::var"]:
        for n in range(5):
            ts.append("(%s%s)" % (op, "".join(" " + rng.choice(["a", "true", "U", "\"x\"", "a"]) for _ in range(n))))
            ts.append("(eo::is_ok (%s%s))" % (op, " true" * n))
    # $loop does not end: it must not be run
    ts = [t for t in ts if "$loop" not in t or t.startswith("(eo::ite true %s" % "") or t.startswith("(eo::ite false")]
    rng.shuffle(ts)
    loop = [t for t in ts if "$loop" in t]
    ts = [t for t in ts if "$loop" not in t]
    js = [job(pall(PRE) + [ev(t) for t in c], main="sig", tag="table-%d" % k) for k, c in enumerate(chunks(ts, 150))]
    # lazily: in a program, where construction does not evaluate it in advance
    cmds = pall(PRE + """
(program $lazy ((x U) (y U)) :signature (U U) U ((($lazy x y) (eo::ite (eo::is_eq x y) x ($loop y)))))
(program $lazy2 ((x U) (y U)) :signature (U U) U ((($lazy2 x y) (eo::ite (eo::is_eq x y) ($loop y) x))))
(program $lazy3 ((x U) (y U)) :signature (U U) U ((($lazy3 x y) (f (eo::ite (eo::is_ok ($one x)) (eo::ite (eo::is_eq x y) x ($loop y)) y)))))
(program $lazy4 ((x U) (b Bool)) :signature (U Bool) U ((($lazy4 x b) (eo::ite b ($one x) ($one ($one x))))))
""")
    for x in ("a", "(f a)", "(f (f b))", "($und a)", "(f (f (f a)))"):
        for y in ("a", "(f a)", "b"):
            for pr in ("$lazy", "$lazy2", "$lazy3"):
                if (x == y) == (pr == "$lazy2") or x == "($und a)" or (pr == "$lazy3" and not x.startswith("(f")):
                    if not (pr == "$lazy3"):
                        continue
                if pr == "$lazy3" and x.startswith("(f") and x != y:
                    continue
                cmds.append(ev("(%s %s %s)" % (pr, x, y)))
        for b in ("true", "false", "P", "($und a)", "(eo::is_ok %s)" % x):
            cmds.append(ev("($lazy4 %s %s)" % (x, b)))
    js.append(job(cmds, main="sig", tag="lazy"))
    yield js
    yield repo_jobs(rng, has("eo::ite", "eo::requires", "eo::eq", "eo::is_eq", "eo::is_ok", "eo::typeof", "eo::nameof", "eo::is_z", "eo::is_var", "eo::is_str", "eo::is_bin", "eo::dt_constructors"), 250)
    leaves = GROUND * 2 + STUCK
    for _ in range(1 if not thorough else 15):
        js = []
        for k in range(40):
            cmds = pall(PRE)
            for i in range(60):
                cmds.append(ev(rexpr(rng, rng.choice([2, 3, 4]), leaves)))
            # with parameters: evaluated when the parameters get values
            for i in range(10):
                x = rexpr(rng, rng.choice([2, 3]), GROUND + STUCK + ["x", "y", "b", "t"] * 25)
                try:
                    cmds.append(p1("(define $d%d ((x U) (y U) (b Bool) (t Type)) %s)" % (i, x)))
                    cmds.append(p1("(program $q%d ((x U) (y U) (b Bool) (t Type)) :signature (U U Bool Type) U ((($q%d x y b t) %s)))" % (i, i, x)))
                except Exception:
                    continue
                for _ in range(3):
                    a = " ".join([rng.choice(["a", "b", "(f a)", "($und a)", "(eo::var \"x\" U)"]), rng.choice(["a", "b", "(f a)", "(g a b)"]), rng.choice(["true", "false", "P"]), rng.choice(["U", "Int", "(-> U U)"])])
                    cmds.append(ev("($d%d %s)" % (i, a)))
                    cmds.append(ev("($q%d %s)" % (i, a)))
            js.append(job(cmds, main="sig", tag="random-%d" % k))
        yield js
