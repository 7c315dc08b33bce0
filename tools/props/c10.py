"""C10: typing."""
from gen import *

# dependent and quoted types
DEP = """
(declare-const Nat Type)
(declare-const Vec (-> Type Int Type))
(declare-const Set (-> Type Type))
(declare-const Arr (-> Type Type Type))
(declare-const Bag (-> (-> Type Type) Type))
(declare-const v3 (Vec U 3))
(declare-const v2 (Vec U 2))
(declare-const vi (Vec Int 2))
(declare-const bv4 (BitVec 4))
(declare-const bv8 (BitVec 8))
(declare-const su (Set U))
(declare-const ar (Arr U Int))
(declare-const ho (-> (-> U U) U))
(declare-const ho2 (-> (-> U U) (-> U U)))
(declare-const curried (-> U (-> V (-> Int Bool))))
(declare-const tyf (-> Type U))
(declare-const tyb (-> Bool Type))
(declare-parameterized-const cat ((A Type :implicit) (n Int :implicit) (m Int :implicit)) (-> (Vec A n) (Vec A m) (Vec A (eo::add n m))))
(declare-parameterized-const bvcat ((n Int :implicit) (m Int :implicit)) (-> (BitVec n) (BitVec m) (BitVec (eo::add n m))))
(declare-parameterized-const extract ((n Int :implicit) (i Int) (j Int)) (-> (BitVec n) (BitVec (eo::add i (eo::neg j) 1))))
(declare-parameterized-const extract2 ((n Int :implicit) (i Int) (j Int)) (-> (BitVec n) (eo::requires (eo::gt n i) true (BitVec (eo::add i (eo::neg j) 1)))))
(declare-parameterized-const rep ((n Int)) (-> U (Vec U n)))
(declare-parameterized-const repT ((A Type) (n Int)) (-> A (Vec A n)))
(declare-parameterized-const emp ((A Type)) (Set A))
(declare-parameterized-const empI ((A Type :implicit)) (Set A))
(declare-parameterized-const ins ((A Type :implicit)) (-> A (Set A) (Set A)))
(declare-parameterized-const sel ((A Type :implicit) (B Type :implicit)) (-> (Arr A B) A B))
(declare-parameterized-const sto ((A Type :implicit) (B Type :implicit)) (-> (Arr A B) A B (Arr A B)))
(declare-parameterized-const map ((A Type :implicit) (B Type :implicit)) (-> (-> A B) (Set A) (Set B)))
(declare-parameterized-const ap ((A Type :implicit) (B Type :implicit)) (-> (-> A B) A B))
(declare-parameterized-const idt ((A Type)) (-> A A))
(declare-parameterized-const dq ((x U)) (-> U Bool))
(declare-parameterized-const samel ((n Int)) (-> (Vec U n) (Vec U n) Bool))
(declare-parameterized-const bag ((F (-> Type Type) :implicit)) (-> (F U) (F Int) Bool))
(declare-parameterized-const litv ((n Int)) (eo::ite (eo::is_neg n) U (BitVec n)))
(declare-parameterized-const kind ((A Type)) (-> A Type))
(program $tyof ((n Int)) :signature (Int) Type ((($tyof 0) U) (($tyof 1) V)))
(declare-parameterized-const fam ((n Int)) (-> Int ($tyof n)))
(declare-parameterized-const fam2 ((n Int)) (-> ($tyof n) Bool))
(program $ar ((T Type) (S Type) (n Int)) :signature (Type) Int ((($ar (-> T S)) (eo::add 1 ($ar S))) (($ar T) 0)))
(declare-const badlit (-> (BitVec 4) Bool))
(define $mk ((T Type) (n Int)) (Vec T n))
(define $idf ((T Type :implicit) (x T)) x)
(declare-parameterized-const tri ((A Type :implicit) (B Type :implicit)) (-> A B A (Pair A B)))
"""
ATOMS = ["a", "b", "d", "e", "i1", "0", "1", "2", "3", "-1", "P", "true", "f", "g", "h", "fv", "p", "r", "v3", "v2", "vi", "bv4", "bv8", "#b0101", "(eo::to_bin 0 0)", "su", "ar", "\"x\"", "1/2", "1.5", "U", "V", "Int", "Bool", "Type", "Vec", "Set", "(Set U)", "(Vec U 2)",
         "(Vec Int 3)", "(BitVec 4)", "(-> U U)", "(-> U V U)", "ho", "ho2", "curried", "tyf", "tyb", "emp", "empI", "(emp U)", "(emp Int)", "idt", "rep", "$tyof", "$ar", "or", "and", "=", "eo::List::nil", "(eo::var \"z\" U)", "(eo::var \"y\" Int)", "forall",
         "(eo::requires a b a)", "(eo::add 1 a)", "($tyof 2)", "(_ g a)", "(_ or P)", "(eo::is_ok a)", "(eo::typeof a)"]
FN = {"f": 1, "g": 2, "h": 2, "fv": 1, "p": 1, "r": 2, "or": 2, "and": 3, "=": 2, "distinct": 3, "ite": 3, "pair": 2, "fst": 1, "+": 2, "<": 2, "bvand": 2, "Vec": 2, "Set": 1, "Arr": 2, "BitVec": 1, "Pair": 2, "->": 2, "Bag": 1,
      "ho": 1, "ho2": 2, "curried": 3, "tyf": 1, "tyb": 1, "cat": 2, "bvcat": 2, "extract": 3, "extract2": 3, "rep": 2, "repT": 3, "emp": 1, "ins": 2, "sel": 2, "sto": 3, "map": 2, "ap": 2, "idt": 2, "dq": 2, "samel": 3, "bag": 2, "litv": 1, "kind": 2,
      "fam": 2, "fam2": 2, "$tyof": 1, "$ar": 1, "badlit": 1, "$mk": 2, "$idf": 1, "tri": 3, "_": 2, "forall": 2, "eo::List::cons": 2, "not": 1, "xor": 2, "=>": 3, "-": 2, "eo::ite": 3, "eo::requires": 3, "eo::typeof": 1, "eo::nil": 2, "eo::cons": 3, "eo::add": 2, "eo::var": 2}
# well-typed argument choices: type -> producers
GOOD = {
    "U": ["a", "b", "(f a)", "(ap f a)", "(ho f)", "(sel (sto ar a 1) b)", "(idt U a)", "(fam 0 1)", "(ite P a b)", "(fst (pair a 1))", "(eo::ite true a d)", "(tyf Int)", "(ho (ho2 f))", "(litv -1)"],
    "Int": ["0", "1", "2", "i1", "(+ 1 2)", "(sel ar a)", "(eo::add 1 1)", "(fst (pair 1 a))", "(idt Int 1)"],
    "(Set U)": ["su", "(emp U)", "(ins a su)", "(map f su)", "(map fv su)", "(ins a (emp U))", "(ins a (ins b su))"],
    "(BitVec 4)": ["bv4", "#b0101", "(extract 3 0 bv8)", "(bvcat #b01 #b11)", "(bvand bv4 bv4)", "(extract2 3 0 bv8)", "(litv 4)", "(eo::to_bin 4 3)"],
    "(Vec U 2)": ["v2", "(rep 2 a)", "(cat (rep 1 a) (rep 1 b))", "(repT U 2 a)"],
    "Bool": ["P", "true", "(p a)", "(= a b)", "(or P Q)", "(samel 2 v2 v2)", "(fam2 0 a)", "(dq a b)", "(curried a d 1)", "(badlit bv4)", "(badlit #b0101)", "(bag su (emp Int))", "(r a b)", "(dq (f a) a)"],
    "Type": ["U", "Int", "(Set U)", "(Vec U 2)", "(-> U U)", "(BitVec 4)", "($tyof 0)", "($mk U 2)", "(tyb P)", "(kind U a)"],
    "(-> U U)": ["f", "(g a)", "(_ g a)", "(ho2 f)", "(idt U)", "(ite P)", "(idt (-> U U) f)", "(_ idt U)"],
}


def rand(rng, d):
    if d == 0 or rng.random() < .15:
        return rng.choice(ATOMS)
    fn = rng.choice(list(FN))
    n = FN[fn]
    if rng.random() < .1:
        n += rng.choice([-1, 1])
    if fn == "forall" and rng.random() < .7:
        return "(forall ((z %s)%s) %s)" % (rng.choice(["U", "Int", rand(rng, 1)]), " (w U)" if rng.random() < .3 else "", rand(rng, d-1))
    return "(%s%s)" % (fn, "".join(" " + rand(rng, d-1) for _ in range(max(0, n))))


def swap(rng, t):
    """replace one subterm of a good term by some other term"""
    t = p1(t)
    subs = subtrees(t)
    path, x = rng.choice(subs)
    pool = ATOMS + [y for ys in GOOD.values() for y in ys]
    return render(replace(t, path, p1(rng.choice(pool))))


SIGS = ["U", "Int", "Bool", "Type", "V", "(-> U U)", "(Vec U n)", "(BitVec n)", "(Set T)", "T", "(-> T U)", "(-> T S)", "(Vec T n)", "Real", "n", "(eo::add n 1)", "a", "(Set U)", "(BitVec 4)", "(eo::quote n)", "Bool", "(tyb b)"]


def batches(ctx):
    rng = ctx["rng"]
    thorough = ctx["tier"] == "thorough"
    pre = pall(UNI + PROBE_RULE + DEP)
    good = [x for xs in GOOD.values() for x in xs]
    ts = list(ATOMS) + good
    # each good argument in each good context
    for x in good:
        for y in rng.sample(good, 3):
            ts += ["(= %s %s)" % (x, y), "(pair %s %s)" % (x, y), "(tri %s %s %s)" % (x, y, rng.choice(good)), "(ap %s %s)" % (x, y)]
        ts += ["(kind (eo::typeof %s) %s)" % (x, x), "(ins %s (emp (eo::typeof %s)))" % (x, x), "(eo::typeof (pair %s a))" % x, "($idf %s)" % x]
    for _ in range(3500 if not thorough else 40000):
        ts.append(swap(rng, rng.choice(ts[:3000]) if rng.random() < .4 else rng.choice(good)))
    for _ in range(1500 if not thorough else 20000):
        ts.append(rand(rng, rng.choice([1, 1, 2, 2, 3])))
    ts = [t for t in ts if not risky([p1(t)])]
    rng.shuffle(ts)
    js = [job(pre + [ev(t) for t in c], main=rng.choice(["sig", "sig", "proof"]), tag="terms-%d" % k) for k, c in enumerate(chunks(ts, 110))]
    yield js
    # where a formula, a type or a term of a given type is required
    js = []
    for k in range(70 if not thorough else 700):
        cmds = list(pre)
        g = Gen(rng, err=.04)
        for i in range(45):
            x = rng.choice([lambda: swap(rng, rng.choice(good)), lambda: rand(rng, 2), lambda: rng.choice(good), lambda: g.term("Bool", 3)])()
            ty = rng.choice([lambda: rng.choice(list(GOOD)), lambda: rng.choice(GOOD["Type"]), lambda: rand(rng, 1), lambda: "(eo::typeof %s)" % rng.choice(good)])()
            c = rng.choice([
                "(assume @x %s)" % x, "(declare-const c%d %s)" % (i, ty), "(declare-const c%d (-> %s %s))" % (i, ty, rng.choice(list(GOOD))), "(define m%d () %s :type %s)" % (i, x, ty),
                "(define m%d ((z U)) %s :type (-> U %s))" % (i, x, ty), "(assume-push @y %s)" % x, "(step @z %s :rule $copy :premises (@x))" % x, "(declare-const c%d (-> (-> %s U) %s))" % (i, ty, ty),
                "(define m%d ((z %s)) %s)" % (i, ty, x)])
            try:
                cmd = p1(c)
            except SxError:
                continue
            if risky([cmd]):
                continue
            cmds.append(cmd)
            if "c%d" % i in c:
                cmds.append(ev("c%d" % i)); cmds.append(ev("(= c%d %s)" % (i, rng.choice(good)))); cmds.append(ev("(c%d %s)" % (i, rng.choice(good))))
            if "m%d" % i in c:
                cmds.append(ev("m%d" % i)); cmds.append(ev("(m%d %s)" % (i, rng.choice(good))))
        js.append(job(cmds, main="sig", tag="required-%d" % k))
    yield js
    # random declarations: dependent and quoted types, programs, and their uses
    js = []
    for k in range(70 if not thorough else 700):
        cmds = pall(UNI + PROBE_RULE) + pall(DEP)
        for i in range(7):
            n = rng.randint(1, 3)
            args = [rng.choice(SIGS) for _ in range(n)]
            ret = rng.choice(SIGS)
            ps = "(T Type%s) (S Type%s) (n Int%s) (b Bool)" % tuple(rng.choice([" :implicit", " :implicit", ""]) for _ in range(3))
            if rng.random() < .4:
                ps = " ".join(rng.sample(["(T Type :implicit)", "(S Type :implicit)", "(n Int :implicit)", "(n Int)", "(T Type)", "(T Type)"], rng.randint(1, 3)))
            cmds += pall("(declare-parameterized-const k%d (%s) (-> %s %s))" % (i, ps, " ".join(args), ret))
            cmds += pall("(program $k%d ((T Type) (S Type) (n Int) (b Bool) (x T) (y S)) :signature (%s) %s)" % (i, " ".join(args), ret))
            if rng.random() < .4:
                cmds += pall("(declare-const l%d (-> %s %s))" % (i, " ".join(args), ret))
            for _ in range(7):
                hd = rng.choice(["k%d", "k%d", "k%d", "$k%d", "l%d"]) % i
                m = n + rng.choice([0, 0, 0, -1, 1, 1, 2])
                xs = []
                for j in range(m):
                    s = args[j % n] if j < n else rng.choice(SIGS)
                    s = s.replace("T", "U") if "Type" not in s else s
                    s = s.replace(" n)", " 2)")
                    xs.append(rng.choice(GOOD.get(s, good)) if rng.random() < .75 else rng.choice(ATOMS))
                t = p1("(%s %s)" % (hd, " ".join(xs)))
                if not risky([t]):
                    cmds.append(ev(t))
        js.append(job(cmds, main="sig", tag="declared-%d" % k))
    yield js
    yield repo_jobs(rng, None, 300 if not thorough else 6000)
