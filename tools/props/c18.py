"""C18: opaque arguments."""
import itertools
from gen import *
import mc

PRE = PROBE_RULE + """
(declare-const Int Type)
(declare-consts <numeral> Int)
(declare-const U Type)
(declare-const V Type)
(declare-const BitVec (-> Int Type))
(declare-consts <binary> (BitVec (eo::len eo::self)))
(declare-const a U)
(declare-const b U)
(declare-const d V)
(declare-const P Bool)
(declare-const Q Bool)
(declare-const f (-> U U))
(declare-const and (-> Bool Bool Bool) :right-assoc-nil true)
(declare-const or (-> Bool Bool Bool) :right-assoc-nil false)
(declare-parameterized-const = ((T Type :implicit)) (-> T T Bool))
(declare-parameterized-const o1 ((x U :opaque)) (-> U U))
(declare-parameterized-const o0 ((x U :opaque)) U)
(declare-parameterized-const o2 ((x U :opaque) (y V :opaque)) (-> U V U))
(declare-parameterized-const oT ((T Type :opaque)) (-> T T Bool))
(declare-parameterized-const oI ((T Type :implicit) (x T :opaque)) (-> T T))
(declare-parameterized-const oC ((T Type :opaque)) T)
(declare-parameterized-const oN ((n Int :opaque)) (-> (BitVec n) (BitVec n)))
(declare-parameterized-const oM ((n Int :opaque) (m Int :opaque)) (-> (BitVec n) (BitVec m) (BitVec (eo::add n m))))
(declare-parameterized-const oF ((g (-> U U) :opaque)) (-> U U))
(declare-parameterized-const oP ((F Bool :opaque)) (-> Bool Bool Bool))
(declare-parameterized-const ox ((T Type :opaque) (x T :opaque) (y T)) (-> U T))
(declare-parameterized-const wit ((T Type :implicit) (F (-> T Bool) :opaque)) T)
(declare-const isU (-> U Bool))
(declare-const isV (-> V Bool))
(program $same ((T Type) (S Type) (x T) (y S)) :signature (T S) Bool ((($same x x) true) (($same x y) false)))
(program $fun ((T Type) (S Type) (g (-> T S)) (x T)) :signature (S) (-> T S) ((($fun (g x)) g)))
(program $arg ((T Type) (S Type) (g (-> T S)) (x T)) :signature (S) T ((($arg (g x)) x)))
(program $o1 ((x U) (y U)) :signature (U) U ((($o1 (o1 x y)) x) (($o1 (o0 x)) x) (($o1 y) (f y))))
(program $o2 ((x U) (y V) (z U) (w V)) :signature (U) V ((($o2 (o2 x y z w)) y)))
(program $o2p ((x U) (y V) (g (-> U V U))) :signature ((-> U V U)) V ((($o2p (o2 x y)) y)))
(program $oa ((y U)) :signature (U) U ((($oa (o1 a y)) y) (($oa (o0 a)) a)))
(program $oT ((T Type) (x T) (y T)) :signature (Bool) Type ((($oT (oT T x y)) T)))
(program $oN ((n Int) (x (BitVec n))) :signature ((BitVec n)) Int ((($oN (oN n x)) n)))
(program $sub ((x U) (y U) (z U) (g (-> U U))) :signature (U U U) U ((($sub x y x) y) (($sub x y (g z)) (g ($sub x y z))) (($sub x y z) z)))
(program $size ((T Type) (S Type) (x T) (g (-> T S))) :signature (S) Int ((($size (g x)) (eo::add ($size g) ($size x))) (($size x) 1)))
(declare-rule eqr ((T Type) (x T) (y T)) :args (x y) :requires ((x y)) :conclusion (= x y))
(declare-rule opq ((x U) (y U)) :args ((o1 x y)) :conclusion (= x y))
"""
U_ = ["a", "b", "(f a)", "(o1 a b)", "(o1 b a)", "(o1 a a)", "(o0 a)", "(o0 b)", "(o0 (o0 a))", "(o1 (f a) b)", "(o1 a (f b))", "(o2 a d a d)", "(o2 b d a d)", "(o2 a d b d)", "(oI a b)", "(oI b b)", "(oI b a)", "(oC U)", "(oF f a)", "(oF (o1 a) b)", "(oF (oF f) a)", "((o1 a) b)",
      "(_ (o1 a) b)", "(_ o1 a b)", "((o2 a d) a d)", "((o2 a d a) d)", "(ox U a b b)", "((ox U a) b b)", "(wit isU)", "(wit (oT U a))", "(o0 (oC U))", "(f (o0 (f a)))", "(o1 (o1 a b) (o1 b a))", "(eo::ite true (o0 a) a)", "(o0 (eo::ite true a b))", "(o1 (eo::define ((z a)) z) b)", "(eo::define ((z (o1 a))) (z b))"]
FN = ["f", "(o1 a)", "(o1 b)", "(o1 (o0 a))", "(oF f)", "(oF (o1 a))", "(oI a)", "(ox U a b)", "o1", "oF", "(_ o1 a)", "(ox U b a)"]
ODD = ["o0", "o1", "o2", "oT", "oI", "oC", "oN", "(o2 a)", "(o2 a d)", "(o1)", "(oT U)", "(oT U a)", "(oT U a b)", "(oT V d d)", "(oT U d d)", "(oT Int 1 2)", "(oT a a)", "(oT)", "(oC V)", "(oC Int)", "(oC (-> U U))", "((oC (-> U U)) a)", "(oC (-> U U) a)", "(oN 2)", "(oN 2 #b10)", "(oN 2 #b101)", "(oN 3 #b101)",
       "(oN a #b1)", "(oN (eo::add 1 1) #b10)", "(oM 1 2)", "(oM 1 2 #b1 #b10)", "(oM 2 1 #b1 #b10)", "(oM 1)", "(oP P)", "(oP P P Q)", "(oP Q P Q)", "(oP (oP P P Q) Q P)", "(ox U a)", "(ox U a b)", "(ox V a b)", "(ox V d d)", "(ox V d d a)", "(wit isV)", "(wit f)", "wit", "(wit (oT V d))", "(wit (oT Int 1))", "(o1 d)", "(o1 a d)", "(o1 a b a)",
       "(o2 d a)", "(eo::as o0 U)", "(as o1 U)", "(eo::typeof (oI a))", "(eo::typeof (o2 a d))", "(eo::typeof o1)", "(oI d)", "(oI 1 2)", "(oI a 1)", "(o0 a b)", "(oF a)", "(oF f f)", "(oT U a b a)"]


def batches(ctx):
    thorough = ctx["tier"] == "thorough"
    rng = ctx["rng"]
    js = []
    jobs = pall(PRE)
    # every term, alone
    cmds = list(jobs)
    for t in U_ + FN + ODD:
        cmds += [ev(t), ev("($fun %s)" % t), ev("($arg %s)" % t), ev("($size %s)" % t), ev("(eo::is_ok %s)" % t), ev("(eo::nameof %s)" % t)]
        for c in ("o1", "f", "a", "o0", "oT"):
            cmds.append(ev("($same %s %s)" % (t, c)))
    js.append(job(cmds, main="sig", tag="terms"))
    cmds = list(jobs)
    for t in U_ + ODD:
        cmds += [ev("($o1 %s)" % t), ev("($oa %s)" % t), ev("($o2 %s)" % t), ev("($o2p %s)" % t), ev("($oT %s)" % t), ev("($oN %s)" % t), ev("($sub a b %s)" % t), ev("($sub (o1 a b) a %s)" % t)]
        cmds.append(p1("(step @x :rule opq :args (%s))" % t))
    js.append(job(cmds, main="sig", tag="matching"))
    prs = list(itertools.product(U_ + FN + ODD, repeat=2))
    rng.shuffle(prs)
    for k, ch in enumerate(chunks(prs if thorough else prs[:1200], 100)):
        cmds = list(jobs)
        for s, t in ch:
            cmds += [ev("($same %s %s)" % (s, t)), ev("(= %s %s)" % (s, t)), ev("(eo::eq %s %s)" % (s, t))]
        for s, t in ch[::10]:
            cmds.append(p1("(step @x :rule eqr :args (%s %s))" % (s, t)))
        js.append(job(cmds, main="sig", tag="pairs-%d" % k))
    # lists and n-ary operators over opaque symbols
    cmds = list(jobs) + pall("""
(declare-parameterized-const land ((x U :opaque)) (-> Bool Bool Bool))
(declare-parameterized-const n1 ((x U :opaque) (y U)) (-> U U))
(declare-const cons (-> U eo::List eo::List) :right-assoc-nil eo::List::nil)
""")
    for h in ["(land a)", "(o1 a)", "(oP P)", "land", "(oP Q)", "and", "or", "oP"]:
        for t in ["(%s P Q)", "(%s P Q P)", "(%s P (%s Q P))"]:
            t = t.replace("%s", h[1:-1] if h[0] == "(" else h)
            cmds += [ev(t), ev("(eo::list_len %s %s)" % (h, t)), ev("(eo::list_nth %s %s 0)" % (h, t)), ev("(eo::nil %s Bool)" % h), ev("(eo::cons %s P %s)" % (h, t)), ev("(eo::is_list %s %s)" % (h, t)), ev("(eo::list_concat %s %s %s)" % (h, t, t)), ev("(eo::list_rev %s %s)" % (h, t))]
        cmds += [ev("(eo::is_list and (and (oP P P Q) (oP Q P Q)))"), ev("(eo::list_find and (and (oP P P Q) (oP Q P Q)) (oP Q P Q))"), ev("(eo::list_find and (and (oP P P Q) (oP Q P Q)) (oP Q Q Q))")]
    js.append(job(cmds, main="sig", tag="lists"))
    yield js
    # random declarations of opaque constants
    js = []
    for k in range(45 if not thorough else 2500):
        cmds = list(jobs)
        for n in range(6):
            ps = []
            for i in range(rng.choice([1, 1, 2, 2, 3])):
                prev = [p for p in ps if p[1] == "Type"]
                ty = rng.choice(["U", "U", "V", "Type", "Int", "Bool", "(-> U U)"] + [p[0] for p in prev] * 3)
                at = rng.choice([":opaque"] * 5 + ["", ":implicit", ":list"])
                ps.append(("x%d" % i, ty, at))
            tv = [p[0] for p in ps if p[1] == "Type"]
            iv = [p[0] for p in ps if p[1] == "Int"]
            base = lambda: rng.choice(["U", "V", "Bool"] + tv * 2 + ["(BitVec %s)" % v for v in iv] * 2)
            ret = base()
            for _ in range(rng.choice([0, 1, 1, 2])):
                ret = "(-> %s %s)" % (base(), ret)
            c = "(declare-parameterized-const q%d (%s) %s%s)" % (n, " ".join("(%s %s%s)" % (a, t, " " + s if s else "") for a, t, s in ps), ret, rng.choice(["", "", "", "", " :right-assoc", " :right-assoc-nil a"]))
            cmds.append(p1(c))
            vals = {"U": ["a", "b", "(o0 a)", "(f a)"], "V": ["d"], "Type": ["U", "V", "Bool", "Int"], "Int": ["1", "2"], "Bool": ["P", "Q"], "(-> U U)": ["f", "(o1 a)"]}
            allv = [x for v in vals.values() for x in v]
            apps = []
            for _ in range(6):
                e = {}
                args = []
                for a, t, s in ps:
                    if s == ":implicit":
                        continue
                    v = rng.choice(vals.get(e.get(t, t), allv) if rng.random() < .93 else allv)
                    e[a] = v
                    args.append(v)
                more = [rng.choice(allv + ["#b1", "#b10"]) for _ in range(rng.choice([0, 1, 2]))]
                ops = [v for v, p in zip(args, [p for p in ps if p[2] != ":implicit"]) if p[2] == ":opaque"]
                apps.append("(q%d %s)" % (n, " ".join(args + more)))
                apps.append("(q%d %s)" % (n, " ".join(args)))
                if ops:
                    apps.append("(q%d %s)" % (n, " ".join(ops)))
            for t in apps:
                cmds += [ev(t), ev("($same %s %s)" % (t, rng.choice(apps))), ev("($fun %s)" % t), ev("($arg %s)" % t), ev("($size %s)" % t)]
        js.append(job(cmds, main="sig", tag="random-%d" % k, fuel=100))
    yield js
    yield repo_jobs(rng, has(":opaque"), 60 if not thorough else 2000)
