"""C01: application of rules."""
from gen import *

ENV = {"U": ["x", "y", "z"], "V": ["v"], "Bool": ["F", "G", "H"], "Int": ["m", "n"]}
PARAMS = {"x": "U", "y": "U", "z": "U", "v": "V", "F": "Bool", "G": "Bool", "H": "Bool", "m": "Int", "n": "Int"}
LISTS = {"or": ["xs"], "and": ["xs"]}

PROGS = """
(program $neg ((F Bool)) :signature (Bool) Bool ((($neg (not F)) F) (($neg F) (not F))))
(program $swap ((x U) (y U)) :signature (U) U ((($swap (g x y)) (g y x)) (($swap (f x)) x)))
(program $has ((x U) (y U) (z U)) :signature (U U) Bool ((($has x x) true) (($has x (f y)) ($has x y)) (($has x (g y z)) (eo::ite ($has x y) true ($has x z))) (($has x y) false)))
(program $memb ((F Bool) (G Bool) (xs Bool :list)) :signature (Bool Bool) Bool ((($memb F (or F xs)) true) (($memb F (or G xs)) ($memb F xs)) (($memb F false) false)))
"""


def pred_pairs(g, rng):
    """a side condition over the parameters"""
    U = lambda: g.term("U", 1)
    B = lambda: g.term("Bool", 1)
    I = lambda: g.term("Int", 1)
    return rng.choice([
        lambda: "((eo::is_eq %s %s) %s)" % (U(), U(), rng.choice(["true", "false"])),
        lambda: "((eo::eq %s %s) %s)" % (I(), I(), rng.choice(["true", "false"])),
        lambda: "((eo::add %s 1) %s)" % (rng.choice("mn"), I()),
        lambda: "((eo::is_neg %s) %s)" % (rng.choice("mn"), rng.choice(["true", "false"])),
        lambda: "(($neg %s) %s)" % (B(), B()),
        lambda: "(($swap %s) %s)" % (U(), U()),
        lambda: "(($has %s %s) %s)" % (U(), U(), rng.choice(["true", "false"])),
        lambda: "(($memb %s xs) %s)" % (B(), rng.choice(["true", "false"])),
        lambda: "(%s %s)" % (U(), U()),
        lambda: "((eo::list_len or xs) %s)" % rng.choice(["0", "1", "2", "m"]),
        lambda: "((eo::is_ok ($swap %s)) true)" % U(),
        lambda: "((eo::typeof %s) %s)" % (U(), rng.choice(["U", "U", "V"])),
    ])()


def conc_term(g, rng):
    if rng.random() < .6:
        return g.term("Bool", rng.choice([1, 2, 3]))
    return rng.choice([
        lambda: "($neg %s)" % g.term("Bool", 1), lambda: "(p ($swap %s))" % g.term("U", 1),
        lambda: "(or xs %s)" % g.term("Bool", 1), lambda: "(= %s (eo::add %s 1))" % (g.term("Int", 1), rng.choice("mn")),
        lambda: "(eo::ite (eo::is_eq %s %s) %s %s)" % (g.term("U", 1), g.term("U", 1), g.term("Bool", 1), g.term("Bool", 1)),
        lambda: "(eo::requires %s %s %s)" % (g.term("U", 0), g.term("U", 0), g.term("Bool", 1)),
        lambda: "(eo::list_concat or xs %s)" % rng.choice(["xs", "(or P Q)", "(or F)"]),
        lambda: "(and (eo::nil or Bool) %s)" % g.term("Bool", 0),
        lambda: "(eo::not %s)" % rng.choice(["F", "true", "(eo::is_neg m)"]),
    ])()


def occ(ast):
    acc = set()
    names(ast, acc)
    return acc


def make_rule(rng, k):
    g = Gen(rng, ENV, LISTS, pvar=.75, ev=0 if rng.random() < .9 else .05)
    npr = rng.choice([0, 1, 1, 1, 2, 2, 3])
    nar = rng.choice([0, 0, 1, 1, 2, 3])
    prem = [g.term("Bool", rng.choice([0, 1, 2, 2])) for _ in range(npr)]
    args = [g.term(rng.choice(["U", "U", "Int", "Bool", "V"]), rng.choice([0, 0, 1, 2])) for _ in range(nar)]
    asm = g.term("Bool", 1) if rng.random() < .1 else None
    used = set()
    for t in prem + args + ([asm] if asm else []):
        used |= occ(p1(t))
    env = {ty: [v for v in vs if v in used] for ty, vs in ENV.items()}
    if rng.random() < .05:
        env = ENV
    g2 = Gen(rng, env, LISTS if "xs" in used else {}, pvar=.75)
    def fix(t):
        for v in ("m", "n"):
            pass
        return t
    reqs = []
    for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
        reqs.append(pred_pairs(g2, rng))
    conc = conc_term(g2, rng)
    if rng.random() < .95:      # keep what is well formed most of the time
        bound = lambda s: all(n in used for n in occ(p1(s)) if n in PARAMS or n == "xs")
        reqs = [r for r in reqs if bound(r)]
        if not bound(conc):
            conc = g2.term("Bool", 2)
    params = list(PARAMS.items())
    ptext = " ".join("(%s %s)" % x for x in params) + " (xs Bool :list)"
    ex = rng.random() < .08
    text = "(declare-rule r%d (%s)%s%s%s%s %s %s%s)" % (
        k, ptext, " :assumption " + asm if asm else "",
        " :premises (%s)" % " ".join(prem) if prem or rng.random() < .1 else "",
        " :args (%s)" % " ".join(args) if args or rng.random() < .1 else "",
        " :requires (%s)" % " ".join(reqs) if reqs else "",
        ":conclusion-explicit" if ex else ":conclusion", conc,
        " :sorry" if rng.random() < .05 else "")
    return dict(name="r%d" % k, text=text, prem=[p1(t) for t in prem], args=[p1(t) for t in args], asm=p1(asm) if asm else None, conc=p1(conc), ex=ex)


def instance(rng, small):
    g = Gen(rng)
    d = 0 if small else 1
    m = {}
    for v, ty in PARAMS.items():
        m[v] = p1(g.term(ty, rng.choice([0, 0, d, d + 1]) if ty != "Int" else 0))
    m["xs"] = [p1(g.term("Bool", rng.choice([0, 0, 1]))) for _ in range(rng.choice([0, 0, 1, 2, 3]))]
    return m


def inst(rng, t, m):
    t = subst(t, m)
    return t


def steps(rng, rule, n, ctr):
    """commands that apply a rule, mostly matching"""
    out = []
    for _ in range(n):
        m = instance(rng, rng.random() < .5)
        prem = [inst(rng, t, m) for t in rule["prem"]]
        args = [inst(rng, t, m) for t in rule["args"]]
        asm = inst(rng, rule["asm"], m) if rule["asm"] else None
        conc = inst(rng, rule["conc"], m)
        g = Gen(rng)
        k = rng.random()
        if k < .12 and prem:
            i = rng.randrange(len(prem))
            prem[i] = inst(rng, rule["prem"][i], instance(rng, False))
        elif k < .2 and args:
            i = rng.randrange(len(args))
            args[i] = inst(rng, rule["args"][i], instance(rng, False))
        elif k < .24 and prem:
            prem.pop(rng.randrange(len(prem)))
        elif k < .28:
            prem.append(p1(g.term("Bool", 1)))
        elif k < .31 and args:
            args.pop()
        elif k < .34:
            args.append(p1(g.term(rng.choice(TYPES), 1)))
        elif k < .37 and len(prem) > 1:
            prem.reverse()
        elif k < .4 and len(args) > 1:
            args.reverse()
        elif k < .43 and prem:
            prem[-1] = p1(g.term("Bool", 2))
        ctr[0] += 1
        c = ctr[0]
        pn = []
        for i, f in enumerate(prem):
            nm = ["s", "q%d_%d" % (c, i)]
            out.append(["l", [["s", "assume"], nm, f]])
            pn.append(nm)
        if rng.random() < .03 and pn:
            pn[rng.randrange(len(pn))] = rng.choice([["s", "P"], ["s", "true"], ["s", "nope"], ["s", "f"]])
        st = ["l", [["s", "step"], ["s", "s%d" % c]]]
        pop = asm is not None and rng.random() < .9 or rng.random() < .02
        if pop:
            a = asm if asm is not None else p1("P")
            if rng.random() < .15:
                a = p1(g.term("Bool", 1))
            out.append(["l", [["s", "assume-push"], ["s", "h%d" % c], a]])
            st[1][0] = ["s", "step-pop"]
        stated = None
        k2 = rng.random()
        if k2 < .35 or rule["ex"] and k2 < .9:
            stated = conc
            if k2 < .06:
                stated = p1(g.term("Bool", 2))
        if stated is not None:
            st[1].append(stated)
        st[1] += [["k", ":rule"], ["s", rule["name"]]]
        if pn:
            st[1] += [["k", ":premises"], ["l", pn]]
        if args:
            st[1] += [["k", ":args"], ["l", args]]
        out.append(st)
        out.append(proves("s%d" % c))
        if pop and rng.random() < .5:
            out.append(proves("h%d" % c))
        if pop:
            # close the scope if the step was rejected
            out.append(p1("(step-pop t%d :rule $disch)" % c))
    return out


FIXED = """
(declare-rule n0 () :conclusion true)
(declare-rule n1 () :conclusion (or P Q))
(declare-rule mp ((F Bool) (G Bool)) :premises (F (=> F G)) :conclusion G)
(declare-rule id ((F Bool)) :args (F) :conclusion F)
(declare-rule any ((T Type) (x T)) :args (x) :conclusion (= x x))
(declare-rule nonb ((x U)) :args (x) :conclusion x)
(declare-rule nonb2 ((T Type) (x T)) :args (x) :conclusion x)
(declare-rule two ((x U)) :args (x x) :conclusion (p x))
(declare-rule pa ((F Bool)) :premises (F) :args (F) :conclusion (and F F))
(declare-rule pap ((F Bool) (G Bool)) :premises (F G F) :conclusion (and F G))
(declare-rule hd ((x U) (k (-> U U))) :args ((k x)) :conclusion (= x (k x)))
(declare-rule hd2 ((x U) (y U) (k (-> U U Bool))) :premises ((k x y)) :conclusion (k y x))
(declare-rule rq ((x U) (y U)) :args (x y) :requires ((x y)) :conclusion (r x y))
(declare-rule rq2 ((m Int) (n Int)) :args (m n) :requires (((eo::add m n) 3) ((eo::is_neg m) false)) :conclusion (< m n))
(declare-rule rqs ((m Int)) :args (m) :requires (((eo::add m 1) (eo::add m 1))) :conclusion (pi m))
(declare-rule cst ((m Int)) :args (m) :conclusion (pi (eo::add m 1)))
(declare-rule eqs ((T Type) (x T) (y T)) :premises ((= x y)) :conclusion (= y x))
"""
FSTEPS = """
(assume A P) (assume B (=> P Q)) (assume C (=> (and P Q) R)) (assume D (r a b)) (assume E (= a b))
"""


def fixed_jobs(rng):
    """every rule with every small selection of premises and arguments"""
    rules = ["n0", "n1", "mp", "id", "any", "nonb", "nonb2", "two", "pa", "pap", "hd", "hd2", "rq", "rq2", "rqs", "cst", "eqs", "undeclared", "P"]
    ps = ["A", "B", "D", "E"]
    ar = ["a", "(f a)", "P", "1", "2", "-1", "i1", "(g a)", "U", "b", "(+ 1 2)"]
    pc = [[]] + [[x] for x in ps] + [[x, y] for x in ps for y in ps] + [["A", "E", "A"], ["A", "E", "E"], ["A", "A", "A"], ["P"], ["f"], ["A", "zzz"]]
    ac = [[]] + [[x] for x in ar] + [[x, y] for x in ar[:7] for y in ar[:7]] + [["1", "2", "3"], ["a", "a", "a"]]
    cmds = []
    n = 0
    shape = dict(n0=(0, 0), n1=(0, 0), mp=(2, 0), id=(0, 1), any=(0, 1), nonb=(0, 1), nonb2=(0, 1), two=(0, 2), pa=(1, 1), pap=(3, 0),
                 hd=(0, 1), hd2=(1, 0), rq=(0, 2), rq2=(0, 2), rqs=(0, 1), cst=(0, 1), eqs=(1, 0))
    for r in rules:
        combos = [(p, a) for p in pc for a in ac if (len(p), len(a)) == shape.get(r) or rng.random() < .03]
        for p, a in combos:
            for st in (None, "true", "(= a a)", "Q", "P"):
                if st and rng.random() < .7:
                    continue
                n += 1
                cmds.append("(step s%d %s :rule %s%s%s)" % (n, st or "", r, " :premises (%s)" % " ".join(p) if p or rng.random() < .1 else "",
                                                            " :args (%s)" % " ".join(a) if a or rng.random() < .1 else ""))
                cmds.append("(?proves s%d)" % n)
    pre = UNI + FIXED + PROBE_RULE + FSTEPS
    # what follows is read as a proof: Type is not a word there
    return [job(pall(pre + "\n".join(c)), main="sig", tag="combos-%d" % k) for k, c in enumerate(chunks(cmds, 120))]


def batches(ctx):
    rng = ctx["rng"]
    thorough = ctx["tier"] == "thorough"
    yield fixed_jobs(rng)
    for _ in range(1 if not thorough else 12):
        js = []
        for k in range(110):
            rules = [make_rule(rng, i) for i in range(5)]
            cmds = pall(UNI + PROGS + PROBE_RULE + "(declare-rule $disch ((F Bool)) :assumption F :conclusion true)\n" + "\n".join(r["text"] for r in rules))
            ctr = [0]
            for r in rules:
                cmds += steps(rng, r, 5, ctr)
            js.append(job(cmds, main="sig", tag="rules-%d" % k))
        yield js
        yield repo_jobs(rng, has("step"), 600)
