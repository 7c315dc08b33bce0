"""C19: hashes and the order of terms: answers recorded from the real checker are checked against EoHash."""
import os, re, shutil
from gen import *
from vlib import *
import mc

PRE = PROBE_RULE + """
(declare-const Int Type)
(declare-const Real Type)
(declare-const String Type)
(declare-const BitVec (-> Int Type))
(declare-consts <numeral> Int)
(declare-consts <decimal> Real)
(declare-consts <rational> Real)
(declare-consts <string> String)
(declare-consts <binary> (BitVec (eo::len eo::self)))
(declare-consts <hexadecimal> (BitVec (eo::len eo::self)))
(declare-const $nil Int)
(declare-const $rec (-> Int Int Int) :right-assoc-nil $nil)
(declare-const $p (-> Int Bool))
(declare-rule $show ((x Int)) :args (x) :conclusion ($p x))
(declare-const U Type)
(declare-const V Type)
(declare-const Pair (-> Type Type Type))
(declare-const a U)
(declare-const b U)
(declare-const c V)
(declare-const f (-> U U))
(declare-const g (-> U U U))
(declare-const P Bool)
(declare-const Q Bool)
(declare-const pr (-> U Bool))
(declare-const and (-> Bool Bool Bool) :right-assoc-nil true)
(declare-const or (-> Bool Bool Bool) :left-assoc-nil false)
(declare-const not (-> Bool Bool))
(declare-parameterized-const = ((T Type :implicit)) (-> T T Bool))
(declare-const forall (-> eo::List Bool Bool) :binder eo::List::cons)
(declare-const sk (-> U U U) )
(declare-const + (-> Int Int Int) :right-assoc-nil 0)
(program $ins ((x Bool) (y Bool) (z Bool :list)) :signature (Bool Bool) Bool
  ((($ins x (and y z)) (eo::ite (eo::cmp x y) (eo::cons and y ($ins x z)) (eo::cons and x (eo::cons and y z))))
   (($ins x true) (and x))))
(program $sort ((y Bool) (z Bool :list)) :signature (Bool) Bool
  ((($sort (and y z)) ($ins y ($sort z)))
   (($sort true) true)))
(program $sum ((y Bool) (z Bool :list)) :signature (Bool) Int
  ((($sum (and y z)) (eo::add (eo::hash y) ($sum z)))
   (($sum true) 0)))
(program $max ((T Type) (x T) (y T)) :signature (T T) T
  ((($max x y) (eo::ite (eo::cmp x y) x y))))
(program $size ((x U) (y U)) :signature (U) Int
  ((($size (f x)) (eo::add 1 ($size x)))
   (($size (g x y)) (eo::add ($size x) ($size y)))
   (($size x) 1)))
(program $grow ((x U)) :signature (U) U
  ((($grow (f (f (f x)))) x) (($grow x) ($grow (f x)))))
(declare-rule $lt ((T Type) (x T) (y T)) :args (x y) :requires (((eo::cmp y x) true)) :conclusion (= x y))
(declare-rule $id ((T Type) (x T) (n Int)) :args (x n) :requires (((eo::hash x) n)) :conclusion (= x x))
(declare-rule $mk ((F Bool)) :args (F) :conclusion F)
(declare-rule $bad ((F Bool)) :args (F) :requires ((F true)) :conclusion F)
(declare-rule $scope ((F Bool) (G Bool)) :assumption F :premises (G) :conclusion (or F G))
"""
# terms by type, each under several spellings that denote the same term
POOL = {
    "U": [["a"], ["b", "|b|"], ["(f a)", "(_ f a)"], ["(f (f a))"], ["(g a b)", "(_ (_ g a) b)", "((_ g a) b)"], ["(g b a)"], ["(g a a)"], ["(g (f a) (f b))"], ["(f (g a b))"], ["(eo::var \"x\" U)", '(eo::var "\\u{78}" U)'], ["(f (eo::var \"x\" U))"]],
    "B": [["P"], ["Q"], ["(not P)", "(_ not P)"], ["(not (not P))"], ["(= a b)", "(_ = a b)", "(_ (_ = a) b)"], ["(= b a)"], ["(= 1 1)", "(= 01 (eo::add 0 1))"], ["(pr a)"], ["(or P Q)"] , ["(or Q P)"], ["(forall ((x U)) (pr x))"], ["(forall ((y U)) (pr y))"], ["(= Int Int)"], ["(pr (f a))"], ["false", "(eo::not true)"]],
    "L": [["0", "(eo::add 1 -1)", "-0"], ["1", "01", "(eo::mul 1 1)"], ["2", "(eo::add 1 1)"], ["-1", "(eo::neg 1)"], ["1/1", "(eo::qdiv 2 2)", "(eo::add 1/2 1/2)"], ["1.0", "1.00"], ["1/2", "2/4"], ["0.5", "0.50"], ["#b1"], ["#b01"], ["#b0001"], ["#x1", "#x1"], ["#x01"], ['"1"'], ['""'], ['"a"', '"\\u{61}"', '(eo::concat "" "a")'], ["#b0"], ["4294967296", "(eo::mul 65536 65536)"], ["4294967297"], ["-4294967296"], ["18446744073709551616"]],
    "T": [["Int"], ["Bool"], ["U"], ["(-> U U)", "(eo::typeof f)"], ["(-> U U U)", "(-> U (-> U U))", "(eo::typeof g)"], ["(-> (-> U U) U)"], ["(BitVec 1)", "(eo::typeof #b1)"], ["(BitVec 2)"], ["(Pair U V)"], ["(Pair V U)"], ["Type"], ["(-> U Bool)"]],
    "F": [["f"], ["g"], ["(_ g a)"], ["pr"], ["not"], ["and"], ["(_ and P)"], ["BitVec"], ["eo::List"], ["eo::List::nil"], ["(and P Q)", "(and P Q)"], ["(and P Q true)"], ["(and P (and Q true))"], ["(and P (and Q))"], ["(and P)"], ["(eo::List::cons a b)"]],
}
KEYS = [(k, i) for k in POOL for i in range(len(POOL[k]))]
OPEN = ["(eo::add P Q)", "(eo::to_z a)", "(eo::len P)", "(eo::ite P a b)", "($size (eo::ite P a b))"]


def spell(rng, k):
    return rng.choice(POOL[k[0]][k[1]])


def noise(rng, n):
    r = rng.random()
    u = lambda: spell(rng, ("U", rng.randrange(len(POOL["U"]))))
    B = lambda: spell(rng, ("B", rng.randrange(len(POOL["B"]))))
    if r < .2:
        return ["(define @d%d () %s)" % (n, rng.choice([u(), B(), "(g %s %s)" % (u(), u()), "(and %s %s)" % (B(), B())]))]
    if r < .4:
        return ["(step @s%d :rule $mk :args ((= %s (g %s %s))))" % (n, u(), u(), u())]
    if r < .5:
        return ["(step @s%d :rule $bad :args (%s))" % (n, B())]
    if r < .6:
        return ["(define @d%d () ($size (g (f (f %s)) (f a))))" % (n, u()), "(define @e%d () ($grow (f %s)))" % (n, u())]
    if r < .7:
        return ["(assume-push @h%d %s)" % (n, B()), "(step @i%d :rule $mk :args (%s))" % (n, B()), "(step-pop @j%d :rule $scope :premises (@i%d))" % (n, n)]
    if r < .8:
        return ["(define @d%d () (eo::concat \"%d\" (eo::to_str %d)))" % (n, n, 40 + n), "(define @e%d () (eo::mul %d 1/3))" % (n, n)]
    if r < .9:
        return ["(declare-const @k%d U)" % n, "(define @e%d () (f @k%d))" % (n, n)]
    return ["(define @d%d () (eo::list_concat and (and %s %s) (and %s)))" % (n, B(), B(), B())]


def make(rng, size, tag, wide=False):
    """(job, index of the first command that depends on the answers)"""
    cmds = pall(PRE)
    keys = list(KEYS) if wide else rng.sample(KEYS, min(len(KEYS), rng.randint(4, 14)))
    asked = []
    n = 0
    depth = 0
    for _ in range(size):
        n += 1
        r = rng.random()
        if r < .5:
            k = rng.choice(keys)
            if not wide or k not in asked:
                cmds.append(p1("(?hash %s)" % spell(rng, k)))
                asked.append(k)
        elif r < .68:
            k, l = rng.choice(keys), rng.choice(keys)
            cmds.append(p1("(?cmp %s %s)" % (spell(rng, k), spell(rng, l))))
            asked += [k, l]
        elif r < .9:
            cmds += [p1(x) for x in noise(rng, n)]
        elif r < .92:
            cmds.append(p1("(?hash %s)" % rng.choice(OPEN)))
        elif r < .96 and depth < 3:
            cmds += [p1("(push)"), p1("(declare-const %s U)" % rng.choice(["@z", "@z", "@y"])), p1("(?hash %s)" % rng.choice(["@z", "(f @z)", "@y", "(g @z @z)"]))]
            depth += 1
        elif depth:
            if rng.random() < .5:
                k, l = rng.choice(keys), rng.choice(keys)
                cmds += [p1("(?cmp %s %s)" % (spell(rng, k), spell(rng, l))), p1("(?hash %s)" % spell(rng, k))]
                asked += [k, l]
            cmds.append(p1("(pop)"))
            depth -= 1
    for k in sorted(set(asked)):
        if rng.random() < .6 or ("ok", k) not in asked:
            cmds.append(p1("(?hash %s)" % spell(rng, k)))
    first = len(cmds)
    # programs, rules and operators that use the values
    ks = sorted(set(asked))
    bs = [k for k in ks if k[0] == "B"]
    for q in range(rng.randint(2, 8)):
        if not ks:
            break
        k, l = rng.choice(ks), rng.choice(ks)
        x, y = spell(rng, k), spell(rng, l)
        w = rng.random()
        if w < .25 and bs:
            lst = "(and %s)" % " ".join(spell(rng, rng.choice(bs)) for _ in range(rng.randint(1, 5)))
            cmds.append(ev("(%s %s)" % (rng.choice(["$sort", "$sort", "$sum"]), lst)))
        elif w < .4:
            cmds.append(ev(rng.choice(["(eo::cmp %s %s)", "(eo::is_neg (eo::add (eo::neg (eo::hash %s)) (eo::hash %s)))", "(eo::eq (eo::hash %s) (eo::hash %s))", "(eo::add (eo::hash %s) (eo::hash %s))", "(eo::gt (eo::hash %s) (eo::hash %s))"]) % (x, y)))
        elif w < .55:
            same = [z for z in ks if z[0] == k[0] and k[0] in "UB"]
            if same:
                cmds.append(ev("($max %s %s)" % (x, spell(rng, rng.choice(same)))))
        elif w < .75:
            cmds.append(p1("(step @lt%d :rule $lt :args (%s %s))" % (q, x, y)))
        elif w < .85:
            cmds.append(p1("(step @id%d :rule $id :args (%s %d))" % (q, x, rng.randint(1, 12))))
        else:
            cmds.append(p1("(define @q%d () (eo::cmp %s %s))" % (q, x, y)))
            cmds.append(ev("@q%d" % q))
    return job(cmds, main="sig", tag=tag), first


SHOWN = re.compile(r"Proves: (.*)\n")


def record(j, p, first, exe):
    """{command: answer} of the questions of job j in the real checker, None if runs differ, or a mismatch"""
    base = scratch("eohash")
    try:
        write_job_files(j, base)
        jj = dict(j, files=[dict(j["files"][0], cmds=j["files"][0]["cmds"][:first])] + j["files"][1:])
        pp = Pred()
        pp.cmds = {k: m for k, m in p.cmds.items() if k <= first}
        pos, _, _ = plan(jj, pp)
        lines, alive, stack, shows = [], [], [], []
        cmds = j["files"][0]["cmds"]
        for k, c in pos:
            m = p.cmds[k]
            op = c[1][0][1]
            if op in ("push", "pop") and m[0] == "cmd":
                if op == "push":
                    stack.append(len(alive))
                else:
                    shows.append((list(lines), list(alive)))
                    del alive[stack.pop():]
            lines.append(render(c))
            if m[0] == "ask" and m[3] == "value" and op == "define":
                alive.append(k)
        shows.append((lines, list(alive)))
        got = {}
        path = os.path.join(base, *j["files"][0]["path"])
        for lns, al in shows:
            items = ["(eo::ite @ask%d 1 0)" % k if cmds[k-1][1][0][1] == "?cmp" else "@ask%d" % k for k in al]
            if not items:
                continue
            sc = lns + ["(step @show true :rule $show :args (($rec %s $nil)))" % " ".join(items)]
            with open(path, "wb") as fh:
                fh.write("".join(l + "\n" for l in sc).encode("latin-1"))
            rc, out, err = execute(exe, ["--no-print-dag", os.path.basename(path)], os.path.dirname(path))
            mm = SHOWN.search(err)
            vals = re.findall(r"-?\d+", mm.group(1)) if mm else None
            if vals is None or len(vals) != len(al):
                return dict(what="questions about hashes are answered", expected="%d numerals" % len(al), got=[err[-600:]], script=sc)
            for k, v in zip(al, vals):
                if got.setdefault(k, int(v)) != int(v):
                    return None
        return got
    finally:
        shutil.rmtree(base, ignore_errors=True)


def told(j, got):
    """j with the answers"""
    cmds = []
    for k, c in enumerate(j["files"][0]["cmds"], 1):
        if k in got:
            v = ["s", "true" if got[k] else "false"] if c[1][0][1] == "?cmp" else p1(str(got[k]))
            c = ["l", c[1] + [v]]
        cmds.append(c)
    return dict(j, files=[dict(j["files"][0], cmds=cmds)] + j["files"][1:])


def _rec(a):
    j, p, first, exe = a
    r = record(j, p, first, exe)
    return r if r is None or "what" in r else ("same", r, record(j, p, first, exe) == r)


def compare(ctx, jobs):
    """jobs: [(job, first)]"""
    import multiprocessing
    exes = ctx["exes"]
    preds, st = predict([j for j, _ in jobs])
    res = dict(states=st[0], generated=st[1], runs=0, accepted=0, rejected=0, probes=0, traces=0, bad=[])
    for fl in FLAVOURS:
        with multiprocessing.Pool(NCPU) as pool:
            recs = pool.map(_rec, [(j, p, f, exes[fl]) for (j, f), p in zip(jobs, preds)], chunksize=4)
        js, stable = [], []
        for (j, f), p, r in zip(jobs, preds, recs):
            if r is None:
                continue
            if isinstance(r, dict):
                res["bad"].append((j, dict(r, flavour=fl, opts=[], base="")))
                continue
            js.append(told(j, r[1]))
            stable.append(r[2])
        ps, st = predict(js)
        res["states"] += st[0]
        res["generated"] += st[1]
        for j, p in zip(js, ps):
            for k, m in sorted(p.cmds.items()):
                if m[0] == "ask" and not m[4]:
                    c = j["files"][0]["cmds"]
                    res["bad"].append((j, dict(flavour=fl, what="the answer to command %d, %s, does not fit the answers before" % (k, render(c[k-1])), expected="one value for each term, the order of the values",
                                               got=[render(x) for x in c[:k] if x[0] == "l" and x[1] and x[1][0][1] in ("?hash", "?cmp")][-40:], script=[render(x) for x in c[:k]], opts=[], base="")))
                    break
            res["probes"] += sum(m[0] == "ask" for m in p.cmds.values())
        ok = [(j, p) for j, p, s in zip(js, ps, stable) if s and not p.fuel and all(m[0] != "ask" or m[4] for m in p.cmds.values())]
        b, t = run_jobs([x[0] for x in ok], [x[1] for x in ok], exes, flav=(fl,))
        if b:
            idx = sorted({n for n, _ in b})
            b, _ = run_jobs([ok[n][0] for n in idx], [ok[n][1] for n in idx], exes, flav=(fl,))
            res["bad"] += [(ok[idx[n]][0], m) for n, m in b]
        for k in t:
            res[k] += t[k]
        res["traces"] += len(js)
    return res


def batches(ctx):
    thorough = ctx["tier"] == "thorough"
    rng = ctx["rng"]
    yield mc.check_spec("EoHashMC", {"EO_N": "3", "EO_DEPTH": "5" if thorough else "4"})
    yield compare(ctx, [make(rng, rng.randint(6, 40), "history-%d" % k) for k in range(150)])
    yield compare(ctx, [make(rng, 150, "wide-%d" % k, wide=True) for k in range(10)])
    if thorough:
        for i in range(12):
            yield compare(ctx, [make(rng, rng.randint(6, 70), "history-%d-%d" % (i, k)) for k in range(250)] + [make(rng, 220, "wide-%d-%d" % (i, k), wide=True) for k in range(15)])
