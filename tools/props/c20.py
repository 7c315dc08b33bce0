"""C20: reporting options, flavours and language options."""
import importlib, re
from gen import *
import mc

REPORT = ["stats", "stats-all", "stats-compact", "print-dag"]
LANG = ["normalize-num", "normalize-dec", "normalize-hex", "parse-let", "rule-sym-table"]
TRACES = ["-v", "state", "step", "type_checker", "expr_parser", "overload", "gc", "define", "opaque", "options", "param-dt", "state-debug", "type_checker_debug", "nosuchtrace"]
PRE = PROBE_RULE + """
(declare-const P Bool)
(declare-const Q Bool)
(declare-const not (-> Bool Bool))
(declare-const and (-> Bool Bool Bool) :right-assoc-nil true)
(declare-const => (-> Bool Bool Bool) :right-assoc)
(declare-const f (-> Bool Bool))
(declare-const f (-> Bool Bool Bool))
(declare-const @lst (-> Bool Bool Bool))
(declare-const U Type)
(declare-const c U)
(declare-const forall (-> eo::List Bool Bool) :binder eo::List::cons)
(declare-parameterized-const = ((A Type :implicit)) (-> A A Bool))
(program $neg ((x Bool)) :signature (Bool) Bool ((($neg (not x)) x) (($neg x) (not x))))
(program $len ((x Bool) (y Bool :list)) :signature (Bool) U ((($len (and x y)) ($len y)) (($len true) c)))
(declare-rule scope ((F Bool) (G Bool)) :assumption F :premises (G) :conclusion (=> F G))
(declare-rule ident ((F Bool)) :premises (F) :conclusion F)
(declare-rule neg ((F Bool)) :args (F) :conclusion ($neg F) :sorry)
(declare-rule texp ((F Bool)) :conclusion-explicit F :sorry)
(declare-rule conj ((F Bool)) :premise-list F and :conclusion F)
(declare-rule side ((F Bool)) :args (F) :requires ((($len F) c)) :conclusion F)
"""
STEPS = ["(assume h P)", "(assume g (and P Q))", "(assume-push h Q)", "(step x :rule ident :premises (h))", "(step x :rule neg :args ((not P)))", "(step x :rule neg :args ((not (f (f P)))))",
         "(step x (not Q) :rule neg :args (Q))", "(step x P :rule neg :args (Q))", "(step x (f P Q) :rule texp)", "(step-pop x :rule scope :premises (h))", "(step x :rule conj :premises (h g h))",
         "(step x :rule side :args ((and P Q)))", "(step x :rule side :args (P))", "(push)", "(pop)", "(echo \"at\")", "(define b () (forall ((z Bool) (y U)) (= z (= y y))))",
         "(step x (forall ((z Bool)) (= z (and b b))) :rule texp)", "(step x (= (and (and P Q) (and P Q)) (not (and P Q))) :rule texp)", "(step x :rule neg :args (b))", "(step x (f P Q P) :rule texp)", "(step x (= c P) :rule texp)",
         "(step x (f (and Q Q P) (and Q Q P)) :rule neg :args ((and Q Q P)))"]
SETOPT = ["(set-option :%s %s)" % (o, v) for o in REPORT for v in ("true", "false")] + ["(set-option :stats 1)", "(set-option :unknown true)", "(set-option :stats (true))", "(set-option :print-dag \"false\")"]
LANGUSE = ["(set-option :%s %s)" % (o, v) for o in LANG for v in ("true", "false")] + [
    "(define n () 1)", "(define d () 1.5)", "(define hx () #xA)", "(define w () (eo::add n d))", "(define w () (eo::add n 2/4))", "(define w () (eo::concat hx #b01))", "(define l () (let ((u P)) u))", "(define l () (let P Q))", "(step x P :rule texp)",
    "(step y :rule ident :premises (x))", '(include "inc.eo")', "(step y :rule r2 :args (1))", "(define texp () ident)", "(declare-const ident Bool)", "(define h () ident)", "(define q () (eo::is_q 1))", "(define z () (eo::is_z 1))", "(define i () (eo::is_q 1.0))", "(define j () (eo::is_bin #x0))"]
LET = dict(Bool=[("not", ["Bool"]), ("and", ["Bool"] * 2), ("and", ["Bool"] * 3), ("=>", ["Bool"] * 2), ("f", ["Bool"]), ("f", ["Bool"] * 2), ("=", ["Bool"] * 2)])


def lets(rng):
    g = Gen(rng, {"Bool": ["P", "Q"]}, funs=LET, pvar=.8)
    return g.letterm("Bool", rng.choice([2, 3, 4])).replace("eo::define", rng.choice(["let", "eo::define"])).replace(" R", " Q")


LFILES = [(["t", "pre.eo"], PRE + "(declare-consts <numeral> U)(declare-consts <rational> U)(declare-consts <decimal> U)(declare-consts <binary> U)(declare-consts <hexadecimal> U)"),
          (["t", "inc.eo"], "(declare-rule r2 ((x U)) :args (x) :requires ((1 x)) :conclusion P)\n(define k1 () 1)(define k2 () 1.0)(define k3 () #x0F)(set-option :normalize-num true)\n(define k4 () 1)\n")]
MODULES = ["c01", "c02", "c04", "c05", "c08", "c09", "c10", "c11", "c16", "c17", "c21"]


def flags(rng):
    fl = [(rng.choice(REPORT), rng.random() < .75) for _ in range(rng.choice([0, 1, 1, 2, 3, 4]))]
    if rng.random() < .25:
        fl.append((rng.choice(LANG), rng.random() < .5))
    rng.shuffle(fl)
    return fl or [("stats", False)]


def traces(rng):
    return rng.sample(TRACES, rng.choice([1, 1, 2, 5])) if rng.random() < .35 else []


def configure(rng, j):
    """j in another configuration of reporting options (its language options stay)"""
    j = dict(j, opt=dict(j["opt"], count=True))
    j["flags"] = [[k, b] for k, b in flags(rng) if k in REPORT] or [["print-dag", False]]
    j["trace"] = traces(rng)
    j["tag"] = "conf-" + j["tag"]
    return j


def batches(ctx):
    thorough = ctx["tier"] == "thorough"
    rng = ctx["rng"]
    # sequences of steps, errors and options in the proof itself, under all options of the command line
    js = []
    for k in range(250 if not thorough else 5000):
        cmds = pall(PRE)
        n = 0
        names = ["h", "g"]
        for i in range(rng.randint(3, 30)):
            if rng.random() < .12:
                cmds.append(p1(rng.choice(SETOPT)))
                continue
            n += 1
            c = rng.choice(STEPS)
            if rng.random() < .15:
                c = "(step x %s :rule texp)" % lets(rng)
            if rng.random() < .6:
                c = c.replace(" x ", " x%d " % n)
                names.append("x%d" % n)
            c = re.sub(r"premises \(h\)", "premises (%s)" % rng.choice(names), c)
            cmds.append(p1(c))
        if rng.random() < .1:
            cmds += pall("(reset)") + pall(PRE) + [p1(rng.choice(STEPS)) for _ in range(4)]
        js.append(job(cmds, main=rng.choice(["sig", "sig", "stdin"]), flags=flags(rng), trace=traces(rng), tag="report-%d" % k))
    # js with main stdin read the signature from the same stream: keyword Type is not available there
    for j in js:
        if j["main"] == "stdin":
            pre = j["files"][0]["cmds"][:len(pall(PRE))]
            j["files"][0]["cmds"] = pall('(include "pre.eo")') + j["files"][0]["cmds"][len(pre):]
            j["files"][0]["cmds"] = [c for c in j["files"][0]["cmds"] if c not in pall(PRE) and c != p1("(reset)")]
            j["files"].append(dict(path=["t", "pre.eo"], cmds=pre, link=[]))
    yield js
    # language options: as flags, and switched within files
    js = []
    for k in range(150 if not thorough else 3000):
        cmds = pall('(include "pre.eo")')
        fl = []
        # (the rule that compares values is found in one of the tables only)
        noeval = rng.random() < .4
        keep = lambda x: noeval or "rule-sym-table" not in x
        for i in range(rng.choice([0, 1, 2, 3, 6])):
            fl.append((rng.choice([x for x in LANG if keep(x)] if rng.random() < .8 else REPORT), rng.random() < .5))
        for i in range(rng.randint(4, 16)):
            cmds.append(p1(rng.choice([x for x in LANGUSE if keep(x)])))
            if rng.random() < .25:
                cmds.append(p1("(define l%d () %s)" % (i, lets(rng))))
                if not noeval:
                    cmds.append(p1("(?eval (eo::eq l%d %s) t)" % (i, lets(rng))))
                    cmds.append(p1("(?eval l%d t)" % i))
            if not noeval and rng.random() < .3:
                cmds.append(p1("(?eval %s t)" % rng.choice(["n", "d", "hx", "w", "1", "1.5", "#x3", "k1", "k2", "k3", "k4", "(eo::add 1 1/2)", "(eo::is_z 1)", "(eo::is_q 2.5)", "(eo::len #x00)", "(let ((u 1)) (eo::is_q u))", "l", "q", "z", "i", "j"])))
        js.append(job(cmds, main=rng.choice(["proof", "proof", "stdin", "sig"]), files=LFILES, flags=fl or [("stats", False)], trace=traces(rng), tag="language-%d" % k))
    yield js
    # every state of a small model, and the commands rejected in it, in six configurations
    A = lambda c: mc.auto(c, ("neg", "texp"))
    al = [A(c) for c in rng.sample(STEPS, 9)]
    confs = [dict(flags=[("stats", True)]), dict(flags=[("stats-all", True)]), dict(flags=[("stats-compact", True), ("print-dag", False)]), dict(flags=[("stats-all", True), ("stats", False)]),
             dict(flags=[("print-dag", False)], trace=["-v"]), dict(flags=[("stats-compact", True), ("stats-all", True)], trace=["state", "overload", "gc", "type_checker_debug"])]
    ms = [mc.model(PRE, al, ["h", "x"], 3 if thorough else 2, tag="model-%d" % i, main="sig", **c) for i, c in enumerate(confs)]
    yield mc.explore(ms, ctx["exes"])
    # the jobs of the other properties in other configurations
    for mname in (rng.sample(MODULES, 4) if not thorough else MODULES):
        m = importlib.import_module("props." + mname)
        got = []
        sub = dict(ctx, rng=rng, tier="quick", details={})
        saved = mc.explore, mc.walks
        mc.explore = lambda *a, **k: {}
        try:
            for b in m.batches(sub):
                if isinstance(b, list):
                    got += b
        finally:
            mc.explore, mc.walks = saved
        if not thorough:
            got = rng.sample(got, min(len(got), 60))
        yield [configure(rng, j) for j in got]
    rj = repo_jobs(rng, None, 100 if not thorough else 2000)
    yield [configure(rng, j) for j in rj]
