"""C14: including files."""
from gen import *
import mc

BASE = """(declare-const U Type)
(declare-const Int Type)
(declare-const u U)
(declare-const p (-> U Bool))
(declare-rule same ((T Type) (S Type) (x T) (y S)) :args (x y) :requires ((x y)) :conclusion true)
"""
A_ = "(declare-const ca U)\n(echo \"in a\")\n(declare-rule ra ((x U)) :args (x) :conclusion (p x))\n(define ka () ca)\n"
FS = [
    (["t", "base.eo"], BASE),
    (["t", "a.eo"], A_),
    (["t", "sub", "b.eo"], '(include "../a.eo")\n(declare-const cb U)\n(include "c.eo")\n(define kb () cc)\n(define kb2 () ca)\n(echo "in b")'),
    (["t", "sub", "c.eo"], '(declare-const cc U)\n(program $pc ((x U)) :signature (U) U ((($pc x) x)))\n(echo "in c")\n'),
    (["t", "sub", "a.eo"], '(declare-const csa U)\n(echo "in sub/a")\n(declare-rule rsa ((x U)) :args (x) :conclusion (p x))\n'),
    (["t", "sub", "deep", "d.eo"], '(include "../../a.eo")\n(include "../c.eo")\n(include "e.eo")\n(define kd () (ce ca cc))\n'),
    (["t", "sub", "deep", "e.eo"], '(declare-const ce (-> U U U))\n'),
    (["t", "la.eo"], "", ["t", "a.eo"]),
    (["t", "sub", "lc.eo"], "", ["t", "sub", "c.eo"]),
    (["t", "lb.eo"], "", ["t", "sub", "b.eo"]),
    (["t", "cy1.eo"], '(include "cy2.eo")\n(declare-const cy1 U)\n(define y1 () cy2)\n'),
    (["t", "cy2.eo"], '(include "cy1.eo")\n(declare-const cy2 U)\n'),
    (["t", "cy3.eo"], '(include "cy4.eo")\n(declare-const cy3 U)\n'),
    (["t", "cy4.eo"], '(include "cy3.eo")\n(define y3 () cy3)\n'),
    (["t", "self.eo"], '(include "self.eo")\n(include "main.eo")\n(declare-const cself U)\n(include "main.smt2")'),
    (["t", "err.eo"], '(declare-const cerr U)\n(define kerr () nosuch)\n(declare-const cerr2 U)\n'),
    (["t", "nerr.eo"], '(include "a.eo")\n(include "err.eo")\n'),
    (["t", "miss.eo"], '(declare-const cm U)\n(include "nosuch.eo")\n'),
    (["t", "push.eo"], '(push)\n(declare-const cp U)\n'),
    (["t", "pop.eo"], '(declare-const cq U)\n(pop)\n(declare-const cq U)\n'),
    (["t", "exit.eo"], '(declare-const cx U)\n(exit)\n(declare-const cx2 U)\n'),
    (["t", "asm.eo"], '(assume wa (p u))\n(assume-push wb (p u))\n(assume wc (p u))\n'),
    (["t", "asm2.eo"], '(assume wa2 (p u))\n'),
    (["t", "ipush.eo"], '(assume-push wd (p u))\n(include "a.eo")\n'),
    (["t", "lits.eo"], '(declare-consts <numeral> Int)\n(declare-const f1 (-> Int U))\n(define k1 () (f1 3))\n'),
    (["t", "opt.eo"], '(set-option :rule-sym-table false)\n(declare-rule ro ((x U)) :args (x) :conclusion (p x))\n'),
    (["t", "reset.eo"], '(reset)\n(declare-const cr Type)\n'),
    (["t", "proof.smt2"], '(declare-const cpr U)\n(define kpr () (p cpr))\n'),
    (["t", "sorry.eo"], '(declare-rule so ((F Bool)) :args (F) :conclusion F :sorry)\n'),
    (["t", "sorry2.eo"], '(include "sorry.eo")\n(step ss (p u) :rule so :args ((p u)))\n'),
    (["t", "empty.eo"], ''),
    (["t", "b.c.eo"], '(declare-const cdot U)\n'),
]
PATHS = ["a.eo", "./a.eo", "sub/../a.eo", "sub/deep/../../a.eo", "../t/a.eo", "/t/a.eo", "/t/sub/../a.eo", "la.eo", "sub//b.eo", "sub/b.eo", "lb.eo", "sub/c.eo", "sub/lc.eo", "sub/a.eo", "sub/deep/d.eo", "cy1.eo", "cy2.eo", "cy3.eo", "self.eo", "err.eo", "nerr.eo",
         "miss.eo", "nosuch.eo", "sub", "nodir/../a.eo", "push.eo", "pop.eo", "exit.eo", "asm.eo", "asm2.eo", "ipush.eo", "lits.eo", "opt.eo", "reset.eo", "proof.smt2", "sorry.eo", "sorry2.eo", "empty.eo", "b.c.eo", "c.eo", "main.eo", "main.smt2", "base.eo", "a", "A.eo", "../sub/c.eo", "deep/d.eo", "", ".", "/", "../a.eo"]
PROBES = ["(step x (p ca) :rule ra :args (ca))", "(step x :rule rsa :args (u))", "(step x :rule same :args (ca ka))", "(define k () (kd))", "(define k () cb)", "(define k () y1)", "(declare-const ca U)", "(step x (p ca) :rule so :args ((p ca)))", "(step x :rule ro :args (u))", "(define k () (f1 1))", "(push)", "(pop)",
          "(assume-push h (p u))", "(assume h (p u))", "(reset)", "(step-pop x :rule same :premises (h))", "(define k () 1)", "(declare-rule ra ((x U)) :args (x) :conclusion (p x))", "(define k () ($pc u))", "(define k () csa)", "(step x :rule same :args (k u))"]


def batches(ctx):
    thorough = ctx["tier"] == "thorough"
    rng = ctx["rng"]
    A = lambda c: mc.auto(c, ("so",))
    incs = [mc.alpha('(include "%s")' % f, "none", sorry=False) for f in PATHS]
    byname = {f: a for f, a in zip(PATHS, incs)}
    byname["sorry2.eo"] = None
    incs = [a for f, a in zip(PATHS, incs) if byname[f]]   # sorry2 uses the rule itself (see below)
    prs = [A(c) for c in PROBES]
    names = ["h", "x", "k"]
    ms = []

    def add(tag, pre, al, depth, **kw):
        m = mc.model(pre, [a for a in al if a], names, depth, tag=tag, files=FS, **kw)
        m["probe"] = ""
        ms.append(m)
    # a model per place of the main file
    places = [dict(main="sig"), dict(main="proof"), dict(main="stdin"), dict(main="sig", mainpath=["t", "sub", "main.eo"]), dict(main="proof", mainpath=["t", "sub", "deep", "main.smt2"]), dict(main="sig", cwd=("t", "sub"), mainpath=["t", "main.eo"])]
    for k, kw in enumerate(places):
        up = "/t/base.eo"
        al = [a for a in incs if all(o not in str(a["cmd"]) for o in ("push.eo", "pop.eo", "reset.eo"))]
        add("paths-%d" % k, '(include "%s")\n' % up, al + prs[:7], 2, **kw)
    sel = lambda *fs: [byname[f] for f in fs]
    d = 4 if thorough else 3
    add("orders", '(include "base.eo")\n', sel("a.eo", "sub/b.eo", "sub/deep/d.eo", "la.eo", "sub/c.eo", "lits.eo", "sorry.eo") + [prs[k] for k in (0, 2, 4, 7, 9, 10, 11, 13, 17)], d, main="sig")
    add("scopes", '(include "base.eo")\n', sel("a.eo", "sub/a.eo", "asm2.eo", "opt.eo", "cy1.eo") + [prs[k] for k in (0, 1, 6, 8, 10, 11, 12, 14, 15)], d, main="proof")
    yield mc.explore(ms, ctx["exes"], keep=None if thorough else .6, rng=rng)
    # random runs over everything, with files named on the command line
    js = []
    for k in range(150 if not thorough else 4000):
        kw = rng.choice(places)
        pre = [("sig", rng.choice(["base.eo", "a.eo", "la.eo", "sub/b.eo", "./a.eo", "nosuch.eo", "sub/deep/d.eo", "/t/a.eo", "lits.eo", "cy1.eo", "sorry.eo", "proof.smt2"])) for _ in range(rng.choice([0, 0, 1, 2, 3]))]
        if kw.get("cwd"):
            pre = []
        elif pre:
            pre.insert(0, ("sig", "base.eo"))
        if any(f == "nosuch.eo" for _, f in pre) and rng.random() < .5:
            pre = [x for x in pre if x[1] != "nosuch.eo"]
        cmds = pall('(include "%s")' % rng.choice(["base.eo", "/t/base.eo", "/t/base.eo", "../base.eo", "../../base.eo"]))
        for _ in range(rng.randint(3, 14)):
            x = rng.random()
            if x < .6:
                f = rng.choice(PATHS)
                if f in ("exit.eo", "reset.eo", "asm.eo") and rng.random() < .9:
                    continue
                if kw.get("mainpath") and len(kw["mainpath"]) > 2 and rng.random() < .6 and not f.startswith("/"):
                    f = "../" * (len(kw["mainpath"]) - 2) + f
                cmds.append(p1('(include "%s")' % f))
            else:
                c = rng.choice(PROBES)
                if c == "(reset)" and rng.random() < .8:
                    continue
                cmds.append(p1(c))
        js.append(job(cmds, files=FS, pre=pre, tag="random-%d" % k, **kw))
    yield js
    # random trees of files that include one another
    js = []
    for k in range(80 if not thorough else 2500):
        dirs = [[], ["d"], ["d", "e"], ["f"]]
        n = rng.randint(2, 6)
        paths = []
        for i in range(n):
            paths.append(["t"] + rng.choice(dirs) + ["n%d.eo" % i])
        links = [(["t"] + rng.choice(dirs) + ["l%d.eo" % i], rng.randrange(n)) for i in range(rng.choice([0, 1, 2]))]
        allp = paths + [l[0] for l in links]

        def rel(frm, to):
            r = rng.random()
            a, b = frm[:-1], to
            if r < .1:
                return "/" + "/".join(to)
            c = 0
            while c < len(a) and c < len(b) - 1 and a[c] == b[c] and not (r > .8 and c >= 1):
                c += 1
            c = max(c, 1)
            s = "../" * (len(a) - c) + "/".join(b[c:])
            if r > .9:
                s = "./" + s.replace("/", "//", 1) if "/" in s else "./" + s
            return s
        fs = []

        def body(i, p):
            xs = ["(declare-const s%s Type)" % i, '(echo "%s")' % i, "(declare-rule r%s () :conclusion true)" % i]
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                to = rng.choice(allp)
                xs.insert(rng.randrange(len(xs)+1), '(include "%s")' % rel(p, to))
            for _ in range(rng.choice([0, 0, 1])):
                xs.insert(rng.randrange(len(xs)+1), "(declare-const t%s s%d)" % (i, rng.randrange(n)))
            if rng.random() < .1:
                xs.insert(rng.randrange(len(xs)+1), rng.choice(["(push)", "(pop)", '(include "nix.eo")', "(define q () nix)", "(exit)", "(assume-push a true)"]))
            return "\n".join(xs)
        for i, p in enumerate(paths):
            fs.append((p, body(str(i), p)))
        for l, i in links:
            fs.append((l, "", paths[i]))
        mp = ["t"] + rng.choice(dirs) + ["main.eo"]
        cmds = []
        for _ in range(rng.choice([1, 2, 3, 5])):
            cmds.append(p1('(include "%s")' % rel(mp, rng.choice(allp))))
            cmds.append(p1(rng.choice(["(define z () s%d)", "(declare-const z s%d)", "(step z :rule r%d)"]) % rng.randrange(n)))
        js.append(job(cmds, main="sig", mainpath=mp, files=fs, dirs=[["t", "d", "e"], ["t", "f"]], tag="tree-%d" % k))
    yield js
    yield repo_jobs(rng, has("include"), 60 if not thorough else 2000)
