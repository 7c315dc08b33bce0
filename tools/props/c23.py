"""C23: every input gets an answer or an error message; no crash, released memory or undefined behaviour.
The behaviours are replayed in a build with the compiler's run-time checks."""
import importlib, re
from gen import *
import mc

FLAVOURS = ("checked", "debug")
MODULES = ["c%02d" % k for k in range(1, 23) if k not in (15, 19)]

PRE = PROBE_RULE + """
(declare-const U Type)
(declare-const V Type)
(declare-const a U)
(declare-const b U)
(declare-const P Bool)
(declare-const Q Bool)
(declare-const f (-> U U))
(declare-const f (-> U U U))
(declare-const g (-> U U U) :right-assoc-nil a)
(declare-const p (-> U Bool))
(declare-const and (-> Bool Bool Bool) :right-assoc-nil true)
(declare-const => (-> Bool Bool Bool) :right-assoc)
(declare-const lt (-> U U Bool) :chainable and)
(declare-const Int Type)
(declare-consts <numeral> Int)
(declare-const String Type)
(declare-consts <string> String)
(declare-parameterized-const = ((T Type :implicit)) (-> T T Bool))
(declare-parameterized-const sk ((x U :opaque)) (-> U U))
(declare-const forall (-> eo::List Bool Bool) :binder eo::List::cons)
(declare-datatypes ((L 0)) (((nil) (cons (hd U) (tl L)))))
(program $rev ((x U) (y U :list)) :signature (U) U ((($rev (g x y)) (g ($rev y) x)) (($rev x) x)))
(declare-rule scope ((F Bool) (G Bool)) :assumption F :premises (G) :conclusion (=> F G))
(declare-rule conj ((F Bool)) :premise-list F and :conclusion F)
(declare-rule trust ((F Bool)) :args (F) :conclusion F :sorry)
"""
# one well-formed command of every form: what is left of them after characters were changed has to be refused or read
FORMS = """
(declare-const k (-> U U Bool) :chainable and)
(declare-const k (-> Bool Bool Bool) :left-assoc-nil true)
(declare-const k (-> eo::List Bool Bool) :binder eo::List::cons)
(declare-const k (-> U V) :arg-list g)
(declare-const k (-> (! U :opaque) U V))
(declare-parameterized-const k ((T Type :implicit) (y U)) (-> T T Bool) :pairwise and)
(declare-consts <decimal> V)
(declare-consts <binary> (eo::ite (eo::eq (eo::len eo::self) 2) U V))
(define k () (and P (p (f a)) Q))
(define k ((y U) (z Bool)) (=> (p y) z (and P z)) :type Bool)
(define k () (eo::define ((y (f a)) (z P)) (and z (p y))))
(define k () (forall ((y U) (z Bool)) (and z (p y))))
(define k () (eo::var "x" U))
(define k () (eo::add 1 -2 3))
(define k () (eo::concat "ab" "c""d"))
(define k () (_ (f a) b))
(define k () (! (f a) :named kk))
(define k () (as nil L))
(define k () (sk a b))
(define k () (-> U (-> V U) Bool))
(declare-datatype k ((k0) (k1 (s1 U) (s2 k))))
(declare-datatypes ((k 0) (kk 0)) (((k0 (s0 kk))) ((k1) (k2 (s1 k)))))
(declare-datatypes ((k 1)) ((par (X) ((kn) (kc (kh X) (kt (k X)))))))
(program k ((x U) (y U :list)) :signature (U U) U (((k x (g x y)) x) ((k x y) (k y x))))
(program k ((x U)) :signature (U) Bool)
(declare-rule k ((F Bool) (G Bool)) :premises ((=> F G) F) :args () :requires (((eo::is_ok F) true)) :conclusion G)
(declare-rule k ((F Bool)) :assumption F :conclusion-explicit F)
(declare-rule k ((F Bool) (x U)) :premise-list F and :args (x) :conclusion (=> F (p x)) :sorry)
(assume k (= a b))
(assume-push k (p a))
(step k (and P P) :rule conj :premises (h h))
(step k P :rule trust :args (P))
(step-pop k (=> Q P) :rule scope :premises (h))
(push 1)
(pop 1)
(echo "some text")
(set-option :print-dag false)
(include "inc.eo")
(reset)
(declare-type k (Type Type))
(declare-sort k 1)
(declare-fun k (U V) Bool)
(define-fun k ((y U) (z Bool)) Bool (and z (p y)))
(define-const k U (f a))
(define-sort k () (-> U U))
(define-type k (X) (-> X X))
(check-sat)
(get-info :all)
(set-logic ALL)
(set-info :status sat)
""".strip().split("\n")
INC = [(["t", "inc.eo"], "(declare-const ki U)\n(define kj () (p ki))\n")]
HYP = pall("(assume h P)(assume-push q Q)")
CHARS = "()()|\";: \n\\ax01-./#!_\x00\xff"


def units(s):
    """the tokens of s, white space included"""
    out, i = [], 0
    while i < len(s):
        j = i + 1
        if s[i] in '"|':
            while j < len(s) and s[j] != s[i]:
                j += 1
            j += 1
        elif s[i] not in "() \n":
            while j < len(s) and s[j] not in '() \n"|':
                j += 1
        out.append(s[i:j])
        i = j
    return out


def single_command(s):
    """s is one command or a part of one, with nothing after it"""
    d, done, i = 0, False, 0
    if not re.sub(r";[^\n]*", "", s).strip():
        return False
    while i < len(s):
        c = s[i]
        if c == ";":
            while i < len(s) and s[i] != "\n":
                i += 1
        elif c in '"|':
            if done:
                return False
            while True:
                i += 1
                if i >= len(s):
                    return True
                if s[i] == c:
                    if c == '"' and s[i+1:i+2] == '"':
                        i += 1
                    else:
                        break
        elif c == "(":
            if done:
                return False
            d += 1
        elif c == ")":
            d -= 1
            if d <= 0:
                if done:
                    return False
                done = True
        elif c not in " \n\t\r" and done:
            return False
        i += 1
    return True


def damage(rng, s, pool):
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        k = rng.random()
        if k < .35 and s:      # a character
            i = rng.randrange(len(s))
            s = s[:i] + rng.choice(["", "", s[i] * 2, rng.choice(CHARS)]) + s[i+1:]
        elif k < .45:
            i = rng.randrange(len(s) + 1)
            s = s[:i] + rng.choice(CHARS) + s[i:]
        elif k < .55:          # the rest is missing
            s = s[:rng.randrange(len(s) + 1)]
        else:                  # a token
            u = units(s)
            if not u:
                return s
            i = rng.randrange(len(u))
            m = rng.random()
            if m < .3:
                del u[i]
            elif m < .5:
                u.insert(i, u[i] + " ")
            elif m < .7:
                j = rng.randrange(len(u))
                u[i], u[j] = u[j], u[i]
            else:
                u[i] = rng.choice(pool)
            s = "".join(u)
    return s


def broken(rng, n, per):
    pool = sorted({u for f in FORMS for u in units(f) if u.strip()} | {"()", "(())", "-1", "1", "eo::self", "eo::nil", "99999999999999999999", "k", "x", "\"\"", "||", "1/0", ":named", "(eo::ite P a b)"})
    js = []
    for k in range(n):
        cmds = pall(PRE) + HYP
        for i in range(per):
            s = damage(rng, rng.choice(FORMS), pool)
            if "reset" in s or "exit" in s or not single_command(s):
                continue
            cmds.append(txt(s))
        js.append(job(cmds, main="sig", files=INC, tag="broken-%d" % k, fuel=100))
    return js


# terms that live for a while only
TEMP = ["(declare-const c U)", "(define d () (f (f a)))", "(define d () (g a (f b) (f (f a))))", "(assume h (p (f (f b))))", "(assume-push q (p (f a b)))", "(step s (p (f (f a))) :rule trust :args ((p (f (f a)))))",
        "(step s :rule conj :premises (h h))", "(step-pop s :rule scope :premises (h))", "(define e () ($rev (g a b (f a) a)))", "(define e () (forall ((c U)) (p (f c d))))", "(define e () (= (sk c d) (sk a a)))",
        "(declare-const f (-> U Bool Bool))", "(define e () (f d c))", "(define c ((y U)) (f y (f a)))", "(define e () (c (f b)))", "(define e () (eo::hash (f (f a))))", "(define e () (eo::list_rev g (g c d a b)))",
        "(step s (p e) :rule trust :args ((p e)))", "(define d () (cons c (as nil L)))", "(define e () (eo::typeof (lt c d a)))", "(program $x ((x U)) :signature (U) U ((($x (f x)) x) (($x x) (f x a))))", "(define e () ($x (f d)))"]


def batches(ctx):
    thorough = ctx["tier"] == "thorough"
    rng = ctx["rng"]
    yield broken(rng, 50 if not thorough else 400, 30)
    A = lambda c: mc.auto(c, ("trust",))
    sc = ["(push)", "(pop)"]
    names = ["c", "d", "e", "h", "q", "s"]
    ms = [mc.model(PRE, [A(c) for c in sc + rng.sample(TEMP, 5)], names, 4 if thorough else 3, main="sig", tag="temporary-%d" % k) for k in range(2 if not thorough else 4)]
    for m in ms:
        m["flav"] = ["checked"]
    yield mc.explore(ms, ctx["exes"])
    full = mc.model(PRE, [A(c) for c in sc * 3 + TEMP], names, 2, main="sig", tag="temporary")
    yield mc.walks(rng, [full], 60 if not thorough else 600, (20, 60))
    # what the other properties are about
    js = []
    for mname in MODULES:
        m = importlib.import_module("props." + mname)
        got = []
        sub = dict(ctx, rng=rng, tier="quick", details={})
        saved = mc.explore, mc.walks
        mc.explore = lambda *a, **k: {}
        try:
            for b in m.batches(sub):
                if isinstance(b, list):
                    got += b
        finally:
            mc.explore, mc.walks = saved
        got = rng.sample(got, min(len(got), 12 if not thorough else 150))
        for j in got:
            j.update(tag="other-" + j["tag"], flav=["checked"])
        js += got
        if thorough:
            yield js
            js = []
    if js:
        yield js
    yield repo_jobs(rng, None, 40 if not thorough else 2000)
