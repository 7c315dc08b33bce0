"""Random scripts: a universe of declarations, typed terms over it, mutated scripts."""
import copy
from prelude import *
import repotests
from vlib import job

UNI = """
(declare-const Int Type)
(declare-const Real Type)
(declare-const String Type)
(declare-const BitVec (-> Int Type))
(declare-consts <numeral> Int)
(declare-consts <rational> Real)
(declare-consts <decimal> Real)
(declare-consts <string> String)
(declare-consts <binary> (BitVec (eo::len eo::self)))
(declare-const U Type)
(declare-const V Type)
(declare-const Pair (-> Type Type Type))
(declare-const a U)
(declare-const b U)
(declare-const c U)
(declare-const d V)
(declare-const e V)
(declare-const f (-> U U))
(declare-const g (-> U U U))
(declare-const h (-> U V U))
(declare-const fv (-> U V))
(declare-const ff (-> U U))
(declare-const i1 Int)
(declare-const i2 Int)
(declare-const p (-> U Bool))
(declare-const q (-> V Bool))
(declare-const r (-> U U Bool))
(declare-const P Bool)
(declare-const Q Bool)
(declare-const R Bool)
(declare-const not (-> Bool Bool))
(declare-const or (-> Bool Bool Bool) :right-assoc-nil false)
(declare-const and (-> Bool Bool Bool) :right-assoc-nil true)
(declare-const land (-> Bool Bool Bool) :left-assoc-nil true)
(declare-const xor (-> Bool Bool Bool) :left-assoc)
(declare-const => (-> Bool Bool Bool) :right-assoc)
(declare-parameterized-const = ((A Type :implicit)) (-> A A Bool) :chainable and)
(declare-parameterized-const distinct ((A Type :implicit)) (-> A A Bool) :pairwise and)
(declare-parameterized-const ite ((A Type :implicit)) (-> Bool A A A))
(declare-parameterized-const pair ((A Type :implicit) (B Type :implicit)) (-> A B (Pair A B)))
(declare-parameterized-const fst ((A Type :implicit) (B Type :implicit)) (-> (Pair A B) A))
(declare-const + (-> Int Int Int) :right-assoc-nil 0)
(declare-const * (-> Int Int Int) :left-assoc-nil 1)
(declare-const - (-> Int Int Int) :left-assoc)
(declare-const < (-> Int Int Bool) :chainable and)
(declare-const pi (-> Int Bool))
(declare-parameterized-const bvand ((n Int :implicit)) (-> (BitVec n) (BitVec n) (BitVec n)))
(declare-const forall (-> eo::List Bool Bool) :binder eo::List::cons)
"""

LEAVES = {
    "U": ["a", "b", "c"], "V": ["d", "e"], "Int": ["i1", "i2", "0", "1", "2", "-1", "3"],
    "Bool": ["P", "Q", "R", "true", "false"],
}
FUNS = {
    "U": [("f", ["U"]), ("ff", ["U"]), ("g", ["U", "U"]), ("h", ["U", "V"]), ("ite", ["Bool", "U", "U"])],
    "V": [("fv", ["U"]), ("ite", ["Bool", "V", "V"])],
    "Int": [("+", ["Int"]), ("+", ["Int"] * 2), ("+", ["Int"] * 3), ("*", ["Int"] * 2), ("*", ["Int"] * 3), ("-", ["Int", "Int"]), ("-", ["Int"] * 3)],
    "Bool": [("p", ["U"]), ("q", ["V"]), ("r", ["U", "U"]), ("not", ["Bool"]), ("or", ["Bool"] * 2), ("or", ["Bool"] * 3), ("or", ["Bool"]),
             ("and", ["Bool"] * 2), ("and", ["Bool"] * 3), ("land", ["Bool"] * 3), ("land", ["Bool"] * 2), ("xor", ["Bool"] * 2), ("xor", ["Bool"] * 3), ("=>", ["Bool"] * 2), ("=>", ["Bool"] * 3),
             ("=", ["U", "U"]), ("=", ["Bool", "Bool"]), ("=", ["Int", "Int"]), ("=", ["U"] * 3), ("distinct", ["U"] * 3),
             ("<", ["Int", "Int"]), ("<", ["Int"] * 3), ("pi", ["Int"])],
}
TYPES = list(LEAVES)


def lit_eval(rng, d=1):
    """an evaluating expression"""
    e = lambda: rng.choice(["0", "1", "2", "-1", "3"]) if d == 0 or rng.random() < .6 else lit_eval(rng, d-1)
    return rng.choice([lambda: "(eo::add %s %s)" % (e(), e()), lambda: "(eo::mul %s %s)" % (e(), e()), lambda: "(eo::neg %s)" % e(),
                       lambda: "(eo::zdiv %s %s)" % (e(), e()), lambda: "(eo::zmod %s %s)" % (e(), e()), lambda: "(eo::len \"%s\")" % ("x" * rng.randint(0, 3)),
                       lambda: "(eo::ite (eo::is_neg %s) %s %s)" % (e(), e(), e())])()


class Gen:
    """env: {type: [parameter names]}; lists: {operator: [list parameter names]}"""
    def __init__(self, rng, env=None, lists=None, funs=None, err=0.0, pvar=.5, ev=0.0, let=.02):
        self.rng, self.env, self.lists, self.funs, self.err, self.pvar, self.ev = rng, env or {}, lists or {}, funs or FUNS, err, pvar, ev
        self.let = let

    def leaf(self, ty):
        ps = self.env.get(ty)
        if ps and self.rng.random() < self.pvar:
            return self.rng.choice(ps)
        return self.rng.choice(LEAVES.get(ty) or ps or ["a"])

    def term(self, ty, d):
        rng = self.rng
        if self.err and rng.random() < self.err:
            ty = rng.choice(TYPES)
        if d <= 0 or rng.random() < .2 or ty not in self.funs:
            return self.leaf(ty)
        if self.ev and ty == "Int" and rng.random() < self.ev:
            return lit_eval(rng)
        if self.ev and rng.random() < self.ev:
            return rng.choice([lambda: "(eo::ite (eo::eq %s %s) %s %s)" % (self.term("Int", d-2), self.term("Int", d-2), self.term(ty, d-1), self.term(ty, d-1)),
                               lambda: "(eo::requires %s %s %s)" % (self.leaf(ty), self.leaf(ty), self.term(ty, d-1)),
                               lambda: "(eo::ite %s %s %s)" % (rng.choice(["true", "false", "P"]), self.term(ty, d-1), self.term(ty, d-1))])()
        if self.let and d >= 2 and rng.random() < self.let:
            return self.letterm(ty, d)
        fn, args = rng.choice(self.funs[ty])
        xs = [self.term(x, d-1) for x in args]
        if fn in self.lists and rng.random() < .5:
            xs.insert(rng.choice([len(xs), len(xs), len(xs), 0]), rng.choice(self.lists[fn]))
        if self.err and rng.random() < self.err:
            k = rng.random()
            if k < .3 and xs:
                xs.pop(rng.randrange(len(xs)))
            elif k < .6:
                xs.append(self.term(rng.choice(TYPES), d-2))
            elif k < .8:
                rng.shuffle(xs)
        return "(%s)" % " ".join([fn] + xs) if xs else fn

    def letterm(self, ty, d):
        """local definitions, which may be nested in one another, and which may shadow names"""
        rng = self.rng
        saved, keep = self.env, self.let
        self.let = .25
        bs, env = [], {k: list(v) for k, v in saved.items()}
        for _ in range(rng.choice([1, 1, 2, 2, 3])):
            t = rng.choice([ty] + list(self.funs))
            n = rng.choice(["lv", "lw", "lx"] * 3 + ["a", "P"])
            bs.append("(%s %s)" % (n, self.term(t, d-1)))
            for v in env.values():
                if n in v:
                    v.remove(n)
            env.setdefault(t, []).append(n)
        self.env = env
        body = self.term(ty, d-1)
        self.env, self.let = saved, keep
        return "(%s (%s) %s)" % (rng.choice(["eo::define", "let"]), " ".join(bs), body)


def subst(t, m):
    """substitution of symbols in an AST; a value may be a list of ASTs to splice"""
    if t[0] in ("s", "qs"):
        v = m.get(t[1])
        return v if v and not isinstance(v[0], list) else t
    if t[0] != "l":
        return t
    out = []
    for x in t[1]:
        v = m.get(x[1]) if x[0] in ("s", "qs") else None
        if v is not None and isinstance(v, list) and (not v or isinstance(v[0], list)):
            out += v
        else:
            out.append(subst(x, m))
    return ["l", out]


# ---------------------------------------------------------------------------
# mutation of scripts
ATTRS = [":right-assoc", ":left-assoc"]
NILS = [":right-assoc-nil", ":left-assoc-nil", ":right-assoc-non-singleton-nil", ":left-assoc-non-singleton-nil", ":chainable", ":pairwise", ":arg-list", ":binder"]
PATTRS = [":list", ":implicit", ":opaque"]


def subtrees(t, path=(), out=None):
    if out is None:
        out = []
    out.append((path, t))
    if t[0] == "l":
        for k, x in enumerate(t[1]):
            subtrees(x, path + (k,), out)
    return out


def replace(t, path, new):
    if not path:
        return new
    xs = list(t[1])
    xs[path[0]] = replace(xs[path[0]], path[1:], new)
    return ["l", xs]


def size(t):
    return 1 + sum(size(x) for x in t[1]) if t[0] == "l" else 1


def mutate_term(rng, t, pool):
    subs = subtrees(t)
    path, x = rng.choice(subs[1:] or subs)
    k = rng.random()
    if x[0] == "k":
        for fam in (ATTRS, NILS, PATTRS):
            if x[1] in fam:
                return replace(t, path, ["k", rng.choice(fam)])
    if x[0] == "z" and k < .6:
        return replace(t, path, Z(unbig(x[1]) + rng.choice([-1, 1, 1, 2])))
    if k < .45:
        y = rng.choice(pool)
        if size(y) <= 40:
            return replace(t, path, y)
        return t
    if x[0] == "l" and x[1]:
        xs = list(x[1])
        i = rng.randrange(len(xs))
        if k < .6:
            xs.pop(i)
        elif k < .75:
            xs.insert(rng.randrange(len(xs)+1), xs[i])
        else:
            j = rng.randrange(len(xs))
            xs[i], xs[j] = xs[j], xs[i]
        return replace(t, path, ["l", xs])
    return replace(t, path, rng.choice(pool))


def single(t, pool, skip=1):
    """every tree that differs from t in one place: a subtree replaced by one of pool, dropped, doubled, exchanged with the next"""
    out = []
    for path, x in subtrees(t)[1:]:
        if path == (0,) * len(path) and len(path) <= skip:
            continue
        out += [replace(t, path, y) for y in pool if y != x]
        par = t
        for i in path[:-1]:
            par = par[1][i]
        xs, i = par[1], path[-1]
        vs = [xs[:i] + xs[i+1:], xs[:i] + [x] + xs[i:]]
        if i + 1 < len(xs):
            vs.append(xs[:i] + [xs[i+1], x] + xs[i+2:])
        if x[0] == "l":
            vs.append(xs[:i] + x[1] + xs[i+1:])
        vs.append(xs[:i] + [["l", [x]]] + xs[i+1:])
        out += [replace(t, path[:-1], ["l", v]) if path[:-1] else ["l", v] for v in vs]
    return out


EXTRA = [p1(x) for x in ("(push)", "(pop)", "(reset)", "(exit)", "(push 2)", "(echo \"x\")", "(assume-push @z true)", "(declare-const a Bool)", "(declare-const x Bool)")]


def mutate(rng, cmds, n=1, extra=True):
    cmds = list(cmds)
    pool = [x for c in cmds for _, x in subtrees(c)[1:]]
    if not pool:
        return cmds
    for _ in range(n):
        if not cmds:
            break
        k = rng.random()
        i = rng.randrange(len(cmds))
        if k < .6:
            cmds[i] = mutate_term(rng, cmds[i], pool)
        elif k < .7:
            cmds.pop(i)
        elif k < .8:
            cmds.insert(rng.randrange(len(cmds)+1), cmds[i])
        elif k < .9:
            c = cmds.pop(i)
            cmds.insert(rng.randrange(len(cmds)+1), c)
        elif extra:
            cmds.insert(rng.randrange(len(cmds)+1), rng.choice(EXTRA))
    return cmds


BAD_NAMES = {"eo::hash", "eo::cmp"}


def risky(cmds):
    """what the specification does not describe or describes too slowly"""
    def bad(t):
        if t[0] in ("z",):
            return abs(unbig(t[1])) > 10**30
        if t[0] in ("s", "qs"):
            return t[1] in BAD_NAMES
        if t[0] == "str":
            return False
        if t[0] == "l":
            if len(t[1]) == 3 and t[1][0] == ["s", "eo::extract"]:
                return True
            if len(t[1]) == 3 and t[1][0] == ["s", "eo::to_bin"] and t[1][1][0] == "z" and unbig(t[1][1][1]) > 1000:
                return True
            return any(bad(x) for x in t[1])
        return False
    return any(bad(c) for c in cmds) or lit_before_decl(cmds)


KINDS = {"<numeral>": "z", "<rational>": "q", "<decimal>": "d", "<binary>": "b", "<hexadecimal>": "x", "<string>": "str"}


def lit_before_decl(cmds):
    """is a literal used before its category is given a type (later)"""
    used = set()

    def coll(t):
        if t[0] == "l":
            for x in t[1]:
                coll(x)
        else:
            used.add(t[0])
    for c in cmds:
        if c[0] == "l" and len(c[1]) >= 2 and c[1][0] == ["s", "declare-consts"] and c[1][1][0] == "s":
            if KINDS.get(c[1][1][1]) in used:
                return True
        coll(c)
    return False


def repo_jobs(rng, want=None, mutants=0, nmut=(1, 2), limit=None, maxcmds=120, maxsize=6000):
    """the repository's tests (those for which want(name, all commands) holds), and mutants of them"""
    base = []
    for n in repotests.test_names():
        cl = repotests.closure(n)
        if cl is None:
            continue
        allc = [c for f in cl for c in repotests.load(f)]
        if any(repotests.uses(c, BAD_NAMES) for c in allc):
            continue
        if want and not want(n, allc):
            continue
        base.append(n)
    js = [repotests.test_job(n) for n in base]
    small = [n for n in base if len(repotests.load(n)) <= maxcmds and sum(map(size, repotests.load(n))) <= maxsize]
    out = []
    tries = 0
    while len(out) < mutants and small and tries < mutants * 5:
        tries += 1
        n = rng.choice(small)
        cmds = mutate(rng, copy.copy(repotests.load(n)), rng.choice(nmut))
        if risky(cmds):
            continue
        j = repotests.test_job(n, cmds=cmds)
        j["tag"] = "mutant-" + n
        out.append(j)
    return js + out


def has(*names):
    """tests that mention one of the names"""
    ns = set(names)

    def mentions(t):
        return (t[0] in ("s", "qs", "k") and t[1] in ns) or (t[0] == "l" and any(mentions(x) for x in t[1]))
    return lambda n, cmds: any(mentions(c) for c in cmds)


def txt(s):
    """a command given by its characters"""
    return ["txt", [ord(c) for c in s]]


def txtev(t):
    """the value of a term given by its characters"""
    return ["txt", [ord(c) for c in "(?eval " + t + " t)"], [ord(c) for c in t]]
