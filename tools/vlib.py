"""Conformance driver: runs jobs through the specification (TLC on spec/EoTrace.tla)
and through the real checker, and compares."""
import select
import hashlib, itertools, json, multiprocessing, os, re, shutil, signal, subprocess, sys, tempfile, time, fcntl
from sx import *

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ETHOS_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
FLAVOURS = ("release", "debug")
# release with the run-time checks of the compiler: memory that was released or is out of bounds, undefined behaviour
CHECKED = "-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS"
# (terms are allocated with new and released with free, and all of them are left to the end of the process)
os.environ["ASAN_OPTIONS"] = "detect_leaks=0:alloc_dealloc_mismatch=0:exitcode=77:detect_stack_use_after_return=1"
os.environ["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=77"
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
DEFOPT = dict(num=False, dec=True, hex=True, rst=True, let=True, dag=True, stats=False, stall=False, stcompact=False,
              count=False)
NCPU = min(8, os.cpu_count() or 4)


class CheckError(Exception):
    pass


# ---------------------------------------------------------------------------
# build
def src_hash():
    h = hashlib.sha256()
    for root in ("src", "cmake"):
        for d, ds, fs in sorted(os.walk(os.path.join(REPO, root))):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, REPO).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
                h.update(b"\0")
    with open(os.path.join(REPO, "CMakeLists.txt"), "rb") as fh:
        h.update(fh.read())
    return h.hexdigest()[:16]


def build(flavours=FLAVOURS):
    """fresh builds of /repo's working tree, in these flavours; {flavour: binary}"""
    os.makedirs(BUILD, exist_ok=True)
    out = {}
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = src_hash()
        keep = os.path.join(BUILD, "ethos-" + key)
        for d in os.listdir(BUILD):
            if d.startswith("ethos-") and d != "ethos-" + key and "ETHOS_KEEP" not in os.environ:
                shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
        env = {k: v for k, v in os.environ.items() if k not in ("CFLAGS", "CXXFLAGS", "LDFLAGS")}
        env.update(CC="gcc", CXX="g++")
        ps = []
        for fl in flavours:
            d = os.path.join(keep, fl)
            exe = os.path.join(d, "src", "ethos")
            out[fl] = exe
            if not os.path.exists(os.path.join(d, "ok")):
                shutil.rmtree(d, ignore_errors=True)
                os.makedirs(d)
                cmd = ("cmake -S %s -B %s -G Ninja -DCMAKE_BUILD_TYPE=%s %s >%s/log 2>&1 && "
                       "ninja -C %s src/ethos >>%s/log 2>&1 && touch %s/ok"
                       % (REPO, d, "Release" if fl == "checked" else fl.capitalize(),
                          "'-DCMAKE_CXX_FLAGS=%s'" % CHECKED if fl == "checked" else "", d, d, d, d))
                ps.append((subprocess.Popen(["bash", "-c", cmd], env=env), d))
        for p, d in ps:
            if p.wait() != 0:
                sys.stdout.write(open(d + "/log").read()[-3000:])
                raise CheckError("build of %s failed" % REPO)
    return out


# ---------------------------------------------------------------------------
# TLC
def tla_cmd(cfg, mod, meta, workers=NCPU, extra=(), heap="6g"):
    return ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss512m", "-XX:ParallelGCThreads=4",
            "-DTLA-Library=" + os.path.join(VERIF, "spec"), "-cp", JAR, "tlc2.TLC",
            "-nowarning", "-noGenerateSpecTE", "-metadir", meta, "-workers", str(workers), "-config", cfg, *extra, mod]


def scratch(prefix="ethosv"):
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    return tempfile.mkdtemp(prefix=prefix, dir=base)


STALL = 45


def run_tlc(cfg, mod, env=None, workers=NCPU, extra=(), timeout=800, heap="6g", stall=None):
    """(exit code, stdout) of TLC; the code is "stalled" if it was ended after `stall` seconds without any output"""
    meta = scratch("tlcmeta")
    try:
        e = dict(os.environ, **(env or {}))
        p = subprocess.Popen(tla_cmd(cfg, mod, meta, workers, extra, heap), cwd=os.path.join(VERIF, "spec"),
                             env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out, t0 = [], time.time()
        fd = p.stdout.fileno()
        while True:
            left = timeout - (time.time() - t0)
            r, _, _ = select.select([fd], [], [], max(0, min(left, stall) if stall else left))
            if not r:
                p.kill()
                p.wait()
                if stall and left > stall:
                    return "stalled", b"".join(out).decode(errors="replace")
                raise subprocess.TimeoutExpired("tlc", timeout)
            b = os.read(fd, 1 << 20)
            if not b:
                break
            out.append(b)
        p.wait()
        return p.returncode, b"".join(out).decode(errors="replace")
    finally:
        shutil.rmtree(meta, ignore_errors=True)


MSG = re.compile(r'^"(.*)"$')


def messages(out):
    for line in out.splitlines():
        if line.startswith('"[') and line.endswith(']"'):
            yield json.loads(json.loads(line) if "\\" in line else line[1:-1])


def tlc_stats(out):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m.group(2)), int(m.group(1))) if m else (0, 0)


# ---------------------------------------------------------------------------
# jobs
def job(cmds, main="proof", files=(), opt=None, pre=(), mainpath=None, dirs=(), cwd=("t",), tag="", fuel=400, flags=(), trace=()):
    """flags: [(option, value)] of the command line, in order; trace: traces switched on in the debug flavour
    cmds: list of syntax trees (or one text).  files: [(path comps, cmds, link)]"""
    if isinstance(cmds, str):
        cmds = pall(cmds)
    if mainpath is None:
        mainpath = list(cwd) + ["<stdin>" if main == "stdin" else "main.eo" if main == "sig" else "main.smt2"]
    fs = [dict(path=list(mainpath), cmds=cmds, link=[])]
    for f in files:
        c = pall(f[1]) if isinstance(f[1], str) else f[1]
        fs.append(dict(path=list(f[0]), cmds=c, link=list(f[2]) if len(f) > 2 else []))
    ds = {()}
    for f in fs:
        for k in range(1, len(f["path"])):
            ds.add(tuple(f["path"][:k]))
    for d in list(dirs) + [cwd]:
        for k in range(1, len(d) + 1):
            ds.add(tuple(d[:k]))
    o = dict(DEFOPT)
    o.update(opt or {})
    if flags or trace:
        o["count"] = True
    return dict(flags=[[k, bool(v)] for k, v in flags], trace=list(trace), fuel=fuel, files=fs, dirs=[list(d) for d in sorted(ds)], opt=o, main=main, tag=tag, cwd=list(cwd),
                pre=[[k, pathcomps(p) if isinstance(p, str) else p] for k, p in pre])


def job_names(jobs):
    acc = {"true", "false", "eo::self", "T", "eo::List", "eo::List::nil", "eo::List::cons", "eo::Proof"}
    for j in jobs:
        for f in j["files"]:
            for c in f["cmds"]:
                names(c, acc)
    for n in list(acc):
        acc.add("is-" + n)
        acc.add("update-" + n)
    return {n: [ord(c) for c in n] for n in sorted(acc)}


def strip_raw(a):
    if a[0] == "raw":
        return ["bad"]
    if a[0] == "txt":
        return a[:2]
    if a[0] == "l":
        return ["l", [strip_raw(x) for x in a[1]]]
    return a


class Pred:
    """what the specification says about a job"""
    def __init__(self):
        self.pre = None; self.skip = False; self.cmds = {}; self.end = None; self.fuel = False


def predict(jobs, timeout=800):
    """[Pred] of the jobs, and TLC's (distinct, generated) states"""
    if not jobs:
        return [], (0, 0)
    d = scratch("eojobs")
    try:
        js = []
        for j in jobs:
            k = dict(j)
            k["files"] = [dict(f, cmds=[strip_raw(c) for c in f["cmds"]]) for f in j["files"]]
            k.pop("tag", None)
            js.append(k)
        with open(d + "/jobs.json", "w") as f:
            json.dump(js, f)
        with open(d + "/names.json", "w") as f:
            json.dump(job_names(jobs), f)
        rc, out = run_tlc("EoTrace.cfg", "EoTrace.tla",
                          {"EO_JOBS": d + "/jobs.json", "EO_NAMES": d + "/names.json"}, timeout=timeout, stall=STALL)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    preds = [Pred() for _ in jobs]
    for m in messages(out):
        p = preds[m[1] - 1]
        if m[0] == "pre":
            p.pre = m[2]; p.skip = m[3]
        elif m[0] == "fuel":
            p.fuel = True
        elif m[0] in ("cmd", "eval", "proves", "ask"):
            p.cmds[m[2]] = m
        elif m[0] == "end":
            p.end = m
    if rc == "stalled":
        # TLC did not get through some jobs (e.g. a program that does not terminate): these have no prediction
        if all(p.end is None for p in preds):
            raise subprocess.TimeoutExpired("tlc", STALL)
        for p in preds:
            if p.end is None:
                p.fuel = True
        return preds, (sum(len(p.cmds) for p in preds), sum(len(p.cmds) for p in preds))
    if rc != 0 or "No error has been found" not in out or any(p.end is None for p in preds):
        errf = os.path.join(VERIF, "build", "tlc-error.log")
        with open(errf, "w") as f:
            f.write(out)
        raise CheckError("TLC failed (%s), see %s:\n%s" % (rc, errf, "\n".join(
            l for l in out.splitlines() if not l.startswith('"['))[-2500:]))
    return preds, tlc_stats(out)


# ---------------------------------------------------------------------------
# the real checker
def optflags(opt):
    names = dict(num="normalize-num", dec="normalize-dec", hex="normalize-hex", rst="rule-sym-table", let="parse-let")
    fl = []
    for k, n in names.items():
        if opt.get(k, DEFOPT[k]) != DEFOPT[k]:
            fl.append(("--" if opt[k] else "--no-") + n)
    return fl


def cmdline(j, fl, pre):
    """arguments before and after the file"""
    fs = [("--" if b else "--no-") + k for k, b in j.get("flags", [])]
    if j.get("trace") and fl == "debug":
        for t in j["trace"]:
            fs += ["-v"] if t == "-v" else ["-t", t]
        return optflags(j["opt"]) + fs + pre, []
    # options may come before or after the files
    h = len(fs) // 2 if len(pre) % 2 == 0 else len(fs)
    return optflags(j["opt"]) + fs[:h] + pre, fs[h:]


def execute(exe, args, cwd, stdin=None, timeout=20):
    try:
        p = subprocess.run([exe] + args, cwd=cwd, input=stdin, stdin=None if stdin is not None else subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        return p.returncode, p.stdout.decode("latin-1"), p.stderr.decode("latin-1")
    except subprocess.TimeoutExpired:
        return "timeout", "", ""


POS = re.compile(r"^Error: (.*):(\d+)\.(\d+): ?(.*)$", re.M)
NOPOS = ("State::popScope: empty context", "Cannot use more than one reference",
         "did not preserve assumption scope", "TypeChecker::setTypeRule: cannot set type rule",
         "Error: cannot include file")


WARN = re.compile(r"^[^\n]*:\d+\.\d+: (?:Unhandled attribute|Unprocessed attribute|Cannot set multiple constructor types) [^\n]*\n\n?", re.M)


def classify_run(r):
    """("ok", stdout) | ("error", file, line, msg) | ("fatal", msg) | ("crash", what)"""
    rc, out, err = r
    if rc == 0:
        return ("ok", WARN.sub("", out))
    if rc == "timeout":
        return ("crash", "timeout")
    m = POS.search(err)
    if rc in (-signal.SIGABRT, 1) and m and "Assertion" not in err.split("Error:")[0]:
        if "correct" in out.split() or "incomplete" in out.split():
            return ("crash", "answer and error: " + out)
        return ("error", m.group(1), int(m.group(2)), m.group(4))
    if rc in (-signal.SIGABRT, 1):
        for s in NOPOS:
            if s in err:
                return ("fatal", err.strip())
    return ("crash", "exit %s: %s" % (rc, err.strip()[:400]))


STAT_LINE = re.compile(r"^ *(\S+): (\d+)\s+(\d+) \(\s*-?(?:[\d.]+|nan|inf)%\)\s*(?:-?\d+|nan|inf)\s+(\d+)\s*$")
PROG_LINE = re.compile(r"^ *(\S+): (\d+)$")


def parse_stats(text, compact, everything):
    """{rule name: sorted counts} of the statistics printed after the answer, None if they are not as documented"""
    ls = text.split("\n")
    if ls and ls[-1] == "":
        ls.pop()
    ls = [l for l in ls if not re.match(r"^=+$", l)]
    for k in ("mkExprCount", "newExprCount", "deleteExprCount", "symCount", "litCount", "time"):
        if not ls or not re.match(r"^%s = \d+$" % k, ls.pop(0)):
            return None
    out = {}
    if compact:
        m = dict(re.match(r"^(\w+) = \{ (.*) \}$", l).groups() if re.match(r"^(\w+) = \{ .* \}$", l) else ("?", l) for l in ls)
        if not set(m) <= ({"ruleCount", "checkTime", "mkExpr", "progCount"} if everything else {"ruleCount", "checkTime", "mkExpr"}):
            return None
        for k in ("checkTime", "mkExpr"):
            if (k in m) != ("ruleCount" in m):
                return None
        for it in m.get("ruleCount", "").split(", "):
            if it:
                n, _, c = it.rpartition(": ")
                out.setdefault(n, []).append(int(c))
    else:
        mode = None
        for l in ls:
            if re.match(r"^ *Rule +# +t +t/# +#mkExpr *$", l) and mode is None:
                mode = "rule"
            elif re.match(r"^ *Program +# *$", l) and mode != "prog" and everything:
                mode = "prog"
            elif mode == "rule" and STAT_LINE.match(l):
                m = STAT_LINE.match(l)
                out.setdefault(m.group(1), []).append(int(m.group(2)))
            elif not (mode == "prog" and PROG_LINE.match(l)):
                return None
    return {n: sorted(c) for n, c in out.items()}


def stats_differ(j, p, r, want):
    """what differs in an accepted run with statistics or traces, or None"""
    if r[0] != "ok":
        return "ok"
    if not r[1].startswith(want):
        return "output starting " + want
    if len(p.end) <= 6:
        return None
    st = p.end[6]
    rest = r[1][len(want):]
    if not st:
        return "no more output" if rest else None
    got = parse_stats(rest, st[1], st[0])
    exp = {}
    for n, c, _ in st[2]:
        exp.setdefault(n, []).append(c)
    exp = {n: sorted(c) for n, c in exp.items() if not n.startswith("eo::") and n not in ("$probe", "$copy")}
    if got is None:
        return "statistics"
    got = {n: c for n, c in got.items() if n not in ("$probe", "$copy")}
    return None if got == exp else "rule counts %s" % exp


def write_job_files(j, base):
    for d in j["dirs"]:
        os.makedirs(os.path.join(base, *d), exist_ok=True)
    for f in j["files"][1:]:
        p = os.path.join(base, *f["path"])
        if f["link"]:
            os.symlink(os.path.join(base, *f["link"]), p)
        else:
            with open(p, "wb") as fh:
                fh.write("".join(render(fix_abs(c, base)) + "\n" for c in f["cmds"]).encode("latin-1"))


def fix_abs(c, base):
    """absolute paths of include commands are below the scratch directory"""
    if c[0] == "l" and len(c[1]) >= 2 and c[1][0] in (["s", "include"], ["s", "reference"]) \
            and c[1][1][0] == "str" and c[1][1][2][:1] == ["/"]:
        return ["l", [c[1][0], ["raw", '"%s"' % (base + "/" + "/".join(c[1][1][2][1:]))]] + c[1][2:]]
    return c


def abs_path(comps, base):
    if comps and comps[0] == "/":
        return base + "/" + "/".join(comps[1:])
    return "/".join(comps)


PROBE = ["s", "$probe"]


def probe_cmd(n, a, b):
    return ["l", [["s", "step"], ["s", "@p%d" % n], ["k", ":rule"], PROBE, ["k", ":args"], ["l", [a, b]]]]


def copy_cmd(n, f, name):
    return ["l", [["s", "step"], ["s", "@p%d" % n]] + ([f] if f else []) +
            [["k", ":rule"], ["s", "$copy"], ["k", ":premises"], ["l", [name]]]]


def plan(j, p):
    """(positive commands [(text idx, ast)], negatives [(idx, ast, prefix length)]) of job j"""
    pos, neg = [], []
    main = j["files"][0]["cmds"]
    probes = 0
    cnt = itertools.count(1)

    def nm():       # each probe proves true under a name of its own
        return next(cnt)

    for k, c in enumerate(main, 1):
        m = p.cmds.get(k)
        if m is None:
            break
        if c[0] == "txt" and m[0] == "eval":
            c = ["l", [["s", "?eval"], ["raw", "".join(map(chr, c[2]))], ["s", "t"]]]
        if m[0] == "cmd":
            if m[3]:
                pos.append((k, c))
            else:
                neg.append((k, c, len(pos), m[4]))
        elif m[0] == "ask":
            # the question, the answer kept under a name
            op, t = ("eo::hash", c[1][1:2]) if c[1][0][1] == "?hash" else ("eo::cmp", c[1][1:3])
            d = ["l", [["s", "define"], ["s", "@ask%d" % k], ["l", []], ["l", [["s", op]] + t]]]
            if m[3] == "error":
                neg.append((k, d, len(pos), []))
            else:
                pos.append((k, d))
                v = c[1][len(t)+1:]
                if m[3] == "open":
                    pos.append((k, probe_cmd(nm(), ["l", [["s", "eo::is_ok"], ["s", "@ask%d" % k]], ], ["s", "false"]))); probes += 1
                elif v and m[4]:
                    pos.append((k, probe_cmd(nm(), ["s", "@ask%d" % k], v[0]))); probes += 1
        elif m[0] == "proves":
            t = c[1][1]
            if not m[3]:
                neg.append((k, copy_cmd(nm(), None, t), len(pos), []))
            elif m[4][0] != "null" and writable(m[4]):
                pos.append((k, copy_cmd(nm(), m[4], t))); probes += 1
            else:
                pos.append((k, copy_cmd(nm(), None, t)))
        else:
            t = c[1][1]
            if not m[3]:
                neg.append((k, probe_cmd(nm(), t, ["s", "true"]), len(pos), []))
                continue
            if m[4][0] != "null" and writable(m[4]):
                pos.append((k, probe_cmd(nm(), t, m[4]))); probes += 1
            elif m[5]:
                pos.append((k, probe_cmd(nm(), ["l", [["s", "eo::is_ok"], t]], ["s", "false"]))); probes += 1
            if len(c[1]) > 2 and m[6][0] != "null" and writable(m[6]):
                pos.append((k, probe_cmd(nm(), ["l", [["s", "eo::typeof"], t]], m[6]))); probes += 1
            if len(c[1]) > 2 and m[7]:      # ill-typed
                pos.append((k, probe_cmd(nm(), ["l", [["s", "eo::is_ok"], ["l", [["s", "eo::typeof"], t]]]], ["s", "false"]))); probes += 1
    return pos, neg, probes


def run_job(a):
    """compare one job; (mismatches, number of runs, probes, accepted, rejected)"""
    j, p, exes, flav = a
    flav = [f for f in flav if f in j.get("flav", flav)]
    base = scratch("eorun")
    bad = []
    runs = 0
    try:
        try:
            write_job_files(j, base)
            pos, neg, probes = plan(j, p)
            texts = {}
            lines = [render(fix_abs(c, base)) for _, c in pos]
            negl = [(k, render(fix_abs(c, base)), n, at) for k, c, n, at in neg]
        except Unwritable:
            return [], 0, 0, 0, 0
        cwd = os.path.join(base, *j["cwd"])
        prel = []
        prebad = []
        for (kind, comps), (ok, at) in zip(j["pre"], p.pre or []):
            o = "--%s=%s" % ("include" if kind == "sig" else "reference", abs_path(comps, base))
            if ok:
                prel.append(o)
            else:
                prebad.append((list(prel), o))
        mainp = os.path.join(base, *j["files"][0]["path"])
        rel = os.path.relpath(mainp, cwd)

        dead = []

        def go(fl, lines, pre=prel):
            if len(dead) >= 2:      # it hangs
                return dead[0]
            r = go1(fl, lines, pre)
            if r == ("crash", "timeout"):
                dead.append(r)
            return r

        def go1(fl, lines, pre=prel):
            text = "".join(l + "\n" for l in lines)
            args, after = cmdline(j, fl, pre)
            if j["main"] == "stdin":
                return classify_run(execute(exes[fl], args + after, cwd, text.encode("latin-1")))
            with open(mainp, "wb") as fh:
                fh.write(text.encode("latin-1"))
            return classify_run(execute(exes[fl], args + [rel] + after, cwd))

        def report(fl, what, expected, got, lines, idx):
            bad.append(dict(flavour=fl, what=what, expected=expected, got=list(map(str, got)), idx=idx,
                            script=list(lines), opts=cmdline(j, fl, prel)[0] + cmdline(j, fl, prel)[1], base=base))

        echo = "".join("".join(map(chr, o)) + "\n" for o in p.end[5])
        for fl in flav:
            r = go(fl, lines); runs += 1
            if p.end[4]:
                want = ("ok", echo + p.end[3] + "\n")
                if j.get("trace") and fl == "debug":
                    # traces are printed among the rest
                    t = "\n" + r[1]
                    at = t.rfind("\n" + p.end[3] + "\n")
                    if r[0] == "ok" and at >= 0 and stats_differ(j, p, ("ok", t[at+1:]), p.end[3] + "\n") is None:
                        r = want
                elif j.get("flags") or (len(p.end) > 6 and p.end[6]):
                    d = stats_differ(j, p, r, want[1])
                    if d is None:
                        r = want
                    else:
                        want = d
                if r != want:
                    idx = None
                    if r[0] == "error" and os.path.basename(r[1]) in (os.path.basename(rel), "input stream", "<stdin>", "stdin"):
                        if 1 <= r[2] <= len(pos):
                            idx = pos[r[2]-1][0]
                    report(fl, "accepted script", want, r, lines, idx)
            elif r[0] != "fatal":
                report(fl, "file ends in an open assumption", "fatal error", r, lines, None)
            for pre, o in prebad:
                r = go(fl, lines, pre + [o]); runs += 1
                if r[0] not in ("error", "fatal"):
                    report(fl, "command line " + o, "error", r, lines, None)
            for k, l, n, at in negl:
                sc = lines[:n] + [l]
                r = go(fl, sc); runs += 1
                if r[0] == "fatal":
                    continue
                if r[0] != "error":
                    report(fl, "rejected command " + l, "error", r, sc, k)
                    continue
                # position: the innermost rejected command
                want_file, want_line = os.path.basename(rel), n + 1 + sum(x.count("\n") for x in lines[:n])
                more = l.count("\n")
                if at and at[-1][1] > 0:
                    want_file = os.path.basename(j["files"][at[-1][0]-1]["path"][-1]); want_line = at[-1][1]
                    more = 0
                if not want_line <= r[2] <= want_line + 1 + more or (j["main"] != "stdin" and os.path.basename(r[1]) != want_file):
                    report(fl, "position of rejected command " + l, "%s:%d" % (want_file, want_line), r, sc, k)
        return bad, runs, probes, len(pos), len(negl)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def run_jobs(jobs, preds, exes, flav=None):
    """[(job index, mismatch)], totals"""
    flav = flav or tuple(exes)
    tot = dict(runs=0, probes=0, accepted=0, rejected=0)
    bad = []
    with multiprocessing.Pool(NCPU) as pool:
        for n, (b, r, pr, a, x) in enumerate(pool.imap(run_job, [(j, p, exes, flav) for j, p in zip(jobs, preds)], chunksize=4)):
            tot["runs"] += r; tot["probes"] += pr; tot["accepted"] += a; tot["rejected"] += x
            bad += [(n, m) for m in b]
    return bad, tot
