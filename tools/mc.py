"""Bounded exploration: models are explored with TLC (spec/EoMC.tla), every transition is replayed."""
import json, shutil
from prelude import *
from vlib import *
from gen import PROBE_RULE


def alpha(cmd, op="bind", binds=(), n=1, sorry=False):
    return dict(cmd=p1(cmd), op=op, n=n, binds=list(binds), sorry=sorry)


def auto(cmd, sorry_rules=()):
    """alphabet entry whose effect on names is read off the command"""
    c = p1(cmd)
    xs = c[1]
    h = xs[0][1]
    s = h in ("step", "step-pop") and any(x[0] == "s" and x[1] in sorry_rules for x in xs)
    if h in ("push", "pop"):
        return alpha(cmd, h, (), unbig(xs[1][1]) if len(xs) > 1 else 1)
    if h in ("reset", "exit"):
        return alpha(cmd, h)
    if h in ("echo", "set-option", "include", "reference", "declare-consts"):
        return alpha(cmd, "none")
    op = {"assume": "assume", "assume-push": "apush", "step-pop": "steppop"}.get(h, "bind")
    return alpha(cmd, op, [xs[1][1]], sorry=s)


def model(prelude, alphabet, names, depth, sound=False, plain=False, atoms=("P", "Q"), **kw):
    j = job(prelude, **kw)
    j.update(alpha=alphabet, names=list(names), depth=depth, sound=sound, plain=plain, atoms=list(atoms))
    return j


def explore(models, exes, timeout=700, keep=None, rng=None):
    """run TLC on the models; yields a result for check.py"""
    d = scratch("eomc")
    try:
        js = []
        allc = []
        for m in models:
            k = dict(m)
            k["files"] = [dict(f, cmds=[strip_raw(c) for c in f["cmds"]]) for f in m["files"]]
            k.pop("tag", None)
            js.append(k)
            allc.append(dict(files=m["files"] + [dict(cmds=[a["cmd"] for a in m["alpha"]])]))
        with open(d + "/jobs.json", "w") as f:
            json.dump(js, f)
        with open(d + "/names.json", "w") as f:
            json.dump(job_names(allc), f)
        rc, out = run_tlc("EoMC.cfg", "EoMC.tla", {"EO_JOBS": d + "/jobs.json", "EO_NAMES": d + "/names.json"}, timeout=timeout)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if rc != 0 or "No error has been found" not in out:
        errf = os.path.join(VERIF, "build", "tlc-error.log")
        open(errf, "w").write(out)
        raise CheckError("TLC failed on a model (%s), see %s:\n%s" % (rc, errf, "\n".join(
            l for l in out.splitlines() if not l.startswith('"['))[-2500:]))
    pre = {}
    states = {}
    tries = {}
    for m in messages(out):
        if m[0] == "pre":
            pre[m[1]] = m[2]
        elif m[0] == "state":
            states[(m[1], tuple(m[2]))] = m
        elif m[0] == "try":
            tries.setdefault((m[1], tuple(m[2])), {})[m[3]] = m
    jobs, preds = [], []
    for (jn, path), st in sorted(states.items()):
        M = models[jn-1]
        if keep and rng.random() > keep and path:
            continue
        base = M["files"][0]["cmds"]
        cmds = list(base)
        p = Pred()
        p.pre = pre[jn]
        for k in range(1, len(base) + 1):
            p.cmds[k] = ["cmd", jn, k, True, []]

        def add(c, ok, at):
            cmds.append(c)
            p.cmds[len(cmds)] = ["cmd", jn, len(cmds), ok, at]
        exited = False
        for k in path:
            add(M["alpha"][k-1]["cmd"], True, [])
            exited = exited or M["alpha"][k-1]["op"] == "exit"
        if not exited:
            for k, t in sorted(tries.get((jn, path), {}).items()):
                if not t[4] and not t[6]:
                    add(M["alpha"][k-1]["cmd"], False, t[5])
            if "$copy" in M.get("probe", "$copy") and not any(M["alpha"][k-1]["op"] == "reset" for k in path):
                for n, f in zip(M["names"], st[6]):
                    cmds.append(proves(n))
                    p.cmds[len(cmds)] = ["proves", jn, len(cmds), f[0] != "none", f]
        p.end = ["end", jn, len(cmds), st[3], st[4], st[5]]
        j = dict(M)
        j["files"] = [dict(M["files"][0], cmds=cmds)] + M["files"][1:]
        j["tag"] = "%s %s" % (M["tag"], list(path))
        jobs.append(j); preds.append(p)
    b, t = run_jobs(jobs, preds, exes)
    if b:
        idx = sorted({n for n, _ in b})
        b2, _ = run_jobs([jobs[n] for n in idx], [preds[n] for n in idx], exes)
        b = [(idx[n], m) for n, m in b2]
    st = tlc_stats(out)
    return dict(states=st[0], generated=st[1], runs=t["runs"], accepted=t["accepted"], rejected=t["rejected"],
                probes=t["probes"], traces=len(jobs), bad=[(jobs[n], m) for n, m in b])


def walks(rng, models, n, length=(15, 40)):
    """random sequences over the alphabets of the models, as ordinary jobs (a rejected command is skipped)"""
    js = []
    for k in range(n):
        m = rng.choice(models)
        cmds = list(m["files"][0]["cmds"])
        alive = True
        # commands that end or clear everything are rare
        al = [a for a in m["alpha"] if a["op"] not in ("exit", "reset")]
        end = [a for a in m["alpha"] if a["op"] in ("exit", "reset")]
        for _ in range(rng.randint(*length)):
            if end and rng.random() < .01:
                a = rng.choice(end)
                alive = False
            else:
                a = rng.choice(al)
            cmds.append(a["cmd"])
            if alive and m.get("probe", 1) and rng.random() < .3 and m["names"]:
                cmds.append(proves(rng.choice(m["names"])))
        j = {x: v for x, v in m.items() if x not in ("alpha", "names", "depth", "sound", "plain", "atoms")}
        j["files"] = [dict(m["files"][0], cmds=cmds)] + m["files"][1:]
        j["tag"] = "walk-%d-%s" % (k, m["tag"])
        js.append(j)
    return js


def check_spec(mod, env, timeout=700):
    """check the invariants of a model that has no counterpart run of its own; the result for the driver"""
    rc, out = run_tlc(mod + ".cfg", mod + ".tla", env, timeout=timeout)
    if rc != 0 or "No error has been found" not in out:
        with open(os.path.join(VERIF, "build", "tlc-error.log"), "w") as f:
            f.write(out)
        raise CheckError("TLC failed on %s (%s), see build/tlc-error.log" % (mod, rc))
    st = tlc_stats(out)
    return dict(states=st[0], generated=st[1])
