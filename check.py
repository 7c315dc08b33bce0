#!/usr/bin/env python3
"""check.py <property> : decide one property on /repo's working tree (see DESIGN.md)"""
import importlib, json, os, random, re, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
from vlib import *

T0 = time.time()


def known_findings(prop):
    """{key: text} of 'finding: property=<id> key=<key> <text>' lines"""
    out = {}
    with open(os.path.join(VERIF, "known-findings")) as f:
        for line in f:
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def predict_safe(jobs):
    """predictions; jobs on which TLC itself fails (e.g. a program that does not terminate) are dropped"""
    try:
        preds, st = predict(jobs)
        return list(zip(jobs, preds)), st, 0
    except CheckError:
        if len(jobs) == 1 or os.environ.get("VERIF_STRICT"):
            if os.environ.get("VERIF_STRICT"):
                raise
            return [], (0, 0), 1
    except subprocess.TimeoutExpired:
        if len(jobs) == 1:
            return [], (0, 0), 1
    h = len(jobs) // 2
    a, sa, da = predict_safe(jobs[:h])
    b, sb, db = predict_safe(jobs[h:])
    return a + b, (sa[0] + sb[0], sa[1] + sb[1]), da + db


def write_replay(prop, n, j, m):
    d = os.path.join(VERIF, "build", "replay", prop)
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%03d.json" % n)
    with open(p, "w") as f:
        json.dump(dict(property=prop, tag=j["tag"], flavour=m["flavour"], what=m["what"], expected=m["expected"], got=m["got"],
                       options=m["opts"], main=j["main"], cwd=j["cwd"], mainpath=j["files"][0]["path"], dirs=j["dirs"],
                       script=m["script"],
                       files=[dict(path=f["path"], link=f["link"], text=[render(fix_abs(c, "$BASE")) for c in f["cmds"]])
                              for f in j["files"][1:]]), f, indent=1)
    return p


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else TIER
    mod = importlib.import_module("props." + prop.lower())
    exes = build(getattr(mod, "FLAVOURS", FLAVOURS))
    rng = random.Random("%s-%d-%s" % (prop, SEED, tier))
    budget = 600 if tier == "thorough" else 150
    tot = dict(runs=0, probes=0, accepted=0, rejected=0)
    states = [0, 0]
    njobs = dropped = 0
    bad = []
    details = {}
    extra = []
    ctx = dict(exes=exes, tier=tier, rng=rng, details=details, budget=budget, t0=T0)
    for batch in mod.batches(ctx):
        if isinstance(batch, dict):      # result of a model exploration or another kind of comparison
            states[0] += batch.get("states", 0)
            states[1] += batch.get("generated", 0)
            tot["runs"] += batch.get("runs", 0)
            tot["probes"] += batch.get("probes", 0)
            tot["accepted"] += batch.get("accepted", 0)
            tot["rejected"] += batch.get("rejected", 0)
            njobs += batch.get("traces", 0)
            for b in batch.get("bad", []):
                bad.append((b[0], b[1]))
            continue
        for part in chunks_by_weight(batch):
            pairs, st, dr = predict_safe(part)
            dropped += dr + sum(1 for _, p in pairs if p.fuel)
            pairs = [x for x in pairs if not x[1].fuel]
            states[0] += st[0]; states[1] += st[1]
            njobs += len(pairs)
            b, t = run_jobs([x[0] for x in pairs], [x[1] for x in pairs], exes)
            for k in tot:
                tot[k] += t[k]
            if b:
                # report only what a second run repeats
                idx = sorted({n for n, _ in b})
                b2, _ = run_jobs([pairs[n][0] for n in idx], [pairs[n][1] for n in idx], exes)
                bad += [(pairs[idx[n]][0], m) for n, m in b2]
        if len(bad) > 200:
            break
        if time.time() - T0 > budget:
            details["stopped_early"] = True
            break
    kf = known_findings(prop)
    viol = 0
    seen = set()
    for j, m in bad:
        key = mod.finding_key(j, m) if hasattr(mod, "finding_key") else None
        if key in kf:
            if key not in seen:
                print("KNOWN-FINDING: property=%s %s" % (prop, kf[key]))
                seen.add(key)
            continue
        viol += 1
        if viol <= 10:
            p = write_replay(prop, viol, j, m)
            print("%s: %s [%s]\n  expected %s\n  got %s" % (j["tag"], m["what"][:300], m["flavour"], str(m["expected"])[:200], str(m["got"])[:300]))
            if m.get("idx"):
                try:
                    print("  command " + render(j["files"][0]["cmds"][m["idx"]-1])[:300])
                except Exception:
                    pass
            print("VIOLATION property=%s replay=%s" % (prop, p))
    ev = dict(property=prop, tier=tier, seed=SEED, level="model_checking",
              coverage=dict(states=states[0], transitions=states[1], traces_validated_against_impl=njobs,
                            samples=tot["runs"], accepted_commands=tot["accepted"], rejected_commands=tot["rejected"],
                            values_compared=tot["probes"], discarded_jobs=dropped, **details),
              wall_s=round(time.time() - T0, 1))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d jobs, %d states, %d runs, %d values, %d violations, %.1fs" % (
        prop, njobs, states[0], tot["runs"], tot["probes"], viol, time.time() - T0))
    if not bad and (njobs == 0 or dropped * 5 > njobs):
        print("too little was explored")
        sys.exit(2)
    sys.exit(1 if viol else 0)


def chunks_by_weight(jobs, limit=30000):
    out, w = [], 0
    for j in jobs:
        n = sum(len(f["cmds"]) for f in j["files"])
        if out and w + n > limit:
            yield out
            out, w = [], 0
        out.append(j)
        w += n
    if out:
        yield out


if __name__ == "__main__":
    try:
        main()
    except CheckError as e:
        print("error of the check:", e)
        sys.exit(2)
