"""Component of most checks: random histories of the real program, each of
whose events TLC checks against spec/Trace."""
import os
import random
import time

from . import gen, par, trace
from .gen import Profile


def profile(**kw):
    """A profile with some weights changed."""
    return type("P", (Profile,), kw)()


PROFILES = {
    "general": profile(watch=0.5),
    # everything tracked, many backups, few mutations each
    "track": profile(steps=(7, 14), policies=["track", "track", "track", "track", "copy"], config_change=0.15,
                     mutations=(1, 3), revert=0.35, ops={"backup": 10, "restore": 4, "gc": 0.3}, consent=0.0),
    # policies change all the time
    "policy": profile(steps=(5, 10), config_change=0.85, mutations=(0, 3), policies=["copy", "mirror", "track"],
                      ops={"backup": 10, "restore": 1, "gc": 0.3}, consent=0.0, revert=0.35, park=0.35),
    # types change all the time
    "types": profile(steps=(5, 10), config_change=0.3, mutations=(1, 4), links=0.25, others=0.1, revert=0.45,
                     ops={"backup": 10, "restore": 1}, consent=0.0, restore_root=0.7, park=0.25),
    # restores over damaged file systems
    "restore": profile(steps=(4, 8), config_change=0.3, ops={"backup": 4, "restore": 8}, restore_damage=(1, 8),
                       consent=0.03, links=0.2, others=0.08, again=0.5, odd_names=0.1, big=0.1, same_size=0.35,
                       parents=0.35, watch=0.5, hardlinks=0.08),
    "bigfiles": profile(steps=(3, 6), big=0.3, links=0.05, ops={"backup": 6, "restore": 5, "integrity": 1},
                        restore_damage=(1, 6), odd_names=0.1, consent=0.0, again=0.4),
    "config": profile(steps=(4, 8), config_change=0.7, config_reset=0.5, mutations=(0, 4),
                      ops={"backup": 10, "restore": 0.5}, consent=0.0, links=0.2, others=0.08, root_policy=0.06,
                      odd_names=0.1, park=0.1),
    "gc": profile(steps=(5, 9), foreign=0.6, hexlinks=0.3, watch=0.5, ops={"backup": 8, "gc": 5, "restore": 1}, consent=0.02),
    "integrity": profile(steps=(4, 8), ops={"backup": 6, "integrity": 8, "restore": 1}, consent=0.0, links=0.05,
                         dup_contents=2, config_change=0.3, big=0.1),
    "consent": profile(steps=(4, 8), consent=0.7, watch=0.8, ops={"backup": 6, "restore": 5}),
    "report": profile(steps=(5, 9), vast=0.12, consent=0.05, mutations=(0, 3), config_change=0.4,
                      ops={"backup": 8, "restore": 4}),
    # what may be wrong in configurations and command lines
    "grammar": profile(steps=(6, 12), config_change=0.6, config_reset=0.3, mutations=(0, 3), odd_config=0.75,
                       ops={"backup": 10, "refused": 3}, consent=0.0, others=0.02),
    "weak": profile(weak=True, steps=(5, 10), dup_contents=6, weak_big=0.4, links=0.03, others=0.0, mutations=(2, 6),
                    ops={"backup": 10, "restore": 3, "gc": 0.7, "integrity": 0.7}, consent=0.0),
    # metadata files as other programs would write them
    "reorder": profile(steps=(6, 12), reorder=0.7, odd_names=0.1, big=0.1, config_change=0.35, mutations=(1, 4),
                       ops={"backup": 8, "restore": 4, "integrity": 1, "gc": 0.5}, consent=0.05),
    # nothing of what surrounds a command makes a difference
    "environ": profile(steps=(6, 12), environ=0.8, odd_names=0.08, config_change=0.4, consent=0.1, links=0.15,
                       ops={"backup": 8, "restore": 4, "integrity": 0.7, "gc": 0.7}),
    # repositories get copied and synchronized
    "sync": profile(steps=(7, 13), fork=0.3, foreign=0.03, config_change=0.4, dup_contents=4, big=0.05, links=0.05, consent=0.0,
                    ops={"backup": 8, "sync": 5, "restore": 4, "integrity": 1, "gc": 1}),
    "crowd": profile(scenario="crowd"),
    "long": profile(scenario="long"),
    "spread": profile(scenario="spread"),
    "slots": profile(weak=True, scenario="slots"),
    "dup": profile(steps=(5, 10), dup_contents=3, links=0.03, others=0.0, mutations=(2, 6),
                   ops={"backup": 10, "restore": 2, "gc": 1}, consent=0.0, revert=0.4),
}


class Broken:
    """A history that does not fit the specification."""

    def __init__(self, profile, seed, marks):
        self.profile, self.seed, self.marks = profile, seed, marks


def run_one(ctx, prof_name, seed):
    prof = PROFILES[prof_name]
    path = os.path.join(ctx.scratch, "w-%s-%d-%d" % (prof_name, seed, os.getpid()))
    return gen.run_history(path, ctx.nb_weak if prof.weak else ctx.nb, ctx.nbx, seed, prof)


def validate_robust(hists, weak):
    """validate(), history by history when TLC gives up on the whole batch.
    -> (mismatches, stats, undecided histories)"""
    try:
        bad, st = trace.validate(hists, weak, timeout=240)
        return bad, st, []
    except (trace.TlcError, trace.Timeout) as e:
        if len(hists) == 1:
            return [], {"states": 0, "events": 0}, [(0, str(e)[:2000])]
    bad, tot, und = [], {"states": 0, "events": 0}, []
    for i, h in enumerate(hists):
        b, st, u = validate_robust([h], weak)
        for m in b:
            m["h"] = i
        bad += b
        tot["states"] += st["states"]
        tot["events"] += st["events"]
        und += [(i, x[1]) for x in u]
    return bad, tot, und


def explore(ctx, profiles, labels, seconds, chunk=48, offset=0):
    """profiles: {name: weight}.  -> dict of statistics; violations go to ctx."""
    names = list(profiles)
    deadline = time.time() + seconds

    def job(n):
        rng = random.Random("%d/%d/%d" % (ctx.seed, offset, n))
        name = rng.choices(names, [profiles[x] for x in names])[0]
        weak = PROFILES[name].weak
        size = 2 if PROFILES[name].scenario else chunk
        seeds = [ctx.seed * 100000000 + offset * 1000000 + n * chunk + k for k in range(size)]
        hists = [run_one(ctx, name, s) for s in seeds]
        bad, st, und = validate_robust(hists, weak)
        by = {}
        for m in bad:
            by.setdefault(m["h"], []).append(m)
        ops = {}
        for h in hists:
            for e in h.events:
                k = (e["op"], e.get("exit", 0))
                ops[k] = ops.get(k, 0) + 1
        changed = sum(1 for h in hists for e in h.events if "meta" in e)
        return {"st": st, "bad": [Broken(name, seeds[k], by[k]) for k in by], "ops": ops, "hists": len(hists),
                "changed": changed, "undecided": [(name, seeds[i], why) for i, why in und],
                "sample": {"profile": name, "seed": seeds[0], "commands": hists[0].cmds[:4]}}

    res = par.run(job, deadline, first=par.CORES, enough=lambda r: any(relevant(b, labels) for b in r["bad"]))
    for i, err in par.run.errors:
        ctx.error("history job %d: %s" % (i, err[-700:]))
    out = {"states": sum(r["st"]["states"] for r in res), "events": sum(r["st"]["events"] for r in res),
           "histories": sum(r["hists"] for r in res), "metadata_changes": sum(r["changed"] for r in res),
           "ops": {}, "samples": [r["sample"] for r in res[:2]], "undecided": 0, "other_labels": {}}
    for r in res:
        for (op, ex), n in r["ops"].items():
            key = op if op == "user" else "%s exit %s" % (op, ex)
            out["ops"][key] = out["ops"].get(key, 0) + n
        for u in r["undecided"]:
            out["undecided"] += 1
            ctx.note("undecided %s/%d: %s" % (u[0], u[1], u[2][:1500]))
    ctx.tried(out["histories"], out["undecided"])
    for r in res:
        for b in r["bad"]:
            hit = relevant(b, labels)
            if not hit:
                for m in b.marks:
                    out["other_labels"][m["label"]] = out["other_labels"].get(m["label"], 0) + 1
                ctx.note("unrelated %s/%d: %s" % (b.profile, b.seed, [m["label"] for m in b.marks][:8]))
                continue
            if ctx.violations:
                continue
            confirm(ctx, b, labels, hit)
    return out


def relevant(b, labels):
    return [m for m in b.marks if labels is None or m["label"] in labels]


def confirm(ctx, b, labels, hit):
    """A violation counts if the same history breaks again."""
    for _ in range(2):
        h = run_one(ctx, b.profile, b.seed)
        bad, _, _ = validate_robust([h], PROFILES[b.profile].weak)
        again = [m for m in bad if labels is None or m["label"] in labels]
        if again:
            m = again[0]
            ctx.violation("%s event %d (%s) of %s/%d: %s"
                          % (m["label"], m["i"], m["op"], b.profile, b.seed, m["detail"][:1500]),
                          {"kind": "history", "profile": b.profile, "seed": b.seed,
                           "mismatches": again[:10], "commands": h.cmds})
            return
    ctx.note("not reproduced: %s/%d %s" % (b.profile, b.seed, [m["label"] for m in hit]))


def replay(ctx, data):
    h = run_one(ctx, data["profile"], data["seed"])
    bad, _, und = validate_robust([h], PROFILES[data["profile"]].weak)
    for c in h.cmds:
        print(c)
    for m in bad:
        print("MISMATCH event %d %s %s: %s" % (m["i"], m["op"], m["label"], m["detail"]))
    for u in und:
        print("UNDECIDED", u[1])
    return bool(bad)
