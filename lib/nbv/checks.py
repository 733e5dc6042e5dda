"""Which components decide which property."""
from . import damage, faults, histories, locks, power

META = {"meta-times", "meta-path-lacks", "meta-path-extra", "meta-policy", "meta-history", "meta-ids", "meta-state",
        "meta-none", "meta-unreadable"}
WF = {"wf-parents", "wf-history", "wf-single", "wf-removed", "wf-referenced", "wf-reach", "wf-cut-off"}
DEAD = {"crash", "timeout", "exit"}
RECORDED = {"not-recorded", "recorded-policy", "recorded-state", "recorded-content", "store-intact"}
RESTORED = {"restored", "restored-ghost", "restore-fs"}
KEPT = {"history-kept", "order-kept", "ghost", "store-kept"}

LABELS = {
    "C01": RESTORED | RECORDED | DEAD | WF | {"meta-unreadable", "meta-none", "store-kept", "restore-damaged"},
    "C02": KEPT | RESTORED | DEAD | META | WF | RECORDED,
    "C03": META | KEPT | DEAD | WF | {"not-recorded", "recorded-state", "restored", "restore-fs", "store-intact"},
    "C04": META | WF | DEAD | RECORDED | KEPT | {"restored", "restored-ghost"},
    "C05": DEAD | RECORDED | {"should-fail", "meta-path-lacks", "meta-path-extra", "meta-policy", "meta-unreadable",
                              "meta-none"},
    "C06": {"torn-meta", "torn-store"} | DEAD | META | WF | KEPT | RECORDED | {"config-file", "fail-repo", "gc-exact",
            "gc-meta", "integrity-exit", "integrity-list", "frame-fs", "nochange-repo", "restored", "restored-ghost"},
    "C08": {"torn-meta", "torn-store", "fsync-ignored", "differs-from-undisturbed", "gc-exact", "gc-meta",
            "integrity-exit", "integrity-list", "integrity-status", "integrity-repo", "restore-fs", "restore-frame",
            "restore-repo", "config-file", "fail-repo", "frame-fs", "should-fail", "nochange-repo", "restore-nochange-fs",
            "consent-exit", "consent-repo"} | DEAD | META | WF | KEPT | RECORDED | RESTORED,
    "C09": {"gc-exact", "gc-out-tail", "gc-out-lines", "gc-meta", "store-intact", "store-kept", "config-file",
            "frame-fs", "recorded-content", "meta-unreadable", "meta-none"} | DEAD,
    "C10": {"stored-twice", "slots", "stored-small", "recorded-content", "store-intact", "store-kept", "ghost",
            "meta-state", "restored-ghost", "restore-fs", "meta-unreadable", "restored"} | DEAD,
    "C12": {"integrity-exit", "integrity-list", "integrity-status", "integrity-repo", "crash", "timeout",
            "restore-damaged", "frame-fs"},
    "C13": {"backup-out-lines", "backup-out-tail", "restore-out-lines", "restore-out-tail", "nochange-repo",
            "restore-nochange-fs", "restore-again", "gc-out-tail"} | DEAD,
    "C14": {"effects-unasked", "consent-exit", "consent-repo", "restore-consent-fs", "nochange-repo", "restore-nochange-fs",
            "backup-out-tail", "restore-out-tail"} | DEAD,
    "C15": {"touched-content", "torn-meta", "torn-store", "frame-fs"} | DEAD | META | WF | KEPT | RECORDED,
    "C17": {"effects", "frame-fs", "restore-frame", "restore-repo", "integrity-repo", "restore-consent-fs",
            "restore-nochange-fs"},
    "C18": {"restore-again", "restored", "restore-fs", "restored-ghost", "differs-from-undisturbed"} | DEAD,
    "C19": {"should-fail", "fail-repo", "config-file"} | DEAD,
    "C22": RECORDED | RESTORED | META | DEAD | WF | KEPT | {
        "backup-out-lines", "backup-out-tail", "restore-out-lines", "restore-out-tail", "gc-exact", "gc-out-tail",
        "integrity-exit", "integrity-list", "nochange-repo", "restore-nochange-fs", "restore-again", "consent-exit",
        "consent-repo", "should-fail", "fail-repo"},
    "C23": RECORDED | RESTORED | META | DEAD | WF | KEPT | {
        "sync-intact", "sync-meta", "gc-exact", "gc-meta", "gc-out-tail", "integrity-exit", "integrity-list", "integrity-repo",
        "store-kept", "other-repo"},
    "C21": RECORDED | RESTORED | META | DEAD | WF | {"integrity-exit", "integrity-list", "store-kept", "restore-damaged"},
    "C20": {"warnings", "blame", "told-error", "told-nothing", "integrity-count", "should-fail"} | DEAD,
}


HISTORY_NOTE = ("Random command histories of the real program, every step checked by TLC against the TLA+ "
                "specification of the whole program and the property's invariants over ghost state. "
                "Bounded by the histories generated (small trees, up to 14 commands); trusts the snapshot, "
                "the metadata parser and Python's regex oracle.")


KILL_NOTE = ("Random histories; their last command is killed at every (quick: a sample of) system call that changes "
             "anything and in the middle of writes; the state found and the commands that follow are checked by TLC "
             "against the TLA+ specification. Kills between system calls are all there is to kill; bounded by the "
             "scenarios generated.")
FAIL_NOTE = ("Random histories; in their last command each system call (quick: a sample covering every kind) fails with "
             "plausible errors, is cut short, or the disk is full from then on; the outcome and the commands that "
             "follow are checked by TLC against the TLA+ specification. Errors are injected with ptrace.")


class Histories:
    """Part of a check: random histories."""

    def __init__(self, profiles, seconds=(55, 1500)):
        self.profiles, self.seconds = profiles, seconds
        self.weak = any(histories.PROFILES[p].weak for p in profiles)

    def run(self, ctx, check, share):
        out = histories.explore(ctx, self.profiles, check.labels, self.seconds[ctx.thorough] * share,
                                offset=int(check.prop[1:]))
        return {"states": out["states"], "transitions": out["events"],
                "traces_validated_against_impl": out["histories"] - out["undecided"],
                "undecided_histories": out["undecided"], "events_by_kind": out["ops"],
                "metadata_changes": out["metadata_changes"], "other_labels": out["other_labels"],
                "samples": out["samples"]}


class Faults:
    """Part of a check: interrupted commands."""
    weak = False

    def __init__(self, kinds, kinds_of_faults, seconds=(55, 1500), most=(40, 100000)):
        self.kinds, self.faults, self.seconds, self.most = kinds, kinds_of_faults, seconds, most

    def run(self, ctx, check, share):
        out = faults.explore(ctx, self.kinds, self.faults, check.labels, self.seconds[ctx.thorough] * share,
                             self.most[ctx.thorough], offset=int(check.prop[1:]))
        return {"states": out["states"], "transitions": out["events"],
                "traces_validated_against_impl": out["fault_histories"] - out["undecided"],
                "undecided_histories": out["undecided"], "scenarios": out["scenarios"], "faults": out["faults"],
                "other_labels": out["other_labels"], "samples": out["samples"]}


class Damage:
    """Part of a check: altered metadata files."""
    weak = False

    def __init__(self, seconds=(50, 1500)):
        self.seconds = seconds

    def run(self, ctx, check, share):
        out = damage.explore(ctx, self.seconds[ctx.thorough] * share, offset=int(check.prop[1:]))
        return {"states": out["states"], "transitions": out["runs"], "traces_validated_against_impl": out["runs"],
                "metadata_files": out["files"], "verdicts": out["verdicts"], "exits": out["exits"],
                "samples": out["samples"]}


class Power:
    """Part of a check: power failures."""
    weak = False

    def __init__(self, seconds=(50, 1500)):
        self.seconds = seconds

    def run(self, ctx, check, share):
        out = power.explore(ctx, self.seconds[ctx.thorough] * share, offset=int(check.prop[1:]))
        return {"states": out["states"] + out["model"], "transitions": out["ops"],
                "traces_validated_against_impl": out["cases"], "model_states": out["model"],
                "undecided_histories": out["unknown"], "runs": out["kinds"], "samples": out["samples"]}


class Locks:
    """Part of a check: interleaved processes."""
    weak = False

    def __init__(self, seconds=(50, 1500)):
        self.seconds = seconds

    def run(self, ctx, check, share):
        out = locks.explore(ctx, self.seconds[ctx.thorough] * share, offset=int(check.prop[1:]))
        return {"states": out["states"] + out["model"], "transitions": out["events"],
                "traces_validated_against_impl": out["cases"], "model_states": out["model"],
                "system_calls_scheduled": out["calls"], "model_schedules_replayed": out["schedules"],
                "schedules_ending_as_modelled": out["as_modelled"], "outcomes": out["kinds"],
                "samples": out["samples"]}


def merge(a, b):
    """Sums of counts, joined samples."""
    out = dict(a)
    for k, v in b.items():
        if k not in out:
            out[k] = v
        elif isinstance(v, dict):
            out[k] = merge(out[k], v)
        elif isinstance(v, (int, list)) and not isinstance(v, bool):
            out[k] = out[k] + v
    return out


class Check:
    level = "model_checking"

    def __init__(self, prop, parts, technique, note, assumptions=(), level=None):
        self.prop, self.parts, self.technique, self.note = prop, parts, technique, note
        self.assumptions = list(assumptions)
        self.level = level or self.level
        self.weak = any(p.weak for p in parts)
        self.labels = LABELS.get(prop)

    def run(self, ctx):
        """Every part gets its share of the time; a violation ends the check."""
        total = {}
        for p in self.parts:
            total = merge(total, p.run(ctx, self, 1.0))
            if ctx.violations:
                break
        return total


TRACE_TECH = "TLA+ specification, trace validation of the real program with TLC"
FAULT_TECH = "TLA+ specification, trace validation of interrupted runs with TLC"


def history_check(prop, profiles, seconds=(55, 1500)):
    return Check(prop, [Histories(profiles, seconds)], TRACE_TECH, HISTORY_NOTE, ASSUME)


ASSUME = ["file system snapshots and the metadata parser of lib/nbv are right (both are independent of nb's code)",
          "histories are random; nothing is claimed about histories not generated"]

CHECKS = {c.prop: c for c in [
    history_check("C01", {"restore": 5, "bigfiles": 2, "general": 1, "crowd": 0.4, "long": 0.3, "spread": 0.5}),
    history_check("C02", {"track": 6, "types": 2, "policy": 1, "weak": 1, "crowd": 1.2, "long": 0.6}),
    history_check("C03", {"types": 3, "track": 2, "policy": 3, "general": 2}),
    history_check("C04", {"policy": 5, "types": 4, "config": 2, "general": 1, "crowd": 0.7, "spread": 0.7}),
    history_check("C05", {"config": 8, "general": 1}),
    Check("C06", [Faults({"backup": 5, "bigbackup": 2, "gc": 2}, {"kill"})], FAULT_TECH, KILL_NOTE, ASSUME),
    Check("C07", [Power()], "TLA+ specification of a disk, on which TLC replays the recorded system calls of the real program",
          "The system calls of backups and garbage collections are recorded; TLC replays them on a disk on which every "
          "unsynchronised directory entry and file may be lost on its own, and judges every point at which the power "
          "may fail. The protocol itself is a TLA+ model (Writer) checked exhaustively for four new contents, with every "
          "necessary step shown to be necessary. Bounded by the scenarios generated.",
          ["data and entries are durable once fsync or fdatasync of their file or directory has returned",
           "the initial repository is fully persisted"]),
    Check("C08", [Faults({"backup": 4, "bigbackup": 1, "gc": 2, "restore": 3, "integrity": 1}, {"errno"})],
          FAULT_TECH, FAIL_NOTE, ASSUME),
    history_check("C09", {"gc": 6, "weak": 1, "dup": 1, "policy": 1, "spread": 0.6}),
    history_check("C10", {"weak": 5, "dup": 3, "bigfiles": 1, "slots": 0.4}),
    Check("C11", [Locks()], "TLA+ specification of the locking protocol, its behaviours replayed into real processes, recorded interleavings judged by TLC",
          "TLC checks the locking protocol exhaustively (3 processes, 2 kills). Behaviours drawn from it, preemptions at "
          "single system calls, kills and failing lock operations are imposed on two or three real processes, system "
          "call by system call; TLC judges what they did. Bounded by the schedules sampled.",
          ["a system call is atomic", "POSIX record locks and flock work as documented"]),
    history_check("C12", {"integrity": 6, "weak": 1, "spread": 0.5}),
    history_check("C13", {"report": 5, "policy": 2, "types": 2, "restore": 2}),
    history_check("C14", {"consent": 8}),
    Check("C15", [Faults({"busy": 1}, {"touch"})], "TLA+ specification, trace validation with TLC of backups during which files are changed",
          "Random histories; during their last backup somebody else changes, replaces or removes a file just before some "
          "system call (quick: a sample of all system calls concerning the file and of the kinds of change); the outcome "
          "and the backup that follows are checked by TLC against the TLA+ specification. One or two changes per backup.", ASSUME),
    Check("C16", [Damage()], "TLA+ specification of the file format, runs of the real program on altered files judged by TLC",
          "Metadata files written by the real program are cut, extended and altered, field by field and byte by byte; "
          "TLC parses every file by the TLA+ grammar and judges what backup, gc, integrity and restore did with it. "
          "Bounded by the files generated (below 9 kB, or with up to 100000 nested directories added).",
          ["the signature of all files (inode, mode, owner, size, times) shows every modification"]),
    history_check("C17", {"restore": 5, "gc": 3, "general": 2, "consent": 1}),
    Check("C18", [Histories({"restore": 6, "bigfiles": 2}, (25, 700)),
                  Faults({"restore": 1}, {"kill", "errno"}, (35, 1000), (30, 100000))], TRACE_TECH,
          HISTORY_NOTE + " " + KILL_NOTE, ASSUME),
    history_check("C19", {"grammar": 6, "config": 1}),
    history_check("C20", {"grammar": 4, "config": 4, "policy": 1, "report": 1, "restore": 1, "integrity": 0.4, "spread": 0.7}),
    history_check("C21", {"reorder": 7, "bigfiles": 1, "long": 0.3}),
    history_check("C22", {"environ": 1}),
    history_check("C23", {"sync": 1}),
]}


def replay(ctx, data):
    if data["kind"] == "history":
        return histories.replay(ctx, data)
    if data["kind"] == "fault":
        return bool(faults.replay(ctx, data))
    if data["kind"] == "damage":
        return damage.replay(ctx, data)
    if data["kind"] == "lock":
        return locks.replay(ctx, data)
    if data["kind"] == "power":
        return power.replay(ctx, data)
    raise SystemExit("unknown replay kind %r" % data["kind"])
