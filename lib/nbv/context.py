"""What the components of a check share."""
import json
import os
import sys
import time

from . import build
from .build import EVIDENCE, VERIF


class Context:
    def __init__(self, prop, tier, seed, scratch):
        self.prop, self.tier, self.seed, self.scratch = prop, tier, seed, scratch
        self.began = time.time()
        self.violations = []
        self.notes = []
        self.errors = []
        self.runs = self.undecided = 0
        self.known_hit = []
        self.nb = self.nb_weak = self.nbx = None

    @property
    def thorough(self):
        return self.tier == "thorough"

    def prepare(self, weak=False):
        self.nbx = build.build_nbx(self.scratch + "/bin")
        self.nb = build.build(self.scratch + "/bin")
        if weak:
            self.nb_weak = build.build(self.scratch + "/bin", weak=True)

    def note(self, text):
        if len(self.notes) < 40:
            self.notes.append(text[:1600])
            print("note: " + text[:300].replace("\n", " "), flush=True)

    def error(self, text):
        self.errors.append(text)
        print("error: " + text[:800], file=sys.stderr, flush=True)

    def tried(self, runs, undecided):
        """Counts recorded runs, and those which TLC could not evaluate."""
        self.runs += runs
        self.undecided += undecided

    def violation(self, what, data, key=None):
        """key identifies the failing input for the known-findings file."""
        for k in known():
            if k["property"] == self.prop and key is not None and k["key"] == key:
                if key not in self.known_hit:
                    self.known_hit.append(key)
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]), flush=True)
                return
        d = EVIDENCE + "/replay"
        os.makedirs(d, exist_ok=True)
        path = "%s/%s-%d.json" % (d, self.prop, len(self.violations))
        data = dict(data, property=self.prop, what=what)
        with open(path, "w") as f:
            json.dump(data, f, indent=1, default=str)
        self.violations.append(what)
        print("%s: %s" % (self.prop, what[:1500]))
        print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)


def known():
    """Known findings: lines `known: property=<id> key=<key> <what fails>`."""
    out = []
    try:
        with open(VERIF + "/known-findings.txt") as f:
            for line in f:
                if line.startswith("known: "):
                    f2 = line[7:].split(None, 2)
                    out.append({"property": f2[0].split("=", 1)[1], "key": f2[1].split("=", 1)[1],
                                "what": f2[2].strip()})
    except OSError:
        pass
    return out
