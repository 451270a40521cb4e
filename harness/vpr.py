"""Reporter of the Python checks: same command line and output as vp.hpp."""
import collections
import hashlib
import json
import mmap
import os
import sys


class Reporter:
    def __init__(self):
        self.tier, self.only, self.shard, self.nshards = "quick", None, 0, 1
        out = prog = None
        args = sys.argv[1:]
        while args:
            a = args.pop(0)
            if a == "--out":
                out = args.pop(0)
            elif a == "--progress":
                prog = args.pop(0)
            elif a == "--tier":
                self.tier = args.pop(0)
            elif a == "--shard":
                self.shard, self.nshards = map(int, args.pop(0).split("/"))
            elif a == "--only":
                s, i = args.pop(0).rsplit(":", 1)
                self.only = (s, int(i))
        self.out = open(out, "w") if out else sys.stdout
        self.prog = None
        if prog:
            fd = os.open(prog, os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o644)
            os.ftruncate(fd, 4096)
            self.prog = mmap.mmap(fd, 4096)
        self.counters = collections.Counter()
        self.sections = collections.Counter()
        self.extra = collections.Counter()
        self.outcomes = collections.Counter()
        self.recorded = collections.Counter()
        self.states = set()
        self.samples = []
        self.cases = self.transitions = self.traces = self.violations = 0
        self.cur = ("", 0)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def begin(self, section):
        i = self.counters[section]
        self.counters[section] += 1
        if self.only:
            if self.only != (section, i):
                return False
        elif i % self.nshards != self.shard:
            return False
        self.cur = (section, i)
        if self.prog:
            self.prog[0:72] = i.to_bytes(8, "little") + section.encode()[:63].ljust(64, b"\0")
        self.cases += 1
        self.sections[section] += 1
        return True

    def note(self, s):
        if self.prog:
            self.prog[72:584] = s.encode()[:511].ljust(512, b"\0")

    def state(self, *key):
        self.states.add(hashlib.sha256(repr(key).encode()).hexdigest()[:16])

    def transition(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, s):
        self.outcomes[s] += 1

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def fail(self, key, msg):
        self.violations += 1
        self.recorded[key] += 1
        if self.recorded[key] <= 2:
            self.out.write(json.dumps(dict(t="viol", section=self.cur[0], id=self.cur[1], key=key, msg=msg[:2000])) + "\n")
            self.out.flush()

    def finish(self):
        self.out.write(json.dumps(dict(t="sum", cases=self.cases, states=len(self.states), transitions=self.transitions,
                                       traces=self.traces, violations=self.violations, stopped=False,
                                       sections=self.sections, extra=self.extra, outcomes=self.outcomes,
                                       samples=self.samples)) + "\n")
        self.out.write(json.dumps(dict(t="hashes", h="".join(self.states))) + "\n")
        self.out.flush()
