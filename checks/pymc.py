"""The Python side of mc.h: sections, counters, violations, shards and the state file that survives a crash."""
import json
import mmap
import struct
import sys


class MC:
    def __init__(self, argv):
        a = dict(zip(argv[0::2], argv[1::2]))
        self.args = a
        self.deep = a.get("--tier") == "deep"
        self.thorough = self.deep or a.get("--tier") == "thorough"
        self.shard = int(a.get("--shard", 0))
        self.nshards = int(a.get("--nshards", 1))
        self.out = a.get("--out")
        self.only = a.get("--only")
        self.secs, self.samples, self.outcomes = {}, {}, {}
        self.viols, self.keys, self.nviol = [], set(), 0
        self.mem = None
        self.prog = 0
        if a.get("--state"):
            with open(a["--state"], "wb") as f:
                f.write(b"\0" * 120)
            self.f = open(a["--state"], "r+b")
            self.mem = mmap.mmap(self.f.fileno(), 120)
        self.section("main")

    def section(self, name):
        self.name = name
        self.cur = self.secs.setdefault(name, [0, 0, 0])
        if self.mem:
            self.mem[0:64] = name.encode()[:63].ljust(64, b"\0")

    def mine(self, i):
        return i % self.nshards == self.shard

    def at(self, *idx):
        self.prog += 1
        if self.mem:
            self.mem[64:120] = struct.pack("7Q", *(list(idx) + [0] * 6)[:6], self.prog)

    def state(self, n=1):
        self.cur[0] += n

    def trans(self, n=1):
        self.cur[1] += n

    def trace(self, n=1):
        self.cur[2] += n

    def sample(self, s):
        v = self.samples.setdefault(self.name, [])
        if len(v) < 2:
            v.append(str(s)[:300])

    def outcome(self, s, n=1):
        self.outcomes[s] = self.outcomes.get(s, 0) + n

    def fail(self, key, detail=""):
        key = (self.name + "|" + key).replace("\n", " ").replace("\t", " ")
        if self.only and key != self.only:
            return
        self.nviol += 1
        if len(self.viols) < 25 and key not in self.keys:
            self.keys.add(key)
            self.viols.append([key, str(detail)[:1500]])

    def finish(self):
        j = {"sections": {k: v for k, v in self.secs.items() if any(v)}, "samples": self.samples,
             "outcomes": self.outcomes, "nviol": self.nviol, "viols": self.viols}
        if self.out:
            with open(self.out, "w") as f:
                json.dump(j, f)
        else:
            json.dump(j, sys.stdout, indent=1)


def run(main):
    mc = MC(sys.argv[1:])
    main(mc)
    mc.finish()
