"""lp and dbg clustering priors, lp mixture drivers and id tracker (commands as in
harness/clustering.cc)."""
import numpy as np
import distributions.rng
from distributions import rng_cc
from distributions.io import schema_pb2
from py_models import main, num, nums
import distributions.lp.clustering as lpc
import distributions.lp.mixture as lpm
import distributions.lp.random as lpr
import distributions.dbg.clustering as dbgc


class Runner(object):
    def __init__(self, f):
        self.f = f
        self.mix = self.tr = None
        self.state = 1
        self.k = 0

    # the C++ generator behind the lp package is minstd_rand0
    def seed(self, n):
        np.random.seed(n & 0xFFFFFFFF)
        distributions.rng.global_rng.cc = rng_cc.RngCc()
        self.state = 1
        for _ in range(n % 97):
            lpr.sample_prob_from_scores([0.0])
            self.draw()

    def draw(self):
        self.state = self.state * 16807 % 2147483647
        return min(float(np.float32(self.state - 1) / np.float32(2147483646)), 1 - 2.0 ** -24)

    def show(self, o, m):
        d = m.dump()
        if self.kind == "py":
            o["kind"], o["alpha"], o["d"] = "py", num(d["alpha"]), num(d["d"])
        else:
            o["kind"], o["N"] = "le", d["dataset_size"]

    def obs(self, o):
        if self.mix is not None:
            o["em"] = sorted(self.mix.empty_groupids)
            o["len"] = len(self.mix)

    def ids(self, o):
        n = self.n
        o["ids"] = [self.tr.packed_to_global(i) for i in range(n)]
        o["back"] = [self.tr.global_to_packed(g) for g in o["ids"]]

    def cmd(self, t, o):
        c = t[0]
        if c == "seed":
            self.k = int(t[1])
            self.seed(self.k)
            o["e"] = "other"
        elif c == "model":
            kv = dict(x.split("=") for x in t[2:])
            self.kind = t[1]
            mod = lpc if self.f == "lp" else dbgc
            if t[1] == "py":
                self.m = mod.PitmanYor(alpha=float(kv["alpha"]), d=float(kv["d"]))
            else:
                self.m = mod.LowEntropy(dataset_size=int(kv["N"]))
            self.show(o, self.m)
        elif c in ("mdict", "mpb"):
            fresh = self.m.__class__()
            if c == "mdict":
                fresh.load(self.m.dump())
            else:
                M = schema_pb2.Clustering.PitmanYor if self.kind == "py" else schema_pb2.Clustering.LowEntropy
                a, b = M(), M()
                self.m.protobuf_dump(a)
                b.ParseFromString(a.SerializeToString())
                fresh.protobuf_load(b)
            self.show(o, fresh)
            self.m = fresh
        elif c == "var":
            self.mix = self.m.Mixture()
            o["e"] = "other"
        elif c == "init":
            cs = [int(x) for x in t[1:]]
            self.mix.init(self.m, cs)
            o["a"] = cs
            self.obs(o)
        elif c in ("add", "rem"):
            g = int(t[1])
            assert t[2] == "1"
            r = (self.mix.add_value if c == "add" else self.mix.remove_value)(self.m, g)
            o["g"], o["n"], o["flag"] = g, 1, int(r)
            self.obs(o)
        elif c == "obs":
            self.obs(o)
        elif c == "sv":
            s = np.zeros(len(self.mix), dtype=np.float32)
            self.mix.score_value(self.m, s)
            o["r"] = nums(s)
        elif c in ("tinit", "treinit"):
            if c == "tinit":
                self.tr = lpm.MixtureIdTracker()
            self.tr.init(int(t[1]))
            o["e"] = "tinit"
            o["n"] = self.n = int(t[1])
            self.ids(o)
        elif c == "tadd":
            self.tr.add_group()
            self.n += 1
            self.ids(o)
        elif c == "trem":
            self.tr.remove_group(int(t[1]))
            o["g"] = int(t[1])
            self.n -= 1
            self.ids(o)
        elif c == "p2g":
            o["g"], o["r"] = int(t[1]), self.tr.packed_to_global(int(t[1]))
        elif c == "g2p":
            o["g"], o["r"] = int(t[1]), self.tr.global_to_packed(int(t[1]))
        elif c in ("sa", "sr"):
            g, k, n, m = [int(x) for x in t[1:5]]
            o["c"], o["k"], o["n"], o["m"] = g, k, n, m
            o["r"] = num((self.m.score_add_value if c == "sa" else self.m.score_remove_value)(g, k, n, m))
        elif c == "sc":
            o["cs"] = [int(x) for x in t[1:]]
            o["r"] = num(self.m.score_counts(o["cs"]))
        elif c == "scr":
            o["runs"] = [[int(x) for x in p.split(":")] for p in t[1].split(",")]
            o["r"] = num(self.m.score_counts([c for c, n in o["runs"] for _ in range(n)]))
        elif c == "z":
            o["n"], o["r"] = int(t[1]), num(self.m.log_partition_function(int(t[1])))
        elif c == "asg":
            size = int(t[1])
            if self.f == "dbg":
                st = np.random.get_state()
                us = [float(np.random.rand()) for _ in range(size)]
                np.random.set_state(st)
            else:
                self.k += 5
                self.seed(self.k)
                us = [self.draw() for _ in range(size)]
            ids = [int(x) for x in self.m.sample_assignments(size)]
            o["size"], o["ids"], o["us"] = size, ids, nums(us)
        elif c == "asgfreq":
            size, n = int(t[1]), int(t[2])
            d = {}
            for _ in range(n):
                v = tuple(int(x) for x in self.m.sample_assignments(size))
                d[v] = d.get(v, 0) + 1
            o["size"], o["n"] = size, n
            o["vs"] = [list(v) for v in sorted(d)]
            o["ns"] = [d[v] for v in sorted(d)]
        elif c == "cnt":
            g = [int(x) for x in t[1:]]
            o["gids"] = g
            o["r"] = [int(x) for x in lpc.count_assignments(dict(enumerate(g)))]
        else:
            return False
        return True


if __name__ == "__main__":
    main(lambda name, kv: Runner(kv["f"]))
