"""Several runs of the Python packages: lp and hp share one random source, dbg has numpy's."""
import random
import zlib

import numpy as np
import py_models
import py_clustering
import py_sampling


class Source(object):
    """A random source of its own, which can be copied"""
    def __init__(self, rng=None):
        import distributions.lp.random as lp
        self.rng = rng or lp.RNG()

    def cmd(self, t, o):
        if t[0] == "draw":
            o["v"] = [self.rng() for _ in range(int(t[1]))]
        elif t[0] == "seed":
            self.rng.seed(int(t[1]))
        else:
            return False
        return True


class Runner(object):
    def __init__(self, kv):
        self.runs = {}
        self.own = {}

    def swap(self, run, back=None):
        """runs opened with own=1 put their own source in the place of the global one"""
        if run not in self.own:
            return None
        import distributions.rng as g
        was = g.global_rng.cc
        g.global_rng.cc = self.own[run]
        return was

    def restore(self, was):
        if was is not None:
            import distributions.rng as g
            g.global_rng.cc = was

    def state(self, f):
        if f != "dbg":
            return ""           # cannot be read; runs end with draws instead
        return "%d %d" % (zlib.crc32(repr(np.random.get_state()[1:]).encode() + np.random.get_state()[1].tobytes()),
                          zlib.crc32(repr(random.getstate()).encode()))

    def seed(self, f, n):
        if f == "dbg":
            np.random.seed(n)
            random.seed(n)
        else:
            import distributions.hp.random as hp
            hp.seed(n)

    def cmd(self, t, o):
        c = t[0]
        was = None
        run = t[1] if c == "open" else c[1:] if c[0] == "@" else None
        if c == "open" and "own=1" in t:
            import distributions.rng_cc as rng_cc
            self.own[run] = rng_cc.RngCc()
        was = self.swap(run)
        try:
            return self.cmd_(t, o)
        finally:
            self.restore(was)

    def cmd_(self, t, o):
        c = t[0]
        if c == "copy":             # copy from to: a source that continues like the other
            f, r = self.runs[t[1]]
            self.runs[t[2]] = (f, Source(r.rng.copy()))
            o.update({"from": t[1], "run": t[2]})
        elif c == "open" and t[2] == "rng":
            self.runs[t[1]] = ("lp", Source())
            o.update({"run": t[1], "kind": "rng", "cmd": "rng", "rng": ""})
        elif c == "open":        # open run kind f=.. model=.. seed=..
            kv = dict(x.split("=", 1) for x in t[3:] if x != "own=1")
            f = kv["f"]
            self.seed(f, int(kv["seed"]))
            r = py_clustering.Runner(f) if t[2] == "clu" else py_sampling.Runner(kv) if t[2] == "samp" else \
                py_models.Runner(kv["model"], f)
            self.runs[t[1]] = (f, r)
            o.update({"run": t[1], "kind": t[2], "cmd": " ".join(x for x in t[2:] if x != "own=1"), "rng": self.state(f)})
        elif c == "close":
            del self.runs[t[1]]
            self.own.pop(t[1], None)
            o["run"] = t[1]
        elif c[0] == "@":
            f, r = self.runs[c[1:]]
            s = t[1:]
            x = {"e": s[0]}
            if s[0] == "probe":
                if f == "dbg":
                    x["r"] = [py_models.num(np.random.rand()), py_models.num(random.random())]
                else:
                    import distributions.lp.random as lp
                    x["r"] = [int(lp.sample_discrete(np.full(4096, 1 / 4096., dtype=np.float32))) for _ in range(3)]
            else:
                try:
                    if not r.cmd(s, x):
                        raise py_models.ScriptError("bad command %s" % s)
                except (AssertionError, RuntimeError, ValueError) as e:
                    x = {"error": "%s: %s" % (type(e).__name__, e)}
            o.update({"e": "op", "run": c[1:], "c": s[0], "cmd": " ".join(s), "out": py_models.json.dumps(x, sort_keys=True),
                      "rng": self.state(f)})
        else:
            return False
        return True


if __name__ == "__main__":
    py_models.main(lambda name, kv: Runner(kv))
