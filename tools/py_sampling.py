"""Samplers of distributions.lp.random, hp.random, dbg.random on engines with a known next number."""
import math
import numpy as np
import py_models
from py_models import num, nums

M = 2147483647


def floats(ts):
    return [float(x) for x in ts]


def f32(ts):
    return nums(np.array(floats(ts), dtype=np.float32))


def kvs(ts):
    return dict(x.split("=", 1) for x in ts)


class Lp(object):
    def __init__(self):
        import distributions.lp.random as r
        import distributions.hp.random as hp
        self.r, self.hp = r, hp
        self.x = 1

    def state(self, x):
        self.hp.seed(x)
        self.x = x

    def peek(self):
        x = 16807 * self.x % M
        u = np.float32(x - 1) / np.float32(2147483646)
        return min(float(u), float(np.nextafter(np.float32(1), np.float32(0))))

    def draw(self, c, a):
        if c == "disc":
            return self.r.sample_discrete(np.array(a, dtype=np.float32)), None
        if c == "sprob":
            i, q = self.r.sample_prob_from_scores(list(a))
            return i, q
        if c == "pair":
            items = [("item", i) for i in range(len(a))]
            p, q = self.r.sample_pair_from_urn(items)
            return items.index(p) * len(a) + items.index(q), None
        raise py_models.ScriptError(c)

    def cont(self, d, k):
        raise py_models.ScriptError(d)


class Hp(Lp):
    def cont(self, d, k):
        f = lambda n: float(k[n])
        if d == "hnormal":
            return self.hp.sample_normal(f("mean"), f("var"))
        if d == "hchisq":
            return self.hp.sample_chisq(f("nu"))
        if d == "hgamma":
            return self.hp.sample_gamma(f("a"), f("b"))
        if d == "hpoisson":
            return self.hp.sample_poisson(f("mean"))
        raise py_models.ScriptError(d)


class Dbg(object):
    def __init__(self):
        import distributions.dbg.random as r
        self.r = r

    def state(self, x):
        np.random.seed(x)

    def peek(self):
        s = np.random.get_state()
        u = np.random.rand()
        np.random.set_state(s)
        return float(u)

    def draw(self, c, a):
        if c == "lik":
            return self.r.sample_discrete(list(a)), None
        if c == "probs":
            return self.r.sample_discrete(list(a), total=1.0), None
        if c == "scores":
            return self.r.sample_discrete_log(list(a)), None
        if c == "bern":
            return int(self.r.sample_bernoulli(a[0])), None
        raise py_models.ScriptError(c)

    def cont(self, d, k):
        r = self.r
        f = lambda n: float(k[n])
        v = lambda n: np.array([float(x) for x in k[n].split(",")])
        if d == "chisq":
            return r.sample_chi2(f("nu"))
        if d == "gamma":
            return r.sample_gamma(f("a"), f("b"))
        if d == "beta":
            return r.sample_beta(f("a"), f("b"))
        if d == "poisson":
            return r.sample_poisson(f("mean"))
        if d == "nb":
            return r.sample_negative_binomial(f("p"), int(k["rr"]))
        w = v("w")
        if d == "hdir":
            return w.dot(r.sample_dirichlet(v("alphas")))
        S = v("S").reshape(len(w), len(w))
        if d == "wishart":
            return w.dot(r.sample_wishart_naive(int(f("nu")), S)).dot(w)
        if d == "iwishart":
            return w.dot(r.sample_inverse_wishart(int(k["nu"]), S)).dot(w)
        if d in ("niwmu", "niwcov"):
            mu, cov = r.sample_normal_inverse_wishart(v("mu"), f("lambda"), S, int(k["nu"]))
            return w.dot(mu) if d == "niwmu" else w.dot(cov).dot(w)
        raise py_models.ScriptError(d)


class Runner(object):
    def __init__(self, kv):
        self.f = kv["f"]
        self.s = {"lp": Lp, "hp": Hp, "dbg": Dbg}[self.f]()

    def args(self, o, t):
        o["c"] = t[0]
        o["p"] = f32(t[1:]) if self.f == "lp" else nums(floats(t[1:]))

    def cmd(self, t, o):
        c = t[0]
        s = self.s
        if c in ("state", "vec"):
            if c == "state":
                s.state(int(t[1]))
            o["e"] = "other"
        elif c in ("freq", "grid"):
            n, size = int(t[1]), int(t[2])
            counts = [0] * size
            a = floats(t[4:])
            for i in range(n):
                if c == "grid":
                    s.state(pow(16807, M - 2, M) * (1 + int((i + .5) / n * (M - 2))) % M)
                counts[s.draw(t[3], a)[0]] += 1
            o["n"], o["r"] = n, counts
            self.args(o, t[3:])
        elif c == "pfs":
            o["i"], o["p"] = int(t[1]), f32(t[2:])
            o["r"] = num(s.r.prob_from_scores(int(t[1]), floats(t[2:])))
        elif c == "cdf":
            n = int(t[1])
            k = kvs(t[4:])
            th = floats(t[3].split(","))
            counts, bad, lo, hi = [0] * len(th), 0, math.inf, -math.inf
            for i in range(n):
                x = float(s.cont(t[2], k))
                if not math.isfinite(x):
                    bad += 1
                    continue
                lo, hi = min(lo, x), max(hi, x)
                for j, y in enumerate(th):
                    counts[j] += x <= y
            o.update({"n": n, "d": t[2], "bad": bad, "th": nums(th), "min_seen": num(lo), "max_seen": num(hi), "r": counts})
            for key, val in k.items():
                o[key] = nums(floats(val.split(","))) if key in ("alphas", "w", "mu", "S") else num(float(val))
        else:
            self.args(o, t)
            o["e"] = "draw"
            o["u"] = num(s.peek())
            r, q = s.draw(c, floats(t[1:]))
            o["r"] = int(r)
            if q is not None:
                o["q"] = num(q)
        return True


if __name__ == "__main__":
    py_models.main(lambda name, kv: Runner(kv))
