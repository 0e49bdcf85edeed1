"""distributions.util: goodness of fit and summaries of samples (events of spec TraceGoodness)."""
import contextlib
import io
import itertools

import numpy as np
import py_models
from py_models import num, nums


def fl(s):
    return [float(x) for x in s.split(",")] if s and s != "-" else []


def ints(s):
    return [int(x) for x in s.split(",")] if s and s != "-" else []


def compositions(n, k):
    if k == 1:
        yield (n,)
        return
    for a in range(n + 1):
        for r in compositions(n - a, k - 1):
            yield (a,) + r


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


class Runner(object):
    def cmd(self, t, o):
        import distributions.util as u
        c = t[0]
        if c == "multi":        # how truncated plot total p c
            p, k = fl(t[5]), ints(t[6])
            o["p"], o["c"], o["n"], o["t"] = nums(p), nums(k), t[4], int(t[2])
            if t[1] == "array":
                p, k = np.array(p), np.array(k)
            p0, k0 = list(p), list(k)
            kw = {} if t[2] == "0" else {"truncated": True}
            if t[3] == "1":
                kw["plot"] = True
            o["y"] = num(quiet(u.multinomial_goodness_of_fit, p, k, int(t[4]), **kw))
            o["same"] = int(list(p) == p0 and list(k) == k0)
        elif c == "discrete":   # m plot keys p samples
            ks, p, xs = ints(t[3]), fl(t[4]), ints(t[5])
            d = dict(zip(ks, p))
            m = int(t[1])
            o["k"], o["p"], o["m"] = ks, nums(p), m
            o["x"], o["y"], o["same"] = [], [], 1
            # equally likely values trade places in the samples
            for turn in range(int(t[6])):
                new = {}
                for v in set(p):
                    tied = [k for k, q in zip(ks, p) if q == v]
                    for i, k in enumerate(tied):
                        new[k] = tied[(i + turn) % len(tied)]
                ys = [new[x] for x in xs]
                o["x"].append(list(ys))
                o["y"].append(num(quiet(u.discrete_goodness_of_fit, ys, d, **({} if t[2] == "-" else {"truncate_beyond": m}))))
                o["same"] &= int(d == dict(zip(ks, p)) and ys == o["x"][-1])
        elif c == "unif01":
            x = fl(t[1])
            o["x"] = nums(x)
            o["y"] = num(quiet(u.unif01_goodness_of_fit, x))
        elif c == "density":    # samples in order, densities, order in which they are given
            x, q = fl(t[1]), fl(t[2])
            o["x"], o["q"] = nums(x), nums(q)
            ix = np.random.RandomState(int(t[3])).permutation(len(x))
            o["y"] = num(quiet(u.density_goodness_of_fit, [x[i] for i in ix], [q[i] for i in ix]))
        elif c == "bins":
            x = fl(t[2])
            ends = fl(t[3] if len(t) > 3 else "")
            o["x"], o["n"], o["ends"] = nums(sorted(x)), int(t[1]), nums(ends)
            k, r = u.bin_samples(x, int(t[1]), **({"support": ends} if ends else {}))
            o["c"] = [int(v) for v in k]
            o["lo"], o["hi"] = nums(r[:, 0]), nums(r[:, 1])
        elif c == "hist":
            x = ints(t[2])
            m = int(t[1])
            v = u.histogram(x, m) if m else u.histogram(x)
            o["x"], o["n"] = x, m or max(x) + 1
            o["v"] = [int(i) for i in v]
        elif c == "kl":
            o["s"], o["n"] = num(float(t[1])), t[2]
            o["y"] = num(u.score_to_empirical_kl(float(t[1]), int(t[2])))
        elif c == "calib":      # what n p m
            n, p = int(t[2]), fl(t[3])
            o["what"], o["n"], o["p"] = t[1], n, nums(p)
            o["c"], o["y"] = [], []
            for k in compositions(n, len(p)):
                if t[1] == "multi":
                    y = u.multinomial_goodness_of_fit(p, list(k), n)
                elif t[1] == "cut":
                    m = int(t[4])
                    y = u.multinomial_goodness_of_fit(p[:m], list(k[:m]), n, truncated=True)
                else:
                    xs = list(itertools.chain(*[[i] * k[i] for i in range(len(p))]))
                    y = u.discrete_goodness_of_fit(xs, dict(enumerate(p)), truncate_beyond=int(t[4]))
                o["c"].append(k)
                o["y"].append(num(y))
        else:
            return False
        return True


if __name__ == "__main__":
    py_models.main(lambda name, kv: Runner())
