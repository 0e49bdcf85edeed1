"""C27: what the goodness-of-fit tools say about samples (spec GoodnessOfFit, TestDesign, TraceGoodness)."""
import math
from vlib import *


def scale(q, t):
    return t if THOROUGH else q


def js(xs):
    return ",".join(repr(x) if isinstance(x, float) else str(x) for x in xs) or "-"


def simplex(r, k):
    w = [r.choice([1, 1, 2, 3, 5, 10, 30]) * r.random() + .02 for _ in range(k)]
    return [x / sum(w) for x in w]


def deal(r, p, n):
    """Counts near n p, or from another law, or with everything in one place."""
    how = r.choice(["law", "law", "law", "off", "one"])
    if how == "one":
        c = [0] * len(p)
        c[r.randrange(len(p))] = n
        return c
    q = simplex(r, len(p)) if how == "off" else p
    c, left, mass = [], n, 1.
    for x in q:
        f = min(max(x / mass, 0), 1) if mass > 1e-12 else 0
        k = min(left, max(0, int(round(r.gauss(left * f, math.sqrt(max(left * f * (1 - f), 0)))))))
        c.append(k)
        left -= k
        mass -= x
    c[-1] += left
    return c


def ok(p, n):
    return all(x == 0 or n * x * (1 - x) > 1.05 for x in p)


def multi(r):
    while True:
        n = r.choice([10, 25, 60, 101, 1000, 4096, 65537, 100000, 1000000])
        k = r.choice([2, 2, 3, 3, 4, 5, 7, 8, 12, 19])
        p = simplex(r, k)
        if not ok(p, n):
            continue
        c = deal(r, p, n)
        t = r.random() < .4
        if t:
            m = r.randrange(1, k)
            p, c = p[:m], c[:m]
        if r.random() < .15:
            i = r.randrange(len(p) + 1)
            p.insert(i, 0.)
            z = int(r.random() < .4 and c[0 if i else -1] > 0)
            c.insert(i, z)
            if z and not t:
                j = max(range(len(c)), key=lambda j: c[j] if j != i else -1)
                c[j] -= 1
            if not t and sum(c) != n:
                continue
        return "multi %s %d %d %d %s %s" % (r.choice(["list", "array"]), t, r.random() < .1, n, js(p), js(c))


def certain(r):
    n = r.choice([1, 5, 100])
    k = r.choice([1, 2, 3])
    i = r.randrange(k)
    c = [0] * k
    c[r.choice([i, i, r.randrange(k)])] = n
    return "multi list 0 0 %d %s %s" % (n, js([1. if j == i else 0. for j in range(k)]), js(c))


def discrete(r):
    while True:
        k = r.choice([2, 3, 5, 8, 9, 10, 15])
        n = r.choice([101, 150, 400, 1500])
        ties = r.random() < .3
        p = simplex(r, k)
        if ties:
            k = r.choice([3, 4, 5, 6])
            p = r.choice([[1. / k] * k, simplex(r, 1 + r.randrange(k - 1))])
            if len(p) < k:      # some share equally what is left
                p = [.5 * x for x in p] + [.5 / (k - len(p))] * (k - len(p))
        m = r.choice([1, 2, 3, k - 1]) if ties else r.choice([0, 1, 2, 3, 5, 8, 8, 8, 20])
        top = sorted(p, reverse=True)[:m or k]
        if not ok(top, n) or any(x > .999 for x in top):
            continue
        ks = r.sample(range(-5, 1000), k)
        q = p if r.random() < .7 else simplex(r, k)
        xs = r.choices(ks, q, k=n)
        return "discrete %d %s %s %s %s %d" % (m, "-" if m == 8 and r.random() < .7 else "m", js(ks), js(p), js(xs), k if ties else 1)


def unif01(r):
    n = r.choice([300, 343, 500, 1000, 1500])
    p = r.choice([1, 1, .8, 1.5])
    xs = [r.random() ** p for _ in range(n)]
    for v in (0., 1.):
        if r.random() < .5:
            xs[r.randrange(n)] = v
    return "unif01 " + js(xs)


def density(r):
    n = r.choice([300, 500, 1000])
    s = r.choice([1., 1., 1e-3, 50.])
    if r.random() < .5:
        f, x = (lambda x: math.exp(-x * x / 2) / math.sqrt(2 * math.pi)), [r.gauss(0, 1) for _ in range(n)]
    else:
        f, x = (lambda x: math.exp(-x)), [r.expovariate(1) for _ in range(n)]
    w = r.choice([1, 1, 1.3, .1])
    x = sorted(set(x))
    return "density %s %s %d" % (js([s * w * v for v in x]), js([f(v) / s for v in x]), r.randrange(1000))


def bins(r):
    n = r.choice([1, 2, 5, 10, 37, 100, 101, 257])
    k = r.choice([1, 2, 3, 7, 10, 10])
    k = min(k, n)
    x = r.sample([i / 8. for i in range(-2000, 2000)], n)
    ends = r.random() < .3
    return "bins %d %s %s" % (k, js(x), js([-1e3, 1e3]) if ends else "-")


def hist(r):
    m = r.choice([0, 1, 5, 20])
    x = [r.randrange(m or 9) for _ in range(r.choice([1, 2, 10, 200]))]
    return "hist %d %s" % (m, js(x))


def kl(r):
    return "kl %r %d" % (r.choice([-1, 1]) * 10 ** r.uniform(-3, 6), r.choice([1, 2, 10, 1000, 2 ** 31, r.randrange(1, 10 ** 6)]))


CALIB = ["multi %d %s" % (n, js(p)) for n in (60, 100, 173) for p in ([.5, .5], [.3, .7], [.8, .2], [.15, .85])] \
    + ["multi %d %s" % (n, js(p)) for n in (40, 60) for p in ([.25, .25, .5], [.5, .3, .2], [.34, .33, .33])] \
    + ["cut %d %s %d" % (n, js(p), m) for n in (40, 60) for p in ([.25, .25, .5], [.5, .3, .2], [.4, .3, .3]) for m in (1, 2)] \
    + ["multi 30 %s" % js([.25] * 4), "cut 30 %s 2" % js([.25] * 4)]
TIES = ["discrete 101 %s %d" % (js(p), m) for p, m in (([1 / 3.] * 3, 1), ([1 / 3.] * 3, 2), ([.5, .25, .25], 2), ([.2, .4, .4], 1), ([.6, .4], 8))]


def c27(rep):
    build_py()
    r = rng("C27")
    for k, n, parts in ((2, scale(60, 120), 10), (3, scale(40, 70), 6)) + scale((), ((4, 30, 6),)):
        cfg = "SPECIFICATION Spec\nCONSTANTS\n N = %d\n K = %d\n Parts = %d\n Denominator = \"mean\"\n" % (n, k, parts) \
            + "".join("INVARIANT %s\n" % i for i in ("Proper", "PerfectFit", "LawSumsToOne", "HonestTest", "UsefulTest")) + "CHECK_DEADLOCK FALSE\n"
        rep.add_stats(model_check("TestDesign", cfg, "C27-design"))
    # sensitivity witness: squared deviations over the variance reject the truth far too often
    s = model_check("TestDesign", cfg.replace('"mean"', '"variance"').replace("K = %d" % k, "K = 2"), "C27-witness", expect=True)
    if s["rc"] == 0 or "HonestTest is violated" not in s["out"]:
        raise CheckError("the witness of C27 is not violated: " + s["out"][-1500:])
    py = Conformance(rep, "TraceGoodness", ["C27"], lambda s: run_py("py_gof.py", s), weight=lambda ev: sum(map(len, ev)))
    sc = []
    for i in range(scale(24, 400)):
        ls = ["session gof f=dbg"] + [multi(r) for _ in range(12)] + [certain(r)] + [discrete(r) for _ in range(3)] \
            + [unif01(r), density(r)] + [bins(r) for _ in range(4)] + [hist(r), kl(r), kl(r)]
        r.shuffle(ls[1:])
        sc.append("\n".join(ls) + "\n")
    cal = CALIB + TIES if THOROUGH else r.sample(CALIB, 12) + TIES[:1] + r.sample(TIES[1:], 1)
    sc += ["session gof f=dbg\ncalib %s\n" % c for c in cal]
    py.check(sc, "C27-py")
    rep.cov["calibrated"] = len(cal)


CHECKS = {"C27": c27}
