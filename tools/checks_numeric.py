"""C22, C23: special functions and vector arithmetic against exact mathematics (spec TraceNumeric)."""
import math
import struct
from vlib import *

NUMLIB = ["common", "special", "random", "vector_math"]


def scale(q, t):
    return t if THOROUGH else q


def g(x):
    return "%.9g" % x


def f32(x):
    try:
        return struct.unpack("f", struct.pack("f", x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)


def bits(x):
    b = struct.unpack("I", struct.pack("f", x))[0]
    return b if b < 1 << 31 else -(b & 0x7fffffff)


def unbits(p):
    return struct.unpack("f", struct.pack("I", p if p >= 0 else 0x80000000 | -p))[0]


# ---------------------------------------------------------------------------
# C22
EXACT = {"fast_log": math.log, "fast_exp": math.exp, "fast_lgamma": math.lgamma,
         "fast_lgamma_nu": lambda x: lg_nu(x)}


def lg_nu(x):
    if x > 1e6:      # cancellation: the asymptotic series of ln Gamma(z + 1/2) - ln Gamma(z)
        z = x / 2
        return .5 * math.log(z) - 1 / (8 * z) + 1 / (192 * z ** 3)
    return math.lgamma(x / 2 + .5) - math.lgamma(x / 2)


def cell(f, lo, hi):
    """The cubic through four equidistant points of f on [lo, hi], in t = (x - lo) / (hi - lo)."""
    w = hi - lo
    y = [EXACT[f](lo + w * i / 3) for i in range(4)]
    d1, d2, d3 = y[1] - y[0], y[2] - 2 * y[1] + y[0], y[3] - 3 * y[2] + 3 * y[1] - y[0]
    # Newton form in u = 3 t
    c = [y[0], 3 * (d1 - d2 / 2 + d3 / 3), 9 * (d2 / 2 - d3 / 2), 27 * d3 / 6]
    return ":".join([g(lo), g(hi), repr(lo), repr(w)] + [repr(x) for x in c])


def octaves(lo, hi, parts):
    """Cuts of [lo, hi] at the powers of two and at `parts` equal steps between them."""
    e = math.floor(math.log2(lo))
    cuts = [f32(lo)]
    while 2.0 ** e < hi:
        for i in range(parts):
            x = f32(2.0 ** e * (1 + i / parts))
            if lo < x < hi:
                cuts.append(x)
        e += 1
    return cuts + [f32(hi)]


def sweeps(f, cuts, step, rel=False, per=60):
    cs = [cell(f, a, b) for a, b in zip(cuts, cuts[1:]) if a < b]
    return ["session num f=cc\nsweep %s %d %s %s\n" % (f, step, "rel" if rel else "abs", " ".join(cs[i:i + per]))
            for i in range(0, len(cs), per)]


MIN, MAX = 1.17549436e-38, 3.40282347e38
# switch-over points and ends of the tables, besides every power of two
KNOTS = {"fast_log": [1, MIN, MAX, .5, 2, math.e],
         "fast_exp": [0, -87.3, 88.7, -87.2999, 88.6999, -88, 89, 1, -1, math.log(2), -math.log(2)],
         "fast_lgamma": [2.5, 1, 2, 3, MIN, 4294967295.0, 4294967296.0, 1e36, 64, 65],
         "fast_lgamma_nu": [.0625, .25, 1, 4, 16, 64, MIN, 4294967295.0, 4294967296.0, 1e36]}


def around(x, d=2):
    b = bits(f32(x))
    return [unbits(b + i) for i in range(-d, d + 1)]


def points(r, f, n):
    lo, hi = {"fast_log": (MIN, MAX), "fast_exp": (-150, 150)}.get(f, (MIN, 1e36))
    xs = [x for k in KNOTS[f] for x in around(k)]
    if f == "fast_exp":
        xs += [r.uniform(-87.3, 88.7) for _ in range(n)] + [r.choice([-1, 1]) * 10 ** r.uniform(-38, 0) for _ in range(n // 4)]
        xs += [-1e4, -3e38, 1e4, 3e38]
    else:
        xs += [x for e in range(-126, 119 if f != "fast_log" else 128) for x in around(2.0 ** e, 1)]
        xs += [math.exp(r.uniform(math.log(lo), math.log(hi))) for _ in range(n)] + [r.uniform(.01, 20) for _ in range(n)]
    return [g(f32(x)) for x in xs if lo <= f32(x) <= hi or f == "fast_exp"] + (["-inf"] if f == "fast_exp" else [])


def s_fn(f, xs, fl="cc", per=400):
    return ["session num f=%s\n%s\n" % (fl, "\n".join("fn %s %s" % (f, " ".join(xs[j:j + 40])) for j in range(i, min(i + per, len(xs)), 40)))
            for i in range(0, len(xs), per)]


def logu(r, a, b):
    return math.exp(r.uniform(math.log(a), math.log(b)))


def tuples(r, f, n):
    out = []
    for k in range(n):
        if f in ("log_sum_exp", "fast_log_sum_exp"):
            x = r.choice([0, 1e3, -1e3, -5e5, 1e37, -3e38, r.uniform(-90, 90)])
            y = r.choice([x, x + r.uniform(-5, 5), x - r.uniform(0, 200), x - 87.3, x - 16, 0])
            t = [x, y]
            if k % 9 == 0:
                t[r.randrange(2)] = -math.inf
            if k % 50 == 1:
                t = [-math.inf, -math.inf]
            r.shuffle(t)
        elif f in ("log_beta", "fast_log_beta"):
            t = [logu(r, 1e-6, 1e6), logu(r, 1e-6, 1e6)]
            if k % 12 == 0:
                t[r.randrange(2)] = r.choice([0, -1, -.5])
            elif k % 12 == 1:
                t = [r.choice([.5, 1, 2, 2.5, 3, 64]), r.choice([.5, 1.5, 2.5, 1e-3, 1e9])]
        elif f in ("log_binom", "fast_log_binom"):
            a = r.choice([0, 1, 2, 5, 63, 64, 100, 5000, 1e6])
            t = [a, float(r.choice([0, a, a // 2, r.randrange(int(a) + 1)]))]
        elif f == "lmultigamma":
            d = r.choice([1, 2, 3, 5, 8])
            t = [d, (d - 1) / 2 + logu(r, .01, 1e5)]
        else:
            nu, lam = logu(r, .01, 1e6), logu(r, 1e-3, 1e3)
            mu = r.choice([0, r.uniform(-10, 10)])
            t = [mu + r.choice([0, 1, -1, 30, r.gauss(0, 1), 1e4]) / math.sqrt(lam), nu, mu, lam]
        out.append(",".join(g(f32(x)) for x in t))
    return out


def c22(rep):
    b = build_cc(["main", "numeric"], "numeric", lib=NUMLIB)
    r = rng("C22")
    cc = Conformance(rep, "TraceNumeric", ["C22"], lambda s: run_script(b, s), weight=lambda ev: sum(map(len, ev)))
    q = lambda quick: 1 if THOROUGH else quick
    sw = sweeps("fast_log", octaves(MIN, MAX, 8), q(5)) \
        + sweeps("fast_exp", [f32(-87.3 + i * .125) for i in range(int(176 / .125))] + [f32(88.7)], q(29), True) \
        + sweeps("fast_lgamma", octaves(MIN, 2.5, 8), q(37)) + sweeps("fast_lgamma", octaves(2.5, 1e36, 8), q(3)) \
        + sweeps("fast_lgamma_nu", octaves(MIN, 1e36, 8), q(7))
    cc.check(sw, "C22-sweep")
    pts = []
    for f in KNOTS:
        pts += s_fn(f, points(r, f, scale(150, 6000)))
    pts += s_fn("eric_log", points(r, "fast_log", scale(50, 500)))
    for f in ["log_beta", "fast_log_beta", "log_binom", "fast_log_binom", "lmultigamma", "score_student_t", "fast_score_student_t"]:
        pts += s_fn(f, tuples(r, f, scale(120, 4000)))
    ns = sorted(set(list(range(0, 140)) + [4294967295, 4294967294, 4294967293, 2 ** 31, 2 ** 24 - 1, 2 ** 24 + 1]
                    + [2 ** k + d for k in range(6, 32) for d in (-2, -1, 0, 1)] + [r.randrange(2 ** 32) for _ in range(scale(50, 2000))]))
    pts += s_fn("fast_log_factorial", [str(n) for n in ns])
    rows = list(range(0, 41)) + [63, 64, 65, 66, 100, 128, 200, 300]
    how = ["vector", "aligned", "value"]
    st = ["session num f=cc\nstirling %s %d %d\n" % (how[(i + k) % 3], n, r.choice([0, 1, n, n + 1, n + 50, 3]))
          for i, n in enumerate(rows) for k in range(scale(1, 3))]
    # rows in other orders: what a row is does not depend on which rows were asked for before
    for _ in range(scale(4, 30)):
        st.append("session num f=cc\n" + "\n".join("stirling %s %d %d" % (r.choice(how), r.choice([0, 1, 2, 5, 17, 31, 32, 33, 40]), r.choice([0, 40]))
                                                    for _ in range(6)) + "\n")
    # long rows: beyond every width an index or a product of indices could be kept in
    big = [1000, 4095, 46340, 46341, 46342, 65535, 65536, 65537, 92682, 131072] + [r.randrange(400, 200000) for _ in range(scale(3, 30))]
    for n in big + scale([], [1 << 20, (1 << 21) + 1]):
        ks = sorted(set([0, 1, 2, 3, n // 2, n - 3, n - 2, n - 1, n] + [r.randrange(n + 1) for _ in range(6)]))
        st.append("session num f=cc\nbigrow %d %s\n" % (n, " ".join(map(str, ks))))
    cc.check(pts + st, "C22-cc")
    build_py()
    py = Conformance(rep, "TraceNumeric", ["C22"], lambda s: run_py("py_numeric.py", s), weight=lambda ev: sum(map(len, ev)))
    ps = []
    for f in ("fast_log", "fast_lgamma", "fast_lgamma_nu"):
        ps += s_fn(f, points(r, f, scale(40, 1000)), "lp")
    ps += s_fn("gammaln", points(r, "fast_lgamma", scale(40, 1000)), "dbg")
    ps += ["session num f=lp\nstirling value %d 0\n" % n for n in (0, 1, 2, 3, 5, 8, 16, 31, 32, 33, 64, 100)]
    py.check(ps, "C22-py")


# ---------------------------------------------------------------------------
# C23
OPS = {"zero": "", "shift": "s", "scale": "s", "negate": "", "add": "1", "negate_and_add": "1", "add_add": "12",
       "add_subtract": "12", "add_subtract1": "2s", "multiply_add": "12", "exp": "e", "log": "p", "lgamma": "p", "lgamma_nu": "p",
       "exp2": "1e", "log2": "1p", "lgamma2": "1p", "lgamma_nu2": "1p", "min": "", "max": "", "sum": "", "dot": "1"}


def values(r, n, kind):
    style = r.choice(["unit", "wide", "ints", "same"])
    base = r.uniform(-50, 50)
    out = []
    for i in range(n):
        if kind == "p":
            x = logu(r, *r.choice([(.01, 100), (1e-30, 1e30), (2.4, 2.6), (.06, .065)]))
        elif kind == "e":
            x = r.choice([r.uniform(-5, 5), r.uniform(-87, 88), -87.3, -88, 0, -1e5])
        elif style == "unit":
            x = r.uniform(-1, 1)
        elif style == "wide":
            x = r.choice([-1, 1]) * logu(r, 1e-15, 1e15)
        elif style == "ints":
            x = r.randrange(-9, 10)
        else:
            x = base
        out.append(f32(x))
    return out


def vecline(r, op, n):
    k = OPS[op]
    kind = "e" if "e" in k else "p" if "p" in k else ""
    two = op in ("exp2", "log2", "lgamma2", "lgamma_nu2")
    vs = {"io": values(r, n, "" if two else kind)}
    if "1" in k:
        vs["in1"] = values(r, n, kind)
    if "2" in k:
        vs["in2"] = values(r, n, "")
    o = "vec %s %d:%d:%d " % (op, r.randrange(9), r.randrange(9), r.randrange(9))
    o += " ".join("%s=%s" % (a, ",".join(map(g, v))) for a, v in vs.items())
    if "s" in k:
        o += " s=" + g(f32(r.choice([0, 1, -1, r.uniform(-10, 10), 1e-10, 1e12])))
    return o


def s_vec(r, lengths, fl="cc"):
    out = []
    for op in OPS:
        ns = [n for n in lengths if n or op not in ("min", "max")]
        out += ["session num f=%s\n%s\n" % (fl, "\n".join(vecline(r, op, n) for n in ns[i:i + 40])) for i in range(0, len(ns), 40)]
    return out


def score_list(r, n):
    style = r.choice(["near", "far", "huge", "inf", "equal", "allinf", "max", "crowd"])
    base = r.choice([0, 0, -5, 1000, -1e4, 12345.678, -3e6, 3e6, -1e30, 1e30])
    s = []
    low = r.uniform(-17, -3)       # a crowd: one on top, what the rest weigh together depends on their number
    if style == "crowd":
        base = r.choice([0, -5, 300])
    for i in range(n):
        if style == "crowd":
            s.append(base + low + r.choice([0, r.uniform(-.5, .5)]))
        elif style == "allinf" or (style == "inf" and r.random() < .5):
            s.append(-math.inf)
        elif style == "near":
            s.append(base + r.uniform(-3, 3))
        elif style == "equal":
            s.append(base)
        elif style == "huge":
            s.append(r.choice([-1, 1]) * logu(r, 1, 1e37))
        elif style == "max":
            s.append(r.choice([-3.4e38, 0, 100, -100]))
        else:
            s.append(base + r.choice([0, -20, -60, -87.3, -100, 5, r.uniform(-120, 2)]))
    if style == "crowd" and s:
        s[r.randrange(n)] = base
    return ",".join(g(f32(x)) for x in s)


def s_scores(r, kinds, fl, how=("plain", "aligned"), n=12):
    lines = ["session num f=" + fl]
    for _ in range(n):
        k = r.choice(kinds)
        m = r.choice([0, 1, 1, 2, 3, 4, 5, 7, 8, 9, 16, 31, 33])
        if r.random() < .06:
            m = r.choice([64, 255, 256, 257, 1000, 3000])
        if k != "lse":
            m = max(m, 1)
        h = r.choice(how)
        ss = ",".join(str(r.choice([0, -1, 7, -40, r.randrange(-1000, 1000)])) for _ in range(m)) if h == "whole" else score_list(r, m)
        lines.append("scores %s %s %s" % (k, h, ss))
    return "\n".join(lines) + "\n"


def c23(rep):
    b = build_cc(["main", "numeric"], "numeric", lib=NUMLIB)
    a = build_cc(["main", "numeric"], "numeric", "asan", lib=NUMLIB)
    r = rng("C23")
    w = lambda ev: sum(map(len, ev))
    cc = Conformance(rep, "TraceNumeric", ["C23"], lambda s: run_script(b, s), weight=w)
    sc = []
    for f in ("log_sum_exp", "fast_log_sum_exp"):
        sc += s_fn(f, tuples(r, f, scale(200, 4000)))
    sc += [s_scores(r, ["lse", "likelihoods", "probs"], "cc") for _ in range(scale(40, 1500))]
    for _ in range(scale(1, 20)):
        sc += s_vec(r, list(range(0, 42)) + [47, 48, 49, 63, 64, 65, 100, 127, 128, 129, 257, 511, 512, 513, 1023, 1025, 4096, 5003])
    cc.check(sc, "C23-cc")
    # the same operations with every access checked
    asan = Conformance(rep, "TraceNumeric", ["C23"], lambda s: run_script(a, s), weight=w)
    sc = s_vec(r, list(range(0, 20)) + [31, 32, 33, 64, 65])
    sc += [s_scores(r, ["lse", "likelihoods", "probs"], "cc") for _ in range(scale(6, 60))]
    asan.check(sc, "C23-asan")
    build_py()
    py = Conformance(rep, "TraceNumeric", ["C23"], lambda s: run_py("py_numeric.py", s), weight=w)
    py.check([s_scores(r, ["lse"], "lp") for _ in range(scale(12, 300))]
             + [s_scores(r, ["probs"], "dbg", ("plain", "aligned", "whole")) for _ in range(scale(12, 300))], "C23-py")


CHECKS = {"C22": c22, "C23": c23}
