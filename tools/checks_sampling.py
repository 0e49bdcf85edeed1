"""Samplers: C17 (discrete), C26 (urns), part of C18 (continuous)."""
from vlib import *

LIB4 = ["common", "special", "random", "vector_math"]
M = 2147483647
AI = pow(16807, M - 2, M)


def scale(q, t):
    return t if THOROUGH else q


def runner(kind, binary=None):
    if kind == "cc":
        return lambda s: run_script(binary, s)
    return lambda s: run_py("py_sampling.py", s)


def g(x):
    return "%.9g" % x


def weights(r, n, zeros=True):
    style = r.choice(["even", "wild", "tiny", "one"])
    w = []
    for i in range(n):
        if zeros and r.random() < .3:
            w.append(0.0)
        elif style == "even":
            w.append(r.randrange(1, 9) / 8)
        elif style == "wild":
            w.append(10 ** r.uniform(-6, 3))
        elif style == "tiny":
            w.append(10 ** r.uniform(-12, -7))
        else:
            w.append(1e-7 if r.random() < .8 else 1.0)
    if not any(w):
        w[r.randrange(n)] = r.choice([1.0, .25, 3e-5])
    return w


def scores(r, n):
    style = r.choice(["near", "far", "huge", "inf"])
    base = r.choice([0, 0, -5, 1000, -1e4, 12345.678, -3e6, 3e6])
    s = []
    for i in range(n):
        if style == "inf" and r.random() < .4:
            s.append("-inf")
        elif style == "near":
            s.append(g(base + r.uniform(-3, 3)))
        elif style == "far":
            s.append(g(base + r.choice([0, -20, -60, -100, 5])))
        else:
            s.append(g(base + r.uniform(-150, 2)))
    if all(x == "-inf" for x in s):
        s[r.randrange(n)] = g(base)
    return s


def lik_of(s):
    v = [float(x) for x in s]
    m = max(v)
    return [math.exp(max(x - m, -800)) if x > -math.inf else 0.0 for x in v]


import math


def points(w):
    """values of u on both sides of every boundary, and the ends"""
    t, c, us = sum(w), 0.0, [1, M - 1, 2, M - 2]
    for x in w:
        c += x
        for d in (-1e-5, 1e-5, -0.3 * x / t):
            u = c / t + d
            if 0 < u < 1:
                us.append(1 + int(u * (M - 2)))
    return us


def seed_for(nxt):
    return AI * nxt % M


def s_discrete(r, f):
    n = r.choice([1, 2, 3, 3, 5, 8, 17, 40])
    if r.random() < .06:
        n = r.choice([64, 255, 256, 257, 600, 1000])
    lines = ["session samp f=%s" % f]
    cmds = {"cc": ["disc", "lik", "likt", "probs", "scores", "scoreso", "sprob", "cat"],
            "lp": ["disc", "sprob"], "dbg": ["lik", "probs", "scores"]}[f]
    if f == "cc":
        lines.append("vec " + r.choice(["std", "aligned"]))
    c = r.choice(cmds)
    if c in ("scores", "scoreso", "sprob"):
        a = scores(r, n)
        w = lik_of(a)
    else:
        w = weights(r, n)
        t = sum(w)
        if c in ("disc", "probs", "cat"):
            w = [x / t for x in w]
            if f != "dbg" and c != "cat":      # single precision: keep the sum near one
                w = [float(g(x)) for x in w]
        a = [repr(x) if c == "cat" or f == "dbg" else g(x) for x in w]
        if c == "likt":
            a = [g(sum(w))] + a
    us = points(w)
    r.shuffle(us)
    for u in us[:scale(25, 60) if n < 50 else 6]:
        if f == "dbg" or c == "cat":
            lines.append("state %d" % r.randrange(1, M))
        else:
            lines.append("state %d" % seed_for(u))
        lines.append(c + " " + " ".join(a))
    if n <= 17:
        k = {"cc": 4000, "lp": 400, "dbg": 0}[f]
        if k and c != "cat":
            lines.append("grid %d %d %s %s" % (k, n, c, " ".join(a)))
        lines.append("state %d" % r.randrange(1, M))
        lines.append("freq %d %d %s %s" % ({"cc": 20000, "lp": 3000, "dbg": 2000}[f], n, c, " ".join(a)))
    if c == "sprob" and f in ("cc", "lp"):
        for i in range(n) if n < 50 else r.sample(range(n), 5):
            lines.append("%s %d %s" % ("sfs" if f == "cc" else "pfs", i, " ".join(a)))
    return "\n".join(lines) + "\n"


def s_bern(r, f):
    lines = ["session samp f=%s" % f]
    for p in [0, 1, .5, r.random(), r.random() ** 6, 1 - r.random() ** 6]:
        p = float(g(p))
        if f == "cc":
            for u in points([p, 1 - p]):
                lines += ["state %d" % seed_for(u), "bern " + g(p)]
            lines.append("grid 5000 2 bern " + g(p))
        lines += ["state %d" % r.randrange(1, M), "freq %d 2 bern %s" % (50000 if f == "cc" else 1000, g(p))]
    return "\n".join(lines) + "\n"


def design(rep, b):
    """every case of the whole-number model, replayed through sample_from_likelihoods and sample_discrete"""
    cfg = ("SPECIFICATION Spec\nCONSTANTS MaxN = %d MaxW = %d Emit = TRUE\nINVARIANTS Inverts NoFallThrough Remaining Show\n"
           "PROPERTY Done\nCHECK_DEADLOCK FALSE\n" % scale((4, 3), (5, 3)))
    s = model_check("SamplerDesign", cfg, "SamplerDesign", workers="1")
    rep.add_stats(s)
    cases = [json.loads(m.group(1).replace('\\"', '"')) for m in re.finditer(r'(?m)^"?CASE (\{.*\})"?$', s["out"])]
    if not cases:
        raise CheckError("no cases")
    scripts = []
    for k in range(0, len(cases), 40):
        lines = ["session samp f=cc"]
        for c in cases[k:k + 40]:
            t = sum(c["w"])
            lines.append("next %d" % (1 + int((c["k"] + .5) / t * (M - 2))))
            lines.append("lik " + " ".join(map(str, c["w"])))
            lines.append("next %d" % (1 + int((c["k"] + .5) / t * (M - 2))))
            lines.append("disc " + " ".join(g(x / t) for x in c["w"]))
        scripts.append("\n".join(lines) + "\n")
    log("design model: %d cases" % len(cases))
    return scripts


def c17(rep):
    b = build_cc(["main", "sampling"], "sampling", lib=LIB4)
    r = rng("C17")
    cc = Conformance(rep, "TraceSampling", ["C17"], runner("cc", b))
    cc.check(design(rep, b), "C17-design")
    cc.check([s_discrete(r, "cc") for _ in range(scale(250, 8000))] + [s_bern(r, "cc") for _ in range(scale(8, 100))], "C17-cc")
    build_py()
    py = Conformance(rep, "TraceSampling", ["C17"], runner("py"))
    py.check([s_discrete(r, "lp") for _ in range(scale(50, 1500))] + [s_discrete(r, "dbg") for _ in range(scale(25, 600))]
             + [s_bern(r, "dbg") for _ in range(scale(2, 20))], "C17-py")


def s_urn(r, f, n):
    lines = ["session samp f=%s" % f]
    items = " ".join(str(i) for i in range(n))
    if f == "cc":
        lines += ["urn " + items] * 5
        if n:
            lines += ["grid %d %d urn %s" % (97 * n, n, items), "state %d" % r.randrange(1, M), "freq %d %d urn %s" % (scale(40000, 400000), n, items)]
    for _ in range(12):
        lines += ["state %d" % r.choice([seed_for(1), seed_for(M - 1), r.randrange(1, M)]), "pair " + items]
    if n >= 2:
        lines += ["state %d" % r.randrange(1, M),
                  "freq %d %d pair %s" % ({"cc": 4000, "lp": 400}[f] * n * n, n * n, items)]
    return "\n".join(lines) + "\n"


def s_int(r):
    lo = r.choice([0, 0, -3, 5, 1000])
    n = r.choice([1, 2, 3, 7, 10, 64])
    return "\n".join(["session samp f=cc", "int %d %d" % (lo, lo + n - 1), "grid %d %d int %d %d" % (101 * n, n, lo, lo + n - 1),
                      "state %d" % r.randrange(1, M), "freq %d %d int %d %d" % (scale(40000, 400000), n, lo, lo + n - 1)]) + "\n"


def s_bigurn(r, k):
    lines = ["session samp f=cc"]
    for how in ("urn", "first", "second", "int"):
        n = r.choice([1000, 65537, (1 << 24) + 3, 1 << 26, r.randrange(10 ** 5, 6 * 10 ** 7)]) if k % 2 else 1 << 26
        lo = 0
        if how == "int":
            n = r.choice([n, (1 << 31) - 1, 3 << 29])
            lo = r.choice([0, -5, -(1 << 30)] if n < 1 << 30 else [0])
        lines += ["state %d" % r.randrange(1, M), "bigurn %s %d %d %d %s" % (how, n, scale(20000, 200000), lo, "2,3,7,16")]
    return "\n".join(lines) + "\n"


def c26(rep):
    b = build_cc(["main", "sampling"], "sampling", lib=LIB4)
    r = rng("C26")
    cc = Conformance(rep, "TraceSampling", ["C26"], runner("cc", b))
    ns = [0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 16]
    cc.check([s_urn(r, "cc", n) for n in ns for _ in range(scale(2, 40))] + [s_int(r) for _ in range(scale(20, 400))]
             + [s_bigurn(r, k) for k in range(scale(4, 40))], "C26-cc")
    build_py()
    py = Conformance(rep, "TraceSampling", ["C26"], runner("py"))
    py.check([s_urn(r, "lp", n) for n in [2, 3, 4, 5, 8] for _ in range(scale(1, 10))], "C26-lp")


CHECKS = {"C17": c17, "C26": c26}


# ---------------------------------------------------------------------------
# C18: samplers of continuous laws and of the models
from gen_models import SPECS, Builder, f32 as to32, logu, short  # noqa: E402
import checks_models as cm  # noqa: E402


def spd(r, d):
    a = [[r.gauss(0, .5) for _ in range(d)] for _ in range(d)]
    return [[to32(float("%.4g" % (sum(a[i][k] * a[j][k] for k in range(d)) + (.5 if i == j else 0)))) for j in range(d)]
            for i in range(d)]


def quad(w, S):
    return sum(w[i] * S[i][j] * w[j] for i in range(len(w)) for j in range(len(w)))


def cuts(r, draw, extra=()):
    """thresholds spread over the law that draw() follows, and far out on both sides"""
    xs = sorted(draw() for _ in range(2400))
    th = [xs[i] for i in (0, 5, 24, 90, 240, 700, 1200, 1700, 2160, 2310, 2376, 2394, 2399)] + list(extra)
    return ",".join(g(x) for x in th)


def student(r, nu):
    return r.gauss(0, 1) / math.sqrt(r.gammavariate(nu / 2, 2) / nu)


def negbin(r, p, n):
    k = 0
    for _ in range(n):
        while r.random() >= p:
            k += 1
    return k


def poisson(r, mean):
    if mean > 50:
        return max(0, round(r.gauss(mean, math.sqrt(mean))))
    k, t = 0, r.expovariate(1)
    while t < mean:
        k += 1
        t += r.expovariate(1)
    return k


def cont_case(r, d):
    """(thresholds, parameters) of one continuous sampler"""
    pos = lambda a=.05, b=50: short(logu(r, a, b))
    if d == "unif":
        return cuts(r, r.random, (0, 1)), {}
    if d == "stdnormal":
        return cuts(r, lambda: r.gauss(0, 1)), {}
    if d in ("normal", "hnormal"):
        m, v = short(r.uniform(-20, 20)), pos(.01, 100)
        return cuts(r, lambda: r.gauss(m, math.sqrt(v))), {"mean": m, "var": v}
    if d in ("chisq", "hchisq"):
        nu = pos(.3, 60)
        return cuts(r, lambda: r.gammavariate(nu / 2, 2)), {"nu": nu}
    if d in ("gamma", "hgamma"):
        a, b = pos(.05, 40), pos()
        return cuts(r, lambda: r.gammavariate(a, b)), {"a": a, "b": b}
    if d == "gamma1":
        a = pos(.05, 40)
        return cuts(r, lambda: r.gammavariate(a, 1)), {"a": a}
    if d == "beta":
        a, b = r.choice([(pos(.1, 30), pos(.1, 30)), (1, pos()), (.001, .003), (.01, .02)])
        return cuts(r, lambda: r.random(), (1e-4, .01, .99)), {"a": a, "b": b}
    if d == "betas":
        a, b, m = pos(.1, 30), pos(.1, 30), r.choice([0, 1e-6, .01])
        return cuts(r, lambda: r.betavariate(a, b)), {"a": a, "b": b, "min": m}
    if d in ("poisson", "hpoisson"):
        m = pos(.05, 200)
        return cuts(r, lambda: poisson(r, m)), {"mean": m}
    if d == "nb":
        p, n = short(r.uniform(.05, .95)), r.choice([1, 2, 5, 12])
        return cuts(r, lambda: negbin(r, p, n)), {"p": p, "rr": n}
    if d in ("dir", "dirs", "hdir"):
        n = r.choice([2, 3, 5, 9, 20])
        k = r.random()
        al = [pos(.05, 20) for _ in range(n)] if k < .5 else [1] * n if k < .65 else \
            [float("%.2g" % logu(r, .0005, .02)) for _ in range(n)] if k < .85 and d != "hdbg" else [pos(.001, 10) for _ in range(n)]
        w = [r.choice([0, 1]) for _ in range(n)]
        w[r.randrange(n)] = 1
        o = {"alphas": ",".join(map(g, al)), "w": ",".join(map(str, w))}
        if d == "dirs":
            o["min"] = r.choice([0, 1e-6, 1e-3])
        return cuts(r, r.random, (.001, .05, .95, .999)), o
    n = r.choice([1, 2, 3, 4])
    w = [r.choice([0, 1, -1, short(r.uniform(-2, 2), 2)]) for _ in range(n)]
    w[r.randrange(n)] = 1
    S = spd(r, n)
    q = quad(w, S)
    mu = [short(r.uniform(-3, 3), 3) for _ in range(n)]
    base = {"w": ",".join(map(g, w)), "S": ",".join(g(x) for row in S for x in row)}
    m = sum(a * b for a, b in zip(w, mu))
    nu = n + r.choice([1, 2, 3, 7])
    dof = nu - n + 1
    lam = pos(.2, 10)
    if d == "mvn":
        return cuts(r, lambda: r.gauss(m, math.sqrt(q))), dict(base, mu=",".join(map(g, mu)))
    if d == "wishart":
        return cuts(r, lambda: q * r.gammavariate(nu / 2, 2)), dict(base, nu=nu)
    if d == "iwishart":
        return cuts(r, lambda: q / r.gammavariate(dof / 2, 2)), dict(base, nu=nu)
    o = dict(base, mu=",".join(map(g, mu)), nu=nu)
    o["lambda"] = lam
    if d == "niwcov":
        return cuts(r, lambda: q / r.gammavariate(dof / 2, 2)), o
    s = q / (lam * dof) if d == "niwmu" else q * (1 + lam) / (lam * dof)
    return cuts(r, lambda: m + math.sqrt(s) * student(r, dof)), o


def s_cont(r, f, d, n):
    lines = ["session samp f=%s" % f]
    th, o = cont_case(r, d)
    lines += ["state %d" % r.randrange(1, M), "cdf %d %s %s %s" % (n, d, th, " ".join("%s=%s" % x for x in o.items()))]
    return "\n".join(lines) + "\n"


CONT = {"cc": ["unif", "stdnormal", "normal", "chisq", "gamma", "gamma1", "beta", "betas", "poisson", "nb", "dir", "dirs", "mvn",
               "wishart", "iwishart", "niwmu", "niwcov"],
        "hp": ["hnormal", "hchisq", "hgamma", "hpoisson"],
        "dbg": ["chisq", "gamma", "beta", "poisson", "nb", "iwishart", "niwmu", "niwcov"]}


def s_samp(b, k, n, how):
    """draws from a group with some history"""
    r, m = b.r, b.S.name
    b.new(0)
    heavy = m == "nich" and float(b.sh["nu"]) < 1.6
    for _ in range(r.choice([0, 0, 1] if heavy else [0, 1, 2, 5, 12])):
        b.step(0)
    if r.random() < .3 and not heavy:
        b.new(1)
        b.rep(1)
        b.merge(0, 1)
    b.o("seed", r.randrange(1, 10 ** 6))
    if b.S.discrete:
        sizes = [int(v) * c for v, c in b.bags[0].items()] if m in ("gp", "bnb") else []
        typical = sum(sizes) / max(1, b.size(0)) if sizes else 3
        top = str(int(min(60, 2 * typical + 6))) if m in ("gp", "bnb") else "-"
        b.o("hist", 0, n, how, top)
        small = m in ("bb", "gp", "bnb") or (m == "dd" and b.sh["dim"] <= 9) or (m == "dpd" and len(b.sh["_keys"]) <= 8)
        if small and how != "value":
            b.o("pairs", 0, n, how, str(min(12, int(top))) if top != "-" else "-")
        return
    vals = [[float(x) for x in v.split(",")] for v, c in b.bags[0].items() for _ in range(c)]
    if how == "sgroup":
        vals = []
    if m == "nich":
        w, d, mu0 = "-", 1, [float(b.sh["mu"])]
        wv = [1.0]
    else:
        d = len(b.sh["mu"].split(","))
        mu0 = [float(x) for x in b.sh["mu"].split(",")]
        wv = [short(r.uniform(-1, 1), 2) for _ in range(d)]
        wv[r.randrange(d)] = 1.0
        w = ",".join(map(g, wv))
    ka = float(b.sh["kappa"])
    on = lambda v: sum(a * c for a, c in zip(wv, v))
    xs = [on(v) for v in vals]
    at = (ka * on(mu0) + sum(xs)) / (ka + len(xs))
    sp = math.sqrt((1 + sum((x - at) ** 2 for x in xs)) / (1 + len(xs)))
    for h in ([how] if how in ("value", "sgroup") else ["sampler", "diff", "mean"]):
        c = 0 if h == "diff" else at
        th = [c + sp * t for t in (-1000, -150, -40, -8, -3, -1.5, -.7, -.2, 0, .3, .8, 1.4, 2.5, 6, 30, 200, 2000)]
        b.o("cdfs", 0, n, h, w, ",".join(g(x) for x in th))


def c18(rep):
    b = build_cc(["main", "sampling"], "sampling", lib=LIB4)
    r = rng("C18")
    cc = Conformance(rep, "TraceSampling", ["C18"], runner("cc", b))
    cc.check([s_cont(r, "cc", d, scale(60000, 600000)) for d in CONT["cc"] for _ in range(scale(3, 60))], "C18-cont")
    run = cm.runner(["bb", "dd", "dpd", "gp", "bnb", "nich", "niw", "niw2", "niw3"])
    scripts = []
    for f in ["cc", "dbg", "hp", "lp"]:
        for m in SPECS:
            S = SPECS[m]
            if f not in S.flavours or (f != "cc" and m in ("niw2", "niw3")) or (m == "niw" and f == "dbg"):
                continue      # the debug sampler of niw needs Python 2
            q = rng("C18/%s/%s" % (m, f))
            hows = ["value", "sampler"] + (["sgroup"] if f != "cc" else [])
            for k in range({"cc": scale(8, 120), "dbg": scale(2, 30)}.get(f, scale(3, 40))):
                sh = None
                if m == "dpd" and f != "dbg" and k % 3 == 0:
                    sh = S.shared(q, k)
                    sh["alpha"] = q.choice([.001, .01, .05])
                if m == "bb" and k % 3 == 0:
                    sh = {"alpha": .003, "beta": .01}
                if m == "dd" and f in ("cc", "lp", "hp") and k % 3 == 0:
                    d = q.choice([2, 3, 8])
                    sh = {"alphas": ",".join(q.choice(["0.001", "0.004", "0.02"]) for _ in range(d)), "dim": d}
                if m == "nich" and k % 3 != 1:      # heavy tails
                    sh = S.shared(q, k)
                    sh["nu"] = q.choice([.5, .7, 1, 1.5])
                if m.startswith("niw"):
                    # in single precision a draw of fewer degrees of freedom can be singular
                    sh = S.shared(q, k)
                    sh["nu"] = max(float(sh["nu"]), len(sh["mu"].split(",")) + 2)
                bld = Builder(q, m, f, k + SEED, shared=sh)
                for h in hows:
                    s_samp(bld, k, {"cc": scale(20000, 200000), "dbg": 600}.get(f, scale(2000, 20000)), h)
                scripts.append(bld.text())
    models = Conformance(rep, "TraceModels", ["C18"], run)
    models.check(scripts, "C18-models")
    py = Conformance(rep, "TraceSampling", ["C18"], runner("py"))
    py.check([s_cont(r, "hp", d, scale(5000, 50000)) for d in CONT["hp"] for _ in range(scale(3, 30))]
             + [s_cont(r, "dbg", d, scale(1500, 10000)) for d in CONT["dbg"] for _ in range(scale(2, 20))], "C18-py")


CHECKS["C18"] = c18
