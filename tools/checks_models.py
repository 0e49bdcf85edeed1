"""Checks of the component models and mixtures (C01-C09)."""
from vlib import *
from gen_models import *

UNITS = {"bb": ["bb"], "dd": ["dd16", "dd256"], "dpd": ["dpd"], "gp": ["gp"], "bnb": ["bnb"], "nich": ["nich"],
         "niw": ["niw"], "niw2": ["niw2"], "niw3": ["niw3"]}


def cc_binary(models, flavour="dbg3"):
    units = ["main"] + ["m_" + u for m in models for u in UNITS[m]]
    return build_cc(units, "models-" + "-".join(models), flavour)


def runner(models):
    b = cc_binary(models)
    build_py()

    def run(text):
        """Sessions of either kind, in order."""
        out = []
        cur, kind = [], None
        for s in re.split(r"(?m)^(?=session )", text):
            if not s:
                continue
            k = "cc" if " f=cc" in s.split("\n", 1)[0] else "py"
            if k != kind and cur:
                out += (run_script(b, "".join(cur)) if kind == "cc" else run_py("py_models.py", "".join(cur)))
                if '"e":"crash"' in out[-1]:
                    return out
                cur = []
            kind = k
            cur.append(s)
        if cur:
            out += (run_script(b, "".join(cur)) if kind == "cc" else run_py("py_models.py", "".join(cur)))
        return out
    return run


def weight(session):
    w = 10 if '"model":"niw"' in session[0] else 4 if '"model":"dd"' in session[0] else 1
    return w * len(session)


def per_flavour(models, n, make, tag):
    """n(model, flavour) sessions of make(builder, k) for every model and flavour."""
    scripts = []
    for f in ["cc", "dbg", "hp", "lp"]:
        for m in models:
            S = SPECS[m]
            if f not in S.flavours or (f != "cc" and m in ("niw2", "niw3")):
                continue
            r = rng("%s/%s/%s" % (tag, m, f))
            for k in range(n(m, f)):
                b = Builder(r, m, f, k + SEED)
                make(b, k)
                scripts.append(b.text())
    return scripts


# ---------------------------------------------------------------------------
def s_stats(b, k):
    """Histories of add / repeated add / remove with the statistics read after each."""
    r = b.r
    b.new(0)
    b.new(1)
    b.stats(0)
    long = k % 4 == 3
    for i in range(60 if long else 25):
        g = r.randrange(2)
        if b.size(g) and r.random() < .04:
            b.drain(g)
        elif r.random() < .03:
            b.new(g)
        else:
            b.step(g)
        if not long or i % 4 == 0:
            b.stats(g)
    if b.S.name == "dpd":      # data debt
        v = b.val()
        b.o("rem", 1, v)
        b.put(b.bags[1], v, -1)
        b.stats(1)
        b.add(1, v)
    if b.S.discrete:           # debt, read again when it is paid back
        owed = [b.val() for _ in range(r.choice([1, 2, 4]))]
        calls = [("rem", v) for v in owed] + [("add", v) for v in owed] + [("add", b.val()) for _ in range(3)]
        if b.size(1) and r.random() < .5:
            b.drain(1)
        r.shuffle(calls)
        for c, v in calls:
            b.o(c, 1, v)
            b.put(b.bags[1], v, 1 if c == "add" else -1)
        b.stats(1)
        b.new(2)
        for v in owed:
            b.o("rem", 2, v)
            b.put(b.bags[2], v, -1)
        h, g = r.choice([(2, 1), (1, 2)])
        for v in owed + [b.val()]:
            b.add(1, v)
        b.merge(g, h)
        b.stats(g)
        b.new(2)
        if b.S.name in ("gp", "bnb"):      # owing as much as is held
            vs = [r.randrange(9) for _ in range(r.choice([1, 2, 3]))]
            calls = [("rem", str(sum(vs)))] + [("add", str(v)) for v in vs]
            r.shuffle(calls)
            for c, v in calls + [("add", str(sum(vs)))]:
                b.o(c, 2, v)
                b.put(b.bags[2], v, 1 if c == "add" else -1)
            b.stats(2)
            b.new(2)
    if b.S.discrete:
        b.rep(0, n=r.choice([100, 1000, 65535 if b.S.name in ("bb", "dd", "dpd") else 300]))
        b.stats(0)
    for n in (0, 2, 4):          # every way down to nothing
        for _ in range(n):
            b.add(1, b.val())
        while b.rem(1):
            if b.size(1) < 3:
                b.stats(1)
    b.stats(1)
    b.stats(0)


HUGE = [10 ** 6, 16777217, 10 ** 9, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, 3 * 10 ** 9, (1 << 32) - 300]


def s_huge(b, k):
    """Counts and sums near the top of their integer types (sums below 2^31 in hp).
    Not for gp in dbg, which computes whole factorials."""
    r = b.r
    nat = b.S.name in ("gp", "bnb")
    room = {g: (1 << (31 if b.f == "hp" else 32)) - 1 for g in (0, 1, 2)}

    def see(g):
        b.stats(g)
        if b.S.name in ("gp", "bnb") and b.f in ("cc", "dbg"):
            b.o("post", g)
        b.score(g)

    def put(g):
        n = r.choice([1, 1, 2, 3])
        v = r.choice(HUGE) if r.random() < .8 else r.randrange(300)
        if n * v <= room[g]:
            room[g] -= n * v
            if n == 1:
                b.add(g, str(v))
            else:
                b.rep(g, str(v), n)
    for g in (0, 1, 2):
        b.new(g)
        if nat:
            room[g] //= 2 if g else 1
            for _ in range(4):
                put(g)
        else:
            b.rep(g, n=r.choice([70000, 10 ** 6, 5 * 10 ** 6]))
            b.rep(g, n=r.choice([1, 65536, 10 ** 6]))
        see(g)
    b.merge(1, 2)
    see(1)
    for g in (0, 1):
        for _ in range(2):
            b.rem(g)
        see(g)


def s_merge(b, k):
    r = b.r
    for g in range(4):
        b.new(g)
    for g in (1, 2, 3):
        for _ in range(r.choice([0, 1, 2, 6, 14]) if k % 3 else [0, 1, 5][g - 1]):
            b.step(g)
    b.merge(0, 3)                # into an empty group
    b.stats(0)
    b.new(3)
    b.merge(0, 3)                # an empty group
    b.stats(0)
    b.merge(0, 1)
    b.stats(0)
    b.merge(1, 2)
    b.stats(1)
    b.stats(2)
    b.merge(0, 1)
    b.stats(0)
    b.score(0)
    b.new(2)
    b.merge(2, 3)                # two empty groups
    b.stats(2)
    b.score(2)
    for _ in range(5):
        b.step(0)
        b.step(1, reps=False)
    b.stats(0)
    b.score(0)
    b.copy(3, 1)
    b.merge(3, 0)
    b.stats(3)
    b.score(3)


def s_pred(b, k):
    r = b.r
    b.new(0)
    b.score(0, data=False)
    n = [1, 2, 3, 7, 12, 30][k % 6]
    for i in range(3):
        for _ in range(n):
            b.step(0)
        b.score(0, data=False)
    b.drain(0)
    b.score(0, data=False)
    if b.S.discrete and b.S.name != "gp":
        b.rep(0, n=500)
        b.score(0, data=False)
    if b.S.name == "niw":
        for _ in range(3):
            d, z = b.sh["dim"], logu(r, .05, 20)
            a = [[r.gauss(0, 1) for _ in range(d)] for _ in range(d)]
            c = logu(r, .5, 3)
            s = [[z * (sum(a[min(i, j)][q] * a[max(i, j)][q] for q in range(d)) + (c * d if i == j else 0)) for j in range(d)] for i in range(d)]
            v, mu = [",".join("%.6g" % r.gauss(0, r.choice([1, z ** .5 * 3])) for _ in range(d)) for _ in range(2)]
            b.o("mvt", "%.6g" % r.choice([.5, 1, 2.5, 7, 40, 300]), v if r.random() < .9 else mu, mu,
                ",".join("%.6g" % s[i][j] for i in range(d) for j in range(d)))


def s_marg(b, k):
    r = b.r
    b.new(0)
    b.o("sd", 0)
    n = [1, 2, 5, 12][k % 4]
    for i in range(4):
        for _ in range(n):
            b.step(0)
        b.o("sd", 0)
    # the same data in another order, and one at a time
    items = [v for v, c in b.bags[0].items() for _ in range(c) if c > 0]
    if len(items) <= 80:
        r.shuffle(items)
        b.new(1)
        for v in items:
            b.add(1, v)
        b.o("sd", 1)
    b.drain(0)
    b.o("sd", 0)


def s_post(b, k):
    b.new(0)
    b.o("post", 0)
    for i in range(6):
        for _ in range([1, 2, 6][k % 3]):
            b.step(0)
        b.o("post", 0)
    b.drain(0)
    b.o("post", 0)


GROUPS = [0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 70, 130, 300]


NEW = ["31337", "99", "4000000000"]      # for dpd only


def mix_seq(b, k, ops, x=0, probe=None, news=True):
    """A history of a mixture: groups pushed, init, then value and group operations."""
    r = b.r
    n = GROUPS[k % len(GROUPS)]
    b.mnew(x, "small" if (k % 3 == 2 and b.f == "cc") else "fast")
    b.new(0)
    pushed = r.choice([0, n, n])
    for i in range(pushed):
        if i == 0 or r.random() < .5:
            b.new(0)
            for _ in range(r.choice([0, 1, 2, 4])):
                b.add(0)
        b.mpush(x, 0)
    b.o("minit", x)
    while len(b.mix[x]) < n:
        b.maddg(x)
    for i in range(ops):
        m = b.mix[x]
        y = r.random()
        if not m or y < .08:
            b.maddg(x)
        elif y < .14 and len(m) > 1:
            i = r.choice([0, len(m) - 1, r.randrange(len(m))])
            if b.S.name != "dpd" or not set(m[i]) & set(NEW):        # its new values could no longer be taken back
                b.mremg(x, i)
        elif y < .3 and m and b.S.name == "dpd" and b.sh["_left"] > .05 and news:
            v = r.choice(NEW)                   # a value that appears while the mixture is in use
            b.o("sadd", v)
            b.madd(x, r.randrange(len(m)), v)
        elif y < .6:
            b.madd(x, r.choice([0, len(m) - 1, r.randrange(len(m)), r.randrange(len(m))]))
        elif y < .95:
            held = [i for i, g in enumerate(m) if g]
            new = [i for i in held if b.S.name == "dpd" and set(m[i]) & set(NEW)]
            if new and r.random() < .6:
                i = r.choice(new)
                v = r.choice(sorted(set(m[i]) & set(NEW)))
                b.mrem(x, i, v)
                b.o("srem", v)
            elif held:
                i = r.choice(held)
                v = r.choice(list(m[i]))
                b.mrem(x, i, v)
                if b.S.name == "dpd" and v in NEW:
                    b.o("srem", v)
        else:
            b.o("minit", x)
        if probe:
            probe(b, x)
    return n


def p_score(every=1):
    def probe(b, x):
        r = b.r
        m = b.mix[x]
        if not m or r.random() > every:
            return
        v = r.choice(b.pool) if b.pool and r.random() < .7 else r.choice(b.S.queries(r, b.sh, {}))
        new = sorted({v for g in m for v in g} & set(NEW)) if b.S.name == "dpd" else []
        if new and r.random() < .5:
            v = r.choice(new)
        b.o("msv", x, v, r.choice(["0", "0", "-3.5", "12"]))
        for i in {0, len(m) - 1, r.randrange(len(m))}:
            b.o("msvg", x, i, v)
        if r.random() < .2:
            b.o("mlen", x)
            b.o("mstats", x, r.randrange(len(m)))
    return probe


def s_mix(b, k):
    n = GROUPS[k % len(GROUPS)]
    mix_seq(b, k, 24 if n < 20 else 10, probe=p_score(.5 if n < 20 else .3))
    p_score()(b, 0)


def s_mixdata(b, k):
    r = b.r
    ids = [0]
    if b.f == "cc":
        for i in range(r.choice([1, 2, 4, 9]) if b.S.name != "dpd" or k % 3 else 0):
            sh = b.S.shared(r, k)
            if b.S.name == "dd" and sh["dim"] != b.sh["dim"]:
                sh = dict(b.sh, alphas=",".join(str(short(logu(r, .1, 5))) for _ in range(b.sh["dim"])))
            if b.S.name == "dpd":
                sh = dict(b.sh, alpha=short(logu(r, .1, 9)), gamma=short(logu(r, .2, 5)))
            if b.S.name == "niw":
                continue
            if b.S.name == "bnb":
                sh = dict(sh, r=b.sh["r"])
            one = [x for x in sh if x in b.sh and not isinstance(sh[x], str) and x not in ("r", "dim") and x[0] != "_"]
            if one and r.random() < .4:       # a grid that differs in one hyperparameter only
                x = r.choice(one)
                sh = dict(b.sh, **{x: sh[x]})
            b.o("shared", len(ids), b.S.shared_args(sh))
            ids.append(len(ids))
        b.o("use", 0)

    def probe(b, x):
        if b.r.random() < .25:
            b.o("msd", x)
            if b.f == "cc" and b.S.name not in ("niw",):
                g = [b.r.choice(ids) for _ in range(b.r.choice([1, 2, 3, 5, 8]))]
                b.o("mgrid", x, ",".join(map(str, g)))
    n = GROUPS[k % len(GROUPS)]
    mix_seq(b, k, 14 if n < 20 else 6, probe=probe, news=len(ids) == 1)
    b.o("msd", 0)
    if b.f == "cc" and b.S.name not in ("niw",):
        b.o("mgrid", 0, ",".join(map(str, ids)))


def scale(q, t):
    return t if TIER == "thorough" else q


def conform(rep, props, models, n, make, tag):
    c = Conformance(rep, "TraceModels", props, runner(models), weight=weight)
    c.check(per_flavour(models, n, make, tag), tag)


def design(rep, models, invs, depth):
    """The streaming algorithms and the laws over exact rationals, every short history."""
    names = [m for m in ("bb", "dd", "dpd", "gp", "bnb", "nich", "niw") if m in models]

    def one(m):
        return model_check("GroupDesign", "SPECIFICATION Spec\nCONSTANTS M = \"%s\" MaxLen = %d Emit = FALSE\nINVARIANTS %s\n"
                           "VIEW Bags\nCHECK_DEADLOCK FALSE\n" % (m, depth, invs), "GroupDesign-" + m, workers="2")
    with ThreadPoolExecutor(4) as ex:
        for st in ex.map(one, names):
            rep.add_stats(st)


_HISTS = []


def histories(rep):
    """All histories of the design model, for replay in every implementation."""
    if not _HISTS:
        st = model_check("GroupDesign", "SPECIFICATION Spec\nCONSTANTS M = \"bb\" MaxLen = %d Emit = TRUE\nINVARIANTS Show\n"
                         "CHECK_DEADLOCK FALSE\n" % scale(3, 4), "GroupDesign-emit", workers="1")
        rep.add_stats(st)
        hs = sorted(set(re.findall(r'"HIST (.*)"', st["out"])))
        _HISTS.extend(json.loads(h.replace('\\"', '"')) for h in hs)
        rep.cov["histories_of_the_design"] = len(_HISTS)
    return _HISTS


def replayed(rep, models, n, after, tag):
    """n(model, flavour) histories of the design model as scripts; after(b, g) looks at group g."""
    hs = histories(rep)

    def make(b, k):
        r = b.r
        for _ in range(50):
            v = {i: b.S.value(r, b.sh) for i in (1, 2)}
            if v[1] != v[2]:
                break
        reps = r.choice([2, 3, 3, 7, 40])
        for g in (1, 2):
            b.new(g)
        for op, g, x, c in r.choice(hs):
            if op == "merge":
                b.merge(g, x)
            elif op == "new":
                b.new(g)
            elif op == "add":
                b.add(g, v[x])
            elif op == "rep":
                b.rep(g, v[x], reps)
            else:
                b.rem(g, v[x] if b.bags[g].get(v[x], 0) > 0 else None)
            after(b, g, v)
        after(b, 1, v)
        after(b, 2, v)
    return per_flavour(models, n, make, tag + "/hist")


def law_check(rep, props, models, n, make, tag, invs, after, reps, depth=(4, 5), only=None):
    design(rep, models, invs, scale(*depth))
    huge = [m for m in models if m in DISCRETE]
    scripts = per_flavour(models, n, make, tag) + per_flavour(huge, lambda m, f: 0 if (m, f) == ("gp", "dbg") else scale(4, 40), s_huge, tag + "/huge") + replayed(rep, models, lambda m, f: scale(reps, reps * 25), after, tag)
    if only:
        scripts = [s for s in scripts if s.split("f=", 1)[1].split("\n")[0] in only]
    scripts.sort(key=lambda s: " f=cc" not in s[:60])
    Conformance(rep, "TraceModels", props, runner(models), weight=weight).check(scripts, tag)


def a_stats(b, g, v):
    b.stats(g)


def a_score(b, g, v):
    for x in sorted(set(v.values())):
        b.o("sv", g, x)
        if b.f == "cc":
            b.o("svs", g, x)


def a_data(b, g, v):
    b.o("sd", g)


def a_post(b, g, v):
    b.o("post", g)


def a_merge(b, g, v):
    b.stats(g)
    if b.lines[-2].startswith("merge"):
        b.stats(int(b.lines[-2].split()[2]))
        b.o("sd", g)
        b.o("sv", g, v[1])


def c01(rep):
    law_check(rep, ["C01"], DISCRETE, lambda m, f: scale(6, 60), s_stats, "C01", "Refines", a_stats, 20)


def c02(rep):
    law_check(rep, ["C02"], NORMAL, lambda m, f: scale(8 if m == "nich" else 5, 60), s_stats, "C02", "Refines", a_stats, 20)


def c03(rep):
    law_check(rep, ["C03"], MODELS, lambda m, f: scale(4, 40), s_merge, "C03", "Refines", a_merge, 12)


def c04(rep):
    law_check(rep, ["C04"], DISCRETE, lambda m, f: scale(8 if m != "dd" else 14, 90), s_pred, "C04",
              "Normalised ChainRule EmptyIsCertain", a_score, 12)


def c05(rep):
    law_check(rep, ["C05"], NORMAL, lambda m, f: scale(8, 60), s_pred, "C05", "ChainRule EmptyIsCertain", a_score, 12)


def c06(rep):
    law_check(rep, ["C06"], MODELS, lambda m, f: scale(6 if m != "dd" else 12, 60), s_marg, "C06", "ChainRule EmptyIsCertain", a_data, 12)


def c07(rep):
    models = ["gp", "bnb", "nich", "niw", "niw2", "niw3"]
    law_check(rep, ["C07"], models, lambda m, f: scale(8, 80), s_post, "C07", "Conjugate", a_post, 15, only=("cc", "dbg"))


def mixed(tag, make, n):
    scripts = per_flavour(MODELS, n, make, tag)
    return [s for s in scripts if " f=cc" in s[:60] or (" f=lp" in s[:60] and "model=niw" not in s[:60])]


def cached(rep, kind):
    """The caches of the mixtures: every short history checked, and printed for replay."""
    cfg = "SPECIFICATION Spec\nCONSTANTS Kind = \"%s\" MaxGroups = 3 MaxLen = %d Emit = %s\nINVARIANTS CacheAgrees ShiftAgrees OnlyKnown Referenced Show\nCHECK_DEADLOCK FALSE\n"
    rep.add_stats(model_check("CacheDesign", cfg % (kind, scale(5, 7), "FALSE") + "VIEW State\n", "CacheDesign-" + kind, workers="2"))
    e = model_check("CacheDesign", cfg % (kind, scale(3, 4), "TRUE"), "CacheDesign-emit-" + kind, workers="1")
    hs = sorted(set(re.findall(r'"HIST (.*)"', e["out"])))
    return [json.loads(h.replace('\\"', '"')) for h in hs]


def mix_replayed(rep, n, probe, tag):
    """histories of CacheDesign in every model; probe(b, values) looks at mixture 0"""
    with ThreadPoolExecutor(2) as ex:
        hs = dict(zip(("dense", "sparse"), ex.map(lambda k: cached(rep, k), ("dense", "sparse"))))
    rep.cov["histories_of_the_design"] = {k: len(v) for k, v in hs.items()}

    def make(b, k):
        r = b.r
        for _ in range(50):
            v = {i: b.S.value(r, b.sh) for i in (1, 2)}
            if v[1] != v[2]:
                break
        sparse = b.S.name == "dpd" and b.sh["_left"] > .05 and k % 4
        if sparse:
            v[2] = r.choice(NEW)
        known = {v[1], v[2]} - (set(NEW) if sparse else set())
        h = r.choice(hs["sparse" if sparse else "dense"])
        b.mnew(0, "small" if b.f == "cc" and k % 5 == 4 else "fast")
        for c in h[0][1]:
            b.new(0)
            for _ in range(c):
                b.add(0, v[1])
            b.mpush(0, 0)
        b.o("minit", 0)
        probe(b, known)
        for op, i, x in h[1:]:
            if op == "minit":
                b.o("minit", 0)
            elif op == "maddg":
                b.maddg(0)
            elif op == "mremg":
                b.mremg(0, i)
            elif op in ("madd", "new"):
                if op == "new":
                    b.o("sadd", v[x])
                    known.add(v[x])
                b.madd(0, i, v[x])
            else:
                b.mrem(0, i, v[x] if v[x] in b.mix[0][i] else None)
                if op == "old":
                    b.o("srem", v[x])
                    if not any(v[x] in g for g in b.mix[0]):
                        known.discard(v[x])
            probe(b, known)
    return mixed(tag + "/hist", make, n)


def c08(rep):
    def probe(b, known):
        if b.mix[0]:
            q = sorted(known) + b.r.sample(b.S.queries(b.r, b.sh, {}), 1)
            for v in dict.fromkeys(q):
                b.o("msv", 0, v, b.r.choice(["0", "-3.5", "12"]))
                b.o("msvg", 0, b.r.randrange(len(b.mix[0])), v)
    c = Conformance(rep, "TraceModels", ["C08"], runner(MODELS), weight=weight)
    scripts = mixed("C08", s_mix, lambda m, f: scale(len(GROUPS) if f == "cc" and m[:3] != "niw" else 5, 100))
    scripts += mix_replayed(rep, lambda m, f: scale({"dpd": 60, "dd": 30}.get(m, 10) if f == "cc" else 12, 1200), probe, "C08")
    c.check(sorted(scripts, key=lambda s: " f=cc" not in s[:60]), "C08")


def c09(rep):
    def probe(b, known):
        b.o("msd", 0)
    c = Conformance(rep, "TraceModels", ["C09"], runner(MODELS), weight=weight)
    scripts = mixed("C09", s_mixdata, lambda m, f: scale(len(GROUPS) if f == "cc" and m[:3] != "niw" else 5, 100))
    scripts += mix_replayed(rep, lambda m, f: scale(12, 600), probe, "C09")
    c.check(sorted(scripts, key=lambda s: " f=cc" not in s[:60]), "C09")


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09}


# ---------------------------------------------------------------------------
# C15: the Dirichlet-process stick
NONE = "values= betas= counts="


def stick_session(f, args, calls, seed):
    return "\n".join(["session dpd model=dpd f=%s" % f, "seed %d" % seed, "shared 0 " + args] + calls) + "\n"


def s_stick(r, f, k):
    gamma = short(logu(r, .2, 6) if k % 5 else r.choice([.05, 30]))
    keys = r.sample(DPD.KEYS[:-1], 6)
    held = {}
    if k % 3 == 0:
        args = NONE
    else:
        n = r.choice([1, 2, 4])
        left = r.choice([0, .125, .5]) if k % 4 else .0001
        w = [logu(r, .05, 1) for _ in range(n)]
        held = {v: r.randrange(1, 4) for v in keys[:n]}
        args = "values=%s betas=%s counts=%s" % (",".join(map(str, held)), ",".join("%.5f" % ((1 - left) * x / sum(w)) for x in w),
                                                 ",".join(map(str, held.values())))
    calls = []
    fresh = [v for v in range(3, 30) if v not in keys]
    sealed = k % 3 and k % 4 and left == 0
    n = r.choice([10, 25, 60])
    for i in range(n):
        x = r.random()
        if x < .05 and not sealed and f != "dbg":
            calls.append("srefused sadd %d" % OTHER)
        elif x < .08:
            calls.append("srefused srem %d" % OTHER)
        elif x < .13 and not sealed and gamma < 10 and len(held) < 12:
            pass
        elif x < .6 and not sealed:
            v = r.choice(keys if r.random() < .7 else fresh)
            calls.append("sadd %d" % v)
            held[v] = held.get(v, 0) + 1
        elif held:
            v = r.choice(list(held))
            calls.append("srem %d" % v)
            held[v] -= 1
            if not held[v]:
                del held[v]
                sealed = False
        if r.random() < .05 and not sealed and f != "lp":
            calls.append("spieces %d %d %s" % (2000 if f == "cc" else 200, 77777, "0.001,0.01,0.1,0.3,0.6,0.9,0.99"))
    if k % 2 and f != "dbg":
        calls += ["spb 0 1", "use 1"] if f == "cc" else ["sdict 0 1", "use 1"]
    if k % 2 == 0 and not sealed:
        calls += ["srealize", "srealize"]
        if f != "dbg":
            calls += ["srefused sadd 123456789", "srefused sadd 123456789"]
        for v in list(held)[:2]:
            calls += ["sadd %d" % v, "srem %d" % v]
            if held[v] == 1:
                calls += ["srem %d" % v, "sadd %d" % v]
    return stick_session(f, "gamma=%s alpha=%s %s" % (gamma, r.choice([.5, 2.0]), args), calls, r.randrange(1 << 20))


def c15(rep):
    """Design model of the stick; its histories and random ones replayed in cc, lp and dbg."""
    consts = "CONSTANTS Values = {%s}\nUnit = %d\nMaxLen = %d\nEmit = %s\n"
    inv = "INVARIANTS SumsToOne KnownIsReferenced Probabilities KeepsItsWeight Show\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
    d = model_check("StickDesign", consts % ("0, 1, 2", 12, scale(5, 6), "FALSE") + inv, "C15-design")
    rep.add_stats(d)
    # values that realize never makes up, so that a history determines what is refused
    e = model_check("StickDesign", consts % ("1000, 2000, 3000", 9, scale(4, 5), "TRUE") + inv, "C15-emit")
    hists = sorted(set(re.findall(r'"HIST (.*)"', e["out"])))
    hists = [json.loads(h.replace('\\"', '"')) for h in hists]
    rep.cov["histories_of_the_design"] = len(hists)
    r = rng("C15")
    run = runner(["dpd"])
    scripts = []
    for f in ("cc", "dbg", "lp"):
        for k, h in enumerate(hists):
            # the debug implementation accepts values with nothing left, with weight zero
            if f != "cc" and k % scale(4, 1):
                continue
            calls = ["%s %d" % (op, v) if op != "srealize" else op for op, v in h]
            if f == "dbg" and any(c.startswith("srefused") for c in calls):
                continue
            scripts.append(stick_session(f, "gamma=%s alpha=0.5 %s" % (r.choice([.3, 1.0]), NONE), calls, k + SEED))
        scripts += [s_stick(r, f, k) for k in range(scale({"cc": 60, "dbg": 30, "lp": 20}[f], 400))]
    big = ["cc", "dbg"] if TIER == "quick" else ["cc", "dbg", "lp"]
    for f in big:      # more values than may be realised
        scripts.append(stick_session(f, "gamma=3000 alpha=1 " + NONE, ["sadd 5", "srealize", "srem 5"], SEED))
    scripts.sort(key=lambda s: s.split("f=", 1)[1][:3] != "cc\n")
    Conformance(rep, "TraceModels", ["C15"], run).check(scripts, "C15")


CHECKS["C15"] = c15


# ---------------------------------------------------------------------------
# C19: saving and loading
def s_io(b, k):
    """Dumped, loaded into fresh and into used objects, and used on."""
    r, f, m = b.r, b.f, b.S.name
    gio = ["gdict"] + (["gpb"] if f == "dbg" else []) if f != "cc" else ["gpb"]
    sio = {"cc": ["spb"], "hp": ["sdict"]}.get(f, ["sdict", "spb", "sclass"])
    other = b.S.shared(r, k)
    if m == "dpd":
        other = dict(other, **{x: b.sh[x] for x in ("values", "betas", "counts", "_keys", "_left")}) if k % 2 else other
        if f != "cc" and k % 2 == 0:      # a used object that knows more values
            other["_keys"] = b.sh["_keys"]
    if m == "dd" and f != "cc" and k % 2:
        other = dict(b.sh, alphas=",".join(str(short(logu(r, .1, 5))) for _ in range(b.sh["dim"])))
    if m in ("niw", "dd") and f == "cc":      # fixed dimension
        for i in range(200):
            if other["dim"] == b.sh["dim"]:
                break
            other = b.S.shared(r, k + i)
        else:
            other = b.sh
    how = lambda xs: r.choice(xs)
    # hyperparameters into a fresh and into a used object
    b.o("shared", 1, b.S.shared_args(other))
    if m == "dpd" and r.random() < .7:
        b.o("sadd", other["values"].split(",")[0])
        if f != "dbg" or float(other["_left"]) > 1e-3:
            if float(other["_left"]) > 1e-3:
                b.o("sadd", 424242)
    b.o("use", 0)
    b.new(0)
    for _ in range(r.choice([0, 1, 3, 8, 20])):
        b.step(0)
    if m == "dpd" and f != "dbg" and r.random() < .3:        # data debt survives too (messages refuse it in dbg)
        v = b.val()
        b.o("rem", 0, v)
        b.put(b.bags[0], v, -1)
    b.o(how(sio), 0, r.choice([1, 2]))
    b.o("sdump")
    d = b.lines[-2].split()[-1]
    # groups into a fresh and into a used group
    b.new(1)
    for _ in range(r.choice([0, 2, 6])):
        b.step(1)
    for g in (1, 2):
        b.copy(g, 0, how(gio))
        b.stats(g)
    b.o("use", d)
    debt = any(c < 0 for c in b.bags[0].values())
    for g in (1, 2):
        if not debt:
            b.score(g)
        for _ in range(4):
            b.step(g)
        b.stats(g)
    if not debt:
        b.score(1)
        b.merge(1, 2)
        b.stats(1)
        b.score(1)
        if m in ("gp", "bnb", "nich", "niw") and f in ("cc", "dbg"):
            b.o("post", 1)
    b.drain(2)
    b.copy(0, 2, how(gio))      # an empty one over a used one
    b.stats(0)
    if not any(c < 0 for c in b.bags[2].values()):
        b.score(0)
    if m == "dpd":
        left = float(b.sh["_left"]) > 1e-3
        for _ in range(6):
            v = r.choice(b.sh["_keys"] + ([31337, 99] if left else []))
            b.o("sadd", v)
        b.o(how(sio), d, 3)
        b.o("use", 3)
        b.o("sadd", b.sh["_keys"][0])
        b.o("srem", b.sh["_keys"][0])
        b.o("sdump")
    if f != "cc":
        vs = [b.val() for _ in range(r.choice([0, 1, 5]))]
        b.o("fromvals", 5, *vs)
        b.bags[5] = {}
        for v in vs:
            b.put(b.bags[5], v, 1)
        b.stats(5)
    if b.S.discrete and not (f == "dbg" and m == "gp"):      # counts and sums that need all their bits
        b.new(7)
        if m in ("gp", "bnb"):
            b.rep(7, str(r.choice([65536, 10 ** 6, 16777217, (1 << 29) + 3])), r.choice([1, 2, 3]))
            b.add(7, str(r.randrange(300)))
        else:
            for n in (r.choice([255, 256, 65535, 65536, 10 ** 6, 16777217]), r.choice([1, 3])):
                b.rep(7, n=n)
        b.copy(8, 7, how(gio))
        b.stats(8)
        b.rem(8)
        b.stats(8)


def c19(rep):
    conform(rep, ["C19"], MODELS, lambda m, f: scale(8, 60), s_io, "C19")
    import checks_mixture as cx
    scripts = []
    for f in ("cc", "lp", "dbg"):
        for kind in ("py", "le"):
            if f == "dbg" and kind == "py":
                continue
            r = rng("C19/%s/%s" % (f, kind))
            scripts += [d for k in range(scale(8, 60)) for d in [cx.d_loaded(f, kind, r, k)]]
    Conformance(rep, "TraceClustering", ["C19", "C12", "C13"], cx.runner()).check(scripts, "C19-clustering")


CHECKS["C19"] = c19


# ---------------------------------------------------------------------------
# C21: the same history in every implementation
def s_agree(b, k):
    r = b.r
    for g in range(2):
        b.new(g)
        b.stats(g)
    for i in range(r.choice([6, 12, 25])):
        b.step(r.randrange(2))
        if r.random() < .3:
            b.stats(r.randrange(2))
    b.score(0)
    b.merge(0, 1)
    b.stats(0)
    b.score(0)
    if r.random() < .5:
        b.drain(1)
    b.new(2)
    b.copy(2, 0)
    for _ in range(4):
        b.step(2)
    b.stats(2)
    b.score(2)
    b.stats(1)
    b.score(1)


def s_agree_mix(b, k):
    mix_seq(b, k, 16, probe=p_score(.4))
    p_score()(b, 0)
    b.o("msd", 0)


def c21(rep):
    scripts = {}
    for m in MODELS:
        S = SPECS[m]
        if m in ("niw2", "niw3"):
            continue
        for k in range(scale(8, 80)):
            r = rng("C21/%s/%d" % (m, k))
            b = Builder(r, m, "any", k + SEED)
            s_agree(b, k)
            for f in S.flavours:
                scripts.setdefault(f, []).append(b.text().replace("f=any", "f=" + f, 1))
            if m != "niw" and k % 2 == 0:
                b = Builder(r, m, "any", k + SEED)
                s_agree_mix(b, k // 2)
                for f in ("cc", "lp"):
                    scripts[f].append(b.text().replace("f=any", "f=" + f, 1))
    c = Conformance(rep, "TraceModels", ["C21"], runner(MODELS), weight=weight)
    c.check([s for f in ("cc", "dbg", "hp", "lp") for s in scripts[f]], "C21")


CHECKS["C21"] = c21
