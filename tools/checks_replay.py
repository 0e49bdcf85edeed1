"""C24: reproducible from the seed, and scoring is pure."""
from vlib import *
from gen_models import SPECS, Builder
import checks_mixture as mx
import checks_sampling as cs

UNITS = ["main", "replay", "m_bb", "m_dd16", "m_dd256", "m_dpd", "m_gp", "m_bnb", "m_nich", "m_niw", "m_niw2", "m_niw3",
         "clustering", "sampling", "numeric"]
KIND = {"clu": "clu", "samp": "samp", "num": "numeric"}
FIX = {"dd16", "dd256"}


def scale(q, t):
    return t if THOROUGH else q


# a program is (what to open, blocks of steps, looks): looks(k) may follow block k
class Program:
    def __init__(self, kind, blocks, looks, f="cc", model=""):
        self.kind, self.blocks, self.looks, self.f, self.model = kind, blocks, looks, f, model


def drain(b, mark):
    out = b.lines[mark:]
    del b.lines[mark:]
    return out


def draws(b, g, f):
    r, m = b.r, b.S.name
    out = ["samp %d %d" % (g, r.choice([1, 2, 3, 5, 7])), "sampler %d %d %d" % (g, r.choice([1, 2, 3]), r.choice([1, 2, 3]))]
    if f != "cc" and r.random() < .5:
        out.append("sgroup %d" % r.choice([1, 2, 3]))
    r.shuffle(out)
    return out


def p_model(r, m, f, mixed=None, kinds=None):
    S = SPECS[m]
    sh = S.shared(r, r.randrange(60))
    if m.startswith("niw"):
        sh["nu"] = max(float(sh["nu"]), sh["dim"] + 2)      # fewer can be singular in single precision
    b = Builder(r, m, f, shared=sh)
    head = ["seed %d" % r.randrange(1, 10 ** 6)] if f == "cc" else []
    start = head + drain(b, 1)
    del b.lines[:]
    blocks, looks = [], []
    if mixed is None:
        mixed = (f == "cc" or f == "lp" and not m.startswith("niw")) and r.random() < .6
    kinds = kinds or (["fast", "small"] if f == "cc" else ["fast"])
    for k in range(3):
        if k == 0:
            b.new(0)
            b.new(1)
            for _ in range(r.randrange(4)):
                b.step(1)
        for _ in range(r.choice([1, 2, 4, 8])):
            b.step(r.randrange(2))
            if r.random() < .3:
                b.lines += draws(b, r.randrange(2), f)
        if r.random() < .2:
            b.merge(0, 1)
        if mixed and k == 0:
            b.mnew(0, r.choice(kinds))
            for _ in range(r.choice([1, 2, 5])):
                b.mpush(0, r.randrange(2))
            b.o("minit", 0)
        if mixed:
            for _ in range(r.choice([1, 3])):
                b.madd(0, r.randrange(len(b.mix[0])))
                b.mrem(0, r.randrange(len(b.mix[0])))
            if r.random() < .5:
                b.maddg(0)
            elif len(b.mix[0]) > 1:
                b.mremg(0, r.randrange(len(b.mix[0])))
        if m == "dpd" and r.random() < .5:
            # values not seen before need a piece of the stick
            v = str(r.choice([3, 4, 5, 77, 1 << 21]))
            b.o("sadd", v)
            if r.random() < .5:
                b.o("srem", v)
            if r.random() < .3:
                b.o("srealize")
        b.lines += draws(b, r.randrange(2), f)
        last = drain(b, 0)
        # what can be looked at here
        for g in range(2):
            b.score(g)
            b.stats(g)
            if f == "cc" and r.random() < .5:
                b.o("val", g)
        if m in ("gp", "bnb", "nich", "niw") and f == "cc":
            b.o("post", 0)
        b.o("sdump")
        if mixed:
            v = b.val()
            b.o("msv", 0, v, 0)
            b.o("msvg", 0, r.randrange(len(b.mix[0])), v)
            b.o("mstats", 0, r.randrange(len(b.mix[0])))
            if f == "cc":
                b.o("msd", 0)
                b.o("mgrid", 0, 0)
        look = drain(b, 0)
        blocks.append((start if k == 0 else []) + last)
        r.shuffle(look)
        looks.append(look)
    blocks[2] += ["stats 0", "stats 1", "sd 0"]
    return Program(b.S.runner(sh) if f == "cc" else "model", blocks, looks, f, m)


def p_clu(r, f):
    kind = r.choice(["py", "py", "le"]) if f != "dbg" else "le"
    head = [mx.model(r, kind)] + (["seed %d" % r.randrange(1, 10 ** 6)] if f == "cc" else [])
    s = mx.Sim([0])
    blocks, looks = [], []
    for k in range(3):
        L = list(head) + ["var " + ("mix" if f == "lp" else r.choice(["raw", "mix"])), "init 0", "tinit 2"] if k == 0 else []
        if f == "dbg":
            L = list(head) if k == 0 else []
        else:
            for _ in range(r.choice([1, 4, 9])):
                g = r.randrange(len(s.c))
                if s.c[g] and r.random() < .4:
                    L.append("rem %d 1" % g)
                    s.rem(g, 1)
                else:
                    L.append("add %d 1" % g)
                    s.add(g, 1)
            L.append(r.choice(["tadd", "trem 1", "tadd"]))
            if L[-1] == "trem 1":
                L.append("tadd")
        n = r.choice([0, 1, 2, 5, 9, 30])
        L.append(("asg %d" if f == "cc" else "asgfreq %d 1") % (min(n, mx_size(kind, head))))
        blocks.append(L)
        cs_ = [r.randrange(1, 5) for _ in range(r.randrange(1, 6))]
        look = ["sc " + " ".join(map(str, cs_)), "sa 2 3 7 1", "sr 2 3 7 1", "sa 0 3 7 2"]
        if kind == "le" and f != "lp":
            look.append("z %d" % r.randrange(1, 10))
        if f != "dbg":
            look += ["sv", "obs"] + (["sd"] if f == "cc" else [])
        r.shuffle(look)
        looks.append(look)
    return Program("clu", blocks, looks, f)


def mx_size(kind, head):
    return int(head[0].split("N=")[1]) if kind == "le" else 10 ** 9


def p_samp(r, f):
    lines = []
    for _ in range(r.choice([3, 6])):
        if r.random() < .5:
            t = cs.s_discrete(r, f) if f != "hp" else ""
            ls = [x for x in t.split("\n")[1:] if x and x.split()[0] not in ("state", "grid", "freq")]
            lines += ls[:r.randrange(1, 9)]
        else:
            if f in cs.CONT:
                d = r.choice(cs.CONT[f])
                t = cs.s_cont(r, f, d, r.choice([1, 2, 3]))
                lines += [x for x in t.split("\n")[1:] if x and not x.startswith("state")]
            if r.random() < .4 and f in ("cc", "lp"):
                items = " ".join(map(str, range(r.choice([2, 3, 5, 8]))))
                lines += ["pair " + items] + (["urn " + items, "int 0 6", "bern 0.25"] if f == "cc" else [])
    if not lines:
        lines = {"hp": ["cdf 1 hnormal 0 mean=0 var=1"], "lp": ["disc 0.25 0.75"], "dbg": ["lik 1 3"], "cc": ["bern 0.25"]}[f]
    if f != "cc":
        lines = [x for x in lines if not x.startswith("vec")]
    n = len(lines)
    cut = sorted([r.randrange(n + 1), r.randrange(n + 1)])
    blocks = [lines[:cut[0]], lines[cut[0]:cut[1]], lines[cut[1]:]]
    if f == "cc":
        blocks[0] = ["state %d" % r.randrange(1, cs.M)] + blocks[0]
    return Program("samp", blocks, [[], [], []], f)


def p_num(r, f):
    def one():
        x = r.random()
        if x < .5:
            return "stirling %s %d %d" % (r.choice(["vector", "aligned", "plain"]),
                                          r.choice([0, 1, 2, 3, 5, 17, 31, 32, 33, 90, r.randrange(200)]), r.randrange(4))
        if x < .8:
            return "fn %s %s" % (r.choice(["fast_log", "fast_exp", "fast_lgamma", "fast_lgamma_nu"]), cs.g(r.uniform(.5, 60)))
        s = cs.scores(r, r.choice([1, 2, 3, 8, 17]))
        return "scores %s %s %s" % (r.choice(["lse", "likelihoods", "probs"]), r.choice(["std", "aligned"]), ",".join(s))
    blocks = [[one() for _ in range(r.choice([1, 3]))] for _ in range(3)]
    return Program("num", blocks, [[one()] for _ in range(3)], f)


def program(r, f):
    if f == "hp":
        m = r.choice(["dd", "gp", "nich", None])
    else:
        m = r.choice([m for m in SPECS if f in SPECS[m].flavours and (f == "cc" or m not in ("niw2", "niw3"))
                      and not (m == "niw" and f == "dbg")] + [None] * 3)
    if m:
        return p_model(r, m, f)
    x = r.random()
    if f == "cc" and x < .2:
        return p_num(r, f)
    if x < .55 and f != "hp":
        return p_clu(r, f)
    return p_samp(r, f)


NOISE = {"cc": ["cdf 3 stdnormal 0", "cdf 1 stdnormal 0", "cdf 1 gamma 1 a=0.5 b=1", "cdf 1 normal 0 mean=1 var=2",
                "cdf 1 poisson 1 mean=3", "cdf 5 chisq 1 nu=1"],
         "hp": ["cdf 3 hnormal 0 mean=0 var=1", "cdf 1 hgamma 1 a=0.5 b=1", "cdf 1 hnormal 0 mean=1 var=2"],
         "dbg": ["cdf 3 gamma 1 a=2 b=1", "cdf 1 chisq 1 nu=1"]}


def p_noise(r, f):
    if r.random() < .5:
        return program(r, f)
    k = "hp" if f == "lp" else f
    bl = [[r.choice(NOISE[k]) for _ in range(r.choice([1, 2, 3]))] for _ in range(3)]
    if f == "cc":
        bl[0].insert(0, "state %d" % r.randrange(1, cs.M))
    return Program("samp", bl, [[], [], []], k)


def s_cc(r, hist):
    p, n = program(r, "cc"), p_noise(r, "cc")
    L = ["session replay f=cc"]
    todo = {1: list(p.blocks), 2: [x for k in range(3) for x in (p.blocks[k], p.looks[k] if k < 2 else None) if x is not None],
            3: list(n.blocks)}
    if r.random() < .5:
        L.append("dirty %d %d" % (r.choice([200, 4096, 200000]), r.choice([255, 127, 1])))
    for run, q in ((1, p), (2, p), (3, n)):
        L.append("open %d %s" % (run, q.kind))
    for run in hist:
        L += ["@%d %s" % (run, x) for x in todo[run].pop(0)]
    for run in (1, 2, 3):
        L.append("close %d" % run)
    L.append("dirty %d %d" % (r.choice([200, 4096, 200000]), r.choice([255, 127, 64])))
    L.append("open 4 " + p.kind)
    for k in range(3):
        L += ["@4 " + x for x in p.blocks[k] + (p.looks[k] if r.random() < .5 else [])]
    L += ["@4 " + x for x in p.looks[2]]
    return "\n".join(L) + "\n"


def s_py(r):
    """runs that share a source come one after another; the other source is used in between"""
    f = r.choice(["lp", "lp", "hp", "dbg"])
    p = program(r, f)
    other = "dbg" if f != "dbg" else "lp"
    L = ["session replay f=py"]
    seed = r.randrange(1, 10 ** 6)

    def opened(run, q, sd):
        return "open %d %s f=%s model=%s seed=%d" % (run, q.kind, q.f, q.model, sd)
    for run in (1, 2):
        n = p_noise(r, other)
        L += [opened(10 + run, n, r.randrange(1, 10 ** 6)), opened(run, p, seed)]
        for k in range(3):
            L += ["@%d %s" % (run, x) for x in p.blocks[k] + (p.looks[k] if run == 2 else [])]
            L += ["@%d %s" % (10 + run, x) for x in n.blocks[k]]
        L += ["@%d probe" % run, "close %d" % run, "close %d" % (10 + run)]
        n = p_noise(r, f)           # an odd amount of use of the same source
        L.append(opened(20 + run, n, r.randrange(1, 10 ** 6)))
        L += ["@%d %s" % (20 + run, x) for b in n.blocks[:r.randrange(4)] for x in b] + ["close %d" % (20 + run)]
    return "\n".join(L) + "\n"


def s_rng(r):
    """sources of one's own: seeded, drawn from, copied in the middle"""
    L = ["session replay f=py", "open 0 rng"]
    runs, n = [0], 1
    seeds = [r.choice([1, 2, 7, 0, 2147483646, 2147483647, r.randrange(1, 10 ** 6)]) for _ in range(2)]
    for _ in range(r.choice([5, 10, 25])):
        x = r.random()
        if x < .15 and n < 9:
            L.append("open %d rng" % n)
        elif x < .4 and n < 9:
            L.append("copy %d %d" % (r.choice(runs), n))
        elif x < .55:
            L.append("@%d seed %d" % (r.choice(runs), r.choice(seeds)))
            continue
        else:
            L += ["@%d draw 1" % r.choice(runs)] * r.choice([1, 2, 5])
            continue
        runs.append(n)
        n += 1
    for k in runs:
        L += ["@%d draw 1" % k] * 3
    return "\n".join(L) + "\n"


def s_own(r, hist):
    """runs that each bring their own source, one step of one after one step of another"""
    f = r.choice(["lp", "lp", "hp"])
    p, n = program(r, f), p_noise(r, f)
    seed = r.randrange(1, 10 ** 6)
    L = ["session replay f=py"]
    q = {1: (p, seed), 2: (p, seed), 3: (n, r.randrange(1, 10 ** 6))}
    for run in q:
        L.append("open %d %s f=%s model=%s seed=%d own=1" % (run, q[run][0].kind, q[run][0].f, q[run][0].model, q[run][1]))
    todo = {1: list(p.blocks), 2: [x for k in range(3) for x in (p.blocks[k], p.looks[k] if k < 2 else None) if x is not None],
            3: list(n.blocks)}
    for run in hist:
        L += ["@%d %s" % (run, x) for x in todo[run].pop(0)]
    return "\n".join(L + ["@1 probe", "@2 probe"]) + "\n"


def c24(rep):
    b = build_cc(UNITS, "replay", lib=None)
    r = rng("C24")
    inv = "INVARIANTS SameSeedSameOutput SameSeedSameSource OwnNumbersOnly Show\nCHECK_DEADLOCK FALSE\n"
    s = model_check("ReplayDesign", "SPECIFICATION Spec\nCONSTANTS Hidden = FALSE Emit = TRUE\n" + inv, "ReplayDesign", workers="1")
    rep.add_stats(s)
    bad = model_check("ReplayDesign", "SPECIFICATION Spec\nCONSTANTS Hidden = TRUE Emit = FALSE\n" + inv, "ReplayDesign-hidden",
                      expect=True)
    if bad["rc"] == 0:
        raise CheckError("ReplayDesign does not see shared state")
    hists = [json.loads(m.group(1)) for m in re.finditer(r'(?m)^"?HIST (\[.*\])"?$', s["out"])]
    if not hists:
        raise CheckError("no interleavings")
    log("design model: %d interleavings" % len(hists))
    cc = Conformance(rep, "TraceReplay", ["C24"], lambda x: run_script(b, x))
    cc.check([s_cc(r, r.choice(hists)) for _ in range(scale(400, 9240))], "C24-cc")
    build_py()
    py = Conformance(rep, "TraceReplay", ["C24"], lambda x: run_py("py_replay.py", x))
    py.check([s_py(r) for _ in range(scale(120, 2000))] + [s_rng(r) for _ in range(scale(40, 500))]
             + [s_own(r, r.choice(hists)) for _ in range(scale(40, 1000))], "C24-py")


CHECKS = {"C24": c24}
