"""Mixture drivers, id tracker, clustering priors (C10-C14)."""
from vlib import *
import struct


def scale(q, t):
    return t if THOROUGH else q


def f32(x):
    return struct.unpack("f", struct.pack("f", x))[0]


def runner(flavour="dbg3"):
    b = build_cc(["main", "clustering"], "clustering", flavour)
    build_py()

    def run(text):
        out, cur, kind = [], [], None

        def flush():
            return run_script(b, "".join(cur)) if kind == "cc" else run_py("py_clustering.py", "".join(cur))
        for s in re.split(r"(?m)^(?=session )", text):
            if not s:
                continue
            k = "cc" if " f=cc" in s.split("\n", 1)[0] else "py"
            if k != kind and cur:
                out += flush()
                if '"e":"crash"' in out[-1]:
                    return out
                cur = []
            kind = k
            cur.append(s)
        if cur:
            out += flush()
        return out
    return run


# ---------------------------------------------------------------------------
PY = [(1, 0), (1, .1), (1, .9), (10, .1), (.1, .1), (1e-3, 0), (1e-3, .5), (1e4, .25), (2.5, .999), (.7, .5), (100, .01)]


def model(r, kind, k=None):
    if kind == "py":
        a, d = PY[k % len(PY)] if k is not None and k % 3 else (r.choice([.01, .3, 1, 7.7, 50, 2e3]) * r.uniform(.5, 2),
                                                                 r.choice([0, .05, .5, .95]) * r.uniform(.8, 1.04))
        return "model py alpha=%.9g d=%.9g" % (f32(a), f32(d))
    return "model le N=%d" % (k if k is not None else r.choice([10, 100, 1000, 100000]))


def session(f, kind="clu", **kw):
    return "session clu f=%s %s" % (f, " ".join("%s=%s" % i for i in kw.items()))


class Sim:
    """Enough of the abstract state to generate legal calls (the oracle is the spec)."""

    def __init__(self, cs):
        self.c = list(cs)
        self.bags = [[] for _ in cs]

    def add(self, g, n, v=None):
        if self.c[g] == 0:
            self.c.append(0)
            self.bags.append([])
        self.c[g] += n
        if v is not None:
            self.bags[g].append(v)

    def rem(self, g, n):
        self.c[g] -= n
        if self.c[g] == 0:
            self.c[g], self.bags[g] = self.c[-1], self.bags[-1]
            self.c.pop()
            self.bags.pop()


def inits(r):
    return r.choice([[0], [0, 0], [0, 0, 0], [1, 0], [0, 1], [2, 0, 1], [0, 3, 0, 1], [5, 0], [1, 1, 1, 0], [0, 1, 0, 2, 0],
                     [0] * r.randrange(1, 9), [r.choice([0, 0, 1, 2, 5]) for _ in range(r.randrange(1, 30))] + [0],
                     [0] + [1] * r.randrange(1, 12), [r.randrange(1, 4) for _ in range(6)] + [0, 0]])


def pick(r, s, removal):
    live = [i for i in range(len(s.c)) if s.c[i]]
    if removal and live:
        w = r.random()
        if w < .2:
            return len(s.c) - 1 if s.c[-1] else live[-1]
        if w < .5:
            small = [i for i in live if s.c[i] == min(s.c[j] for j in live)]
            return r.choice(small)
        return r.choice(live)
    w = r.random()
    emp = [i for i in range(len(s.c)) if not s.c[i]]
    if w < .35 or not live:
        return r.choice(emp)
    if w < .4:
        return len(s.c) - 1
    return r.choice(live)


BIG = 2 ** 20


def history(r, lines, s, steps, f, after=(), every=1, illegal=False, cap=None, batches=True):
    lp = f == "lp"
    phase = .3
    for i in range(steps):
        if i % 12 == 0:
            phase = r.choice([.1, .3, .5, .75, .95])
        tot = sum(s.c)
        rem = r.random() < phase and tot > 0
        g = pick(r, s, rem)
        if rem and s.c[g]:
            n = 1 if lp or not batches else r.choice([1, 1, s.c[g], r.randrange(1, s.c[g] + 1)])
            lines.append("rem %d %d" % (g, n))
            s.rem(g, n)
        else:
            n = 1 if lp or not batches else r.choice([1, 1, 1, 2, 7, 1000 if r.random() < .2 else 3, BIG if r.random() < .03 else 1])
            if cap is not None and tot + n > cap:
                continue
            lines.append("add %d %d" % (g, n))
            s.add(g, n)
        if i % every == 0:
            lines += list(after)
        if illegal and r.random() < .3:
            g = r.randrange(len(s.c))
            bad = ["rem %d 1" % r.choice([j for j in range(len(s.c)) if not s.c[j]]), "add %d 1" % (len(s.c) + r.choice([0, 1, 1000])),
                   "rem %d 1" % (len(s.c) + r.choice([0, 1, 5]))]
            if not lp:
                bad += ["add %d 0" % g, "rem %d 0" % g, "rem %d %d" % (g, s.c[g] + 1), "rem %d %d" % (g, s.c[g] + BIG)]
            lines += [r.choice(bad), "obs"]


def d_driver(f, var, kind, r, k):
    lines = [session(f, var=var), model(r, kind, None if kind == "le" else k), "var " + var]
    for rep in range(2):
        cs = inits(r)
        if r.random() < .3:
            lines.append("init" + "".join(" %d" % x for x in [1, 2, 3][:r.randrange(4)]))   # refused
        lines.append("init" + "".join(" %d" % x for x in cs))
        history(r, lines, Sim(cs), 40, f, illegal=True, batches=var != "nb")
    return "\n".join(lines) + "\n"


def exhaustive(rep, props):
    """All histories of the design model, as scripts (specification -> code)."""
    cfgs = [("MaxLen = 4 MaxGroups = 3 MaxCount = 1 Batches = {1, 2}", scale(1500, 10 ** 9))]
    if THOROUGH:
        cfgs.append(("MaxLen = 6 MaxGroups = 2 MaxCount = 2 Batches = {1, 2}", 10 ** 9))
    scripts = []
    for cfg, cap in cfgs:
        c = "SPECIFICATION Spec\nCONSTANTS %s Emit = TRUE\nINVARIANTS Represents IdsUnique EmptiesConstant Fresh2 Show\nPROPERTY Stable\nCHECK_DEADLOCK FALSE\n" % cfg
        s = model_check("MixtureDesign", c, "MixtureDesign-emit-" + rep.prop, workers="1")
        rep.add_stats(s)
        hs = []
        for m in re.finditer(r'(?m)^"?HIST (\[.*\])"?$', s["out"]):
            hs.append(json.loads(m.group(1).replace('\\"', '"')))
        log("design model: %d histories, %d states" % (len(hs), s["distinct"]))
        if not hs:
            raise CheckError("MixtureDesign printed no histories")
        if len(hs) > cap:
            hs = rng("exh").sample(hs, cap)
        scripts.append(hs)
    return [h for hs in scripts for h in hs]


def hist_script(h, f, var, kind, r, tail=()):
    lines = [session(f, var=var), model(r, kind), "var " + var]
    for op in h:
        lines.append("init" + "".join(" %d" % x for x in op[1]) if op[0] == "init" else "%s %d %d" % tuple(op[:3]))
        lines += tail
    return "\n".join(lines) + "\n"


def c10(rep):
    c = Conformance(rep, "TraceClustering", ["C10"], runner())
    hs = exhaustive(rep, ["C10"])
    r = rng("C10h")
    scripts = []
    for i, h in enumerate(hs):
        for f, var, kind in [("cc", "raw", "py"), ("cc", "mix", "py"), ("cc", "raw", "le"), ("lp", "mix", "py"), ("lp", "mix", "le")]:
            if f == "lp" and (any(o[0] != "init" and o[2] != 1 for o in h) or kind == "le" and i % 2):
                continue
            scripts.append(hist_script(h, f, var, kind, r))
    scripts.sort(key=lambda s: " f=lp" in s)
    c.check(scripts, "C10-exhaustive")
    scripts = []
    for f, var, kind, n in [("cc", "raw", "py", 40), ("cc", "mix", "py", 60), ("cc", "raw", "le", 20), ("cc", "mix", "le", 20),
                            ("lp", "mix", "py", 30), ("lp", "mix", "le", 20)]:
        r = rng("C10/%s/%s/%s" % (f, var, kind))
        scripts += [d_driver(f, var, kind, r, k) for k in range(scale(n, n * 30))]
    for var in ("raw", "mix"):
        r = rng("C10/big/" + var)
        scripts += [d_big("cc", var, "py", r, k) for k in range(scale(4, 40))]
    c.check(sorted(scripts, key=lambda s: " f=cc" not in s.split("\n", 1)[0]), "C10")


# ---------------------------------------------------------------------------
def d_joint(r, k, f="cc"):
    var = ["joint-dd", "joint-gp"][k % 2]
    lines = [session("cc", var=var, model=var[6:]), model(r, "py", k), "seed %d" % (k + SEED), "var " + var]
    for rep in range(2):
        s = Sim([0] * r.choice([1, 1, 2, 3, 5]))
        lines.append("init" + "".join(" %d" % x for x in s.c))
        for i in range(50):
            if i % 10 == 0:
                phase = r.choice([.1, .3, .5, .8, .95])
            rem = r.random() < phase and sum(s.c) > 0
            g = pick(r, s, rem)
            if rem and s.c[g]:
                v = s.bags[g].pop(r.randrange(len(s.bags[g])))
                lines.append("rem %d 1 %d" % (g, v))
                s.rem(g, 1)
            else:
                v = r.randrange(16) if var == "joint-dd" else r.choice([0, 1, 5, 70, 1000])
                s.add(g, 1, v)
                lines.append("add %d 1 %d" % (g, v))
    return "\n".join(lines) + "\n"


def d_tracker(f, r, k):
    lines = [session(f, var="tracker")]
    for rep in range(2):
        n = r.choice([0, 0, 1, 2, 5, 20])
        lines.append(("tinit %d" if rep == 0 else "treinit %d") % n)
        ids, nx = list(range(n)), n
        for i in range(40):
            if r.random() < .5 and ids:
                p = r.choice([0, len(ids) - 1, r.randrange(len(ids))])
                lines.append("trem %d" % p)
                ids[p] = ids[-1]
                ids.pop()
            else:
                lines.append("tadd")
                ids.append(nx)
                nx += 1
            x = r.random()
            if x < .25:
                lines.append("p2g %d" % r.choice([0, len(ids), max(0, len(ids) - 1), len(ids) + 7]))
            elif x < .6:
                lines.append("g2p %d" % r.choice([nx, nx + 3, r.randrange(nx + 1), r.randrange(nx + 1), r.choice(ids or [0])]))
            elif x < .7:
                lines.append("trem %d" % (len(ids) + r.choice([0, 1, 9])))
    return "\n".join(lines) + "\n"


def d_tbig(r, n):
    size, ops = n, []
    for _ in range(r.choice([6, 14])):
        if size and r.random() < .6:
            ops.append(str(r.choice([0, size - 1, max(0, size - 2), r.randrange(size), size // 2, 255 if size > 255 else 0])))
            size -= 1
        else:
            ops.append("add")
            size += 1
    return "\n".join([session("cc", var="tracker"), "tbig %d %s" % (n, " ".join(ops))]) + "\n"


def c11(rep):
    c = Conformance(rep, "TraceClustering", ["C11"], runner())
    hs = exhaustive(rep, ["C11"])
    scripts = []
    r = rng("C11h")
    for i, h in enumerate(hs):
        if any(x for x in h[0][1]):       # joint sessions start from empty groups
            continue
        var = ["joint-dd", "joint-gp"][i % 2]
        lines = [session("cc", var=var, model=var[6:]), model(r, "py"), "var " + var]
        s = None
        for op in h:
            if op[0] == "init":
                s = Sim(op[1])
                lines.append("init" + "".join(" %d" % x for x in op[1]))
            elif op[2] != 1:
                break
            elif op[0] == "add":
                v = r.randrange(16)
                s.add(op[1], 1, v)
                lines.append("add %d 1 %d" % (op[1], v))
            else:
                lines.append("rem %d 1 %d" % (op[1], s.bags[op[1]].pop(0)))
                s.rem(op[1], 1)
        scripts.append("\n".join(lines) + "\n")
    # tracker alone: every add/remove string over small sizes
    import itertools
    for n in range(0, 4):
        for seq in itertools.product(range(-1, 4), repeat=scale(4, 6)):
            size, lines, ok = n, [session("cc", var="tracker"), "tinit %d" % n], True
            for x in seq:
                if x < 0:
                    size += 1
                    lines.append("tadd")
                elif x < size:
                    size -= 1
                    lines.append("trem %d" % x)
                else:
                    ok = False
            if ok:
                scripts.append("\n".join(lines) + "\n")
    c.check(scripts, "C11-exhaustive")
    scripts = []
    r = rng("C11")
    scripts += [d_joint(r, k) for k in range(scale(80, 3000))]
    for f, n in [("cc", 60), ("lp", 40)]:
        r = rng("C11/" + f)
        scripts += [d_tracker(f, r, k) for k in range(scale(n, n * 30))]
    r = rng("C11/big")
    for n in [255, 256, 257, 1000, 4096, 65535, 65536, 65537, 300000] + [r.randrange(100, 100000) for _ in range(scale(3, 60))]:
        scripts += [d_tbig(r, n) for _ in range(scale(1, 6))]
    c.check(scripts, "C11")


# ---------------------------------------------------------------------------
def count_vectors(r, cap):
    out = [[], [0], [1], [2], [3], [1, 1], [0, 1, 0], [1, 2, 3], [3, 2, 1], [2, 1, 3], [1] * 20, [2] * 10, [3] * 10]
    for n in [4, 5, 9, 20, 47, 48, 49, 100, 500]:
        out += [[n], [n - 1, 1], [1, n - 1], [n // 2, 0, n - n // 2]]
    for _ in range(8):
        v = [r.choice([0, 1, 1, 2, 3, 5, 40, 300, 3000]) for _ in range(r.randrange(1, 25))]
        out.append(v)
        w = list(v)
        r.shuffle(w)
        out.append(w)
        out.append([x for x in v if x])
    out.append([10 ** 6, 1, 5])
    out.append([1] * 300)
    return [v for v in out if cap is None or sum(v) <= cap]


def d_pure(f, kind, r, k):
    N = None
    if kind == "le":
        N = [1, 2, 3, 5, 10, 20, 47, 48, 50, 100, 1000, 10 ** 5, 10 ** 8][k % 13]
    lines = [session(f, var="pure"), model(r, kind, k if kind == "py" else N)]
    sizes = [0, 0, 1, 2, 3, 5, 17, 100, 9999, 10000, 10001, 50000, 10 ** 6]
    for _ in range(40):
        c = r.choice(sizes)
        n = c + r.choice([0, 0, 1, 4, 30, 1000, 10 ** 6])
        if kind == "le":
            n = min(n, N - 1)
            c = min(c, n)
            if r.random() < .2:
                n = N - 1
            if n == 0:
                c = 0
        kk = 0 if n == 0 else (1 if c else 0) + r.randrange(0, min(n - c, 50) + 1)
        if c < n and kk == (1 if c else 0):
            kk += 1
        m = r.choice([1, 1, 2, 3, 10])
        lines.append("sa %d %d %d %d" % (c, kk, n, m))
        # the removal that undoes it
        lines.append("sr %d %d %d %d" % (c + 1, kk + (1 if c == 0 else 0), n + 1, m))
    if kind == "le":
        lines += ["sa 0 1 %d 1" % N, "sa 0 0 0 0", "sc %d" % (N + 1)]
    for v in count_vectors(r, N):
        lines.append("sc" + "".join(" %d" % x for x in v))
        if kind == "le" and sum(v) < N:
            lines.append("sc %d" % (N - sum(v)) + "".join(" %d" % x for x in v))
    lines += ["mdict", "mpb", "sa 0 0 0 1"]
    return "\n".join(lines) + "\n"


def d_loaded(f, kind, r, k):
    """Scores of a clustering model that was saved and loaded before."""
    lines = d_pure(f, kind, r, k).splitlines()[:-3]
    how = [["mdict"], ["mpb"], ["mpb", "mdict"]][k % 3]
    lines[2:] = how + r.sample(lines[2:], min(50, len(lines) - 2)) + how
    if kind == "py" or "N=1 " not in lines[1] + " ":
        N = int(lines[1].split("N=")[1]) if kind == "le" else None
        if f != "dbg" and (N is None or N >= 20):
            lines += ["var mix", "init 3 0 2 5", "sv", "add 1 1", "sv", "rem 0 1", "sv"]
    return "\n".join(lines) + "\n"


def d_scores(f, var, kind, r, k):
    N = r.choice([12, 60, 500, 10 ** 6]) if kind == "le" else None
    lines = [session(f, var=var), model(r, kind, k if kind == "py" else N), "var " + var]
    for rep in range(2):
        cs = inits(r)
        if N is not None:
            while sum(cs) >= N:
                cs = inits(r)
        lines.append("init" + "".join(" %d" % x for x in cs))
        after = ["sv"] + (["sd"] if f == "cc" else [])
        lines += after
        history(r, lines, Sim(cs), 30, f, after=after, cap=N)
    return "\n".join(lines) + "\n"


def run_text(cs):
    out = []
    for c in cs:
        if out and out[-1][0] == c:
            out[-1][1] += 1
        else:
            out.append([c, 1])
    return ",".join("%d:%d" % tuple(x) for x in out)


def many(r, top):
    """Partitions of more groups than any narrow counter holds."""
    cs = []
    for _ in range(r.randrange(1, 5)):
        cs += [r.choice([1, 1, 2, 3, 17, 400])] * r.randrange(1, 40)
    cs += [r.choice([1, 2])] * r.choice([300, 33000, 66000, 70000][:top])
    cs += [0] * r.choice([1, 1, 2, 300]) + [r.choice([5, 2000])] * r.randrange(3)
    return cs


def d_big(f, var, kind, r, k):
    lines = [session(f, var="big"), model(r, kind, k if kind == "py" else 10 ** r.randrange(6, 9)), "var " + var]
    for top in (1, 4):
        cs = many(r, top)
        line = "big " + run_text(cs)
        for _ in range(7):
            g = r.choice([0, len(cs) - 1, r.randrange(len(cs)), cs.index(0), r.randrange(len(cs))])
            if cs[g] and r.random() < .6:
                n = r.choice([1, cs[g], cs[g]])
                line += " rem:%d:%d" % (g, n)
                cs[g] -= n
                if cs[g] == 0:
                    cs[g] = cs[-1]
                    cs.pop()
            else:
                n = r.choice([1, 1, 2, 300])
                line += " add:%d:%d" % (g, n)
                cs[g] += n
                if cs[g] == n:
                    cs.append(0)
        lines.append(line)
    return "\n".join(lines) + "\n"


def d_runs(f, kind, r, k):
    lines = [session(f, var="runs"), model(r, kind, k if kind == "py" else 10 ** r.randrange(6, 9))]
    lines += ["scr " + run_text(many(r, top)) for top in (1, 2, 4, 4)]
    return "\n".join(lines) + "\n"


def law(rep, prop, kind):
    c = Conformance(rep, "TraceClustering", [prop], runner())
    scripts = []
    for f, n in [("cc", 26), ("lp", 13)] + ([("dbg", 13)] if kind == "le" else []):
        r = rng("%s/pure/%s" % (prop, f))
        scripts += [d_pure(f, kind, r, k) for k in range(scale(n, n * 20))]
    for f, var, n in [("cc", "raw", 20), ("cc", "mix", 40), ("lp", "mix", 20)]:
        r = rng("%s/mix/%s/%s" % (prop, f, var))
        scripts += [d_scores(f, var, kind, r, k) for k in range(scale(n, n * 20))]
    for f in ("cc", "lp") + (("dbg",) if kind == "le" else ()):
        r = rng("%s/runs/%s" % (prop, f))
        scripts += [d_runs(f, kind, r, k) for k in range(scale(5, 60))]
    for var in ("raw", "mix"):
        r = rng("%s/big/%s" % (prop, var))
        scripts += [d_big("cc", var, kind, r, k) for k in range(scale(4, 40))]
    if kind == "le":
        for f in ("cc", "dbg"):
            scripts.append("\n".join([session(f, var="z"), "model le N=1000000"] +
                                     ["z %d" % n for n in list(range(0, 60)) + [100, 1000, 12345, 10 ** 6, 10 ** 8]]) + "\n")
    # every history of the design model with scores after each step
    hs = exhaustive(rep, [prop])
    r = rng(prop + "h")
    hs = r.sample(hs, min(len(hs), scale(60, 2000)))
    for i, h in enumerate(hs):
        lines = hist_script(h, "cc", "mix", kind, r, tail=["sv", "sd"])
        scripts.append(lines)
    c.check(scripts, prop)


def c12(rep):
    design(rep, "py")
    law(rep, "C12", "py")


def c13(rep):
    design(rep, "le")
    law(rep, "C13", "le")


def design(rep, kind):
    cfg = "SPECIFICATION Spec\nCONSTANTS Kind = \"%s\" MaxN = %d\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n" % (
        kind, scale(6, 8) if kind == "py" else scale(7, 9),
        "AddsSumToOne Exchangeable RemoveUndoes" if kind == "py" else "CompleteNormalised RemoveUndoes")
    s = model_check("PartitionLaws", cfg, "PartitionLaws-" + kind)
    rep.add_stats(s)


# ---------------------------------------------------------------------------
def c14(rep):
    c = Conformance(rep, "TraceClustering", ["C14"], runner())
    scripts = []
    for f, kind, n in [("cc", "py", 40), ("cc", "le", 40), ("lp", "py", 16), ("lp", "le", 16), ("dbg", "le", 20)]:
        r = rng("C14/%s/%s" % (f, kind))
        for k in range(scale(n, n * 20)):
            N = [1, 2, 5, 10, 60, 1000][k % 6]
            lines = [session(f, var="sample"), model(r, kind, k if kind == "py" else N), "seed %d" % r.randrange(10 ** 6)]
            for s in [0, 1, 2, 3, 7, 20] + ([150] if k % 4 == 0 else []):
                if kind == "le" and s > N:
                    if f != "lp" or s < 50:
                        lines.append("asg %d" % s)
                    continue
                lines += ["asg %d" % s] * (2 if s > 3 else 1)
            if kind == "le":
                lines.append("asg %d" % min(N, 60))
            scripts.append("\n".join(lines) + "\n")
    for f, kind in [("cc", "py"), ("cc", "le"), ("lp", "py"), ("lp", "le"), ("dbg", "le")]:
        r = rng("C14f/%s/%s" % (f, kind))
        for k in range(scale(4, 20)):
            size = [3, 4][k % 2]
            n = 20000 if f != "dbg" else 4000
            scripts.append("\n".join([session(f, var="freq"), model(r, kind, k if kind == "py" else [4, 6, 30, 1000][k % 4]),
                                      "seed %d" % r.randrange(10 ** 6), "asgfreq %d %d" % (size, n)]) + "\n")
    r = rng("C14l")
    for k in range(scale(8, 80)):
        size = r.choice([300, 1000, 1025, 3000, 5000] if k % 4 else [20000])
        kind = "le" if k % 5 == 4 else "py"
        at = sorted(set([2, 3, 64, 99, 100, 101, 102, 128, 129, 200, 256, 257, size - 1, size] + [r.randrange(2, size + 1) for _ in range(12)]))
        scripts.append("\n".join([session("cc", var="long"), model(r, kind, k if kind == "py" else size * r.choice([1, 10])),
                                  "seed %d" % r.randrange(10 ** 6), "asgl %d %s" % (size, " ".join(map(str, at)))]) + "\n")
    for f in ("cc", "lp"):
        r = rng("C14c/" + f)
        lines = [session(f, var="count")]
        for k in range(60):
            m = r.choice([1, 2, 3, 10, 40])
            g = list(range(m)) + [r.randrange(m) for _ in range(r.choice([0, 1, 5, 50]))]
            if k % 3:
                r.shuffle(g)
            if k % 5 == 4 and m > 2:
                hole = r.randrange(m - 1)
                g = [x for x in g if x != hole]
            lines.append("cnt" + "".join(" %d" % x for x in g))
        lines.append("cnt")
        scripts.append("\n".join(lines) + "\n")
    c.check(scripts, "C14")


CHECKS = {"C10": c10, "C11": c11, "C12": c12, "C13": c13, "C14": c14}
