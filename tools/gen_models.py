"""Seeded generators of command scripts for the component models.

Every generator keeps its own bag per group so that the scripts only make legal
calls (nothing is removed that is not held), and leans on the values and sizes where
the code changes its behaviour: SIMD remainders, table sizes, thresholds of the
special functions, empty and singleton groups.
"""
import struct

OTHER = 4294967295
DIMS = [1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 20, 31, 32, 33, 64, 100, 128, 200, 255, 256]


def f32(x):
    return struct.unpack("f", struct.pack("f", x))[0]


def fmt(x):
    x = f32(x)
    if x == 0:
        return "0"
    return "%.9g" % x


def logu(r, a, b):
    return a * (b / a) ** r.random()


def short(x, digits=4):
    """A short decimal near x, so that every flavour reads the same number."""
    return float("%.*g" % (digits, x))


class Spec(object):
    """One model: runners per flavour, hyperparameters and values."""
    flavours = ["cc", "dbg", "lp"]
    discrete = True

    def runner(self, sh):
        return self.name

    def shared_args(self, sh):
        return " ".join("%s=%s" % kv for kv in sh.items())


class BB(Spec):
    name = "bb"

    def shared(self, r, k):
        a, b = r.choice([(0.5, 2.0), (10.5, 0.5), (1, 1), (0.01, 100), (250, 3),
                         (short(logu(r, .05, 60)), short(logu(r, .05, 60)))])
        return {"alpha": a, "beta": b}

    def value(self, r, sh):
        return r.choice("01")

    def queries(self, r, sh, bag):
        return ["0", "1"]


class DD(Spec):
    name = "dd"
    flavours = ["cc", "dbg", "hp", "lp"]

    def shared(self, r, k):
        dim = DIMS[k % len(DIMS)] if k < 2 * len(DIMS) else r.choice(DIMS)
        kind = r.randrange(3)
        if kind == 0:
            al = [r.choice([0.1, 0.5, 1, 4])] * dim
        elif kind == 1:
            al = [short(2.0 / (i + 1)) for i in range(dim)]
        else:
            al = [short(logu(r, .05, 20)) for _ in range(dim)]
        return {"alphas": ",".join(map(str, al)), "dim": dim}

    def shared_args(self, sh):
        return "alphas=" + sh["alphas"]

    def runner(self, sh):
        return "dd16" if sh["dim"] <= 16 else "dd256"

    def value(self, r, sh):
        d = sh["dim"]
        return str(r.choice([0, d - 1, r.randrange(d), r.randrange(d)]))

    def queries(self, r, sh, bag):
        d = sh["dim"]
        qs = {0, d - 1, d // 2} | {int(v) for v in list(bag)[:4]} | {r.randrange(d) for _ in range(2)}
        return [str(q) for q in sorted(qs)]


class DPD(Spec):
    name = "dpd"
    KEYS = [0, 1, 2, 7, 8, 31, 100, 1000, 65535, 65536, 1 << 20, (1 << 31) - 1]
    BIG = [1 << 31, OTHER - 1]

    def shared(self, r, k, big=True):
        n = r.choice([1, 2, 3, 5, 8, 12])
        keys = r.sample(self.KEYS + (self.BIG if big else []), n)
        left = r.choice([0.0, 0.125, 0.25, 0.5])
        w = [logu(r, .05, 1) for _ in keys]
        s = sum(w)
        betas = [float("%.4f" % (max(0.004, (1 - left) * x / s))) for x in w]
        if left == 0 and sum(betas) != 1:
            betas[0] = float("%.4f" % (betas[0] + 1 - sum(betas)))
        return {"gamma": short(logu(r, .2, 5)), "alpha": r.choice([0.5, 2.0, 0.05, short(logu(r, .1, 30))]),
                "values": ",".join(map(str, keys)), "betas": ",".join(map(str, betas)),
                "counts": ",".join(str(r.randrange(1, 5)) for _ in keys), "_keys": keys, "_left": 1 - sum(betas)}

    def shared_args(self, sh):
        return " ".join("%s=%s" % kv for kv in sh.items() if kv[0][0] != "_")

    def value(self, r, sh):
        return str(r.choice(sh["_keys"]))

    def queries(self, r, sh, bag):
        qs = [str(k) for k in sh["_keys"]]
        r.shuffle(qs)
        qs = qs[:6]
        if sh["_left"] > 0.05:
            qs.append(str(OTHER))
        return qs


class GP(Spec):
    name = "gp"
    flavours = ["cc", "dbg", "hp", "lp"]

    def shared(self, r, k):
        a, b = r.choice([(1, 1), (0.1, 3), (20, 0.05), (short(logu(r, .1, 50)), short(logu(r, .05, 20)))])
        return {"alpha": a, "inv_beta": b}

    def value(self, r, sh):
        return str(r.choice([0, 1, 2, 3, r.randrange(8), r.randrange(40), r.choice([31, 32, 33, 63, 64, 65, 100, 127, 128, 200, 1000])]))

    def queries(self, r, sh, bag):
        return [str(q) for q in sorted({0, 1, r.randrange(10), r.randrange(64), r.choice([31, 32, 63, 64, 65, 99, 300])})]


class BNB(Spec):
    name = "bnb"

    def shared(self, r, k):
        a, b = r.choice([(1, 1), (0.5, 3), (20, 0.25), (short(logu(r, .2, 30)), short(logu(r, .2, 30)))])
        return {"alpha": a, "beta": b, "r": r.choice([1, 1, 1, 2, 3, 10])}

    def value(self, r, sh):
        return str(r.choice([0, 1, 2, 3, r.randrange(8), r.randrange(40), r.choice([31, 32, 33, 64, 100, 200])]))

    def queries(self, r, sh, bag):
        return [str(q) for q in sorted({0, 1, r.randrange(10), r.randrange(64), r.choice([31, 32, 63, 64, 99])})]


class NICH(Spec):
    name = "nich"
    flavours = ["cc", "dbg", "hp", "lp"]
    discrete = False

    def shared(self, r, k):
        far = r.random() < .15          # far from zero compared to the spread
        return {"mu": r.choice([0, 0, 1.5, -20, short(r.uniform(-5, 5))] if not far else [1000, -10000, 20000]),
                "kappa": r.choice([1, 0.25, short(logu(r, .1, 20))]),
                "sigmasq": r.choice([1, 0.25, short(logu(r, .1, 20))]),
                "nu": r.choice([1, 3, short(logu(r, .5, 40))])}

    def value(self, r, sh):
        if abs(sh["mu"]) > 500:
            return fmt(sh["mu"] + short(r.choice([r.gauss(0, 2), r.gauss(0, 2), float(r.randrange(-4, 5)), r.gauss(0, 10)])))
        return fmt(short(r.choice([r.gauss(0, 1), r.gauss(0, 5), float(r.randrange(-4, 5)), sh["mu"] + r.gauss(0, 2)])))

    def queries(self, r, sh, bag):
        return [fmt(short(q)) for q in (0, r.gauss(0, 1), r.gauss(0, 6), sh["mu"] + 30)]


class NIW(Spec):
    name = "niw"
    discrete = False

    def __init__(self, fixed=None):
        self.fixed = fixed

    def runner(self, sh):
        return {None: "niw", 2: "niw2", 3: "niw3"}[self.fixed]

    def shared(self, r, k):
        d = self.fixed or (r.choice([6, 8, 10]) if r.random() < .12 else [1, 2, 3, 4, 5][k % 5])
        mu = [short(r.choice([0, r.uniform(-2, 2)])) for _ in range(d)]
        a = [[r.gauss(0, .4) for _ in range(d)] for _ in range(d)]
        c = short(logu(r, .5, 3), 2)
        if r.random() < .3:      # some coordinates are uncorrelated with others
            part = [r.randrange(2) for _ in range(d)]
            a = [[a[i][k] if part[i] == part[k] else 0 for k in range(d)] for i in range(d)]
        psi = [[short(sum(a[i][k] * a[j][k] for k in range(d)), 3) + (c if i == j else 0) for j in range(d)]
               for i in range(d)]
        for i in range(d):
            for j in range(i):
                psi[i][j] = psi[j][i]
        return {"mu": ",".join(map(str, mu)), "kappa": r.choice([2.0, 0.5, 7.5]),
                "psi": ",".join("%.6g" % psi[i][j] for i in range(d) for j in range(d)),
                "nu": d + r.choice([0, 1, 2.5, 6]), "dim": d}

    def shared_args(self, sh):
        return " ".join("%s=%s" % kv for kv in sh.items() if kv[0] != "dim")

    def value(self, r, sh):
        off = [r.random() < .4 for _ in range(sh["dim"])] if r.random() < .15 else [False] * sh["dim"]
        return ",".join("0" if z else fmt(short(r.choice([r.gauss(0, 1), r.gauss(1, 2), float(r.randrange(-2, 3))]), 3)) for z in off)

    def queries(self, r, sh, bag):
        return [self.value(r, sh) for _ in range(3)]


SPECS = {"bb": BB(), "dd": DD(), "dpd": DPD(), "gp": GP(), "bnb": BNB(), "nich": NICH(), "niw": NIW(),
         "niw2": NIW(2), "niw3": NIW(3)}
DISCRETE = ["bb", "dd", "dpd", "gp", "bnb"]
NORMAL = ["nich", "niw", "niw2", "niw3"]
MODELS = DISCRETE + NORMAL


class Builder(object):
    """Writes one session; keeps the bags."""

    def __init__(self, r, model, flavour, k=0, seed=None, shared=None):
        self.r, self.S, self.f = r, SPECS[model], flavour
        if shared is None:
            shared = self.S.shared(r, k)
        self.sh = shared
        self.lines = ["session %s model=%s f=%s" % (self.S.runner(self.sh), self.S.name, flavour)]
        if seed is not None:
            self.lines.append("seed %d" % seed)
        self.lines.append("shared 0 " + self.S.shared_args(self.sh))
        self.bags, self.mix = {}, {}
        self.pool = []

    def o(self, *a):
        self.lines.append(" ".join(str(x) for x in a))

    def text(self):
        return "\n".join(self.lines) + "\n"

    def val(self):
        """A value, with a bias to values already used in the session."""
        if self.pool and self.r.random() < .4:
            return self.r.choice(self.pool)
        v = self.S.value(self.r, self.sh)
        if len(self.pool) < 12:
            self.pool.append(v)
        return v

    def new(self, g):
        self.o("new", g)
        self.bags[g] = {}

    def put(self, b, v, n):
        b[v] = b.get(v, 0) + n
        if not b[v]:
            del b[v]

    def add(self, g, v=None):
        v = v or self.val()
        self.o("add", g, v)
        self.put(self.bags[g], v, 1)

    def rep(self, g, v=None, n=None):
        v = v or self.val()
        if n is None:
            n = self.r.choice([1, 2, 3, 5, 10])
        self.o("rep", g, v, n)
        self.put(self.bags[g], v, n)

    def rem(self, g, v=None):
        b = self.bags[g]
        if v is None:
            held = [x for x in b if b[x] > 0]
            if not held:
                return False
            v = self.r.choice(held)
        self.o("rem", g, v)
        self.put(b, v, -1)
        return True

    def merge(self, g, h):
        self.o("merge", g, h)
        for v, n in self.bags[h].items():
            self.put(self.bags[g], v, n)

    def copy(self, g, h, how="copy"):
        self.o(how, g, h)
        self.bags[g] = dict(self.bags[h])

    def size(self, g):
        return sum(self.bags[g].values())

    def stats(self, g):
        self.o("stats", g)

    def score(self, g, data=True):
        for q in self.S.queries(self.r, self.sh, self.bags[g]):
            self.o("sv", g, q)
            if self.f == "cc":
                self.o("svs", g, q)
        if data:
            self.o("sd", g)

    def step(self, g, reps=True):
        x = self.r.random()
        if x < .5 or not self.bags[g]:
            if reps and self.r.random() < .25:
                self.rep(g)
            else:
                self.add(g)
        elif x < .6 and reps:
            self.rep(g)
        else:
            self.rem(g)

    def drain(self, g):
        while self.rem(g):
            pass

    # mixtures ------------------------------------------------------------
    def mnew(self, x, kind):
        self.o("mnew", x, kind)
        self.mix[x] = []

    def mpush(self, x, g):
        self.o("mpush", x, g)
        self.mix[x].append(dict(self.bags[g]))

    def maddg(self, x):
        self.o("maddg", x)
        self.mix[x].append({})

    def mremg(self, x, i):
        self.o("mremg", x, i)
        m = self.mix[x]
        m[i] = m[-1]
        m.pop()

    def madd(self, x, i, v=None):
        v = v or self.val()
        self.o("madd", x, i, v)
        self.put(self.mix[x][i], v, 1)

    def mrem(self, x, i, v=None):
        held = list(self.mix[x][i])
        if not held:
            return False
        v = v or self.r.choice(held)
        self.o("mrem", x, i, v)
        self.put(self.mix[x][i], v, -1)
        return True
