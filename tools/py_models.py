"""Python side of the conformance harness: runs the same command scripts as
harness/models.hpp through the dbg / hp / lp packages and writes the same events."""
import sys
import json
import importlib
import traceback

import numpy as np
import distributions.rng
from distributions.io import schema_pb2

MSG = {"bb": "BetaBernoulli", "dd": "DirichletDiscrete", "dpd": "DirichletProcessDiscrete", "gp": "GammaPoisson",
       "bnb": "BetaNegativeBinomial", "nich": "NormalInverseChiSq", "niw": "NormalInverseWishart"}
OTHER = 0xFFFFFFFF


class ScriptError(Exception):
    pass


def num(x):
    if isinstance(x, (bool, np.bool_)):
        return "1" if x else "0"
    if isinstance(x, (int, np.integer)):
        return str(int(x))
    x = float(x)
    if x != x:
        return "nan"
    if x in (float("inf"), -float("inf")):
        return "inf" if x > 0 else "-inf"
    return "%.17g" % x


def nums(xs):
    return [num(x) for x in xs]


def split(s):
    return s.split(",") if s else []


class Model(object):
    def __init__(self, model, flavour):
        self.m, self.f = model, flavour
        self.mod = importlib.import_module("distributions.%s.models.%s" % (flavour, model))

    def value(self, s):
        if self.m == "bb":
            return s == "1"
        if self.m == "nich":
            return float(s)
        if self.m == "niw":
            return np.array([float(x) for x in s.split(",")])
        return int(s)

    def out(self, v):
        if self.m == "niw":
            return nums(np.asarray(v).flatten())
        return num(v)

    def shared(self, kv):
        m = self.m
        fl = lambda k: float(kv[k])
        fs = lambda k: [float(x) for x in split(kv[k])]
        if m == "bb":
            return {"alpha": fl("alpha"), "beta": fl("beta")}
        if m == "dd":
            return {"alphas": fs("alphas")}
        if m == "dpd":
            vs = [int(x) for x in split(kv["values"])]
            return {"gamma": fl("gamma"), "alpha": fl("alpha"), "betas": dict(zip(vs, fs("betas"))),
                    "counts": dict(zip(vs, [int(x) for x in split(kv["counts"])]))}
        if m == "gp":
            return {"alpha": fl("alpha"), "inv_beta": fl("inv_beta")}
        if m == "bnb":
            return {"alpha": fl("alpha"), "beta": fl("beta"), "r": int(kv["r"])}
        if m == "nich":
            return {k: fl(k) for k in ("mu", "kappa", "sigmasq", "nu")}
        if m == "niw":
            mu = np.array(fs("mu"))
            return {"mu": mu, "kappa": fl("kappa"), "psi": np.array(fs("psi")).reshape(len(mu), len(mu)),
                    "nu": fl("nu")}

    def show_shared(self, d):
        m = self.m
        if m == "dd":
            return {"alphas": nums(d["alphas"])}
        if m == "dpd":
            ks = sorted(d["betas"])
            if set(d["counts"]) != set(ks):
                raise ValueError("betas and counts of a dumped Shared disagree")
            return {"gamma": num(d["gamma"]), "alpha": num(d["alpha"]), "values": [num(k) for k in ks],
                    "betas": [num(d["betas"][k]) for k in ks], "counts": [num(d["counts"][k]) for k in ks]}
        if m == "niw":
            return {"mu": nums(d["mu"]), "kappa": num(d["kappa"]), "psi": nums(np.asarray(d["psi"]).flatten()),
                    "nu": num(d["nu"])}
        return {k: num(v) for k, v in d.items()}

    def show_group(self, d):
        m = self.m
        if m == "dd":
            return {"counts": nums(d["counts"])}
        if m == "dpd":
            ks = list(d["counts"])
            return {"keys": [num(k) for k in ks], "values": [num(d["counts"][k]) for k in ks]}
        if m == "nich":
            return {"count": num(d["count"]), "mean": num(d["mean"]), "ctv": num(d["count_times_variance"])}
        if m == "niw":
            return {"count": num(d["count"]), "sum_x": nums(np.asarray(d["sum_x"]).flatten()),
                    "sum_xxt": nums(np.asarray(d["sum_xxT"]).flatten())}
        return {k: num(v) for k, v in d.items()}


class Runner(object):
    def __init__(self, model, flavour):
        self.M = Model(model, flavour)
        self.shs, self.gs, self.xs, self.samplers = {}, {}, {}, {}
        self.cur = None

    def sh(self):
        return self.shs[self.cur]

    def put_shared(self, o, s):
        o["sh"] = self.M.show_shared(s.dump())
        if self.M.m == "dpd" and hasattr(s, "beta0"):
            o["sh"]["beta0"] = num(s.beta0)

    def group_msg(self):
        return getattr(schema_pb2, MSG[self.M.m]).Group()

    def shared_msg(self):
        return getattr(schema_pb2, MSG[self.M.m]).Shared()

    def fresh_sampler(self):
        return self.M.mod.Sampler()

    def cmd(self, t, o):
        M = self.M
        c = t[0]
        mod = M.mod
        if c == "seed":
            np.random.seed(int(t[1]) & 0xFFFFFFFF)
            import random
            random.seed(int(t[1]))
            distributions.rng.global_rng.cc.seed(int(t[1])) if hasattr(distributions.rng.global_rng.cc, "seed") else None
            o["s"] = t[1]
        elif c in ("shared", "reload"):
            kv = dict(x.split("=", 1) for x in t[2:])
            self.cur = int(t[1])
            raw = M.shared(kv)
            if c == "shared":
                self.shs[self.cur] = mod.Shared.from_dict(raw)
            else:
                self.shs[self.cur].load(raw)
            o["s"] = self.cur
            self.put_shared(o, self.sh())
        elif c == "use":
            self.cur = int(t[1])
            o["s"] = self.cur
            self.put_shared(o, self.sh())
        elif c == "sdump":
            o["s"] = self.cur
            self.put_shared(o, self.sh())
        elif c == "sclass":      # through the class methods
            s, d = int(t[1]), int(t[2])
            m = self.shared_msg()
            mod.Shared.to_protobuf(self.shs[s].dump(), m)
            self.shs[d] = mod.Shared.from_dict(mod.Shared.from_protobuf(m))
            o.update({"e": "spb", "s": s, "d": d})
            self.put_shared(o, self.shs[d])
        elif c in ("spb", "sdict"):
            s, d = int(t[1]), int(t[2])
            if d not in self.shs:
                self.shs[d] = mod.Shared()
            if c == "spb":
                m = self.shared_msg()
                self.shs[s].protobuf_dump(m)
                m2 = self.shared_msg()
                m2.ParseFromString(m.SerializeToString())
                self.shs[d].protobuf_load(m2)
            else:
                self.shs[d].load(self.shs[s].dump())
            o["s"], o["d"] = s, d
            self.put_shared(o, self.shs[d])
        elif c == "new":
            g = int(t[1])
            if g not in self.gs:
                self.gs[g] = mod.Group()
            self.gs[g].init(self.sh())
            o["g"] = g
        elif c in ("add", "rem", "rep"):
            g, v = int(t[1]), M.value(t[2])
            o["g"], o["v"] = g, M.out(v)
            if c == "add":
                self.gs[g].add_value(self.sh(), v)
            elif c == "rem":
                self.gs[g].remove_value(self.sh(), v)
            else:
                self.gs[g].add_repeated_value(self.sh(), v, int(t[3]))
                o["n"] = int(t[3])
        elif c == "fromvals":
            g = int(t[1])
            vs = [M.value(x) for x in t[2:]]
            self.gs[g] = mod.Group.from_values(self.sh(), vs)
            o["g"], o["vs"] = g, [M.out(v) for v in vs]
        elif c == "merge":
            self.gs[int(t[1])].merge(self.sh(), self.gs[int(t[2])])
            o["g"], o["h"] = int(t[1]), int(t[2])
        elif c in ("copy", "gdict", "gpb"):
            g, h = int(t[1]), int(t[2])
            src = self.gs[h]
            if c == "gpb":
                m = self.group_msg()
                src.protobuf_dump(m)
                m2 = self.group_msg()
                m2.ParseFromString(m.SerializeToString())
                if g not in self.gs:
                    self.gs[g] = mod.Group()
                self.gs[g].protobuf_load(m2)
            elif c == "gdict" and g in self.gs:
                self.gs[g].load(src.dump())
            else:
                self.gs[g] = mod.Group.from_dict(src.dump())
            o["g"], o["h"] = g, h
        elif c == "mvt":       # mvt dof v mu sigma
            single = M.f == "lp"
            random = importlib.import_module("distributions.%s.random" % M.f)
            dof, v, mu, sigma = [np.array([np.float32(x) if single else float(x) for x in split(y)], dtype=float) for y in t[1:5]]
            o.update({"dof": num(dof[0]), "v": nums(v), "mu": nums(mu), "sigma": nums(sigma)})
            o["r"] = num(random.score_student_t(v, float(dof[0]), mu, sigma.reshape(len(mu), len(mu))))
        elif c == "stats":
            o["g"] = int(t[1])
            o["r"] = M.show_group(self.gs[int(t[1])].dump())
        elif c == "sd":
            o["g"] = int(t[1])
            o["r"] = num(self.gs[int(t[1])].score_data(self.sh()))
        elif c in ("sv", "svs"):
            v = M.value(t[2])
            o["g"], o["v"] = int(t[1]), M.out(v)
            o["r"] = num(self.gs[int(t[1])].score_value(self.sh(), v))
        elif c == "post":
            o["g"] = int(t[1])
            p = self.sh().plus_group(self.gs[int(t[1])])
            o["r"] = M.show_shared({k: getattr(p, k) for k in
                                    {"gp": ["alpha", "inv_beta"], "bnb": ["alpha", "beta", "r"],
                                     "nich": ["mu", "kappa", "sigmasq", "nu"],
                                     "niw": ["mu", "kappa", "psi", "nu"]}[M.m]})
        elif c == "val":
            o["g"] = int(t[1])
        elif c == "sadd":
            o["v"] = t[1]
            self.sh().add_value(M.value(t[1]))
            self.put_shared(o, self.sh())
        elif c == "srem":
            o["v"] = t[1]
            self.sh().remove_value(M.value(t[1]))
            self.put_shared(o, self.sh())
        elif c == "srealize":
            self.sh().realize()
            self.put_shared(o, self.sh())
        elif c == "srefused":
            o["op"], o["v"], o["refused"] = t[1], t[2], False
            try:
                getattr(self.sh(), "add_value" if t[1] == "sadd" else "remove_value")(M.value(t[2]))
            except (AssertionError, RuntimeError):
                o["refused"] = True
            self.put_shared(o, self.sh())
        elif c == "spieces":
            import copy
            n, v, th = int(t[1]), M.value(t[2]), [float(x) for x in split(t[3])]
            ks = [0] * len(th)
            for _ in range(n):
                x = copy.deepcopy(self.sh())
                x.add_value(v)
                p = x.betas[v] / self.sh().beta0
                for j, y in enumerate(th):
                    ks[j] += p <= y
            o.update({"n": n, "th": nums(th), "ks": ks})
        elif c == "samp":
            n = int(t[2])
            o["g"], o["n"] = int(t[1]), n
            o["r"] = [M.out(self.gs[int(t[1])].sample_value(self.sh())) for _ in range(n)]
        elif c == "sampler":
            k, n = int(t[2]), int(t[3])
            o["g"], o["n"] = int(t[1]), k * n
            r = []
            for _ in range(k):
                s = mod.Sampler()
                s.init(self.sh(), self.gs[int(t[1])])
                r += [M.out(s.eval(self.sh())) for _ in range(n)]
            o["r"] = r
        elif c == "sgroup":
            n = int(t[1])
            o["n"] = n
            o["r"] = [M.out(x) for x in mod.sample_group(self.sh(), n)]
        elif c in ("hist", "pairs"):
            n, how, top = int(t[2]), t[3], float("inf") if t[4] == "-" else float(t[4])
            k = {}
            s = None if how in ("value", "sgroup") else self.fresh_sampler()
            out = lambda v: "T" if v > top else M.out(v)
            for _ in range(n):
                if how == "value":
                    vs = [self.gs[int(t[1])].sample_value(self.sh())]
                elif how == "sgroup":
                    vs = list(mod.sample_group(self.sh(), 2 if c == "pairs" else 1))
                else:
                    s.init(self.sh(), self.gs[int(t[1])])
                    vs = [s.eval(self.sh()) for _ in range(2 if c == "pairs" else 1)]
                key = (out(vs[0]), out(vs[1]) if c == "pairs" else "")
                k[key] = k.get(key, 0) + 1
            ks = sorted(k)
            o.update({"g": int(t[1]), "n": n, "how": how, "top": t[4], "vs": [a for a, b in ks], "ws": [b for a, b in ks],
                      "ks": [k[x] for x in ks]})
        elif c == "cdfs":
            n, how = int(t[2]), t[3]
            w = np.array([float(x) for x in split(t[4])]) if t[4] != "-" else np.array([])
            th = [float(x) for x in split(t[5])]
            on = (lambda v: float(w.dot(np.asarray(v).flatten()))) if len(w) else float
            ks, bad = [0] * len(th), 0
            s = None if how in ("value", "sgroup") else self.fresh_sampler()
            for _ in range(n):
                if how == "value":
                    a = on(self.gs[int(t[1])].sample_value(self.sh()))
                elif how == "sgroup":
                    a = on(mod.sample_group(self.sh(), 1)[0])
                else:
                    s.init(self.sh(), self.gs[int(t[1])])
                    a = on(s.eval(self.sh()))
                    if how != "sampler":
                        b = on(s.eval(self.sh()))
                        a = a - b if how == "diff" else (a + b) / 2
                if not np.isfinite(a):
                    bad += 1
                    continue
                for j, x in enumerate(th):
                    ks[j] += a <= x
            o.update({"g": int(t[1]), "n": n, "how": how, "w": nums(w), "th": nums(th), "bad": bad, "ks": ks})
        # ---- mixtures (lp)
        elif c == "mnew":
            self.xs[int(t[1])] = mod.Mixture()
            o["x"], o["kind"] = int(t[1]), t[2]
        elif c == "mpush":
            self.xs[int(t[1])].append(self.gs[int(t[2])])
            o["x"], o["g"] = int(t[1]), int(t[2])
        elif c == "mclear":
            self.xs[int(t[1])].clear()
            o["x"] = int(t[1])
        elif c == "minit":
            self.xs[int(t[1])].init(self.sh())
            o["x"] = int(t[1])
        elif c == "maddg":
            self.xs[int(t[1])].add_group(self.sh())
            o["x"] = int(t[1])
        elif c == "mremg":
            self.xs[int(t[1])].remove_group(self.sh(), int(t[2]))
            o["x"], o["i"] = int(t[1]), int(t[2])
        elif c in ("madd", "mrem", "msvg"):
            x, i, v = int(t[1]), int(t[2]), M.value(t[3])
            o["x"], o["i"], o["v"] = x, i, M.out(v)
            if c == "madd":
                self.xs[x].add_value(self.sh(), i, v)
            elif c == "mrem":
                self.xs[x].remove_value(self.sh(), i, v)
            else:
                o["r"] = num(self.xs[x].score_value_group(self.sh(), i, v))
        elif c == "msv":
            x, v = int(t[1]), M.value(t[2])
            scores = np.array([float(t[3]) + i for i in range(len(self.xs[x]))], dtype=np.float32)
            self.xs[x].score_value(self.sh(), v, scores)
            o["x"], o["v"], o["b"], o["r"] = x, M.out(v), t[3], nums(scores)
        elif c == "msd":
            o["x"] = int(t[1])
            o["r"] = num(self.xs[int(t[1])].score_data(self.sh()))
        elif c == "mlen":
            o["x"] = int(t[1])
            o["r"] = len(self.xs[int(t[1])])
        elif c == "mstats":
            o["x"], o["i"] = int(t[1]), int(t[2])
            g = self.xs[int(t[1])][int(t[2])]
            h = mod.Group()   # what a mixture hands out cannot be dumped itself
            h.init(self.sh())
            h.merge(self.sh(), g)
            o["r"] = M.show_group(h.dump())
        elif c == "mval":
            o["x"] = int(t[1])
        elif c == "rngstate":
            pass
        else:
            return False
        return True


def main(make=lambda name, kv: Runner(kv["model"], kv["f"])):
    import warnings
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    run = None
    out = sys.stdout
    for line in sys.stdin:
        t = line.split()
        if not t or t[0].startswith("#"):
            continue
        o = {"e": t[0]}
        if t[0] == "session":
            kv = dict(x.split("=", 1) for x in t[2:])
            run = make(t[1], kv)
            o["m"] = t[1]
            o.update(kv)
        else:
            try:
                ok = run.cmd(t, o)
            except Exception as e:
                o = {"e": "err", "op": t[0], "a": t[1:], "line": line.strip(),
                     "what": ("%s: %s" % (type(e).__name__, e))[:200]}
                tb = traceback.extract_tb(sys.exc_info()[2])
                if not any("distributions" in f.filename and "_build" in f.filename for f in tb) and \
                        not isinstance(e, (AssertionError, RuntimeError)):
                    o["where"] = "%s:%s" % (tb[-1].filename, tb[-1].lineno)
                ok = True
            if not ok:
                sys.stderr.write("script error: bad command " + line)
                sys.exit(2)
        out.write(json.dumps(o, separators=(",", ":")) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
