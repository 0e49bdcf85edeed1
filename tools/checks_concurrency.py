"""C25: any number of threads."""
from vlib import *
import checks_replay as cr
import checks_sampling as cs
import checks_mixture as mx
from gen_models import SPECS

UNITS = ["main", "race", "conc", "m_bb", "m_dd16", "m_dd256", "m_dpd", "m_gp", "m_bnb", "m_nich", "m_niw", "m_niw2", "m_niw3",
         "clustering", "sampling", "numeric"]


def scale(q, t):
    return t if THOROUGH else q


def goes(r, n):
    return ["go rand %d %d %d" % (r.randrange(1, 10 ** 9), r.choice([0, 5, 50, 300]), r.choice([100, 500, 900]))
            for _ in range(n)]


def s_hist(r, q, h, last):
    """a behaviour of the model: who asks and who leaves when"""
    f = r.choice([1, 1, 5, 9])
    L = ["session conc f=cc"]
    for t in q:
        L.append("thread num")
    for i, t in enumerate(q):
        L += ["@%d stirling %s %d %d" % (i + 1, r.choice(["vector", "aligned", "plain"]), k * f, r.randrange(4)) for k in t]
    L += ["go seq"] + ["go hist " + ",".join(map(str, x)) for x in h]
    return "\n".join(L) + "\n"


def s_table(r):
    n = r.choice([2, 2, 3, 4, 6])
    L = ["session conc f=cc"] + ["thread num"] * n
    for t in range(n):
        for _ in range(r.choice([1, 2, 4])):
            k = r.choice([0, 1, 2, 3, 8, 15, 16, 17, 30, 31, 32, 33, 60, r.randrange(32)])
            L.append("@%d stirling %s %d %d" % (t + 1, r.choice(["vector", "aligned", "plain"]), k, r.randrange(4)))
            if r.random() < .3:
                L.append("@%d fn %s %s" % (t + 1, r.choice(["fast_log", "fast_exp", "fast_lgamma", "fast_lgamma_nu"]),
                                          cs.g(r.uniform(.5, 60))))
    L += ["go seq"] + goes(r, scale(4, 12))
    return "\n".join(L) + "\n"


KINDS = sorted(SPECS) + ["clu", "samp", "num"]


def s_own(r, m):
    """threads that do the same kind of things on objects of their own"""
    n = r.choice([2, 2, 3])
    L = ["session conc f=cc"]
    body = []
    mixed, kinds = r.random() < .8, r.choice([["fast"], ["fast"], ["small"], None])
    for t in range(n):
        p = cr.p_model(r, m, "cc", mixed, kinds) if m in SPECS else {"clu": cr.p_clu, "samp": cr.p_samp, "num": cr.p_num}[m](r, "cc")
        L.append("thread " + p.kind)
        for k in range(3):
            body += ["@%d %s" % (t + 1, x) for x in p.blocks[k] + p.looks[k]]
    return "\n".join(L + body + ["go seq"] + goes(r, scale(2, 6))) + "\n"


def s_look(r, m):
    """threads that score one object that nobody changes"""
    n = r.choice([2, 3])
    p = cr.p_model(r, m, "cc", r.random() < .8) if m in SPECS else cr.p_clu(r, "cc")
    L = ["session conc f=cc"] + ["thread " + p.kind] * n + ["object a " + p.kind]
    L += ["!a " + x for b in p.blocks for x in b]
    # scoring all data of one mixture is documented as not thread safe
    looks = [x for x in p.looks[2] if x.split()[0] not in ("val", "post", "mval", "msd", "mgrid")]
    for t in range(n):
        r.shuffle(looks)
        L += ["@%d !a %s" % (t + 1, x) for x in looks]
    return "\n".join(L + ["go seq"] + goes(r, scale(2, 6))) + "\n"


def c25(rep):
    r = rng("C25")
    base = "SPECIFICATION Spec\nCONSTANTS Policy = \"%s\" Queries <- %s Emit = %s\n" \
           "INVARIANTS RightRows OneInside WholeRows Show\nPROPERTIES Progress OnlyGrows\nCHECK_DEADLOCK FALSE\n"
    seqs = {}
    for q in ["Two", "Three"] + (["ThreeLong"] if THOROUGH else []):
        s = model_check("StirlingCache", base % ("locked", q, "TRUE"), "StirlingCache-" + q, workers="1")
        rep.add_stats(s)
        for m in re.finditer(r'(?m)^"?HIST (\{.*\})"?$', s["out"]):
            d = json.loads(m.group(1).replace('\\"', '"'))
            seqs.setdefault(json.dumps(d["q"]), set()).add(tuple(d["h"]))
    for p in ["none", "check"]:
        s = model_check("StirlingCache", base % (p, "Two", "FALSE"), "StirlingCache-" + p, expect=True)
        if "RightRows is violated" not in s["out"]:
            raise CheckError("StirlingCache does not see the missing lock (%s)" % p)
    log("design model: %d orders of asking and leaving" % sum(map(len, seqs.values())))
    b = build_cc(UNITS, "conc", "race")
    cc = Conformance(rep, "TraceConcurrency", ["C25"], lambda x: pieces(b, x))
    scripts = []
    for q, hs in sorted(seqs.items()):
        hs = sorted(hs)
        r.shuffle(hs)
        hs = hs[:scale(120, 3000)]
        for k in range(0, len(hs), 6):
            scripts.append(s_hist(r, json.loads(q), hs[k:k + 6], None))
    cc.check(scripts + [s_table(r) for _ in range(scale(30, 600))], "C25-table")
    cc.check([s_own(r, m) for m in KINDS for _ in range(scale(6, 120))]
             + [s_look(r, m) for m in KINDS[:-2] for _ in range(scale(3, 60))], "C25-objects")


def pieces(b, text):
    """every session runs in processes of its own anyway: spread them"""
    ss = [s for s in re.split(r"(?m)^(?=session )", text) if s]
    with ThreadPoolExecutor(8) as pool:
        outs = list(pool.map(lambda s: run_script(b, s), ss))
    return [x for o in outs for x in o]


CHECKS = {"C25": c25}
