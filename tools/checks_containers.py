"""Containers (C16)."""
from vlib import *

KEYS = ["0", "1", "2", "7", "8", "63", "64", "4294967295", "4294967294", "2147483648", "2147483647", "65536"]


def scale(q, t):
    return t if THOROUGH else q


def s_map(r, k):
    typ = ["float", "int", "vec"][k % 3]
    lines = ["session cont f=cc kind=map-" + typ, "mnew 0 " + typ]
    crowd = k % 20 == 19
    keys = [str(r.randrange(1 << 32)) for _ in range(300)] if crowd else r.sample(KEYS, r.choice([1, 2, 4, 8]))
    have = set()
    val = lambda: r.choice(["0", "1", "0.5", "-3", "1e-6"]) if typ == "float" else str(r.randrange(1, 100))
    for _ in range(300 if crowd else 60):
        x = r.choice(keys if not crowd or not have or r.random() < .6 else sorted(have))
        good = r.random() < .85
        ops = [("madd", 1, False), ("maddd", 1, False), ("mrem", 0, True), ("mpop", 0, True), ("mset", 1, True), ("mget", 0, True),
               ("mcget", 0, True), ("mmut", 1, True), ("mgoa", 0, None), ("mhas", 0, None), ("mclear", 0, None), ("merase", 0, True)]
        if good:
            ops = [o for o in ops if o[2] is None or o[2] == (x in have)]
        op, v, need = r.choice(ops)
        if op == "mclear":
            if r.random() < (.02 if crowd else .3):
                lines.append("mclear 0")
                have.clear()
            continue
        if op == "merase" and x not in have:
            continue
        lines.append("%s 0 %s%s" % (op, x, " " + val() if v else ""))
        if need is not None and need != (x in have):
            lines.append("msee 0")
            continue
        if op in ("madd", "maddd", "mgoa"):
            have.add(x)
        elif op in ("mrem", "mpop", "merase"):
            have.discard(x)
    return "\n".join(lines) + "\n"


def s_counter(r, k):
    lines = ["session cont f=cc kind=counter", "cnew 0", "cnew 1", "cnew 2"]
    crowd = k % 20 == 19
    keys = [str(r.randrange(1 << 32)) for _ in range(100)] if crowd else r.sample(KEYS, r.choice([1, 2, 4, 8]))
    merges = 0
    for _ in range(300 if crowd else 70):
        i = r.randrange(3)
        op = r.choice(["cadd"] * 5 + ["crem"] * 3 + ["cget", "cinit", "cren", "cmerge", "cclear", "ccopy"])
        if op == "cmerge" and crowd:
            if merges > 6:
                op = "cadd"
            merges += 1
        if op == "cclear" and r.random() < (.97 if crowd else .6):
            op = "cadd"
        if op in ("cmerge", "ccopy"):
            j = r.randrange(3)
            if op == "ccopy" and i == j:
                continue
            lines.append("%s %d %d" % (op, i, j))
        elif op == "cclear":
            lines.append("cclear %d" % i)
        elif op == "cren":
            lines += ["cren %d %s %s" % (i, r.choice(keys), r.choice(keys)), "csee %d" % i]
        elif op in ("crem", "cget"):
            lines.append("%s %d %s" % (op, i, r.choice(keys)))
        else:
            lines.append("%s %d %s %d" % (op, i, r.choice(keys), r.choice([1, 1, 2, -1, -2, 0, 5, -5, 10 ** 6])))
            if op == "cinit":
                lines.append("csee %d" % i)
    return "\n".join(lines) + "\n"


def s_seq(r, k):
    typ = ["int", "float", "vec"][k % 3]
    n = r.choice([0, 0, 1, 2, 5]) if k % 20 != 19 else r.choice([100, 300])
    lines = ["session cont f=cc kind=packed-" + typ, "snew 0 %d 9 %s" % (n, typ)]
    for i in range(50):
        if r.random() < .5 and n:
            x = r.choice([0, n - 1, r.randrange(n)])
            lines.append("srem 0 %d" % x)
            n -= 1
        elif r.random() < .1:
            lines += ["srem 0 %d" % (n + r.choice([0, 1, 5])), "ssee 0"]
        else:
            lines.append("%s 0 %d" % (r.choice(["spush", "spushd"]), r.randrange(1, 200)))
            n += 1
    return "\n".join(lines) + "\n"


def c16(rep):
    b = build_cc(["main", "containers"], "containers", lib=["common"])
    a = build_cc(["main", "containers"], "containers", "asan", lib=["common"])
    c = Conformance(rep, "TraceContainers", ["C16"], lambda s: run_script(b, s))
    cfg = ("SPECIFICATION Spec\nCONSTANTS Keys = {\"0\", \"4294967295\"} Values <- %s MaxLen = %d Emit = TRUE\n"
           "INVARIANTS Represents NoZeros Show\nCHECK_DEADLOCK FALSE\n")
    scripts = []
    for values, depth, cap in [("V3", 3, scale(1500, 10 ** 9))] + ([("V2", 4, 60000)] if THOROUGH else []):
        s = model_check("ContainerDesign", cfg % (values, depth), "ContainerDesign", workers="1")
        rep.add_stats(s)
        hs = [json.loads(m.group(1).replace('\\"', '"')) for m in re.finditer(r'(?m)^"?HIST (\[.*\])"?$', s["out"])]
        if not hs:
            raise CheckError("no histories")
        log("design model: %d histories" % len(hs))
        if len(hs) > cap:
            hs = rng("cont").sample(hs, cap)
        for hst in hs:
            lines = ["session cont f=cc kind=design", "cnew 0", "cnew 1"]
            for op in hst:
                lines.append(" ".join(str(x) for x in op))
            lines += ["csee 0", "csee 1"]
            scripts.append("\n".join(lines) + "\n")
    c.check(scripts, "C16-exhaustive")
    r = rng("C16")
    scripts = []
    for k in range(scale(60, 3000)):
        scripts += [s_map(r, k), s_counter(r, k), s_seq(r, k)]
    c.check(scripts, "C16")
    # the same histories under the address and undefined-behaviour sanitizers
    legal = [s for s in scripts[:scale(60, 900)]]
    c2 = Conformance(rep, "TraceContainers", ["C16"], lambda s: run_script(a, s))
    legal = [strip_refused(s) for s in legal]
    c2.check(legal, "C16-asan")


def strip_refused(script):
    """Without assertions (the sanitizer build) only legal calls may be made."""
    out = []
    maps, cnt, n = set(), {0: {}, 1: {}, 2: {}}, 0
    for line in script.splitlines():
        t = line.split()
        op = t[0]
        keep = True
        if op in ("madd", "maddd"):
            keep = t[2] not in maps
            maps.add(t[2])
        elif op == "mgoa":
            maps.add(t[2])
        elif op in ("mrem", "mpop", "merase"):
            keep = t[2] in maps
            maps.discard(t[2])
        elif op in ("mset", "mget", "mcget", "mmut"):
            keep = t[2] in maps
        elif op == "mclear":
            maps.clear()
        elif op[0] == "c" and op not in ("cnew", "csee"):
            c = cnt[int(t[1])]
            if op in ("cadd", "cinit"):
                keep = op == "cadd" or int(t[3]) == 0 or t[2] not in c
                if keep:
                    c[t[2]] = c.get(t[2], 0) + int(t[3])
            elif op == "crem":
                c[t[2]] = c.get(t[2], 0) - 1
            elif op == "cclear":
                c.clear()
            elif op == "cmerge":
                for k, v in list(cnt[int(t[2])].items()):
                    c[k] = c.get(k, 0) + v
            elif op == "ccopy":
                cnt[int(t[1])] = c = dict(cnt[int(t[2])])
            elif op == "cren":
                keep = t[2] not in c or t[2] == t[3] or t[3] not in c
                if keep and t[2] in c:
                    c[t[3]] = c.pop(t[2])
            for k in [k for k in c if not c[k]]:
                del c[k]
        elif op == "snew":
            n = int(t[2])
        elif op in ("spush", "spushd"):
            n += 1
        elif op == "srem":
            keep = int(t[2]) < n
            n -= keep
        if keep:
            out.append(line)
    return "\n".join(out) + "\n"


CHECKS = {"C16": c16}
