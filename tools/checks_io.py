"""C20: record streams (specs RecordStream, StreamDesign, TraceStreams)."""
from vlib import *

CFG = """SPECIFICATION Spec
CONSTANTS
 Base = 2
 HeaderLen = 2
 Records <- %s
 MaxRecs = %d
 Kind = "%s"
 Emit = %s
INVARIANTS OnlyWritten ExactRecords Complete EndIsKnown EndsAtRecords Show
CHECK_DEADLOCK FALSE
"""
TEXT = {1: "7", 2: "77", 3: "{}"}


def scale(q, t):
    return t if THOROUGH else q


def hists(rep, kind, n):
    s = model_check("StreamDesign", CFG % ("Small" if kind == "proto" else "Marks", n, kind, "TRUE"), "StreamDesign-" + kind, workers="1")
    rep.add_stats(s)
    hs = [json.loads(m.group(1).replace('\\"', '"')) for m in re.finditer(r'(?m)^"?HIST (\[.*\])"?$', s["out"])]
    if not hs:
        raise CheckError("no histories")
    log("StreamDesign %s: %d histories" % (kind, len(hs)))
    return hs


def where(recs, at, r):
    """the byte of the real file that corresponds to byte `at` of the model's (headers of two digits)"""
    real = 0
    for x in recs:
        if at >= 2 + len(x):
            at -= 2 + len(x)
            real += 4 + len(x)
        elif at == 0:
            return real
        elif at == 1:
            return real + r.choice([1, 2, 3])
        else:
            return real + 4 + at - 2
    return real


def rec(x):
    return "h:" + "".join("%02x" % b for b in x)


def replay(rep, r):
    out = []
    for k, h in enumerate(hists(rep, "proto", 2)):
        names = {0: "a.stream", 1: "d/e/a.stream"}
        f = ["native", "py2"][k % 2] if len(h) == 2 else "py2"
        name = names[k % 5 == 0]
        lines = ["session io f=" + f]
        recs = []
        for op, a in h:
            if op == "dump":
                recs = list(a)
                lines.append("pdump %s %s" % (name, " ".join(map(rec, a))))
            elif op == "append":
                recs += a
                lines.append("papp %s %s" % (name, " ".join(map(rec, a))))
            else:
                lines.append("load %s pstream" % name)
                lines.append("cut %s %d" % (name, where(recs, a, r)))
        lines += ["load %s pstream" % name, "load %s pread" % name, "load %s two" % name]
        out.append("\n".join(lines) + "\n")
    for k, h in enumerate(hists(rep, "json", 3)):
        a = h[0][1]
        body = "[" + ",".join(TEXT[i] for i in a) + "]"
        n = h[1][1]
        for how, f in ((["stream", "costream", "list"][k % 3], "py2"), (["costream", "list", "stream"][k % 3], "native")):
            lines = ["session io f=" + f, "jdump x.json %s %s" % (how, body), "cut x.json %d" % n]
            if f == "py2":
                lines.append("load x.json jstream")
            lines.append("load x.json jwhole")
            out.append("\n".join(lines) + "\n")
    return out


SIZES = [0, 1, 2, 3, 4, 5, 8, 40, 127, 128, 254, 255, 256, 257, 1023, 1024, 4095, 4096, 65535, 65536, 65537]


def s_proto(r, f, big=0):
    ext = r.choice(["", "", ".gz", ".bz2"])
    name = r.choice(["a.stream", "sub/b.stream", "x/y/z.stream"]) + ext
    lines = ["session io f=" + f]
    kind = r.choice(["ascii", "bytes", "nasty"])

    def one():
        if r.random() < .25:
            return "z:%d:%d" % (r.choice(SIZES[-13:]), r.randrange(99))
        n = r.choice([0, 0, 1, 2, 3, 4, 5, 9, 30, 60])
        if kind == "ascii":
            b = bytes(r.choice(b"ab,]\n[") for _ in range(n))
        elif kind == "bytes":
            b = r.randbytes(n)
        else:       # records that look like headers, line ends, ends of files
            b = bytes(r.choice([0, 0, 1, 4, 10, 13, 26, 255]) for _ in range(n))
        return "h:" + b.hex()
    n = r.choice([0, 1, 2, 5, 12, 12, 64, 257, 1025])
    recs = [one() for _ in range(n)] if n < 60 else ["h:%02x" % (i % 256) * (i % 3 > 0) or "h:" for i in range(n)]
    if big:
        recs.insert(r.randrange(len(recs) + 1), "z:%d:1" % big)
    lines.append("pdump %s %s" % (name, " ".join(recs)))
    loads = ["load %s %s" % (name, h) for h in ("pstream", "pread", "two")]
    lines += loads
    if f == "py2" and ext != ".bz2":
        for _ in range(r.choice([0, 1, 3])):
            lines.append("papp %s %s" % (name, " ".join(one() for _ in range(r.choice([1, 1, 2, 4])))))
            lines.append(r.choice(loads))
    if r.random() < .3:       # written again from the start
        lines.append("pdump %s %s" % (name, " ".join(one() for _ in range(r.choice([0, 1, 3])))))
        lines.append(loads[0])
    for _ in range(r.choice([1, 3])):
        lines.append("cut %s %d" % (name, r.choice([-1, -2, -5, -r.randrange(1, 300), -r.randrange(1, 300)])))
        lines += [loads[0], loads[1]]
    return "\n".join(lines) + "\n"


def value(r, depth=0):
    k = r.random()
    if depth < 3 and k < .25:
        return [value(r, depth + 1) for _ in range(r.choice([0, 1, 2, 4]))]
    if depth < 3 and k < .5:
        return {text(r): value(r, depth + 1) for _ in range(r.choice([0, 1, 2, 4]))}
    return r.choice([lambda: None, lambda: True, lambda: False, lambda: r.randrange(-10 ** 6, 10 ** 6), lambda: 2 ** 70 + r.randrange(9),
                     lambda: r.uniform(-1e3, 1e3), lambda: 10.0 ** r.randrange(-300, 300) * r.random(), lambda: 1.0, lambda: -0.0,
                     lambda: text(r), lambda: text(r), lambda: 0])()


def text(r):
    return "".join(r.choice(["a", "b", ",", "]", "[", "\n", "\r", " ", "{", "}", '"', "\\", "\u00e9", "\u2028", "\U0001f600", "\x00", "\t", "/"])
                   for _ in range(r.choice([0, 1, 2, 5, 20])))


def s_json(r, f):
    ext = r.choice(["", "", ".gz", ".bz2"]) if f == "py2" else ""
    name = r.choice(["a.json", "sub/b.json"]) + ext
    lines = ["session io f=" + f]
    for _ in range(r.choice([1, 2])):
        recs = [value(r) for _ in range(r.choice([0, 1, 1, 2, 3, 8]))]
        if r.random() < .1:
            recs = list(range(r.choice([63, 64, 100, 128, 256, 1000, 1024])))
        elif r.random() < .05:
            recs.append("x" * r.choice([4095, 8192, 65536, 200000]))
        how = r.choice(["stream", "costream", "list", "stream-sorted", "costream-sorted"] + (["whole"] if f == "native" else []))
        lines.append("jdump %s %s %s" % (name, how, json.dumps(recs, separators=(",", ":")).replace(" ", "\\u0020")))
        loads = (["load %s jstream" % name] if f == "py2" else []) + ["load %s jwhole" % name]
        lines += loads
    for _ in range(r.choice([1, 4])):
        lines.append("cut %s %d" % (name, -r.choice([1, 1, 2, 3, 4, r.randrange(1, 60)])))
        lines += loads
    return "\n".join(lines) + "\n"


def s_whole(r):
    ext = r.choice(["", ".gz", ".bz2"])
    lines = ["session io f=py2"]
    recs = [value(r) for _ in range(r.choice([0, 1, 3, 8]))]
    lines.append("jdump w.json%s whole %s" % (ext, json.dumps(recs, separators=(",", ":")).replace(" ", "\\u0020")))
    lines.append("load w.json%s jwhole" % ext)
    return "\n".join(lines) + "\n"


def s_everycut(r, ext):
    """one small stream, cut at every byte"""
    recs = ["h:" + r.randbytes(r.choice([0, 1, 3, 6])).hex() for _ in range(r.choice([1, 2, 4]))]
    n = sum(4 + len(x) // 2 - 1 for x in recs)
    lines = ["session io f=" + r.choice(["native", "py2"])]
    if ext:
        n = 120
    for k in range(1, n + 1):
        lines += ["pdump a.stream%s %s" % (ext, " ".join(recs)), "cut a.stream%s %d" % (ext, -k), "load a.stream%s pstream" % ext]
    return "\n".join(lines) + "\n"


def c20(rep):
    build_py()
    r = rng("C20")
    c = Conformance(rep, "TraceStreams", ["C20"], lambda s: run_py("py_io.py", s), "Base = 256 HeaderLen = 4")
    c.check(replay(rep, r), "C20-design")
    ss = [s_proto(r, f) for f in ("native", "py2") for _ in range(scale(60, 2500))]
    ss += [s_json(r, f) for f in ("native", "py2") for _ in range(scale(60, 2500))]
    ss += [s_whole(r) for _ in range(scale(10, 300))]
    ss += [s_everycut(r, e) for e in ("", "", ".gz", ".bz2") for _ in range(scale(1, 12))]
    ss += [s_proto(r, f, n) for f in ("native", "py2") for n in (1 << 20, (1 << 24) - 1, (1 << 24) + 3)[:scale(2, 3)]]
    c.check(ss, "C20")


CHECKS = {"C20": c20}
