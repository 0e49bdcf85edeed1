"""Shared machinery of the checks: builds, trace running, TLC, reporting."""
import fcntl
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
THOROUGH = TIER == "thorough"
T0 = time.time()
PYENV = dict(
    os.environ,
    PYTHONPATH=REPO + "/_build/tree",
    NUMPY_EXPERIMENTAL_DTYPE_API="1",
    OMP_NUM_THREADS="1",
    PYTHONDONTWRITEBYTECODE="1",
    PYTHONHASHSEED="0",
)


class CheckError(Exception):
    """The check itself could not run (never a verdict about the code)."""


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


def sh(cmd, **kw):
    kw.setdefault("stdout", subprocess.PIPE)
    kw.setdefault("stderr", subprocess.STDOUT)
    p = subprocess.run(cmd, **kw)
    return p.returncode, (p.stdout or b"").decode("utf-8", "replace")


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.path = os.path.join(BUILD, name + ".lock")

    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


# ---------------------------------------------------------------------------
# builds
WARN = ["-w"]
BASE = ["-std=c++0x", "-fPIC", "-msse4.1", "-mfpmath=sse"]
FAST = ["-ffast-math", "-funsafe-math-optimizations"]
FLAVOURS = {
    # name: (library flags, harness flags, link flags)
    "dbg3": (["-O3"] + FAST + ["-DDIST_DEBUG_LEVEL=3", "-DDIST_THROW_ON_ERROR"],
             ["-O1"] + FAST + ["-DDIST_DEBUG_LEVEL=3", "-DDIST_THROW_ON_ERROR"], []),
    "rel": (["-O3"] + FAST + ["-DNDEBUG=1", "-DDIST_THROW_ON_ERROR"],
            ["-O2"] + FAST + ["-DNDEBUG=1", "-DDIST_THROW_ON_ERROR"], []),
    "asan": (["-O1", "-g", "-DDIST_DEBUG_LEVEL=0", "-DDIST_THROW_ON_ERROR", "-fsanitize=address,undefined", "-fno-sanitize=shift",
              "-fno-sanitize-recover=undefined", "-D_GLIBCXX_ASSERTIONS"],) * 2
            + (["-fsanitize=address,undefined"],),
    # compiled for a race detector, linked with harness/race.cc instead of one
    "race": (["-O1"] + FAST + ["-DDIST_DEBUG_LEVEL=3", "-DDIST_THROW_ON_ERROR", "-fsanitize=thread"],) * 2
            + (["-Wl," + ",".join("--wrap=" + f for f in (
                "pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_rwlock_rdlock pthread_rwlock_wrlock "
                "pthread_rwlock_unlock pthread_spin_lock pthread_spin_unlock pthread_once __cxa_guard_acquire "
                "__cxa_guard_release __cxa_guard_abort memcpy memmove memset malloc calloc realloc posix_memalign free").split())],),
}
LIB = ["common", "special", "random", "vector_math", "clustering", "models/nich", "models/gp", "models/niw"]


def library():
    """The library's source files, as its build lists them."""
    try:
        m = re.search(r"set\(\s*DISTRIBUTIONS_SOURCE_FILES\s+(.*?)\)", open(REPO + "/src/CMakeLists.txt").read(), re.S)
        found = [x[:-3] for x in m.group(1).split() if x.endswith(".cc") and os.path.exists(REPO + "/src/" + x)]
    except (OSError, AttributeError):
        found = []
    return found or LIB


def build_cc(units, binary, flavour="dbg3", extra=(), lib=None):
    """Compiles harness units + the library from /repo's working tree; returns the binary."""
    lflags, hflags, ld = FLAVOURS[flavour]
    out = os.path.join(BUILD, "cc-" + flavour)
    gen = os.path.join(BUILD, "gen")
    os.makedirs(out, exist_ok=True)
    os.makedirs(gen, exist_ok=True)
    with Lock("cc-" + flavour):
        with Lock("gen"):
            proto = REPO + "/distributions/io/schema.proto"
            stamp = gen + "/schema.proto"
            if not (os.path.exists(stamp) and open(stamp).read() == open(proto).read()):
                root = gen + "/root"
                os.makedirs(root + "/distributions/io", exist_ok=True)
                shutil.copy(proto, root + "/distributions/io/schema.proto")
                rc, o = sh(["protoc", "--cpp_out=" + gen, "-I" + root, "distributions/io/schema.proto"], cwd=root)
                if rc:
                    raise CheckError("protoc: " + o)
                shutil.copy(proto, stamp)
        inc = ["-I" + gen, "-I" + REPO + "/include", "-I/usr/include/eigen3"]
        lines = ["rule cxx", "  command = g++ $flags -MD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
                 "rule link", "  command = g++ $in -o $out $libs"]
        objs = []
        for s in (library() if lib is None else lib):
            o = "lib_%s.o" % s.replace("/", "_")
            lines += ["build %s: cxx %s/src/%s.cc" % (o, REPO, s),
                      "  flags = " + " ".join(BASE + lflags + WARN + inc)]
            objs.append(o)
        if lib is None:
            lines += ["build lib_pb.o: cxx %s/distributions/io/schema.pb.cc" % gen,
                      "  flags = " + " ".join(BASE + ["-O1"] + WARN + inc
                                               + [x for x in lflags if x.startswith("-fsanitize") and flavour != "race"])]
            objs.append("lib_pb.o")
        for u in units:
            o = "h_%s.o" % u
            lines += ["build %s: cxx %s/%s.cc" % (o, HARNESS, u),
                      "  flags = " + " ".join(BASE + [x for x in hflags if u != "race" or not x.startswith("-fsanitize")]
                                               + WARN + inc + list(extra))]
            objs.append(o)
        lines += ["build %s: link %s" % (binary, " ".join(objs)),
                  "  libs = %s -lprotobuf -lpthread -lm" % " ".join(ld)]
        nin = os.path.join(out, binary + ".ninja")
        text = "builddir = .\n" + "\n".join(lines) + "\n"
        if not os.path.exists(nin) or open(nin).read() != text:
            open(nin, "w").write(text)
        log("building", binary, flavour)
        rc, o = sh(["ninja", "-f", binary + ".ninja", binary], cwd=out)
    if rc and lib is not None and lib != library():     # what these files need may have moved to another
        return build_cc(units, binary, flavour, extra, library())
    if rc:
        raise CheckError("harness build failed:\n" + o[-4000:])
    return os.path.join(out, binary)


def build_py():
    """Builds /repo as the project does (Python flavours, Cython extensions, library)."""
    with Lock("py"):
        log("building /repo")
        rc, o = sh(["bash", "/opt/vp/build.sh"])
        if rc:
            raise CheckError("build.sh failed:\n" + o[-4000:])


def build_java():
    out = os.path.join(BUILD, "java")
    src = [os.path.join(SPEC, "java", x) for x in sorted(os.listdir(os.path.join(SPEC, "java"))) if x.endswith(".java")]
    h = hashlib.sha256(b"".join(open(s, "rb").read() for s in src)).hexdigest()
    stamp = os.path.join(out, "stamp")
    with Lock("java"):
        if not (os.path.exists(stamp) and open(stamp).read() == h):
            os.makedirs(out, exist_ok=True)
            rc, o = sh(["javac", "-nowarn", "-d", out, "-cp", TLA_CP] + src)
            if rc:
                raise CheckError("javac: " + o)
            open(stamp, "w").write(h)
    return out


# ---------------------------------------------------------------------------
# running the code
HANG = 300 if THOROUGH else 60      # seconds after which a run of a script counts as hanging


def observe(cmd, script, timeout, env):
    """Runs the code under test; a hang or a crash is an observation, not a failure of the check."""
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
    try:
        out, err = p.communicate(script.encode(), timeout=timeout)
    except subprocess.TimeoutExpired:
        p.terminate()
        try:
            out, err = p.communicate(timeout=5)
        except subprocess.TimeoutExpired:
            p.kill()
            out, err = p.communicate()
        lines = out.decode("utf-8", "replace").splitlines()
        if lines and not lines[-1].endswith("}"):
            lines.pop()
        return None, lines + [json.dumps({"e": "crash", "rc": -1, "what": "no answer within %d s" % timeout},
                                         separators=(",", ":"))], ""
    lines = out.decode("utf-8", "replace").splitlines()
    err = err.decode("utf-8", "replace")
    if p.returncode != 0 and lines and not lines[-1].endswith("}"):
        lines.pop()
    return p.returncode, lines, err


def crash(rc, err):
    return json.dumps({"e": "crash", "rc": rc, "what": err[-1500:]}, separators=(",", ":"))


def run_script(binary, script, timeout=HANG, env=None):
    """Feeds a command script to the harness; returns the list of event lines."""
    rc, lines, err = observe([binary], script, timeout, env)
    if rc:
        if rc == 2 or "script error" in err:
            raise CheckError("harness: " + err[-2000:])
        lines.append(crash(rc, err))
    return lines


def run_py(driver, script, timeout=2 * HANG, args=()):
    rc, lines, err = observe(["/usr/bin/python3", os.path.join(VERIF, "tools", driver)] + list(args), script, timeout, PYENV)
    if rc:
        if rc in (1, 2):
            raise CheckError("driver %s: %s" % (driver, err[-3000:]))
        lines.append(crash(rc, err))
    return lines


# ---------------------------------------------------------------------------
# TLC
def work(name):
    d = os.path.join(BUILD, "work", name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def tlc(module, cfg, wd, env=None, args=(), timeout=800, mem="3g", workers="1"):
    """Runs TLC on spec/<module>.tla with the given cfg text; returns (rc, output)."""
    jd = build_java()
    os.makedirs(wd, exist_ok=True)
    for x in os.listdir(SPEC):
        if x.endswith(".tla"):
            dst = os.path.join(wd, x)
            if not os.path.exists(dst):
                os.symlink(os.path.join(SPEC, x), dst)
    cname = module + ".run.cfg"
    with open(os.path.join(wd, cname), "w") as f:
        f.write(cfg)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    cmd = ["java", "-Xmx" + mem, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2",
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:verif.Overrides",
           "-cp", TLA_CP + ":" + jd, "tlc2.TLC", "-noGenerateSpecTE", "-workers", workers,
           "-metadir", os.path.join(wd, "meta"), "-config", cname] + list(args) + [module + ".tla"]
    try:
        return sh(cmd, cwd=wd, env=e, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on " + module)


def tlc_stats(out):
    r = {"states": 0, "distinct": 0, "depth": 0}
    x = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if x:
        r["states"], r["distinct"] = int(x[-1][0]), int(x[-1][1])
    x = re.findall(r"depth of the complete state graph search is (\d+)", out)
    if x:
        r["depth"] = int(x[-1])
    return r


class Rejection:
    def __init__(self, session, line, text, events):
        self.session, self.line, self.text, self.events = session, line, text, events


def split_sessions(events):
    """Events of one harness run -> one list per session."""
    out = []
    for e in events:
        if e.startswith('{"e":"session"') or not out:
            out.append([])
        out[-1].append(e)
    return out


def validate(module, sessions, props, name, consts="", jobs=8, weight=len, timeout=800):
    """Validates recorded sessions (lists of JSON lines) in parallel TLC runs against
    spec/<module>.tla.  Returns (stats, [Rejection])."""
    total = sum(weight(s) for s in sessions)
    nchunk = max(1, min(len(sessions), jobs))
    order = sorted(range(len(sessions)), key=lambda i: -weight(sessions[i]))
    chunks = [[0, []] for _ in range(nchunk)]
    for i in order:
        c = min(chunks, key=lambda c: c[0])
        c[0] += weight(sessions[i])
        c[1].append(i)
    wd = work(name)
    cfg = "SPECIFICATION Spec\nCONSTANT Props = {%s}\n%s\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n" % (
        ", ".join('"%s"' % p for p in props), consts)
    build_java()

    def one(k):
        todo = sorted(chunks[k][1])
        rej, st = [], {"states": 0, "distinct": 0}
        rounds = 0
        while todo and rounds < 2:
            rounds += 1
            d = os.path.join(wd, "c%d_%d" % (k, rounds))
            os.makedirs(d)
            path = os.path.join(d, "trace.ndjson")
            starts = []
            n = 0
            with open(path, "w") as f:
                for i in todo:
                    starts.append((n + 1, i))
                    for e in sessions[i]:
                        f.write(e + "\n")
                        n += 1
            rc, out = tlc(module, cfg, d, env={"TRACE": path}, timeout=timeout)
            s = tlc_stats(out)
            st["states"] += s["states"]
            st["distinct"] += s["distinct"]
            if rc == 0:
                return rej, st, None
            depth = s["depth"]
            # an observation on which the laws are undefined (a negative weight, a vector of another
            # length, a key that nobody ever added) is none that the specification allows
            undefined = "The error occurred when TLC was evaluating the nested" in out
            if depth == 0 or not ("TraceAccepted" in out or undefined) or "OutOfMemory" in out or "StackOverflow" in out:
                return rej, st, "TLC failed on %s:\n%s" % (path, out[-3000:])
            line = depth          # the first line that is not a step of the spec
            i = [b for a, b in starts if a <= line][-1]
            txt = "\n".join(re.findall(r"<<\s*\"REJECT\".*?>>\s*(?=\n\S|\Z)", out, re.S)[-1:])
            if undefined and "TraceAccepted" not in out:
                txt = "the specification is not defined on this observation:\n" + out[out.find("Error: "):][:1500]
            off = line - [a for a, b in starts if b == i][0]
            rej.append(Rejection(i, off, txt[:3000], sessions[i][:off + 1]))
            todo = [j for j in todo if j > i]
        return rej, st, None

    stats = {"states": 0, "distinct": 0, "sessions": len(sessions), "lines": sum(len(s) for s in sessions)}
    rejections, errors = [], []
    with ThreadPoolExecutor(jobs) as pool:
        for rej, st, err in pool.map(one, range(nchunk)):
            rejections += rej
            stats["states"] += st["states"]
            stats["distinct"] += st["distinct"]
            if err:
                errors.append(err)
    if errors:
        raise CheckError(errors[0])
    return stats, rejections


class Conformance:
    """Scripts -> real code -> traces -> TLC, with confirmation of every rejection."""

    def __init__(self, rep, module, props, run, consts="", jobs=8, weight=len):
        self.rep, self.module, self.props, self.run = rep, module, props, run
        self.consts, self.jobs, self.weight = consts, jobs, weight

    def record(self, scripts):
        """run(list of scripts) -> one event list per script; a crash ends the run early, so
        the scripts after it are run again."""
        out = [None] * len(scripts)
        todo = list(range(len(scripts)))
        while todo:
            ev = split_sessions(self.run("".join(scripts[i] for i in todo)))
            if not ev:
                raise CheckError("the harness recorded nothing")
            for i, e in zip(todo, ev):
                out[i] = e
            if len(ev) < len(todo) and '"e":"crash"' not in ev[-1][-1]:
                raise CheckError("the harness stopped early without a crash")
            if '"no answer within' in ev[-1][-1]:
                return out[:todo[0] + len(ev)]      # what is left would only hang again
            todo = todo[len(ev):]
        return out

    def check(self, scripts, name, sample=True):
        if not scripts:
            return
        sessions = self.record(scripts)
        log("%s: %d sessions, %d events recorded" % (name, len(sessions), sum(map(len, sessions))))
        st, rej = validate(self.module, sessions, self.props, name, self.consts, self.jobs, self.weight)
        log("%s: TLC done, %d rejections" % (name, len(rej)))
        self.rep.add_traces(st, {"script": name, "last_event": sessions[0][-1][:300]} if sample else None)
        for r in rej[:4]:
            hung = '"no answer within' in r.events[-1]
            again = [r.events] if hung else self.record([scripts[r.session]])
            st2, rej2 = validate(self.module, again, self.props, name + "-again", self.consts, 1)
            note = ""
            if not rej2:      # not reproducible (timing, addresses): the recorded trace still decides
                st2, rej2 = validate(self.module, [sessions[r.session]], self.props, name + "-again", self.consts, 1)
                note = "  [seen in one of two runs of the same script]"
                if not rej2:
                    raise CheckError("a rejection of %s did not repeat: %s" % (name, r.text))
            r2 = rej2[0]
            bad = json.loads(r2.events[-1])
            what = "%s: %s" % (name, r2.events[-1][:400])
            if bad.get("e") in ("err", "crash"):
                what += "  [the call failed in a history the specification allows]"
            what += note
            self.rep.violation(what, "TLC (spec/%s.tla) rejects this line:\n%s\n\n%s\n\nScript:\n%s\n\nEvents:\n%s\n" % (
                self.module, r2.events[-1], r2.text, scripts[r.session], "\n".join(r2.events)))


def model_check(module, cfg, name, expect=None, args=(), workers="8", timeout=800, mem="8g"):
    """Exhaustive TLC run of a design spec. Returns stats; raises CheckError when TLC
    finds the *specification* at fault (that is never a verdict about the code)."""
    d = work(name)
    rc, out = tlc(module, cfg, d, args=args, timeout=timeout, mem=mem, workers=workers)
    s = tlc_stats(out)
    s["rc"] = rc
    s["out"] = out
    if rc != 0 and not expect:
        raise CheckError("design model %s: %s" % (module, out[-3000:]))
    return s


# ---------------------------------------------------------------------------
# reporting
def known_findings():
    path = os.path.join(VERIF, "known-findings.json")
    return json.load(open(path)) if os.path.exists(path) else {"findings": [], "fixed": []}


class Report:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.violations = []
        self.assumptions = []

    def add_stats(self, s):
        self.cov["states"] += s.get("distinct", 0)
        self.cov["transitions"] += s.get("states", 0)

    def add_traces(self, s, sample=None):
        self.add_stats(s)
        self.cov["traces_validated_against_impl"] += s.get("sessions", 0)
        self.cov["events_validated"] = self.cov.get("events_validated", 0) + s.get("lines", 0)
        if sample:
            self.cov["samples"].append(sample)

    def violation(self, what, detail):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        n = len(self.violations)
        path = os.path.join(d, "%s-%d.txt" % (self.prop, n))
        with open(path, "w") as f:
            f.write(what + "\n\n" + detail + "\n")
        self.violations.append(path)
        log("violation:", what[:600])

    def finish(self):
        known = [k for k in known_findings()["findings"] if k["property"] == self.prop]
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        ev = {
            "property": self.prop, "tier": TIER, "seed": SEED, "level": self.level,
            "coverage": self.cov, "assumptions": self.assumptions,
            "wall_s": round(time.time() - T0, 2), "violations": len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        for v in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, v))
        sys.stdout.flush()
        return 1 if self.violations else 0


def rng(tag):
    return random.Random("%s/%d" % (tag, SEED))
