"""Record streams of distributions.io.stream, in a scratch directory of its own.

f=native: the module as it is under Python 3 (text files for JSON, bytes read from
protobuf streams).  f=py2: the same source with open, gzip, bz2 and struct replaced by
ones that take and give strings of bytes the way Python 2 does (and byte literals read
as strings), so that every writer and reader can run."""
import ast
import bz2
import gzip
import hashlib
import importlib
import io
import json
import os
import random
import shutil
import struct
import sys
import tempfile
import types

import py_models

REAL_OPEN = open
MODULES = {}


def text(x):
    """what Python 2 would give: a string of bytes"""
    return x.decode("latin-1") if isinstance(x, (bytes, bytearray)) else x


def raw(x):
    return x.encode("latin-1") if isinstance(x, str) else x


class File(object):
    """a binary file that takes and gives strings"""
    def __init__(self, f):
        self.f = f

    def write(self, s):
        self.f.write(raw(s))

    def writelines(self, ss):
        for s in ss:
            self.write(s)

    def read(self, *a):
        return text(self.f.read(*a))

    def readline(self, *a):
        return text(self.f.readline(*a))

    def readlines(self, *a):
        return [text(x) for x in self.f.readlines(*a)]

    def __iter__(self):
        return self

    def __next__(self):
        return text(next(self.f))

    next = __next__

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self.f.close()

    def __getattr__(self, name):
        return getattr(self.f, name)


def opener(filename, mode="r", *a, **k):
    return File(REAL_OPEN(filename, mode if "b" in mode else mode + "b"))


class Struct(object):
    def __init__(self, fmt):
        self.s = struct.Struct(fmt)
        self.format, self.size = fmt, self.s.size

    def pack(self, *a):
        return text(self.s.pack(*[raw(x) for x in a]))

    def unpack(self, x):
        return tuple(text(v) for v in self.s.unpack(raw(x)))


def shims():
    s, z, g = types.ModuleType("struct"), types.ModuleType("bz2"), types.ModuleType("gzip")
    s.Struct, s.calcsize, s.error = Struct, struct.calcsize, struct.error
    s.pack = lambda fmt, *a: Struct(fmt).pack(*a)
    s.unpack = lambda fmt, x: Struct(fmt).unpack(x)
    z.BZ2File = lambda n, mode="r", *a, **k: File(bz2.BZ2File(n, mode))
    z.open = lambda n, mode="rb", *a, **k: File(bz2.BZ2File(n, mode))
    g.GzipFile = lambda n, mode="rb", *a, **k: File(gzip.GzipFile(n, mode))
    g.open = lambda n, mode="rb", *a, **k: File(gzip.GzipFile(n, mode))
    return {"struct": s, "bz2": z, "gzip": g}


class Literals(ast.NodeTransformer):
    def visit_Constant(self, n):
        return ast.copy_location(ast.Constant(text(n.value)), n) if isinstance(n.value, bytes) else n


def module(f):
    m = importlib.import_module("distributions.io.stream")
    if f != "py2":
        return m
    if "py2" not in MODULES:
        importlib.import_module("simplejson")
        tree = Literals().visit(ast.parse(REAL_OPEN(m.__file__, encoding="utf-8").read(), m.__file__))
        p = MODULES["py2"] = types.ModuleType("distributions.io.stream")
        p.__file__, p.__package__ = m.__file__, "distributions.io"
        p.open = p.file = opener
        p.bytes = p.unicode = p.basestring = str
        kept = {n: sys.modules[n] for n in ("struct", "bz2", "gzip")}
        sys.modules.update(shims())
        try:
            exec(compile(ast.fix_missing_locations(tree), m.__file__, "exec"), p.__dict__)
        finally:
            sys.modules.update(kept)
    return MODULES["py2"]


def content(s):
    """h:<hex>, or z:<length>:<seed> for a long record of pseudo-random bytes"""
    k = s.split(":")
    return bytes.fromhex(k[1]) if k[0] == "h" else random.Random(int(k[2])).randbytes(int(k[1]))


def sig(b):
    if isinstance(b, str):
        b = b.encode("latin-1")
    b = bytes(b)
    return [len(b), b.hex() if len(b) <= 40 else hashlib.sha256(b).hexdigest()]


def canon(x):
    def walk(v):
        if isinstance(v, bytes):
            return v.decode("utf-8")
        if isinstance(v, dict):
            return {walk(k): walk(y) for k, y in v.items()}
        if isinstance(v, (list, tuple)):
            return [walk(y) for y in v]
        return v
    s = json.dumps(walk(x), sort_keys=True)
    return s if len(s) <= 200 else "%d:%s" % (len(s), hashlib.sha256(s.encode()).hexdigest())


class Runner(object):
    def __init__(self, kv):
        self.f = kv["f"]
        self.dir = tempfile.mkdtemp(prefix="dist-io-")
        self.m = module(self.f)
        self.open = {}

    def __del__(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, name):
        return os.path.join(self.dir, name)

    def put(self, o, name, raw):
        p = self.path(name)
        o["file"] = name
        o["size"] = os.path.getsize(p)
        o["plain"] = int(not name.endswith((".gz", ".bz2")))
        if raw is not None:
            small = o["plain"] and o["size"] <= 60
            o["raw"] = list(REAL_OPEN(p, "rb").read()) if small else []
            o["bytes"] = [list(x) for x in raw] if small else []

    def cmd(self, t, o):
        c = t[0]
        if c == "pdump":
            recs = [content(x) for x in t[2:]]
            p = self.path(t[1])
            if self.f == "py2":
                self.m.protobuf_stream_dump((r.decode("latin-1") for r in recs), p)
            else:
                os.makedirs(os.path.dirname(p), exist_ok=True)
                op = gzip.GzipFile if p.endswith(".gz") else bz2.BZ2File if p.endswith(".bz2") else REAL_OPEN
                with op(p, "wb") as fd:
                    for r in recs:
                        fd.write(struct.pack("<I", len(r)) + r)
            o["recs"] = [sig(r) for r in recs]
            self.put(o, t[1], recs)
            self.all = dict(getattr(self, "all", {}), **{t[1]: recs})
        elif c == "papp":      # opened once, several records
            recs = [content(x) for x in t[2:]]
            with self.m.open_compressed(self.path(t[1]), "ab") as fd:
                for r in recs:
                    self.m.protobuf_stream_write(r.decode("latin-1"), fd)
            o["recs"] = [sig(r) for r in recs]
            self.all = getattr(self, "all", {})
            self.all[t[1]] = self.all.get(t[1], []) + recs
            self.put(o, t[1], self.all[t[1]])
        elif c == "jdump":     # jdump file how <json list>
            recs = json.loads(" ".join(t[3:]))
            p = self.path(t[1])
            how, kw = t[2], {}
            if how.endswith("-sorted"):
                how, kw = how[:-7], {"sort_keys": True}
            if how == "whole":
                self.m.json_dump(recs, p, **kw)
            elif how == "stream":
                self.m.json_stream_dump((x for x in recs), p, **kw)
            elif how == "list":
                self.m.json_stream_dump(recs, p, **kw)
            else:
                co = self.m.json_costream_dump(p, **kw)
                next(co)
                for x in recs:
                    co.send(x)
                co.close()
            o["recs"] = [canon(x) for x in recs]
            self.put(o, t[1], None)
        elif c == "cut":
            p = self.path(t[1])
            size = os.path.getsize(p)
            n = int(t[2]) if int(t[2]) >= 0 else size + int(t[2])
            n = max(0, min(n, size))
            with REAL_OPEN(p, "r+b") as fd:
                fd.truncate(n)
            o.update({"file": t[1], "n": n})
        elif c == "load":      # load file how
            name, how = t[1], t[2]
            p = self.path(name)
            o["file"], o["how"] = name, how
            o["plain"] = int(not name.endswith((".gz", ".bz2")))
            shape = canon if how[0] == "j" else sig
            got, end = [], "end"
            try:
                if how == "jwhole":
                    got = list(self.m.json_load(p))
                elif how == "jstream":
                    for x in self.m.json_stream_load(p):
                        got.append(x)
                elif how == "pstream":
                    it = self.m.protobuf_stream_load(p)
                    for x in it:
                        got.append(x)
                    it.close()
                elif how == "pread":
                    with self.m.open_compressed(p, "rb") as fd:
                        try:
                            while True:
                                got.append(self.m.protobuf_stream_read(fd))
                        except StopIteration:
                            pass
                elif how == "two":     # a second reader of the same file in between
                    a, b = iter(self.m.protobuf_stream_load(p)), iter(self.m.protobuf_stream_load(p))
                    for x in a:
                        got.append(x)
                        next(b, None)
                        next(b, None)
                else:
                    raise py_models.ScriptError(how)
            except py_models.ScriptError:
                raise
            except (ImportError, NameError, AttributeError, AssertionError):
                raise
            except Exception as e:
                end = "error"
                o["what"] = "%s: %s" % (type(e).__name__, str(e)[:80])
            o["got"], o["end"] = [shape(x) for x in got], end
        else:
            return False
        return True


if __name__ == "__main__":
    py_models.main(lambda name, kv: Runner(kv))
