"""C20: path, stream and block size make no difference."""
import io, os, tempfile
from .. import gen as G, harness as H, ops as O, world as W
from ..const import *
from . import c07, c15

CASES = {"quick": 5000, "thorough": 220000}
RULE = "a run performs one save (or load) to (from) a path and again through 3 to 6 other kinds of stream, entry points and block sizes, and compares bytes (designs); distinct cases counted"
MEASURE = "distinct (direction, format, stream kind, entry point, block size) combinations"
SRC = [s for s in O.SOURCES if s != "jpx"]
BLOCKS = [1, 2, 3, 5, 7, 16, 63, 64, 512, 4096, 8192, 65536]
NAMES = ["w%d.{}", "w%d.{}", "W %d.{U}", "w%d.dst.pes.{}", "w.%d/x.{T}", "\u00e9%d.{}"]  # {U}: upper case, {T}: first letter upper
OUT = ["bytesio", "file", "fileplus", "raw", "spooled", "spooled", "minimal", "random", "path", "path", "subclass"]
IN = ["bytesio", "file", "fileplus", "raw", "spooled", "minimal", "path", "path", "subclass", "view"]


def gen(r, i, tier):
    c = {"dir": r.choice(["out", "out", "in"]), "knobs": {"bufsize": 8192, "rand_const": 0x35A06F}, "faults": [], "noise": []}
    if c["dir"] == "out":
        c["fmt"] = O.SAVED[i % len(O.SAVED)]
        if r.random() < .5:
            c["design"] = O.small_design(r, c["fmt"], size=r.choice([1, 3, 8, 20]))
        else:
            c["design"] = c07.gen_design(r, c["fmt"])
        c["opts"] = c07.options(r, c["fmt"]) if r.random() < .4 else {}
        kinds = OUT
    else:
        c["src"] = O.source(r, SRC[(i // 2) % len(SRC)], r.choice([1, 3, 8, 20, 60]))
        c["settings"] = r.choice([None, None, {"trim_at": 2}, {"trims": True}])
        kinds = IN
    c["ways"] = [{"kind": r.choice(kinds), "api": r.choice(["generic", "named"]), "entry": r.choice(["", "", "method", "init", "keywords"]), "name": r.choice(NAMES), "bufsize": r.choice(BLOCKS), "spool": r.choice([0, 1, 16, 200, 1500, 100000]),
                  "encoding": r.choice(["utf-8", "utf-8", "cp1252", "ascii"])} for _ in range(r.choice([3, 4, 6]))]
    if r.random() < .4:
        c["noise"] = G.profile_faults(r)
    return c


class SubBytesIO(io.BytesIO):
    pass


class View:
    """A caller's stream over part of memory: reads return memory views' bytes, no name, no fileno."""

    def __init__(self, b):
        self.b, self.p = memoryview(b), 0

    def read(self, n=-1):
        if n is None or n < 0:
            n = len(self.b) - self.p
        v = bytes(self.b[self.p:self.p + n])
        self.p += len(v)
        return v

    def seek(self, pos, whence=0):
        self.p = max(0, pos + (0, self.p, len(self.b))[whence])
        return self.p

    def tell(self):
        return self.p


def writer_call(api, ext, p, target, st):
    fn = getattr(H.pe, "write_" + ext, None) if api == "named" else None
    if fn is not None:
        return fn(p, target, st)
    return H.pe.write_embroidery(H.writer_of(ext), p, target, st)


def reader_call(api, ext, source, st):
    fn = getattr(H.pe, "read_" + ext, None) if api == "named" else None
    if fn is not None:
        return fn(source, st)
    return H.pe.read_embroidery(H.reader_of(ext), source, st)


def name_of(way, k, ext):
    return (way.get("name", "w%d.{}") % k).replace("{}", ext).replace("{U}", ext.upper()).replace("{T}", ext[:1].upper() + ext[1:])


def save_path(p, path, way, ext, st):
    if way["api"] == "named":
        return writer_call("named", ext, p, path, st)
    if way.get("entry") and "filename" not in st:
        return p.write(path, **st)
    return H.save(p, path, st)


def load_path(path, way, ext, st):
    e = way.get("entry")
    if way["api"] == "named":
        return reader_call("named", ext, path, st)
    if e == "method":
        p = H.pe.EmbPattern()
        p.read(path, **(st or {}))
        return p
    if e == "init":
        return H.pe.EmbPattern(path, st) if way["spool"] % 2 else H.pe.EmbPattern(path, settings=st)
    if e == "keywords":
        return H.pe.EmbPattern(path, **(st or {}))
    return H.load(path, st)


def save_way(w, case, way, k):
    """[outcome, bytes of the file] of the save done this way."""
    ext = H.FORMATS[case["fmt"]][0]
    st = O.settings(case["fmt"], w, "s%d.ct0" % k if case["fmt"] == "tbf" else None, case["opts"])
    p = H.build(case["design"])
    kind = way["kind"]
    w.bufsize, w.encoding = way["bufsize"], way["encoding"]
    name = "w%d.%s" % (k, ext)
    if case["fmt"] in O.TEXT_WRITE and kind != "path":
        s = io.StringIO(newline="")
        if kind in ("file", "fileplus", "raw", "random"):
            with open(w.path(name), "w", encoding="utf-8") as s:
                out = H.attempt(writer_call, way["api"], ext, p, s, st)
            data = H.get(w, name)
        else:
            out = H.attempt(writer_call, way["api"], ext, p, s, st)
            data = s.getvalue().encode("utf8")
    elif kind == "path":
        name = name_of(way, k, ext)
        os.makedirs(os.path.dirname(w.path(name)), exist_ok=True)
        out = H.attempt(save_path, p, w.path(name), way, ext, st)
        data = H.get(w, name)
    elif kind in ("file", "fileplus", "raw", "random"):
        with open(w.path(name), "w+b" if kind in ("fileplus", "random") else "wb", **({"buffering": 0} if kind == "raw" else {})) as s:
            out = H.attempt(writer_call, way["api"], ext, p, s, st)
        data = H.get(w, name)
    elif kind == "spooled":
        with tempfile.SpooledTemporaryFile(max_size=way["spool"], dir=w.path("")) as s:
            out = H.attempt(writer_call, way["api"], ext, p, s, st)
            s.seek(0)
            data = s.read()
    elif kind == "minimal":
        s = W.CallerStream(b"")
        out = H.attempt(writer_call, way["api"], ext, p, s, st)
        data = s.getvalue()
    else:
        s = SubBytesIO() if kind == "subclass" else io.BytesIO()
        out = H.attempt(writer_call, way["api"], ext, p, s, st)
        data = s.getvalue()
    if out[0] == "raise":
        return ["raise", H.exc_name(out[1])]
    return ["ok", data, H.get(w, "s%d.ct0" % k)]


def load_way(w, case, way, k, data, name):
    ext = O.source_ext(case["src"])
    w.bufsize, w.encoding = way["bufsize"], way["encoding"]
    kind = way["kind"]
    st = dict(case["settings"]) if case["settings"] else None
    p = w.path(name)
    if ext in O.TEXT_READ and kind != "path":
        if kind in ("file", "fileplus", "raw"):
            with open(p, "r", encoding="utf-8", newline="") as s:
                out = H.attempt(reader_call, way["api"], ext, s, st)
        else:
            out = H.attempt(reader_call, way["api"], ext, io.StringIO(data.decode("utf8"), newline=""), st)
    elif kind == "path":
        if k:
            p = w.path(name_of(way, k, ext))
            os.makedirs(os.path.dirname(p), exist_ok=True)
            H.put(w, name_of(way, k, ext), data)
        out = H.attempt(load_path, p, way, ext, st)
    elif kind in ("file", "fileplus", "raw"):
        with open(p, "r+b" if kind == "fileplus" else "rb", **({"buffering": 0} if kind == "raw" else {})) as s:
            out = H.attempt(reader_call, way["api"], ext, s, st)
    elif kind == "spooled":
        with tempfile.SpooledTemporaryFile(max_size=way["spool"], dir=w.path("")) as s:
            s.write(data)
            s.seek(0)
            out = H.attempt(reader_call, way["api"], ext, s, st)
    else:
        s = {"minimal": W.CallerStream, "subclass": SubBytesIO, "view": View}.get(kind, io.BytesIO)(data)
        out = H.attempt(reader_call, way["api"], ext, s, st)
    if out[0] == "raise":
        return ["raise", H.exc_name(out[1])]
    return ["ok", H.snap(out[1])]


REF = {"kind": "path", "api": "generic", "bufsize": 8192, "spool": 0, "encoding": "utf-8"}


def run(case):
    res = H.R()
    with H.Box(case) as w:
        data = None
        if case["dir"] == "in":
            data = O.source_bytes(case["src"])
            name = "in." + O.source_ext(case["src"])
            H.put(w, name, data)
        ref = None
        for k, way in enumerate([REF] + case["ways"]):
            # short and interrupted transfers happen below the buffer; a raw stream hands them to its user
            w.faults = list(case["noise"]) if k and way["kind"] != "raw" else []
            if case["dir"] == "out":
                got = save_way(w, case, way, k)
                nm = case["fmt"]
            else:
                got = load_way(w, case, way, k, data, name)
                nm = O.source_name(case["src"])
            w.faults = []
            res.state(case["dir"], nm, way["kind"], way["api"], way["bufsize"])
            res.count("way_" + way["kind"])
            if k == 0:
                ref = got
                res.count("reference_" + got[0])
            elif got != ref:
                if case["dir"] == "out" and len(got) > 1 and len(ref) > 1 and got[0] == "ok" == ref[0]:
                    what = c15.brief(ref, got) + " / " + c15.brief(got, ref)
                else:
                    what = "%s / %s" % (c15.brief(ref, got), c15.brief(got, ref))
                res.bad("%s:%s:%s" % (case["dir"], nm, way["kind"]), "%s %s through %s (%s entry, blocks of %d) differs from the path: %s" % (
                    "saving" if case["dir"] == "out" else "loading", nm, way["kind"], way["api"], way["bufsize"], what))
                break
        res.world(w)
        res.digest.append([H.dig(x) for x in (ref or ())])
    return res
