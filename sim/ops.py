"""Sources of files for every readable format, and the operations (load, save, convert)
the I/O properties run, each described by a plain JSON value."""
from . import gen as G, harness as H, rofmt as F, world as W
from .const import *

# how to write a file of each format that has a writer
WRITTEN = ["dst", "dstx", "exp", "jef", "pec", "pes1", "pes6", "pes1t", "pes6t", "vp3", "u01", "xxx", "tbf", "gcode", "csv", "csvdelta",
           "csvfull", "json", "pmv", "col", "edr", "inf"]
ENCODED = list(F.ENC)
SOURCES = WRITTEN + ENCODED
TEXT_READ = ("csv", "col", "json")
TEXT_WRITE = ("json",)
SAVED = WRITTEN + ["svg", "txt", "txtm", "png"]


def small_design(r, fmt=None, **k):
    k.setdefault("size", r.choice([1, 2, 4, 8]))
    k.setdefault("blocks", r.choice([1, 2, 3]))
    if fmt == "png":
        k["origin"] = (0, 0)
    d = G.design(r, extras={n: G.text(r, 1, 12) for n in ("name", "author", "comments") if r.random() < .4}, **k)
    if fmt == "png":
        for s in d["stitches"]:
            s[0], s[1] = s[0] % 90 - 20, s[1] % 90 + 30
    if not d["threads"]:
        d["threads"] = G.threadlist(r, 8)
    return d


def source(r, name=None, size=None):
    if name is None:
        name = r.choice(SOURCES)
    if name in ENCODED:
        return {"enc": F.sample(r, name, size if size is not None else r.choice([1, 3, 8, 20]))}
    d = small_design(r, name) if size is None else small_design(r, name, size=size)
    return {"fmt": name, "design": d}


def source_ext(src):
    return F.ext_of(src["enc"]["fmt"]) if "enc" in src else H.FORMATS[src["fmt"]][0]


def source_name(src):
    return src["enc"]["fmt"] if "enc" in src else src["fmt"]


def source_bytes(src):
    """Bytes of the file; must be called inside a world."""
    if "enc" in src:
        return F.encode(src["enc"])["bytes"]
    return H.clean_bytes(src["design"], src["fmt"], {"date": "20200102030405"} if src["fmt"] == "jef" else None)


def settings(fmt, w=None, side=None, extra=None):
    st = dict(H.FORMATS[fmt][1])
    if fmt == "jef":
        st["date"] = "20200102030405"
    if side:
        st["ct0"] = w.path(side)
    st.update(extra or {})
    return st
