"""C06: files of read-only formats decode to the stitches they encode."""
from .. import gen as G, harness as H, rofmt as F, world as W
from . import c26
from ..const import *

CASES = {"quick": 12000, "thorough": 500000}
RULE = "a run loads one file with at least one record through the simulated disk; distinct cases counted"
MEASURE = "distinct (format, record kinds, end form, disturbance) combinations"


RAW = {"trim_at": 10 ** 9, "clipping": False, "trim_distance": None}
TRIMS = ("tap", "exy", "dst", "jef")


def gen(r, i, tier):
    fmt = F.NAMES[i % len(F.NAMES)]
    f = F.sample(r, fmt)
    return {"file": f, "via": r.choice(["path", "path", "path", "upper", "stream"]), "ropt": read_options(r, fmt),
            "knobs": {"bufsize": G.bufsize(r), "encoding": r.choice(["utf-8", "ascii", "latin-1"])},
            "faults": G.profile_faults(r, ("read",)) if r.random() < .6 else []}


def read_options(r, fmt):
    """The caller's options for turning jumps into trims; None: none at all (the records as they are are asked for by RAW)."""
    if fmt not in TRIMS or r.random() < .6:
        return RAW
    if r.random() < .3:
        return None
    o = {"trim_at": r.choice([None, 1, 2, 3, 4, 6]), "trim_distance": r.choice([None, .5, 2, 3.0, 10.05]), "clipping": r.random() < .5}
    if fmt == "jef":
        o["trims"] = r.random() < .5
    return {k: o[k] for k in o if r.random() < .5}


def near(a, b):
    return abs(a[0] - b[0]) < 1e-6 and abs(a[1] - b[1]) < 1e-6 and a[2] == b[2]


def run(case):
    res = H.R()
    f = case["file"]
    fmt = f["fmt"]
    ext = F.ext_of(fmt)
    want = F.encode(f)
    if not f["recs"]:
        res.nontrivial = False
    st = case["ropt"]
    with H.Box(case) as w:
        name = "d." + (ext.upper() if case["via"] == "upper" else ext)
        H.put(w, name, want["bytes"])
        if case["via"] == "stream":
            stream = W.CallerStream(want["bytes"])
            kind, p = H.attempt(lambda: H.pe.EmbPattern.read_embroidery(H.reader_of(ext), stream, st))
        else:
            kind, p = H.attempt(H.load, w.path(name), st)
        res.world(w)
        if kind == "raise":
            res.bad("raise:" + fmt, "%s: a well-formed file fails to load: %s: %s" % (fmt, H.exc_name(p), p))
            return res
        if p is None:
            res.bad("none:" + fmt, "%s: loading gave no design" % fmt)
            return res
        got = [list(s) for s in p.stitches]
        while len(got) > 1 and got[-1][2] == END and got[-2][2] == END:
            got.pop()
        exp = want["cmds"]
        if fmt in TRIMS:  # jumps become trims as the options and the format's defaults ask
            o = {"trim_at": None, "trim_distance": 3.0, "clipping": True, "trims": False} if fmt == "jef" else {"trim_at": 3, "trim_distance": None, "clipping": True, "trims": False}
            o.update(st or {})
            n, dist = o["trim_at"], o["trim_distance"]
            if o["trims"] and n is None:
                n = 3
            exp = c26.with_trims([list(e) for e in exp], n, None if dist is None else dist * 10, o["clipping"])
        for k in range(max(len(got), len(exp))):
            g = got[k] if k < len(got) else None
            e = exp[k] if k < len(exp) else None
            if g is None or e is None or not near(g, e):
                res.bad("commands:" + fmt, "%s: command %d of the file is %r, loaded as %r (%d records, %d loaded)" % (fmt, k, e, g, len(exp), len(got)))
                break
        if want["threads"] is not None:
            th = [t.color & 0xFFFFFF if t is not None else None for t in p.threadlist]
            if len(th) != len(want["threads"]):
                res.bad("threads:" + fmt, "%s: the table lists %d threads, %d loaded" % (fmt, len(want["threads"]), len(th)))
            else:
                for k, (a, b) in enumerate(zip(th, want["threads"])):
                    if b is not None and a != b:
                        res.bad("threads:" + fmt, "%s: thread %d is %06x, loaded as %06x" % (fmt, k, b, a))
                        break
                for k, tx in want["text"].items():
                    t = p.threadlist[k]
                    g = {a: getattr(t, a) for a in tx} if isinstance(tx, dict) else [t.chart, t.description, t.catalog_number]
                    if g != tx:
                        res.bad("text:" + fmt, "%s: thread %d has the text %r, loaded as %r" % (fmt, k, tx, g))
                        break
        for k, v in want["meta"].items():
            if v != "" and p.extras.get(k) != v:
                res.bad("meta:" + fmt, "%s: %s is %r, loaded as %r" % (fmt, k, v, p.extras.get(k)))
        for i, pic in want.get("icons", {}).items():
            g = p.extras.get("pec_graphic_%d" % i)
            if not isinstance(g, tuple) or len(g) != 3 or bytes(g[0]) != pic[0] or g[1] != pic[1]:
                res.bad("icon:" + fmt, "%s: picture %d of the file is not loaded as it is" % (fmt, i))
                break
            c = None if g[2] is None else g[2].color & 0xFFFFFF
            if len(pic) > 2 and c != pic[2]:
                res.bad("icon:" + fmt, "%s: picture %d belongs to colour %r, loaded with %r" % (fmt, i, pic[2], c))
                break
        res.state(fmt, sorted(set(x[0] for x in f["recs"])), f["opt"].get("endrec"), bool(case["faults"]), case["via"])
        res.count("fmt_" + fmt)
        res.digest.append(H.dig(H.snap(p)))
    return res
