"""C03: a saved file loads back with the design's descriptive metadata."""
from .. import gen as G, harness as H, model as M, rt
from ..const import *

CASES = {"quick": 9000, "thorough": 300000}
RULE = "a run saves a design with text metadata and compares the loaded fields, the needle path and the thread count with it; distinct cases counted"
MEASURE = "distinct (format, field, length class, encoding class, disturbance kinds) combinations"
# format -> {metadata key: (byte limit, key after loading)}
FIELDS = {
    "pes6": {k: (255, k) for k in ("name", "category", "author", "keywords", "comments")},
    "pes6t": {k: (255, k) for k in ("name", "category", "author", "keywords", "comments")},
    "dst": {"name": (None, "name")},
    "dstx": {"name": (None, "name"), "author": (None, "author"), "copyright": (None, "copyright")},
    "tbf": {"name": (16, "name")}, "pec": {"name": (8, "Name")}, "pes1": {"name": (8, "Name")}, "pes1t": {"name": (8, "Name")},
}
# other machine formats: the metadata must at least do no harm
HARM = ["gcode", "vp3", "xxx", "jef", "exp", "u01"]
FMTS = list(FIELDS) * 2 + HARM
PUNCT = "()[]\"';:,#<>&/\\=%" * 2


def gen(r, i, tier):
    fmt = FMTS[i % len(FMTS)]
    d = G.design(r, size=r.choice([1, 2, 4]), blocks=r.choice([1, 2, 3]), messy=False, uni=0 if r.random() < .5 else .3)
    ex = {}
    long_ok = r.random() < .5
    for k in ("name", "category", "author", "keywords", "comments", "copyright", "tp", "hooptype"):
        if r.random() < .65:
            n = r.choice([1, 3, 7, 8, 9, 15, 16, 17, 30]) if not long_ok else r.choice([16, 40, 100, 126, 127, 128, 200, 254, 255, 256, 300, 511, 600])
            ctl = "\r\n\t\x1a" if r.random() < .1 else ""
            ex[k] = G.text(r, max(1, n - 1), n, r.choice([0, .5, 1]), PUNCT + ctl)
            if r.random() < .05:
                ex[k] = r.choice(["Thread0: #ff0000 a b c", "(", ")", "M30", "TC:#010203,a,b", "\x1a\x1a", "  padded  ", "G00 X1 Y1", "LA:x"])
    if r.random() < .2:
        ex[r.choice(["Thread", "custom", "x(y", "a)b"])] = G.text(r, 1, 10, .3, PUNCT)
    d["extras"] = ex
    return {"fmt": fmt, "design": d, "knobs": {"bufsize": G.bufsize(r), "encoding": r.choice(["utf-8", "cp1252", "ascii"])},
            "faults": G.profile_faults(r) if r.random() < .4 else []}


def clip(s, n):
    return s.encode("utf8")[:n].decode("utf8", "ignore")


def control(s):
    return any(ord(c) < 32 or ord(c) in (0x85, 0x2028, 0x2029) for c in s)


def run(case):
    res = H.R()
    fmt = case["fmt"]
    ext, st = H.FORMATS[fmt]
    d = case["design"]
    exp = M.expected(d)
    if not exp["pens"] or not d.get("extras"):
        res.nontrivial = False
        return res
    with H.Box(case) as w:
        path = w.path("d." + ext)
        p = H.build(d)
        kind, val = H.attempt(H.save, p, path, dict(st))
        if kind == "raise":
            res.bad("save-raises:" + fmt, "saving as %s raised %r" % (fmt, val))
            res.world(w)
            return res
        kind, q = H.attempt(H.load, path)
        if kind == "raise" or q is None:
            res.bad("load-raises:" + fmt, "loading the saved %s raised %r" % (fmt, q))
            res.world(w)
            return res
        s = H.snap(q)
        res.digest.append(s)
        for sig, msg in rt.path_errors(d, s["stitches"], fmt, exp)[0]:
            res.bad("damages-" + sig, "metadata %r damages the stitches: %s" % (d["extras"], msg))
        # the threads must be those of the same design without metadata
        d2 = dict(d)
        d2["extras"] = {}
        path2 = w.path("e." + ext)
        kind, val = H.attempt(lambda: (H.save(H.build(d2), path2, dict(st)), H.load(path2))[1])
        if kind == "ok" and val is not None:
            a = [t[0] for t in H.snap(val)["threads"]]
            b = [t[0] for t in s["threads"]]
            if fmt == "dstx":  # the header's room is shared
                b2 = a[:len(b)]
                if b != b2:
                    res.bad("damages-threads:" + fmt, "metadata %r changes the threads: %s without it, %s with it" % (d["extras"], a, b))
            elif a != b:
                res.bad("damages-threads:" + fmt, "metadata %r changes the threads: %s without it, %s with it" % (d["extras"], a, b))
        for k, (limit, k2) in sorted(FIELDS.get(fmt, {}).items()):
            v = d["extras"].get(k)
            if v is None:
                continue
            got = s["extras"].get(k2)
            g = (got or "").strip()
            if fmt in ("dst", "dstx"):
                if control(v):
                    continue
                want = v.strip()
                if len(want.encode("utf8")) <= (DST_NAME if k == "name" else 0):
                    if g != want:
                        res.bad("field:%s:%s" % (fmt, k), "%s: %s saved %r, loaded %r" % (fmt, k, v, got))
                elif k == "name":
                    if not want.startswith(g) or len(g.encode("utf8")) < DST_NAME - 4:
                        res.bad("field:%s:%s" % (fmt, k), "%s: %s saved %r, loaded %r, which is not a prefix of it" % (fmt, k, v, got))
                else:
                    # shares the 512 byte header: in full, or shortened, or left out when there is no room
                    if not want.startswith(g):
                        res.bad("field:%s:%s" % (fmt, k), "%s: %s saved %r, loaded %r" % (fmt, k, v, got))
                    total = sum(len(d["extras"].get(x, "").encode("utf8")) + 4 for x in ("name", "author", "copyright"))
                    if total <= 512 - 140 and g != want:
                        res.bad("field:%s:%s" % (fmt, k), "%s: %s saved %r, loaded %r although the header has room" % (fmt, k, v, got))
            else:
                want = clip(v, limit).strip() if limit else v.strip()
                if fmt in ("pes6", "pes6t"):
                    want, g = clip(v, limit), got or ""
                    if want == "":
                        continue
                if g != want:
                    res.bad("field:%s:%s" % (fmt, k), "%s: %s saved %r, loaded %r" % (fmt, k, v, got))
            res.state(fmt, k, min(len(v), 300) // 16, v.isascii(), control(v), sorted(w.fired))
            res.count("fields")
        res.world(w)
    return res


DST_NAME = 128
