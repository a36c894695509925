"""C02: a saved file loads back with the design's thread colours."""
from .. import gen as G, harness as H, model as M, palettes as P, rt
from ..const import *

CASES = {"quick": 9000, "thorough": 300000}
RULE = "a run saves a design with at least one thread and compares the colours of the loaded blocks with it; distinct cases counted"
MEASURE = "distinct (format, thread relations, disturbance kinds) combinations"
EXACT = ["pes6", "pes6t", "vp3", "xxx", "tbf", "gcode", "dstx"]
PALETTE = ["pec", "pes1", "pes1t", "jef"]
LISTS = ["inf", "col", "edr"]
FMTS = EXACT + PALETTE + EXACT + PALETTE + LISTS
# thread text each format has room for
TEXT = {"pes6": ("catalog_number", "description", "brand", "chart"), "pes6t": ("catalog_number", "description", "brand", "chart"),
        "vp3": ("catalog_number", "description", "brand"), "inf": ("description", "chart"), "dstx": ("description", "catalog_number")}


def gen(r, i, tier):
    fmt = FMTS[i % len(FMTS)]
    pal = {"pec": P.PEC, "pes1": P.PEC, "pes1t": P.PEC, "jef": P.JEF}.get(fmt)
    stops = fmt not in ("dstx", "xxx", "gcode") and r.random() < .4
    blocks = r.choice([1, 2, 2, 3, 3, 4, 5, 8, 13, 20, 40, 60])
    if fmt == "dstx":
        blocks = min(blocks, 8)
    d = G.design(r, size=r.choice([1, 2, 3]), blocks=blocks, stops=stops, messy=r.random() < .25)
    if r.random() < .06:
        G.numbered(r, d)
    need = len(d["threads"])
    exactpal = False
    if pal and r.random() < .3:
        exactpal = True
        cols = [c for c in pal if c is not None]
        # a repeated colour is allowed, but not next to itself
        out = []
        for k in range(need):
            c = r.choice(cols)
            while out and out[-1]["color"] == c:
                c = r.choice(cols)
            t = G.thread(r)
            t["color"] = c
            out.append(t)
        d["threads"] = out
    elif pal and r.random() < .4:
        # palette colours among colours the palette has no room for
        cols = [c for c in pal if c is not None]
        few = r.sample(cols, r.choice([1, 2, 3, 6]))
        for t in d["threads"]:
            t["color"] = r.choice(few) ^ r.choice([0, 0, 0, 1, 2, 256, 0x30000])
    elif r.random() < .4:
        # text with the characters formats use as delimiters, and long text
        for t in d["threads"]:
            for k in ("description", "catalog_number", "brand", "chart"):
                if r.random() < .4:
                    t[k] = G.text(r, 1, r.choice([5, 30, 30, 140, 300]) if fmt != "dstx" else 12, .4, "()\"';:#<>&/\\" * 2)
    if fmt in LISTS and r.random() < .1:
        d["threads"] = []
    if r.random() < .4:  # the header the threads share with other text
        d["extras"] = {k: G.text(r, 1, r.choice([8, 40, 130, 200, 260, 320, 350, 366, 380, 480]), r.choice([0, 0, .5]))
                       for k in ("name", "author", "copyright", "comments") if r.random() < .5}
    return {"fmt": fmt, "design": d, "exactpal": exactpal, "knobs": {"bufsize": G.bufsize(r), "encoding": r.choice(["utf-8", "cp1252", "ascii"])},
            "faults": G.profile_faults(r) if r.random() < .5 else [], "extra_threads": r.choice([0, 0, 0, 1, 3])}


def clip(s, n):
    return s.encode("utf8")[:n].decode("utf8", "ignore")


def text_ok(fmt, k, want, got):
    if want is None or want == "":
        return True
    if fmt in ("pes6", "pes6t"):
        return got == clip(want, 255)
    if fmt == "dstx":
        if "," in want:
            return True
        return (got or "").strip() == want.strip()
    return got == want


def run(case):
    res = H.R()
    fmt = case["fmt"]
    ext, st = H.FORMATS[fmt]
    d = dict(case["design"])
    th = list(d["threads"])
    exp = M.expected(d)
    used = exp["orders"]
    if fmt not in LISTS:
        if not exp["pens"] or not th or len(th) < used:
            res.nontrivial = False
            return res
        if not case["extra_threads"]:
            th = th[:max(used, 1)]
        else:
            th = th[:max(used, 1) + case["extra_threads"]]
    d["threads"] = th
    if fmt in ("pec", "pes1", "pes1t", "jef", "pes6", "pes6t") and len(set(t["color"] for t in th)) > 63:
        res.nontrivial = False
        return res
    with H.Box(case) as w:
        path = w.path("d." + ext)
        p = H.build(d)
        kind, val = H.attempt(H.save, p, path, dict(st))
        if kind == "raise":
            res.bad("save-raises:" + fmt, "saving as %s raised %r" % (fmt, val))
            res.world(w)
            return res
        kind, q = H.attempt(H.load, path)
        if kind == "raise" or q is None:
            res.bad("load-raises:" + fmt, "loading the saved %s raised %r" % (fmt, q))
            res.world(w)
            return res
        s = H.snap(q)
        res.digest.append(s)
        got = s["threads"]
        if any(not isinstance(t, list) or not isinstance(t[0], int) for t in got):
            res.bad("thread-missing:" + fmt, "%s: loaded thread list has an entry without a colour: %r" % (fmt, got))
            res.world(w)
            return res
        gcol = [t[0] & 0xFFFFFF for t in got]
        wcol = [t["color"] for t in th]
        if fmt in LISTS:
            if gcol != wcol:
                res.bad("colors:" + fmt, "%s: saved %s, loaded %s" % (fmt, hexs(wcol), hexs(gcol)))
            else:
                check_text(res, fmt, th, got, range(len(th)))
        else:
            check_blocks(res, fmt, d, exp, s, wcol, gcol, th, got, case)
        res.world(w)
        rel = (len(set(wcol)) < len(wcol), any(a == b for a, b in zip(wcol, wcol[1:])), min(len(wcol), 30), case["exactpal"])
        res.state(fmt, rel, sorted(w.fired))
        res.count("threads", len(wcol))
    return res


def hexs(v):
    return "[" + " ".join("%06x" % (c & 0xFFFFFF) for c in v[:20]) + (" ..." if len(v) > 20 else "") + "]"


def check_text(res, fmt, th, got, idx):
    names = H.THREAD_FIELDS
    for i in idx:
        for k in TEXT.get(fmt, ()):
            g = got[i][1 + names.index(k)]
            if not text_ok(fmt, k, th[i].get(k), g):
                res.bad("text:%s:%s" % (fmt, k), "%s: thread %d %s saved %r, loaded %r" % (fmt, i, k, th[i].get(k), g))
                return


def check_blocks(res, fmt, d, exp, s, wcol, gcol, th, got, case):
    errs = [1]
    if fmt in rt.PESLIKE:
        # zero-length stitches in one place can be matched in several ways: one that gives every
        # penetration its colour counts
        def same(want, got):
            return lambda j, i: got["owner"][j] < len(gcol) and gcol[got["owner"][j]] == wcol[want["owner"][i]]
        errs, gv, back = rt.path_errors(d, s["stitches"], fmt, exp, also=same)
    if errs:
        errs, gv, back = rt.path_errors(d, s["stitches"], fmt, exp)
    if errs:
        res.bad(*errs[0])
        return
    base = 0
    if gv["owner"] and fmt == "tbf":
        base = gv["owner"][0] if exp["owner"][0] == 0 else gv["owner"][0] - exp["owner"][0]
    room = len(gcol)
    pairs = {}
    for j, o in enumerate(gv["owner"]):
        o -= base
        i = back[j]
        if i >= len(exp["owner"]):
            continue
        if gv["lead"][j] and fmt in rt.PESLIKE:
            continue
        w = exp["owner"][i]
        if fmt == "dstx" and o >= room:
            # the header holds only so many threads; the ones that fit must be a prefix
            res.count("beyond_header")
            continue
        if o >= room:
            res.bad("missing-thread:" + fmt, "%s: penetration %d belongs to block %d but only %d threads were loaded" % (fmt, j, o, room))
            return
        if fmt in EXACT:
            if gcol[o] != wcol[w]:
                res.bad("color:" + fmt, "%s: block %d saved %06x, loaded %06x (all: saved %s loaded %s)" % (
                    fmt, w, wcol[w], gcol[o], hexs(wcol), hexs(gcol)))
                return
            pairs[w] = o
        else:
            if w in pairs and pairs[w] != gcol[o]:
                res.bad("color-split:" + fmt, "%s: block %d loaded with two colours %06x and %06x" % (fmt, w, pairs[w], gcol[o]))
                return
            pairs[w] = gcol[o]
    if fmt in EXACT:
        if fmt in TEXT:
            names = H.THREAD_FIELDS
            for w, o in sorted(pairs.items()):
                for k in TEXT[fmt]:
                    if fmt == "dstx" and any("," in (th[w].get(kk) or "") for kk in TEXT[fmt]):
                        continue
                    g = got[o][1 + names.index(k)]
                    if not text_ok(fmt, k, th[w].get(k), g):
                        res.bad("text:%s:%s" % (fmt, k), "%s: thread %d %s saved %r, loaded %r" % (fmt, w, k, th[w].get(k), g))
                        return
        if len(th) == exp["orders"] and not exp["marks_stop"]:
            if fmt != "dstx" and len(gcol) != len(wcol) and not adjacent_equal(wcol):
                res.bad("count:" + fmt, "%s: %d threads saved, %d loaded" % (fmt, len(wcol), len(gcol)))
        if fmt == "dstx" and gcol != wcol[:len(gcol)]:
            res.bad("color:dstx", "dstx: saved %s loaded %s" % (hexs(wcol), hexs(gcol)))
        return
    pal = P.JEF if fmt == "jef" else P.PEC
    for w, c in pairs.items():
        if c not in pal:
            res.bad("palette:" + fmt, "%s: block %d loaded with %06x, which is not in the palette" % (fmt, w, c))
            return
        if case["exactpal"] and c != wcol[w] and all(x in pal for x in wcol):
            res.bad("palette-exact:" + fmt, "%s: every thread is a palette colour, but block %d was %06x and loaded %06x" % (fmt, w, wcol[w], c))
            return
    ws = sorted(pairs)
    for a, b in zip(ws, ws[1:]):
        if wcol[a] != wcol[b] and pairs[a] == pairs[b] and b == a + 1:
            res.bad("palette-merge:" + fmt, "%s: neighbouring threads %06x and %06x both loaded as %06x" % (fmt, wcol[a], wcol[b], pairs[a]))
            return
    if fmt == "jef":
        for n, w in enumerate(ws):
            # only a neighbour that already shows this colour can displace it
            if wcol[w] in pal and pairs[w] != wcol[w] and not (w and pairs.get(w - 1) in (None, wcol[w])):
                res.bad("palette-near:jef", "jef: block %d has the palette colour %06x but loaded as %06x (%s -> %s)" % (
                    w, wcol[w], pairs[w], hexs([wcol[x] for x in ws]), hexs([pairs[x] for x in ws])))
                return
    else:
        seen = {}
        for w in ws:
            if wcol[w] in seen and seen[wcol[w]] != pairs[w]:
                res.bad("palette-equal:" + fmt, "%s: equal threads %06x loaded as %06x and %06x" % (fmt, wcol[w], seen[wcol[w]], pairs[w]))
                return
            seen[wcol[w]] = pairs[w]
        if len(set(pairs.values())) != len(set(wcol[w] for w in ws)):
            res.bad("palette-merge:" + fmt, "%s: different threads share a palette entry: %s -> %s" % (fmt, hexs([wcol[w] for w in ws]), hexs([pairs[w] for w in ws])))


def adjacent_equal(v):
    return any(a == b for a, b in zip(v, v[1:]))
