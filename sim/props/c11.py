"""C11: loading damaged files raises or yields a well-formed design."""
from .. import damage as D, harness as H, ops as O, world as W

CASES = {"quick": 9000, "thorough": 500000}
RULE = "a run loads one damaged file and, if that succeeds, inspects the design and saves it again; distinct cases counted"
MEASURE = "distinct (format, kind of damage, outcome, thread count class) combinations"
RESAVE = ["dst", "exp", "jef", "pec", "pes6", "pes1t", "vp3", "u01", "xxx", "tbf", "csv", "json", "dstx", "gcode", "svg", "inf", "edr"]


def gen(r, i, tier):
    c = D.gen(r, i)
    c["resave"] = [r.choice(RESAVE), r.choice(RESAVE)]
    return c


def num(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def run(case):
    res = H.R()
    name = O.source_name(case["src"])
    ext = O.source_ext(case["src"])
    with H.Box(case) as w:
        data = D.data_of(case)
        H.put(w, "d." + ext, data)
        if case["via"] == "stream":
            kind, p = H.attempt(lambda: H.pe.EmbPattern.read_embroidery(H.reader_of(ext), W.CallerStream(data)))
        else:
            kind, p = H.attempt(H.load, w.path("d." + ext))
        res.count("outcome_" + kind)
        dmg = sorted(set(m[0] for m in case["mut"])) or ["edits"]
        if kind == "raise":
            if not isinstance(p, Exception):
                res.bad("abort:" + name, "loading damaged %s raised %s, which is not an ordinary error" % (name, type(p).__name__))
            res.state(name, dmg, H.exc_name(p))
            res.world(w)
            return res
        ok = True
        for k, s in enumerate(p.stitches):
            if len(s) < 3 or not num(s[0]) or not num(s[1]):
                res.bad("coordinates:" + name, "loading damaged %s returned a design whose command %d is %r" % (name, k, s))
                ok = False
                break
            if not isinstance(s[2], int) or isinstance(s[2], bool):
                res.bad("command:" + name, "loading damaged %s returned a design whose command %d is %r" % (name, k, s))
                ok = False
                break
        for k, t in enumerate(p.threadlist):
            if not isinstance(t, H.pe.EmbThread):
                res.bad("thread:" + name, "loading damaged %s returned a design whose thread %d is %r" % (name, k, t))
                ok = False
                break
            if not isinstance(t.color, int):
                res.bad("colour:" + name, "loading damaged %s returned a design whose thread %d has the colour %r" % (name, k, t.color))
                ok = False
                break
        res.state(name, dmg, "ok", min(len(p.threadlist), 5), len(p.stitches) > 1)
        res.world(w)
        res.digest.append(H.dig(H.snap(p)))
        if not ok:
            return res
        fine = all(abs(s[0]) < 20000 and abs(s[1]) < 20000 for s in p.stitches) and len(p.stitches) < 3000
        k, e = H.attempt(lambda: (p.bounds(), str(p), len(p), list(p.get_as_stitchblock()), list(p.get_as_colorblocks()), p.count_color_changes(),
                                  [t.hex_color() for t in p.threadlist], p.get_unique_threadlist(), p.copy()))
        if k == "raise":
            res.bad("inspect:" + name, "inspecting the design loaded from damaged %s raised %s: %s" % (name, H.exc_name(e), e))
        if not fine or len(p.threadlist) > 120:
            return res
        # text fields that a damaged JSON file turned into lists or numbers are not missing values
        odd = [v for k, v in p.extras.items() if k.lower() in ("name", "author", "category", "keywords", "comments", "copyright", "tp")]
        odd += [v for t in p.threadlist for v in (t.description, t.catalog_number, t.brand, t.chart, t.details, t.weight)]
        if any(v is not None and not isinstance(v, str) for v in odd):
            return res
        for fmt in case["resave"]:
            if sum(1 for s in p.stitches if s[2] & 0xFF in (5, 9, 0xE2, 3)) > 100:
                continue
            k, e = H.attempt(H.save, p, w.path("o." + H.FORMATS[fmt][0]), O.settings(fmt))
            res.count("resaves")
            if k == "raise":
                res.bad("resave:%s:%s" % (fmt, H.exc_name(e)), "the design loaded from damaged %s cannot be saved as %s: %s: %s" % (name, fmt, H.exc_name(e), e))
    return res
