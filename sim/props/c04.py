"""C04: CSV and JSON saves are lossless."""
from .. import gen as G, harness as H
from ..const import *

CASES = {"quick": 7000, "thorough": 250000}
RULE = "a run saves a design of at least one command, thread or text item as CSV or JSON and compares the loaded design field by field; distinct cases counted"
MEASURE = "distinct (format, command, parameter pattern) and (format, text class, default encoding, disturbance kinds) combinations"
FMTS = ["csv", "csvdelta", "csvfull", "json", "csv", "json"]
SPECIAL = "\"',;:*#@$><=|\\/{}[]()&%" * 2


def words(r, lo, hi):
    m = r.random()
    if m < .15:
        return r.choice(["None", "null", "*", "#", "@", "$", "\"", "\"\"", "a\"b", "\"quoted\"", "x,y", "STITCH", "0", " lead", "trail ",
                         "#[", "two\nlines", "two\r\nlines", "mac\rline", "tab\there", "true", "{}", "\ufeffbom", "ünï", "日本", "a\u2028b"])
    return G.text(r, lo, hi, .4, SPECIAL if m < .6 else "")


def param(r, c):
    t, n, o = r.choice([None, 0, 1, 7, 254]), r.choice([None, 0, 1, 9, 254]), r.choice([None, 0, 3, 254])
    if t is not None:
        c |= (t + 1) << 8
    if n is not None:
        c |= (n + 1) << 16
    if o is not None:
        c |= (o + 1) << 24
    return c


def gen(r, i, tier):
    fmt = FMTS[i % len(FMTS)]
    st = []
    n = r.choice([0, 1, 2, 5, 12, 40])
    x = y = 0
    for _ in range(n):
        m = r.random()
        if m < .4:
            x, y = x + r.randint(-200, 200), y + r.randint(-200, 200)
        elif m < .6:
            x, y = round(x + r.random() * 9, 6), y - r.random()
        elif m < .65:
            x, y = r.choice([1e-7, -0.0, 1e15, 123456.789, -1e-12, 1 / 3]), r.choice([0.1, 1e20, -2.5e-9])
        c = r.choice(ALL_COMMANDS) if r.random() < .7 else STITCH
        if c >= 0 and r.random() < .4:
            c = param(r, c)
        st.append([x, y, c])
    th = []
    for _ in range(r.choice([0, 1, 2, 4])):
        t = {"color": G.color(r)}
        for k in H.THREAD_FIELDS:
            if r.random() < .5:
                t[k] = words(r, 1, r.choice([3, 12, 200]))
            elif fmt == "json" and r.random() < .15:
                t[k] = ""
        th.append(t)
    ex = {}
    for _ in range(r.choice([0, 1, 3])):
        ex[words(r, 1, 10) if r.random() < .3 else r.choice(["name", "author", "comments", "category", "keywords"])] = words(r, 0, r.choice([3, 20, 400]))
    return {"fmt": fmt, "design": {"stitches": st, "threads": th, "extras": ex},
            "opts": r.choice([{}, {}, {}, {"encode": False}]) if fmt != "csvfull" else {},
            "knobs": {"bufsize": G.bufsize(r), "encoding": r.choice(["utf-8", "cp1252", "ascii", "latin-1", "cp932"])},
            "faults": G.profile_faults(r) if r.random() < .5 else [], "old": r.random() < .2}


def tclass(s):
    return ("e" if s == "" else "") + ("u" if not s.isascii() else "") + ("q" if '"' in s else "") + ("c" if "," in s else "") + (
        "n" if "\n" in s or "\r" in s else "") + str(min(9, len(s).bit_length()))


def run(case):
    res = H.R()
    fmt = case["fmt"]
    ext, st = H.FORMATS[fmt]
    d = case["design"]
    if not (d["stitches"] or d["threads"] or d["extras"]):
        res.nontrivial = False
        return res
    with H.Box(case) as w:
        path = w.path("d." + ext)
        if case.get("old"):
            H.put(w, "d." + ext, b'"*","0","STITCH","1","1"\n' * 3000)
        p = H.build(d)
        opts = dict(st)
        opts.update(case["opts"])
        kind, v = H.attempt(H.save, p, path, opts)
        if kind == "raise":
            res.bad("save-raises:" + ext, "saving as %s raised %r" % (fmt, v))
            return res
        kind, q = H.attempt(H.load, path)
        if kind == "raise" or q is None:
            res.bad("load-raises:" + ext, "loading the saved %s raised %r" % (fmt, q))
            return res
        s = H.snap(q)
        res.digest.append(s)
        want = [list(x) for x in d["stitches"]]
        if s["stitches"] != want:
            k = next((k for k in range(min(len(want), len(s["stitches"]))) if want[k] != s["stitches"][k]), None)
            if k is None:
                res.bad("command-count:" + ext, "%s: %d commands saved, %d loaded" % (fmt, len(want), len(s["stitches"])))
            else:
                res.bad("command:" + ext, "%s: command %d saved %r, loaded %r" % (fmt, k, want[k], s["stitches"][k]))
        if len(s["threads"]) != len(d["threads"]):
            res.bad("thread-count:" + ext, "%s: %d threads saved, %d loaded" % (fmt, len(d["threads"]), len(s["threads"])))
        else:
            for k, (a, b) in enumerate(zip(d["threads"], s["threads"])):
                if b[0] & 0xFFFFFF != a["color"]:
                    res.bad("thread-color:" + ext, "%s: thread %d saved %06x, loaded %r" % (fmt, k, a["color"], b[0]))
                for j, f in enumerate(H.THREAD_FIELDS):
                    if f == "chart" and ext == "csv":
                        continue  # CSV has no column for it
                    # CSV has no form for a field that is set to no text
                    if a.get(f) != b[1 + j] if ext == "json" else (a.get(f) or None) != (b[1 + j] or None):
                        res.bad("thread-%s:%s" % (f, ext), "%s: thread %d %s saved %r, loaded %r" % (fmt, k, f, a.get(f), b[1 + j]))
        if s["extras"] != d["extras"]:
            res.bad("metadata:" + ext, "%s: metadata saved %r, loaded %r" % (fmt, d["extras"], s["extras"]))
        for x in d["stitches"][:60]:
            c = x[2]
            res.state(fmt, c & 0xFF, bool(c & 0xFF00), bool(c & 0xFF0000), c >> 24 > 0, isinstance(x[0], float))
        for t in list(d["extras"].values()) + [v for t in d["threads"] for k, v in t.items() if k != "color"]:
            res.state(fmt, tclass(t), case["knobs"]["encoding"], sorted(w.fired))
            res.count("texts")
        res.count("commands", len(d["stitches"]))
        res.world(w)
    return res
