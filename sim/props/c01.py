"""C01: a machine file loads back with the same needle path."""
from .. import enc as N, gen as G, harness as H, model as M, rt, sched as S
from ..const import *
from . import c24

TIMEOUT = 60
STEP_BUDGET = 150_000_000
CASES = {"quick": 9000, "thorough": 300000}
RULE = "a run saves a design with at least one penetration, loads it back and compares it with the model; distinct cases counted"
MEASURE = "distinct (format, disturbance kinds, boundary kinds, delta classes) combinations"


def design_for(r, fmt, size=None):
    kw = {}
    if fmt == "u01":
        kw["stops"] = r.random() < .7
    coords = "int" if r.random() < .8 else r.choice(["half", "float"])
    if size:
        kw["blocks"] = r.choice([1, 2, 3]) if size < 12000 else 1
    if size and size > 50000:  # above 64 Ki records, in few segments
        kw.update(blocks=1, messy=False, jumps=False, trims=r.random() < .5, profile=r.choice([["small"], ["mid"], ["small", "edge", "axis", "zero"]]))
    d = G.design(r, coords=coords, size=size, middle=r.random() < .1, **kw)
    if r.random() < .06:
        G.numbered(r, d)
    return d


def gen(r, i, tier):
    if r.random() < .12:  # designs with inline encoder commands
        case = c24.gen(r, i, tier)
        case["program"] = True
        return case
    return designs(r, i, tier)


def designs(r, i, tier):
    fmt = H.MACHINE[i % len(H.MACHINE)]
    size = r.choice([600, 1500, 4000, 12000, 70000]) if r.random() < .015 else None  # (above 64 Ki records now and then)
    case = {"fmt": fmt, "design": design_for(r, fmt, size),
            "knobs": {"bufsize": G.bufsize(r), "encoding": r.choice(["utf-8", "cp1252", "ascii"])},
            "faults": G.profile_faults(r) if r.random() < .6 else [],
            "old": r.choice([0, 0, 0, 1, 2]),           # nothing / longer file / shorter junk at the path
            "fail_first": [], "other": None, "switches": [], "settings": {}}
    if r.random() < .25:
        case["settings"] = options(r, fmt)
    if r.random() < .3:  # text that shares the file with the stitches
        case["design"]["extras"] = {k: G.text(r, 1, r.choice([4, 15, 16, 17, 40, 130, 200, 260, 350, 480]), r.choice([0, .3]))
                                    for k in ("name", "author", "copyright", "comments", "keywords", "tp") if r.random() < .5}
    if size:  # keep the work of a run bounded
        case["knobs"]["bufsize"] = max(4096, case["knobs"]["bufsize"])
        for f in case["faults"]:
            if f["kind"] == "short":
                f["max"] = max(64 if size < 50000 else 4096, f["max"])
        case["settings"] = {k: v for k, v in case["settings"].items() if not k.startswith("max_")}
    if fmt in ("u01", "tbf") and r.random() < .12:  # more needles than a machine usually has
        case["design"] = G.design(r, blocks=r.choice([10, 15, 16, 20, 34]), size=r.choice([1, 2]))
        case["settings"] = {"needle_count": r.choice([1, 2, 7, 10, 14, 15, 16, 17, 30, 40])}
    if r.random() < .25:
        case["fail_first"] = [{"file": "d." + H.FORMATS[fmt][0], "open": 0, "op": "write", "nth": r.randint(0, 4),
                               "kind": r.choice(["enospc", "eio"]), "n": r.randint(0, 100)}]
    if r.random() < .06:
        f2 = r.choice([fmt, r.choice(H.MACHINE)])
        case["other"] = {"fmt": f2, "design": G.design(r, blocks=2, size=4)}
        case["switches"] = [[r.randint(1, 400), r.randint(0, 1)] for _ in range(r.randint(1, 12))]
    return case


def options(r, fmt):
    o = [{"full_jump": True}, {"full_jump": False}, {"explicit_trim": True}, {"explicit_trim": False}, {"max_jump": r.choice([10, 60, 120])},
         {"max_stitch": r.choice([30, 100, 120])}, {"encode": True}, {"writes_speeds": r.random() < .5}]
    if fmt == "jef":
        o += [{"date": "20200101000000"}, {"trims": True}, {"trims": True, "trim_at": r.choice([1, 2, 3, 5])}]
    if fmt in ("dst", "dstx"):
        o += [{"trim_at": r.choice([1, 2, 3, 4, 5, 8])}] * 2
    if fmt == "gcode":
        o += [{"stitch_z_travel": r.choice([5.0, 0, 1, 0.25])}] * 2
    if fmt in ("u01", "tbf"):
        o += [{"needle_count": r.choice([1, 2, 3, 7, 12, 15])}] * 2
    if fmt in rt.PESLIKE:
        o += [{"truncated": True}]
    return r.choice(o)


def run(case):
    res = H.R()
    if case.get("program"):
        return program(res, case)
    fmt = case["fmt"]
    ext, st = H.FORMATS[fmt]
    d = case["design"]
    exp = M.expected(d)
    if not exp["pens"]:
        res.nontrivial = False
        return res
    with H.Box(case) as w:
        name = "d." + ext
        path = w.path(name)
        if case["old"] == 1:
            H.put(w, name, bytes(range(256)) * 400)
        elif case["old"] == 2:
            H.put(w, name, b"\x80\x03junk")
        p = H.build(d)
        opts = dict(st)
        opts.update(case["settings"])
        if case["fail_first"]:
            base = w.faults
            w.faults = case["fail_first"] + base
            H.attempt(H.save, p, path, dict(opts))
            w.faults = base
            res.count("failed_save_before")
        if case["other"]:
            o = case["other"]
            oext, ost = H.FORMATS[o["fmt"]]
            p2 = H.build(o["design"])
            sch = S.Scheduler(case["switches"])
            r1, r2 = sch.run([lambda: H.save(p, path, dict(opts)), lambda: H.save(p2, w.path("other." + oext), dict(ost))])
            res.count("concurrent_save")
            res.count("handovers", len(sch.order))
            kind, val = ("ok", None) if r1[0] == "ok" else ("raise", r1[1])
        else:
            kind, val = H.attempt(H.save, p, path, dict(opts))
        if kind == "raise":
            # nothing was wrong with the disk: a design within capacity must be saved
            res.bad("save-raises:%s" % fmt, "saving as %s raised %r" % (fmt, val))
        else:
            kind, q = H.attempt(H.load, path)
            if kind == "raise":
                res.bad("load-raises:%s" % fmt, "loading the saved %s raised %r" % (fmt, q))
            elif q is None:
                res.bad("load-none:%s" % fmt, "loading the saved %s returned None" % fmt)
            else:
                single = opts.get("needle_count", 5) == 1  # one needle: thread changes are stops
                for sig, msg in rt.path_errors(d, H.snap(q)["stitches"], fmt, exp, single)[0]:
                    res.bad(sig, msg)
                res.digest.append(H.snap(q))
        res.world(w)
        res.count("penetrations", len(exp["pens"]))
        dl = sorted(set((min(12, int(abs(a[0] - b[0])).bit_length()), min(12, int(abs(a[1] - b[1])).bit_length()))
                        for a, b in zip(exp["pens"], exp["pens"][1:])))
        for x in dl[:40]:
            res.state(fmt, x, sorted(w.fired))
    return res


def program(res, case):
    d = case["design"]
    with H.Box(case) as w:
        for f, o, own in case["before"]:
            w.enabled = False
            H.attempt(H.save, H.build(d), w.path("b." + H.FORMATS[f][0]), dict(H.FORMATS[f][1], **N.as_settings(o)))
            w.enabled = True
        c24.saved(res, case, d, c24.plain(d), dict(case["opts"]), H.build(d), w, "program-")
        res.world(w)
        for k in {s[2] & 0xFF for s in d["stitches"] if s[2] >= 0} - {STITCH, JUMP, END}:
            res.state(case["fmt"], "program", k)
    return res
