"""C07: saving never modifies the design being saved."""
from .. import gen as G, harness as H, sched as S
from ..const import *

CASES = {"quick": 6000, "thorough": 200000}
RULE = "a run saves (or fails, or is stopped while saving) a design with at least one command and compares design and options before and after; distinct cases counted"
MEASURE = "distinct (format, options, outcome, stop point function) combinations"
FMTS = list(H.FORMATS)


def options(r, fmt):
    o = {}
    if r.random() < .35:
        o["encode"] = r.random() < .3
    for k, v in (("max_jump", 60), ("max_stitch", r.choice([5, 40, 121])), ("full_jump", True), ("round", True), ("explicit_trim", True),
                 ("writes_speeds", True), ("tie_on", CONTINGENCY_TIE_ON_THREE_SMALL), ("tie_off", CONTINGENCY_TIE_OFF_THREE_SMALL),
                 ("long_stitch_contingency", CONTINGENCY_LONG_STITCH_SEW_TO), ("scale", r.choice([2, (1.5, 1.5)])), ("rotate", 90),
                 ("translate", (10, -20)), ("strip_speeds", True), ("sequin_contingency", CONTINGENCY_SEQUIN_JUMP)):
        if r.random() < .08:
            o[k] = v
    if fmt == "png":
        for k, v in (("background", "#123456"), ("linewidth", 2), ("fancy", True), ("guides", True)):
            if r.random() < .3:
                o[k] = v
    if fmt == "jef" and r.random() < .5:
        o["date"] = "20200102030405"
    return o


def gen_design(r, fmt):
    small = fmt == "png"
    d = G.design(r, size=r.choice([1, 2, 5, 12]), blocks=r.choice([1, 2, 3]), middle=r.random() < .3, coords=r.choice(["int", "int", "float"]),
                 threads=r.random() < .8, origin=(0, 0) if small else None,
                 extras={k: G.text(r, 1, 12) for k in ("name", "author", "comments") if r.random() < .4})
    if r.random() < .2:  # threads missing
        d["threads"] = d["threads"][:r.randint(0, 1)]
    if r.random() < .3:
        for _ in range(3):
            c = r.choice([TIE_ON, TIE_OFF, MATRIX_TRANSLATE, MATRIX_RESET, OPTION_MAX_STITCH_LENGTH, SLOW, FAST, SEQUIN_MODE, SEQUIN_EJECT,
                          SEQUENCE_BREAK, STITCH_BREAK, FRAME_EJECT, CONTINGENCY_SEQUIN_STITCH, CONTINGENCY_LONG_STITCH_SEW_TO])
            d["stitches"].insert(r.randint(0, len(d["stitches"])), [r.randint(1, 60), r.randint(1, 60), c])
    if small:
        for s in d["stitches"]:
            s[0], s[1] = s[0] % 90 - 20, s[1] % 90 + 30
    return d


def gen(r, i, tier):
    fmt = FMTS[i % len(FMTS)]
    mode = r.choice(["ok", "ok", "io", "inject", "inject", "concurrent"])
    case = {"fmt": fmt, "design": gen_design(r, fmt), "opts": options(r, fmt), "mode": mode, "graphic": r.random() < .1,
            "api": r.choice(["static", "method", "func"]), "knobs": {"bufsize": r.choice([1, 64, 8192]), "rand_seed": r.randrange(100)},
            "faults": [], "at": 0, "exc": "", "others": [], "switches": []}
    if mode == "io":
        case["faults"] = [{"op": r.choice(["write", "write", "write", "open", "seek", "close"]), "file": "*", "nth": r.choice([0, 0, 1, 2, 5, 17]),
                           "kind": r.choice(["enospc", "eio", "eacces"]), "n": r.randint(0, 9)}]
        if case["faults"][0]["op"] == "open":
            case["faults"][0]["nth"] = 0
    elif mode == "inject":
        case["at"] = r.randint(0, 10000)
        case["exc"] = r.choice(["KeyboardInterrupt", "MemoryError"])
    elif mode == "concurrent":
        for _ in range(r.choice([1, 1, 2])):
            f2 = r.choice(FMTS)
            case["others"].append({"fmt": f2 if f2 != "png" or fmt == "png" else "svg", "opts": options(r, f2)})
        case["switches"] = [[r.choice([1, 3, 20, 200, 900]), r.randint(0, 2)] for _ in range(r.randint(1, 30))]
    return case


def save(api, p, path, fmt, opts):
    ext = H.FORMATS[fmt][0]
    if api == "method":
        try:
            p.write(path, **opts)
        except TypeError:
            H.save(p, path, opts)
    elif api == "func":
        H.pe.write_embroidery(H.writer_of(ext), p, path, opts)
    else:
        H.save(p, path, opts)


def full(p):
    s = H.snap(p)
    s["prev"] = [p._previousX, p._previousY] if hasattr(p, "_previousX") else None
    s["types"] = [type(x).__name__ for x in (p.stitches, p.threadlist, p.extras)]
    return s


def diff(a, b):
    for k in a:
        if a[k] != b[k]:
            if isinstance(a[k], list) and isinstance(b[k], list):
                for i in range(min(len(a[k]), len(b[k]))):
                    if a[k][i] != b[k][i]:
                        return "%s[%d] was %r, is %r" % (k, i, a[k][i], b[k][i])
                return "%s had %d entries, has %d" % (k, len(a[k]), len(b[k]))
            return "%s was %r, is %r" % (k, a[k], b[k])
    return None


def run(case):
    res = H.R()
    fmt = case["fmt"]
    ext, st = H.FORMATS[fmt]
    if not case["design"]["stitches"]:
        res.nontrivial = False
        return res
    with H.Box(case) as w:
        p = H.build(case["design"])
        if case["graphic"]:
            p.extras[0] = (bytearray(228), 6, 6)
        jobs = [dict(fmt=fmt, opts=case["opts"])] + case["others"]
        opts = []
        for j in jobs:
            o = dict(H.FORMATS[j["fmt"]][1])
            o.update(j["opts"])
            opts.append(o)
        before, obefore = full(p), [dict(o) for o in opts]
        paths = [w.path("d%d.%s" % (k, H.FORMATS[j["fmt"]][0])) for k, j in enumerate(jobs)]
        outcome = "ok"
        where = None
        if case["mode"] == "inject":
            sch = S.Scheduler()
            w.enabled = False
            sch.run([lambda: save(case["api"], p, paths[0], fmt, opts[0])])
            w.enabled = True
            n = sch.points
            check(res, case, before, full(p), obefore, opts, "a complete save")
            sch = S.Scheduler(inject=[(0, 1 + case["at"] * n // 10001, case["exc"])])
            out = sch.run([lambda: save(case["api"], p, paths[0], fmt, opts[0])])
            if sch.injected:
                where = sch.injected[0][3]
                res.count("fault.inject:" + case["exc"])
                outcome = "stopped" if out[0][0] == "exc" else "ok"
        elif case["mode"] == "concurrent":
            sch = S.Scheduler(case["switches"])
            out = sch.run([lambda k=k, j=j: save(case["api"], p, paths[k], j["fmt"], opts[k]) for k, j in enumerate(jobs)])
            outcome = "concurrent"
            res.count("handovers", len(sch.order))
        else:
            kind, v = H.attempt(save, case["api"], p, paths[0], fmt, opts[0])
            outcome = kind
        check(res, case, before, full(p), obefore, opts, outcome if where is None else "%s in %s" % (outcome, where))
        res.state(fmt, sorted(case["opts"]), outcome, where, len(case["others"]))
        res.count("outcome_" + outcome)
        res.world(w)
    return res


def check(res, case, before, after, ob, oa, what):
    dd = diff(before, after)
    if dd:
        res.bad("design:" + H.FORMATS[case["fmt"]][0], "%s save (%s, options %r): the design changed: %s" % (case["fmt"], what, case["opts"], dd))
    for a, b in zip(ob, oa):
        if a != b:
            res.bad("options:" + H.FORMATS[case["fmt"]][0], "%s save (%s): the caller's options %r became %r" % (case["fmt"], what, a, b))
