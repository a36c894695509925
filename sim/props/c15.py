"""C15: concurrent operations on different designs do not affect each other."""
from .. import gen as G, harness as H, ops as O, sched as S, world as W
from ..const import *

CASES = {"quick": 6000, "thorough": 160000}
RULE = "a run executes 2 to 4 operations as concurrent tasks under a seeded schedule and compares each with the same operation run alone; a run counts when at least one hand-over happened inside the library; distinct cases counted"
MEASURE = "distinct schedules executed (sequence of hand-overs) and distinct library lines at which a hand-over happened"
STEP = 3_000_000
SRC = [s for s in O.SOURCES if s != "jpx"]


def sprinkle(r, d):
    """Commands that set up something for later ones, also at the very end."""
    dense = r.random() < .3
    kind = r.choice([SLOW, FAST, FAST, SEQUIN_EJECT, TRIM, STOP])
    for _ in range(r.choice([1, 2, 5]) if not dense else len(d["stitches"]) // 2 + 1):
        c = kind if dense else r.choice([SLOW, FAST, FAST, SEQUIN_MODE, SEQUIN_EJECT, MATRIX_TRANSLATE, OPTION_EXPLICIT_TRIM, CONTINGENCY_SEQUIN_STITCH, CONTINGENCY_LONG_STITCH_SEW_TO, NEEDLE_AT, SEW_TO, TIE_ON, TIE_OFF])
        end = len(d["stitches"]) - (1 if d["stitches"] and d["stitches"][-1][2] == END else 0)
        d["stitches"].insert(end if r.random() < .3 else r.randint(0, end), [r.randint(1, 60), r.randint(1, 60), c])


def op_of(r, i):
    k = r.choice(["load", "save", "save", "save", "convert", "compute"])
    o = {"op": k}
    if k in ("load", "convert"):
        o["src"] = O.source(r, SRC[i % len(SRC)], r.choice([1, 3, 8]))
    if k in ("save", "convert"):
        o["fmt"] = O.SAVED[(i // 2 + r.randrange(3)) % len(O.SAVED)]
        if k == "convert" and o["fmt"] == "png":
            o["fmt"] = "pes6"
    if k in ("save", "compute"):
        o["design"] = O.small_design(r, o.get("fmt"), size=r.choice([1, 2, 3, 6]))
        # threads for every block, so that no filler is drawn from the shared random source
        need = 2 + sum(1 for s in o["design"]["stitches"] if s[2] & 0xFF in (COLOR_CHANGE, COLOR_BREAK, STOP, FRAME_EJECT))
        while len(o["design"]["threads"]) < need:
            o["design"]["threads"].append(G.thread(r))
    if "design" in o and r.random() < .4:
        sprinkle(r, o["design"])
    if k == "compute":
        o["opt"] = r.choice([{}, {"max_stitch": 40, "max_jump": 40}, {"explicit_trim": True}, {"full_jump": True}, {"rotate": 30}, {"tie_on": CONTINGENCY_TIE_ON_THREE_SMALL}])
    return o


def gen(r, i, tier):
    n = r.choice([2, 2, 2, 3, 4])
    c = {"knobs": {"bufsize": r.choice([1, 64, 8192]), "rand_const": 0x35A06F}, "faults": [], "shared": None, "inject": []}
    ops = [op_of(r, i * 3 + k) for k in range(n)]
    if r.random() < .5:  # the same format twice finds state shared between two users of one codec
        ops[1] = dict(op_of(r, i), **{k: v for k, v in ops[0].items() if k in ("op", "fmt")})
        if ops[1]["op"] in ("load", "convert"):
            ops[1]["src"] = O.source(r, O.source_name(ops[0]["src"]), 4)
        if ops[1]["op"] in ("save", "compute"):
            ops[1]["design"] = O.small_design(r, ops[1].get("fmt"), size=3)
            ops[1]["design"]["threads"] += [G.thread(r) for _ in range(sum(1 for s in ops[1]["design"]["stitches"] if s[2] & 0xFF in (COLOR_CHANGE, COLOR_BREAK, STOP, FRAME_EJECT)) + 2)]
            ops[1].setdefault("opt", {})
            if r.random() < .5:  # few colours, nearly the same: both look for the same entries of the machine's palette
                few = [r.choice([0xFF0000, 0x000000, 0xFFFFFF, 0x00FF00, 0x0000FF, r.randrange(0x1000000)]) for _ in range(r.choice([1, 1, 2]))]
                for o in ops[:2]:
                    for t in o["design"]["threads"]:
                        t["color"] = r.choice(few) ^ r.choice([0, 1, 2, 0x100, 0x10001])
            for o in ops[:2]:
                if r.random() < .7:
                    sprinkle(r, o["design"])
    if r.random() < .2:  # one design saved by all tasks
        ops = [dict(op_of(r, i), op="save", fmt=O.SAVED[(i + k * 5) % len(O.SAVED)]) for k in range(n)]
        d = O.small_design(r, "png" if any(o["fmt"] == "png" for o in ops) else None, size=3)
        d["threads"] += [G.thread(r) for _ in range(4)]
        for o in ops:
            o.pop("src", None)
            o.pop("opt", None)
            o["design"] = d
        c["shared"] = True
    c["ops"] = ops
    mode = r.choice(["fine", "burst", "coarse", "coarse", "log", "lines", "lines", "lines"])
    sw = []
    if mode == "fine":
        sw = [[r.randint(1, 4), r.randrange(4)] for _ in range(r.choice([400, 2000]))]
    elif mode == "burst":
        for _ in range(r.randint(1, 6)):
            sw.append([r.randint(1, 3000), r.randrange(4)])
            sw += [[r.randint(1, 6), r.randrange(4)] for _ in range(30)]
    elif mode == "coarse":
        sw = [[r.randint(1, 2500), r.randrange(4)] for _ in range(r.randint(1, 6))]
    elif mode == "lines":
        m = r.choice([4, 8, 8, 16, 32])
        c["lines"] = [m, r.randrange(m)]
    else:
        sw = [[int(2 ** r.uniform(0, 11)), r.randrange(4)] for _ in range(r.randint(5, 40))]
    c["switches"] = sw
    x = r.random()
    if x < .12:
        c["inject"] = [[0, int(2 ** r.uniform(0, 12)), r.choice(["KeyboardInterrupt", "MemoryError"])]]
    elif x < .24:
        c["faults"] = [{"op": r.choice(["read", "write", "open"]), "file": "i0.*", "nth": r.choice([0, 0, 1, 3]), "kind": "eio"}]
    return c


def job(w, o, k, pattern, tag):
    """A function running the operation and a function telling its result."""
    fmt = o.get("fmt")
    src = None
    if "src" in o:
        src = w.path("%si%d.%s" % (tag, k, O.source_ext(o["src"])))
    dst = "%so%d.%s" % (tag, k, H.FORMATS[fmt][0]) if fmt else None

    def go():
        if o["op"] == "load":
            return H.load(src)
        if o["op"] == "save":
            p = pattern if pattern is not None else H.build(o["design"])
            return H.save(p, w.path(dst), O.settings(fmt, w, "%ss%d.ct0" % (tag, k) if fmt == "tbf" else None))
        if o["op"] == "convert":
            return H.pe.EmbPattern.convert(src, w.path(dst), O.settings(fmt))
        p = H.build(o["design"])
        a = p.get_normalized_pattern(dict(o["opt"]))
        b = p.get_pattern_interpolate_trim(3)
        c = p.copy()
        c += b
        p.interpolate_trims(2, 50)
        p.interpolate_stop_as_duplicate_color()
        p.interpolate_frame_eject()
        m = H.pe.EmbMatrix()
        m.post_rotate(30)
        c.transform(m)
        return [H.snap(x) for x in (p, a, b, c)] + [list(map(str, p.bounds())), [t.hex_color() for t in p.get_unique_threadlist()]]

    def result(kind, v):
        if kind != "ok":
            return ["raise", H.exc_name(v)]
        out = ["ok"]
        if o["op"] == "load":
            out.append(H.snap(v))
        elif o["op"] == "compute":
            out.append(v)
        if dst:
            out.append(H.get(w, dst))
            out.append(H.get(w, "%ss%d.ct0" % (tag, k)))
        return out
    return go, result


def run(case):
    res = H.R()
    ops = case["ops"]
    with H.Box(case) as w:
        w.enabled = False
        data = [O.source_bytes(o["src"]) if "src" in o else None for o in ops]
        alone = []
        for k, o in enumerate(ops):
            if data[k] is not None:
                H.put(w, "a_i%d.%s" % (k, O.source_ext(o["src"])), data[k])
                H.put(w, "c_i%d.%s" % (k, O.source_ext(o["src"])), data[k])
            go, result = job(w, o, k, None, "a_")
            kind, v = H.attempt(go)
            alone.append(result(kind, v))
        drawn = w.rand_draws
        shared = H.build(ops[0]["design"]) if case["shared"] else None
        jobs = [job(w, o, k, shared, "c_") for k, o in enumerate(ops)]
        w.enabled = True
        hit = None
        if case["faults"]:
            o = ops[0]
            f = dict(case["faults"][0])
            f["file"] = "c_i0.%s" % O.source_ext(o["src"]) if f["op"] == "read" and "src" in o else "c_o0.%s" % H.FORMATS[o["fmt"]][0] if "fmt" in o else "none"
            w.faults = [f]
            hit = 0
        if case["inject"]:
            hit = case["inject"][0][0]
        sch = S.Scheduler(case["switches"], inject=case["inject"], budget=STEP, lines=case.get("lines"))
        out = sch.run([j[0] for j in jobs])
        w.faults = []
        for k, o in enumerate(ops):
            kind, v = out[k]
            if kind == "exc" and isinstance(v, S.BudgetExceeded):
                res.bad("stuck", "an operation did not end under this schedule")
                return res
            if k == hit:
                continue  # stopped or failed on purpose
            got = jobs[k][1]("ok" if kind == "ok" else "raise", v)
            if got != alone[k]:
                what = o["op"] + " " + (O.source_name(o["src"]) if "src" in o else "") + (" " + o["fmt"] if "fmt" in o else "")
                res.bad("differs:%s:%s" % (o["op"], o.get("fmt") or (O.source_name(o["src"]) if "src" in o else "")), "%s gave a different result beside %s: alone %s, concurrently %s (%d hand-overs)" % (
                    what, ", ".join("%s %s" % (q["op"], q.get("fmt") or O.source_name(q["src"]) if "fmt" in q or "src" in q else "") for j, q in enumerate(ops) if j != k),
                    brief(alone[k], got), brief(got, alone[k]), len(sch.order)), focus={"lines": None, "switches": sch.plan} if sch.plan else None)
        res.world(w)
        res.count("handovers", len(sch.order))
        res.count("points", sch.points)
        res.count("tasks", len(ops))
        if sch.injected:
            res.count("fault.inject:" + sch.injected[0][2])
        res.nontrivial = bool(sch.order)
        res.states.add(H.dig(sch.order)[:10])
        for fn, ln in sch.where:
            res.states.add("L%s:%d" % (fn.rsplit("/", 1)[1], ln))
        res.digest.append([sch.order, [H.dig(a) if not isinstance(a, bytes) else H.dig(a) for a in alone]])
    return res


def brief(a, b):
    """What is special about a compared with b."""
    if a[0] == "raise" or b[0] == "raise":
        return repr(a[:2])[:120]
    for x, y in zip(a[1:], b[1:]):
        if x != y:
            if isinstance(x, bytes) and isinstance(y, bytes):
                k = next((k for k in range(min(len(x), len(y))) if x[k] != y[k]), min(len(x), len(y)))
                return "%d bytes, at %d: %s" % (len(x), k, x[k:k + 8].hex())
            if isinstance(x, dict) and isinstance(y, dict):
                for n in x:
                    if x[n] != y[n]:
                        if isinstance(x[n], list):
                            k = next((k for k in range(min(len(x[n]), len(y[n]))) if x[n][k] != y[n][k]), min(len(x[n]), len(y[n])))
                            return "%s[%d] %r of %d" % (n, k, x[n][k:k + 1], len(x[n]))
                        return "%s %r" % (n, x[n])
            return repr(x)[:120]
    return "same"
