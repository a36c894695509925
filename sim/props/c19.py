"""C19: random filler colours never disturb a design."""
import re
from .. import gen as G, harness as H, ops as O, palettes, world as W
from ..const import *
from . import c07, c15

TIMEOUT = 8
STEP_BUDGET = 2_000_000
CASES = {"quick": 6000, "thorough": 260000}
RULE = "a run saves (or processes) a design under 3 to 5 simulated random sources and compares the results; runs in which at least one filler was drawn and runs with all threads given both count; distinct cases counted"
MEASURE = "distinct (operation, format, kind of draws, number of fillers) combinations"
FMTS = [f for f in O.SAVED if f not in ("png",)]
PAL = [0x0E1F7C, 0x0A55A3, 0x008777, 0x4B6BAF, 0xED171F, 0xD15C00, 0xFFFFFF, 0x000000, 0xF7F297, 0xFFFF17]


def script(r, d):
    """What the random source returns: one list of draws (and what kind it is)."""
    given = [t["color"] for t in d["threads"]] or [0x123456]
    k = r.choice(["any", "neighbour", "neighbour", "same", "given", "near", "extreme", "palette", "zero", "descending", "stuck", "stuck"])
    if k == "any":
        v = [r.randrange(1 << 24) for _ in range(24)]
    elif k == "neighbour":
        v = [given[-1]] * 24
    elif k == "same":
        v = [r.randrange(1 << 24)] * 24
    elif k == "given":
        v = [r.choice(given) for _ in range(24)]
    elif k == "near":
        v = [max(0, min(0xFFFFFF, given[-1] + r.choice([-1, 0, 1, 256, -256]))) for _ in range(24)]
    elif k == "extreme":
        v = [r.choice(["lo", "hi", "hi"]) for _ in range(24)]
    elif k == "stuck":  # for ever
        v = [r.choice([0, 1, 0xFFFFFF, 0x0F0F0F, 0xF0F0F0, given[-1], given[-1], r.randrange(1 << 24)])]
    elif k == "zero":
        v = [0] * 24
    elif k == "descending":  # each draw meets the one that had to make way before
        v = [max(0, given[-1] - j // 2) for j in range(24)]
    else:
        v = [r.choice(PAL) for _ in range(24)]
    return [k, v]


def gen(r, i, tier):
    op = r.choice(["save", "save", "save", "save", "memory"])
    fmt = FMTS[i % len(FMTS)] if op == "save" else None
    if r.random() < .7:
        d = G.design(r, size=r.choice([1, 2, 4]), blocks=r.choice([2, 3, 3, 5, 8]), messy=r.random() < .3)
    else:
        d = c07.gen_design(r, fmt or "dst")
    n = r.choice([0, 0, 1, 1, 2, 3])
    if r.random() < .15:
        n = 99  # all given
        need = 3 + sum(1 for s in d["stitches"] if s[2] & 0xFF in (COLOR_CHANGE, COLOR_BREAK, STOP, FRAME_EJECT, NEEDLE_SET))
        while len(d["threads"]) < need:
            d["threads"].append(G.thread(r))
    while n < 99 and len(d["threads"]) < n:
        d["threads"].append(G.thread(r))
    d["threads"] = d["threads"][:n]
    if r.random() < .3:  # a given thread that looks like a filler
        for t in d["threads"]:
            t.clear()
            t.update(color=r.choice(PAL), description="Random")
    if r.random() < .3:
        for t in d["threads"]:
            t["color"] = r.choice(PAL)
    return {"op": op, "fmt": fmt, "design": d, "scripts": [script(r, d) for _ in range(r.choice([2, 3, 4]))], "full": n == 99,
            "knobs": {"bufsize": 8192, "rand_seed": 5}, "faults": []}


def canonical(d):
    """Every block has a penetration, one change between blocks: the j-th thread of a file is the j-th block's."""
    sewn = False
    for s in d["stitches"]:
        c = s[2] & 0xFF
        if c in (STITCH, SEW_TO, NEEDLE_AT):
            sewn = True
        elif c in (COLOR_CHANGE, COLOR_BREAK):
            if not sewn:
                return False
            sewn = False
        elif c not in (JUMP, TRIM, STOP, END):
            return False
    return sewn


def outcome(w, case, k):
    """What a run gives apart from the invented colours, and what it gives including them."""
    d = case["design"]
    given = len(d["threads"])
    known = given if canonical(d) else 0  # the leading threads of the result that are given ones
    if known and case["op"] == "save":  # neighbours of one colour may come back as one thread
        known = 1 + sum(1 for a, b in zip(d["threads"], d["threads"][1:]) if a["color"] != b["color"])
    p = H.build(d)
    before = H.snap(p)
    if case["op"] == "memory":
        n = p.get_normalized_pattern({})
        if H.snap(p) != before:
            return ["source"], None
        blocks = [[[list(s) for s in b], t.color if j < known else "filler"] for j, (b, t) in enumerate(n.get_as_colorblocks())]
        sb = [len(b) for b, t in p.get_as_stitchblock()]
        cb = [len(b) for b, t in p.get_as_colorblocks()]
        first = [t.color for b, t in list(p.get_as_stitchblock())[:1 if known and all(s[2] & 0xFF not in (SEW_TO, NEEDLE_AT) for s in d["stitches"]) else 0]]
        if H.snap(p) != before:
            return ["source"], None
        q = p.copy()
        q.fix_color_count()
        own = [H.thread_snap(t) for t in q.threadlist[:given]]
        new = [t for t in q.threadlist[given:]]
        if own != before["threads"] or H.snap(q)["stitches"] != before["stitches"]:
            return ["fixed"], None
        for t in new + n.threadlist:
            if not isinstance(t, H.pe.EmbThread) or not isinstance(t.color, int) or not 0 <= t.color <= 0xFFFFFF:
                return ["not-a-thread"], None
        return ["ok", blocks, sb, cb, first, len(new)], [H.snap(n), H.snap(q)]
    fmt = case["fmt"]
    name = "o%d.%s" % (k, H.FORMATS[fmt][0])
    kind, v = H.attempt(H.save, p, w.path(name), O.settings(fmt, w, "s%d.ct0" % k if fmt == "tbf" else None))
    if H.snap(p) != before:
        return ["source"], None
    if kind == "raise":
        return ["raise", H.exc_name(v)], None
    b = H.get(w, name)
    if fmt in ("svg", "txt", "txtm"):
        t = b.decode("utf8")
        pat = r"#[0-9a-fA-F]{6}\b" if fmt == "svg" else r"color:-?\d+"
        shape = re.sub(pat, "COLOR", t)
        return ["ok", shape], [b]
    kind, q = H.attempt(H.load, w.path(name))
    if kind == "raise":
        return ["unreadable", H.exc_name(q)], [b]
    s = H.snap(q)
    return ["ok", s["stitches"], len(s["threads"]), s["threads"][:known], {a: c for a, c in s["extras"].items() if not a.startswith("pec_graphic")}], [b]


def run(case):
    res = H.R()
    with H.Box(case) as w:
        w.enabled = False
        base = whole = None
        for k, (kind, draws) in enumerate([["seeded", []]] + case["scripts"]):
            w.rand_script = list(draws)
            w.rand_const = draws[0] if kind == "stuck" and draws else None
            n0 = w.rand_draws
            got, all_ = outcome(w, case, k)
            used = w.rand_draws - n0
            res.state(case["op"], case["fmt"], kind, min(used, 8), len(case["design"]["threads"]) > 0)
            res.count("draws:" + kind, used)
            nm = case["fmt"] or "memory"
            if got[0] == "source":
                res.bad("source:" + nm, "%s with %s draws changed the source design" % (nm, kind))
                break
            if got[0] in ("fixed", "not-a-thread"):
                res.bad("filler:" + nm, "%s with %s draws: %s" % (nm, kind, got[0]))
                break
            if k == 0:
                base, whole = got, all_
                continue
            if got != base:
                what = next((["outcome", "commands", "number of threads", "given threads", "metadata"][min(j, 4)] for j in range(min(len(got), len(base))) if got[j] != base[j]), "outcome")
                if case["op"] == "memory":
                    what = "blocks or given threads"
                res.bad("disturbed:%s:%s" % (nm, what), "%s: with %s draws (%s ...) the %s differ from those with other draws: %s" % (
                    nm, kind, ", ".join("%06x" % x if isinstance(x, int) else x for x in draws[:3]), what, c15.brief(["ok"] + base[1:], ["ok"] + got[1:]) + " / " + c15.brief(["ok"] + got[1:], ["ok"] + base[1:])))
                break
            if case["full"] and canonical(case["design"]) and len(case["design"]["threads"]) > sum(1 for q in case["design"]["stitches"] if q[2] & 0xFF in (COLOR_CHANGE, COLOR_BREAK, STOP)) and all_ != whole:
                res.bad("depends:" + nm, "%s of a design with all its threads depends on the random source" % nm)
                break
        res.world(w)
        res.digest.append(H.dig(base) if base else None)
    return res
