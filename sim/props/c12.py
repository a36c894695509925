"""C12: a torn machine file never yields stitches the design does not have."""
from .. import gen as G, harness as H, model as M, ops as O, rofmt as F, world as W

CASES = {"quick": 2600, "thorough": 120000}
RULE = "a run makes one complete file and loads what is left of it after a crash, a full disk or a cut at each of the chosen points; distinct cases counted, every case with at least one penetration"
MEASURE = "distinct (format, kind of tear, outcome, share of the penetrations that survive, unit offset of the tear) combinations"
CRASH = ["dst", "dstx", "exp", "jef", "u01", "tbf"]
BINARY = ["dst", "dstx", "exp", "jef", "pec", "pes1", "pes6", "pes1t", "pes6t", "vp3", "u01", "xxx", "tbf", "gcode"]
TORN = BINARY + [f for f in F.ENC if f not in ("hus",)]


def gen(r, i, tier):
    c = {"knobs": {"bufsize": r.choice([1, 2, 3, 5, 16, 64, 512, 8192]), "rand_seed": 1}, "faults": [], "pick": r.randrange(1 << 30),
         "cap": 40 if tier == "quick" else 150, "only": None}
    size = r.choice([1, 3, 6, 14]) if r.random() < .95 else 400
    if i % 3 == 0:
        c["mode"] = r.choice(["crash", "crash", "full", "blip"])
        c["src"] = O.source(r, CRASH[(i // 3) % len(CRASH)], size)
        c["noise"] = G.profile_faults(r, ("write",)) if r.random() < .4 else []
    else:
        c["mode"] = "cut"
        c["src"] = O.source(r, TORN[i % len(TORN)], size)
        c["noise"] = []
    return c


def pens(p):
    return [(s[0], s[1]) for s in p.stitches if s[2] & 0xFF == 0]


def marks(p, n):
    """Thread changes and stops between the penetrations."""
    return {k: "".join(v) for k, v in M.view(p.stitches)["marks"].items() if k < n}


def run(case):
    from random import Random
    res = H.R()
    src = case["src"]
    name, ext = O.source_name(src), O.source_ext(src)
    r = Random(case["pick"])
    with H.Box(case) as w:
        full = O.source_bytes(src)
        H.put(w, "f." + ext, full)
        kind, p = H.attempt(H.load, w.path("f." + ext))
        if kind == "raise":
            res.nontrivial = False
            return res
        whole = pens(p)
        if not whole:
            res.nontrivial = False
            return res
        mwhole = marks(p, len(whole))
        if case["mode"] == "cut":
            pts = list(range(len(full)))
            if len(pts) > case["cap"]:
                # the stitches are mostly at the end; the headers matter less
                keep = set(r.sample(pts, case["cap"] // 2)) | set(pts[-10:]) | set(r.sample(pts[-min(len(pts), 6 * len(whole) + 40):], min(case["cap"] // 2, min(len(pts), 6 * len(whole) + 40))))
                pts = sorted(keep)
        else:
            # a dry run lists the write calls of the save
            w.faults = list(case["noise"])
            H.save(H.build(src["design"]), w.path("dry." + ext), O.settings(src["fmt"]))
            h = [h for h in w.handles if h.fname == "dry." + ext][-1]
            pts = [[k, n] for k in range(h.n["write"]) for n in (0, 1, 2, 3)]
            if len(pts) > case["cap"]:
                pts = sorted(r.sample(pts[:-8], min(len(pts) - 8, case["cap"])) + pts[-8:])
        if case["only"] is not None:
            pts = case["only"]
        for k, pt in enumerate(pts):
            torn = "t%d.%s" % (k, ext)
            if case["mode"] == "cut":
                left = full[:pt]
                H.put(w, torn, left)
                where = "cut to %d of %d bytes" % (pt, len(full))
            else:
                at = {"op": "write", "file": torn, "open": 0}
                if case["mode"] == "crash":
                    fl = [dict(at, nth=pt[0], n=pt[1], kind="crash")]
                else:  # the disk takes n more bytes, then no more (for one call, or for good)
                    fl = [dict(at, nth=pt[0], n=pt[1], kind="short")] if pt[1] else []
                    fl.append(dict(at, nth=pt[0] + len(fl), n=0, kind="enospc", sticky=case["mode"] == "full"))
                w.faults = fl + list(case["noise"])
                kd, e = H.attempt(H.save, H.build(src["design"]), w.path(torn), O.settings(src["fmt"]))
                w.crashed = False
                w.faults = []
                left = H.get(w, torn)
                if left is None:
                    continue
                where = "%s at write call %d after %d more bytes, %d of %d bytes on disk" % (case["mode"], pt[0], pt[1], len(left), len(full))
            w.enabled = False
            kd, q = H.attempt(H.load, w.path(torn))
            w.enabled = True
            res.count("torn_loads")
            res.count("torn_" + ("raise" if kd == "raise" else "ok"))
            if kd == "raise":
                res.state(name, case["mode"], H.exc_name(q))
                continue
            got = pens(q)
            res.state(name, case["mode"], min(8, 8 * len(got) // len(whole)), len(left) % 6)
            if got != whole[:len(got)]:
                j = next(j for j in range(len(got)) if j >= len(whole) or got[j] != whole[j])
                res.bad("prefix:%s:%s" % (case["mode"], name), "%s %s loads penetration %d at %r, the complete file has %s" % (
                    name, where, j, got[j], whole[j] if j < len(whole) else "only %d" % len(whole)), {"only": [pt]})
                break
            m = marks(q, len(got))
            if any(m.get(j) != mwhole.get(j) for j in range(1, len(got))):
                j = next(j for j in range(1, len(got)) if m.get(j) != mwhole.get(j))
                res.bad("between:%s:%s" % (case["mode"], name), "%s %s loads %s before penetration %d, the complete file has %s there" % (
                    name, where, m.get(j, "nothing"), j, mwhole.get(j, "nothing")), {"only": [pt]})
                break
        res.world(w)
        res.digest.append(len(whole))
    return res
