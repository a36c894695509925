"""C13: loading into an existing design only appends."""
from .. import damage as D, gen as G, harness as H, iosweep as I, ops as O, world as W
from ..const import *

CASES = {"quick": 9000, "thorough": 400000}
RULE = "a run loads one file (sound, damaged, or on a failing disk) into a design that already has content; distinct cases counted"
MEASURE = "distinct (format, disturbance, outcome, shape of the existing design) combinations"
CONT = ("vp3",)  # absolute and relative positions mixed: only the existing part is checked


def host(r):
    """An existing design the post-processing of a reader could be tempted to rework."""
    d = G.design(r, size=r.choice([1, 2, 5]), blocks=r.choice([1, 2, 4]), messy=True, limit=4000, extras={k: G.text(r, 1, 8) for k in ("name", "author", "own", "pec_graphic_0") if r.random() < .4})
    st = d["stitches"]
    for _ in range(r.choice([0, 1, 3])):
        k = r.randrange(len(st) + 1)
        x, y = (st[k - 1][0], st[k - 1][1]) if k else (0, 0)
        st[k:k] = [[x + r.choice([0, 90]), y, JUMP], [x + r.choice([0, 90]), y, JUMP], [x, y, JUMP]][:r.choice([1, 2, 3])]
    if r.random() < .5 and d["threads"]:
        d["threads"] = [dict(d["threads"][0]) for _ in d["threads"]]  # duplicates look like stops
    if r.random() < .15:
        d["threads"] = []
    if r.random() < .1:
        d["stitches"] = []
    if r.random() < .2 and st and st[-1][2] != END:
        st.append([st[-1][0], st[-1][1], END])
    return d


def gen(r, i, tier):
    names = O.SOURCES
    mode = r.choice(["sound", "sound", "damaged", "fault"])
    if mode == "damaged":
        c = D.gen(r, i)
        c.pop("bomb", None)
    else:
        c = {"src": O.source(r, names[i % len(names)]), "edits": [], "mut": [], "knobs": {"bufsize": r.choice([1, 16, 512, 8192]), "rand_seed": 3}}
    c["mode"] = mode
    c["host"] = host(r)
    c["fail"] = None
    if mode == "fault":
        c["fail"] = {"op": r.choice(["read", "read", "read", "seek", "close"]), "file": "f." + O.source_ext(c["src"]), "open": 0,
                     "nth": r.choice([0, 0, 1, 1, 2, 3, 5, 9, 20]), "kind": "eio"}
    c["settings"] = r.choice([None, None, {"trims": True}, {"clipping": False}, {"trim_at": 2, "trim_distance": None}]) if O.source_ext(c["src"]) in ("dst", "jef") else None
    c["inst"] = r.random() < .3
    c["twice"] = r.random() < .15
    return c


def run(case):
    res = H.R()
    name, ext = O.source_name(case["src"]), O.source_ext(case["src"])
    with H.Box(case) as w:
        data = D.data_of(case)
        H.put(w, "f." + ext, data)
        H.put(w, "g." + ext, data)
        w.rng.seed(1)  # colours given as "random" come out the same each time
        ka, alone = H.attempt(H.load, w.path("g." + ext), case["settings"])
        p = H.build(case["host"])
        for rnd in range(2 if case["twice"] else 1):
            before = H.snap(p)
            px, py = getattr(p, "_previousX", None), getattr(p, "_previousY", None)
            if case["fail"]:
                w.faults = [dict(case["fail"], open=rnd)]
            w.rng.seed(1)
            if case["inst"]:
                kind, v = H.attempt(lambda: p.read(w.path("f." + ext), **(case["settings"] or {})))
            else:
                kind, v = H.attempt(H.load, w.path("f." + ext), case["settings"], p)
            w.faults = []
            after = H.snap(p)
            res.state(name, case["mode"], kind, bool(before["stitches"]), min(3, len(before["threads"])), rnd)
            res.count("append_" + kind)
            n, m = len(before["stitches"]), len(before["threads"])
            if after["stitches"][:n] != before["stitches"]:
                k = next((k for k in range(n) if k >= len(after["stitches"]) or after["stitches"][k] != before["stitches"][k]))
                res.bad("commands:%s" % name, "loading %s into a design (%s) changed its existing command %d from %r to %s" % (
                    name, kind, k, before["stitches"][k], after["stitches"][k] if k < len(after["stitches"]) else "nothing"))
                return res
            if after["threads"][:m] != before["threads"]:
                k = next((k for k in range(m) if k >= len(after["threads"]) or after["threads"][k] != before["threads"][k]))
                res.bad("threads:%s" % name, "loading %s into a design (%s) changed its existing thread %d from %r to %s" % (
                    name, kind, k, before["threads"][k], after["threads"][k] if k < len(after["threads"]) else "nothing"))
                return res
            own = None
            if kind == "ok" and ka == "ok":
                own = H.snap(alone)
            lost = [k for k, v in before["extras"].items() if after["extras"].get(k) != v and (own is not None and k not in own["extras"])]
            gone = [k for k in before["extras"] if k not in after["extras"]]
            if lost or gone:
                res.bad("metadata:%s" % name, "loading %s into a design (%s) changed its metadata %r, which the file does not set" % (name, kind, (lost + gone)[0]))
                return res
            if kind == "raise" and ka == "ok" and not case["fail"]:
                res.bad("append-raises:%s" % name, "loading %s into an existing design raised %s: %s, loading it alone works" % (name, H.exc_name(v), v))
                return res
            if own is None:
                continue
            new = after["stitches"][n:]
            if len(new) != len(own["stitches"]) or [s[2] for s in new] != [s[2] for s in own["stitches"]]:
                res.bad("appended:%s" % name, "loading %s into a design added %d commands that differ from the %d of the file" % (name, len(new), len(own["stitches"])))
                return res
            if new and name not in CONT:
                ok = False
                for ox, oy in ((0, 0), (px, py)):
                    if all(abs(a[0] - b[0] - ox) < 1e-6 and abs(a[1] - b[1] - oy) < 1e-6 for a, b in zip(new, own["stitches"]) if a[2] in (STITCH, JUMP)):
                        ok = True
                if not ok and all(abs(s[0]) < 1e9 and abs(s[1]) < 1e9 for s in own["stitches"]) and case["mode"] == "sound":
                    res.bad("position:%s" % name, "loading %s into a design added its commands neither where the file puts them nor after the current position (%r, %r): first %r against %r" % (
                        name, px, py, new[:3], own["stitches"][:3]))
                    return res
            tn = after["threads"][m:]
            if name == "jpx":
                tn, own["threads"] = [len(tn)], [len(own["threads"])]
            if tn != own["threads"]:
                res.bad("appended-threads:%s" % name, "loading %s into a design added the threads %r, the file alone gives %r" % (name, tn[:4], own["threads"][:4]))
                return res
            bad = [k for k, v in own["extras"].items() if after["extras"].get(k) != v]
            if bad:
                res.bad("appended-metadata:%s" % name, "loading %s into a design set %r to %r, alone to %r" % (name, bad[0], after["extras"].get(bad[0]), own["extras"][bad[0]]))
                return res
        res.world(w)
        res.digest.append(H.dig(after))
    return res
