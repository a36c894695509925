"""C29: templated exports hold every command once, in order, in balanced sections, with the right values."""
from .. import gen as G, harness as H
from ..const import *

CASES = {"quick": 6000, "thorough": 250000}
RULE = "a run exports a design through one to three template sets and parses the text back; distinct cases counted"
MEASURE = "distinct (templates given, encoded or not, section lengths, disturbance kinds) combinations"
KINDS = {"stitch": STITCH, "stop": STOP, "jump": JUMP, "trim": TRIM, "color_change": COLOR_CHANGE, "sequin": SEQUIN_EJECT, "sequin_mode": SEQUIN_MODE,
         "slow": SLOW, "fast": FAST, "end": END}
NAME = {v: k for k, v in KINDS.items()}
SHOWN = {STITCH: "STITCH", JUMP: "JUMP", TRIM: "TRIM", STOP: "STOP", END: "END", COLOR_CHANGE: "COLOR_CHANGE", SEQUIN_MODE: "SEQUIN_MODE",
         SEQUIN_EJECT: "SEQUIN_EJECT", SLOW: "SLOW", FAST: "FAST"}
SECTIONS = ["pattern_start", "pattern_end", "document_start", "document_end", "color_start", "color_end", "block_start", "block_end"]
FIELDS = ["index", "cmd", "cmd_str", "x", "y", "_x", "_y", "dx", "dy", "idx", "idy", "_idx", "_idy", "ix", "iy", "_ix", "_iy", "last_x", "last_y", "_last_x", "_last_y", "z"]
TOTALS = ["stitch_total", "thread_total", "extents_left", "extends_top", "extends_right", "extends_bottom", "extends_width", "extends_height", "extents_left_mm",
          "extends_top_mm", "extends_right_mm", "extends_bottom_mm", "extends_width_mm", "extends_height_mm"] + [
          n + "_count" for n in ("stitch", "jump", "trim", "stop", "end", "color_change", "sequin_mode", "sequin_eject", "slow", "fast", "needle_set")]
THREAD = ["thread_index", "thread_color", "thread_red", "thread_green", "thread_blue", "thread_description", "thread_brand", "thread_catalog_number", "thread_chart",
          "thread_details", "thread_weight"]
RS, US = "\x1e", "\x1f"


def templates(r):
    """Which templates are given and the fields each shows."""
    t = {}
    full = r.random()
    for s in SECTIONS:
        if r.random() < (.95 if full < .5 else .5):
            t[s] = r.sample(TOTALS, 3)
    kinds = list(KINDS)
    if r.random() < .5:
        t["segment"] = r.sample(FIELDS, r.choice([3, 6]))
        kinds = r.sample(kinds, r.randrange(4))
    elif r.random() < .5:
        kinds = r.sample(kinds, r.randint(2, len(kinds)))
    for k in kinds:
        t[k] = r.sample(FIELDS, r.choice([3, 6, 6]))
    if r.random() < .4:
        t["metadata_entry"] = ["metadata_key", "metadata_value", "metadata_index"]
    if r.random() < .4:
        t["thread_entry"] = r.sample(THREAD, 4)
    for s in ("segment_start", "segment_end"):
        if r.random() < .2:
            t[s] = []
    return t


def gen(r, i, tier):
    d = G.design(r, size=r.choice([1, 2, 4, 9, 20]), blocks=r.choice([1, 1, 2, 3, 5]), coords=r.choice(["int", "int", "half", "float"]), limit=r.choice([300, 3000]),
                 extras={k: G.text(r, 1, 8) for k in ("name", "author", "comments", "x") if r.random() < .4})
    for _ in range(r.choice([0, 0, 0, 1, 3])):
        d["stitches"].insert(r.randint(0, len(d["stitches"])), [r.randint(-50, 50), r.randint(-50, 50), r.choice([SLOW, FAST, SEQUIN_EJECT, STOP, TRIM, TRIM, COLOR_CHANGE])])
    raw = r.random() < .4
    if raw:
        d["stitches"] = [s for s in d["stitches"] if s[2] in NAME or s[2] == COLOR_BREAK]
        for s in d["stitches"]:
            if s[2] == COLOR_BREAK:
                s[2] = COLOR_CHANGE
        if r.random() < .3:  # several documents in one design
            d["stitches"].insert(r.randint(0, len(d["stitches"])), [r.randint(-50, 50), 0, END])
    opts = {"encode": False} if raw else {}
    if not raw:
        for k, v in (("scale", (r.choice([.1, -.1, 2]), r.choice([.1, -1]))), ("max_stitch", 120), ("max_jump", 100), ("tie_on", True)):
            if r.random() < .2:
                opts[k] = v
    if r.random() < .3:
        opts["stitch_z_travel"] = r.choice([1.5, 0, -2])
    sets = [templates(r) for _ in range(r.choice([1, 1, 2, 3]))]
    if r.random() < .3:
        sets.append(sets[0])
    return {"design": d, "raw": raw, "opts": opts, "sets": sets, "how": r.choice(["path", "path", "stream"]), "old": r.random() < .3,
            "knobs": {"bufsize": G.bufsize(r), "encoding": r.choice(["utf-8", "cp1252", "ascii"]), "rand_seed": r.randrange(99)},
            "faults": G.profile_faults(r, ("write",)) if r.random() < .6 else []}


def settings_of(t, opts):
    s = dict(opts)
    for k, fields in t.items():
        s[k] = RS + k + "".join(US + "{%s}" % f for f in fields)
    return s


def opened(c):
    return {TRIM: "dc", COLOR_CHANGE: "d"}.get(c, "dcb")


def closed(c):
    return {TRIM: "b", COLOR_CHANGE: "bc", END: "bcd"}.get(c, "")


WORD = {"d": "document", "c": "color", "b": "block"}


def expect(t, st, threads, extras, z_step):
    """[(template, {field: value})] in order."""
    out = []

    def emit(k, v=None):
        if k in t:
            out.append((k, v))
    xs, ys = [s[0] for s in st] or [0], [s[1] for s in st] or [0]
    tot = {"stitch_total": len(st), "thread_total": len(threads), "extents_left": min(xs), "extends_top": min(ys), "extends_right": max(xs), "extends_bottom": max(ys),
           "extends_width": max(xs) - min(xs), "extends_height": max(ys) - min(ys)}
    for k in list(tot)[2:]:
        tot[k + "_mm"] = tot[k] / 10.0
    for k in TOTALS:
        if k.endswith("_count"):
            c = {"sequin_eject": SEQUIN_EJECT, "needle_set": NEEDLE_SET}.get(k[:-6], KINDS.get(k[:-6]))
            tot[k] = sum(1 for s in st if s[2] & 0xFF == c)
    emit("pattern_start", tot)
    for k, key in enumerate(extras):
        emit("metadata_entry", {"metadata_key": str(key), "metadata_value": str(extras[key]), "metadata_index": k})
    for k, th in enumerate(threads):
        c = th[0]
        emit("thread_entry", dict(zip(THREAD, [k, "#%06x" % (c & 0xFFFFFF), c >> 16 & 255, c >> 8 & 255, c & 255, th[1], th[4], th[2], th[5], th[3], th[6]])))
    now = ""
    lx = ly = ix = iy = 0
    z = 0.0
    for k, (x, y, c) in enumerate(st):
        name = NAME.get(c)
        seg = name if name in t else "segment" if "segment" in t else None
        if seg is None:
            continue
        v = {"index": k, "cmd": c, "cmd_str": SHOWN[c], "x": x, "y": y, "dx": x - lx, "dy": y - ly, "last_x": lx, "last_y": ly, "z": z}
        jx, jy = int(round(x - ix)), int(round(y - iy))
        ix, iy = ix + jx, iy + jy
        v.update({"idx": jx, "idy": jy, "ix": ix, "iy": iy})
        for f in ("x", "y", "idx", "idy", "ix", "iy", "last_x", "last_y"):
            v["_" + f] = -v[f]
        lx, ly = x, y
        if c == STITCH:
            z += z_step
        for q in opened(c):
            if q not in now:
                now += q
                emit(WORD[q] + "_start", tot)
        emit("segment_start")
        out.append((seg, v))
        emit("segment_end")
        for q in closed(c):
            if q in now:
                now = now.replace(q, "")
                emit(WORD[q] + "_end", tot)
    for q in "bcd":
        if q in now:
            emit(WORD[q] + "_end", tot)
    emit("pattern_end", tot)
    return out


def equal(text, v):
    if isinstance(v, str) or v is None:
        return text == str(v)
    try:
        return abs(float(text) - v) <= 1e-9 * max(1, abs(v))
    except ValueError:
        return False


def check(res, t, text, want):
    parts = text.split(RS)
    if parts[0]:
        res.bad("stray", "the export begins with %r" % parts[0][:60])
        return
    got = [q.split(US) for q in parts[1:]]
    for k in range(max(len(got), len(want))):
        a = got[k][0] if k < len(got) else "nothing"
        b = want[k][0] if k < len(want) else "nothing"
        if a != b:
            res.bad("order:%s:%s" % (b, a), "piece %d of the export is from the template %r, the design's commands and the templates given make it %r (%d pieces, %d expected)" % (
                k, a, b, len(got), len(want)))
            return
        fields = t[a]
        if len(got[k]) != 1 + len(fields):
            res.bad("pieces:" + a, "a piece made from %r has %d values for %d fields: %r" % (a, len(got[k]) - 1, len(fields), got[k][:9]))
            return
        for f, u in zip(fields, got[k][1:]):
            if not equal(u, want[k][1][f]):
                res.bad("value:" + f, "piece %d (%s) shows %s as %r, the design's is %r" % (k, a, f, u[:60], want[k][1][f]))
                return


def run(case):
    res = H.R()
    d = case["design"]
    if not d["stitches"] or any(s[2] & 0xFF == NEEDLE_SET for s in d["stitches"]):
        res.nontrivial = False
        return res
    GW = H.pe.GenericWriter
    with H.Box(case) as w:
        for n, t in enumerate(case["sets"]):
            p = H.build(d)
            s = settings_of(t, case["opts"])
            w.enabled = False
            if case["raw"]:
                q = p
            else:
                o = dict(case["opts"])
                o.update({"writes_speeds": True, "sequin_contingency": CONTINGENCY_SEQUIN_UTILIZE})
                q = H.build(d).get_normalized_pattern(o)
            w.enabled = True
            snap = H.snap(q)
            before = H.snap(p)
            given = dict(s)
            name = "d%d.out" % (n % 2)
            if case["old"] and n == 0:
                H.put(w, name, b"x" * 70000)
            if case["how"] == "path":
                kind, v = H.attempt(H.pe.EmbPattern.write_embroidery, GW, p, w.path(name), s)
                data = H.get(w, name)
            else:
                import io
                f = io.BytesIO()
                kind, v = H.attempt(H.pe.EmbPattern.write_embroidery, GW, p, f, s)
                data = None if f.closed else f.getvalue()
            if kind == "raise":
                res.bad("raises:" + H.exc_name(v), "a templated export raised %r" % (v,))
                return res
            if data is None:
                res.bad("no-file", "the export returned but there is no file")
                return res
            if H.snap(p) != before or s != given:
                res.bad("changed", "the export changed the design or the templates it was given")
                return res
            try:
                text = data.decode("utf8")
            except UnicodeDecodeError as e:
                res.bad("encoding", "the export is not utf8: %s" % e)
                return res
            if len({len(th) for th in snap["threads"]}) > 1 or any(st[2] not in NAME for st in snap["stitches"]):
                res.nontrivial = False
                return res
            check(res, t, text, expect(t, snap["stitches"], snap["threads"], snap["extras"], case["opts"].get("stitch_z_travel", 10.0)))
            if res.viol:
                return res
            res.digest.append(H.dig(data))
            res.count("pieces", text.count(RS))
            res.state(sorted(t)[:6], case["raw"], min(len(snap["stitches"]), 40) // 4, sorted(w.fired))
        res.world(w)
    return res
