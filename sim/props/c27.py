"""C27: saved machine files are valid for other programs (decoded without the library)."""
from .. import gen as G, harness as H, model as M, rt, mfmt, palettes as P
from ..const import *
from . import c01, c24
from .. import enc as N

TIMEOUT, STEP_BUDGET = c01.TIMEOUT, c01.STEP_BUDGET
LISTS = ("inf", "col", "edr")
CASES = {"quick": 12000, "thorough": 300000}
RULE = "a run saves a design with at least one penetration and decodes the bytes with an independent decoder; distinct cases counted"
MEASURE = "distinct (format, disturbance kinds, delta classes, options) combinations"


def gen(r, i, tier):
    if i % 10 != 9 and r.random() < .12:  # designs with inline encoder commands, saved with options
        case = c24.gen(r, i, tier)
        case["program"] = True
        return case
    case = c01.designs(r, i, tier)
    case["other"], case["switches"] = None, []
    case["ct0"] = case["fmt"] == "tbf" and r.random() < .6
    if i % 10 == 9:
        # the palette files, and the decorative stitches of PMV: one run of small steps
        case["fmt"] = ["pmv", "inf", "pmv", "col", "pmv", "edr"][i // 10 % 6]
        case["settings"] = {}
        if case["fmt"] == "pmv":
            case["design"] = decorative(r)
        for f in case["fail_first"]:
            f["file"] = "d." + case["fmt"]
    return case


def decorative(r):
    x, y = r.choice([(0, 0), (0, 0), (30, -20), (400, 90)])
    st = []
    span = r.choice([10, 34, 36, 60, 200])
    for _ in range(r.choice([1, 2, 5, 20, 60, 98, 99, 100, 101, 130])):
        k = r.random()
        if k < .06:
            st.append([x, y, r.choice([TRIM, COLOR_CHANGE, STOP, COLOR_BREAK])])
        elif k < .12:
            x, y = x + r.randint(-200, 200), y + r.randint(-60, 60)
            st.append([x, y, JUMP])
        x += r.choice([0, 1, 2, 3, 24, 25, 69, 70, -1, -25, -69, -70, 71, 75, -75, 150, r.randint(-70, 70)])
        y = max(-span, min(span, y + r.randint(-70, 70)))
        st.append([x, y, STITCH])
    if r.random() < .8:
        st.append([x, y, END])
    d = {"stitches": st, "threads": G.threadlist(r, 8), "extras": {}}
    return G.numbered(r, d) if r.random() < .15 else d


def program(res, case):
    """The stitches against the command interpreter of C24, the parts of the file against its stitches."""
    fmt, d = case["fmt"], case["design"]
    with H.Box(case) as w:
        for f, o, own in case["before"]:
            w.enabled = False
            H.attempt(H.save, H.build(d), w.path("b." + H.FORMATS[f][0]), dict(H.FORMATS[f][1], **N.as_settings(o)))
            w.enabled = True

        def load(path, st):
            o = mfmt.decode(fmt, H.get(w, "d." + H.FORMATS[fmt][0]))
            for sig, msg in o.problems:
                res.bad("program-" + sig, msg)
            return None if o.problems else o
        o = c24.saved(res, case, d, c24.plain(d), dict(case["opts"]), H.build(d), w, "program-", load)
        res.world(w)
    if o is None or res.viol:
        return res
    pens = [tuple(c[:2]) for c in o.cmds if c[2] == STITCH]
    if not pens:
        return res
    want = o.info["nco"] if fmt == "tbf" else o.changes()
    stops = fmt != "tbf" and any(s[2] & 0xFF in (STOP, FRAME_EJECT) for s in d["stitches"])  # stored like a change
    if "co" in o.info and o.info["co"] is not None and (o.info["co"] > want or o.info["co"] < want and not stops):
        res.bad("program-change-count:" + fmt, "%s: the header counts %d colour changes, the stitches have %d" % (fmt, o.info["co"], o.changes()))
    loose = case["opts"].get("full_jump") is False and fmt in rt.PESLIKE  # (then a landing record at 0, 0 is among them)
    if not loose:
        extents(res, fmt, {"pens": pens}, o, True, True, True)
    if "graphics" in o.info and not loose:
        icons(res, fmt, o)
    for k in {s[2] & 0xFF for s in d["stitches"] if s[2] >= 0} - {STITCH, JUMP, END}:
        res.state(fmt, "program", k)
    return res


def run(case):
    res = H.R()
    if case.get("program"):
        return program(res, case)
    fmt = case["fmt"]
    ext, st = H.FORMATS[fmt]
    d = case["design"]
    exp = M.expected(d)
    if not exp["pens"] and not (fmt in LISTS and d["threads"]):
        res.nontrivial = False
        return res
    opts = dict(st)
    opts.update(case["settings"])
    ct0 = None
    with H.Box(case) as w:
        if case.get("ct0"):
            opts["ct0"] = w.path("side.ct0")
            if case["old"]:
                H.put(w, "side.ct0", b"\x31" * 5000)
        name = "d." + ext
        path = w.path(name)
        if case["old"] == 1:
            H.put(w, name, bytes(range(256)) * 400)
        elif case["old"] == 2:
            H.put(w, name, b"\x80\x03junk")
        p = H.build(d)
        if case["fail_first"]:
            base = w.faults
            w.faults = case["fail_first"] + base
            H.attempt(H.save, p, path, dict(opts))
            w.faults = base
            res.count("failed_save_before")
        kind, val = H.attempt(H.save, p, path, dict(opts))
        if kind == "raise":
            res.bad("save-raises:%s" % fmt, "saving as %s raised %r" % (fmt, val))
            res.world(w)
            return res
        data = H.get(w, name)
        if case.get("ct0"):
            ct0 = H.get(w, "side.ct0")
        res.world(w)
    if opts.get("truncated") and fmt in ("pes1", "pes6"):
        fmt += "t"
    o = mfmt.decode(fmt, data)
    for sig, msg in o.problems:
        res.bad(sig, msg)
    res.digest.append(H.dig(data))
    res.count("bytes", len(data))
    res.count("fmt_" + fmt)
    for x in sorted(set(min(12, int(abs(a[0] - b[0])).bit_length()) for a, b in zip(exp["pens"], exp["pens"][1:])))[:20]:
        res.state(fmt, x, sorted(w.fired), sorted(case["settings"]))
    if o.problems:
        return res
    if ct0 is not None:
        control(res, ct0, o.info["needles"])
    if fmt in LISTS:
        th = d["threads"]
        unk = lambda v: "Unknown" if v is None else v
        want = [(t["color"],) + ((unk(t.get("description")), unk(t.get("chart"))) if fmt == "inf" else ()) for t in th]
        if o.info["rows"] != want:
            res.bad("color:" + fmt, "%s: the file lists %r, the design has %r" % (fmt, o.info["rows"][:5], want[:5]))
        return res
    if fmt == "pmv":
        points(res, exp["pens"], o.info["points"])
        return res
    single = opts.get("needle_count", 5) == 1
    errs = [1]
    if fmt in ("pes6", "pes6t"):
        # zero-length stitches in one place can be matched in several ways: one that gives every
        # penetration its colour counts
        def same(want, got):
            return lambda j, i: (got["owner"][j] < len(o.colors) and want["owner"][i] < len(d["threads"])
                                 and o.colors[got["owner"][j]] == d["threads"][want["owner"][i]]["color"])
        errs, gv, back = rt.path_errors(d, o.cmds, fmt, exp, single, also=same)
    if errs:
        errs, gv, back = rt.path_errors(d, o.cmds, fmt, exp, single)
    for sig, msg in errs:
        res.bad(sig, msg)
    if not errs:
        meaning(res, case, fmt, d, exp, o, gv, back, single)
    return res


def control(res, data, needles):
    """The settings file beside a TBF file: the needle of each needle change, blocks at fixed places."""
    if data is None:
        res.bad("ct0-missing:tbf", "tbf: the settings file asked for was not written")
        return
    res.count("ct0_files")
    res.state("ct0", min(len(needles), 300))
    if len(needles) > 255:
        return  # (more than its table holds)
    if len(data) != 0x790 or not data.startswith(b"TAJ-DGML-PULSE") or data[0x778:0x77A] != b"\r\x1a":
        res.bad("ct0-layout:tbf", "tbf: the settings file has %d bytes, begins with %r, ends with %r" % (len(data), data[:14], data[0x778:]))
        return
    for at, tag in ((0x60, b"DC1:"), (0x108, b"NS1:"), (0x30D, b"\rRP0:"), (0x434, b"ST0:"), (0x47F, b"NS2:"), (0x583, b"\rNS3:")):
        if data[at:at + len(tag)] != tag:
            res.bad("ct0-layout:tbf", "tbf: the settings file has %r at %#x, not %r" % (data[at:at + len(tag)], at, tag))
            return
    got = data[0x10C:0x30D].rstrip(b" ")
    want = b"11" + b"".join(bytes([n + 0x30 & 255, 0x31]) for n in needles)
    if got != want and got != want.rstrip(b" "):
        res.bad("ct0-needles:tbf", "tbf: the settings file lists the needles %r, the stitches use %r" % (got[:40], needles[:20]))
    if data[0x483:0x583].rstrip(b" ") != b"0" * len(needles):
        res.bad("ct0-needles:tbf", "tbf: the settings file has %r for %d needle changes" % (data[0x483:0x583].rstrip(b" ")[:40], len(needles)))


def points(res, pens, pts):
    """PMV keeps the first hundred positions, at 2.5 units across and squeezed along the other axis: the needle
    points are among them, in order, where one squeeze fits all."""
    if len(pts) > 100:
        res.bad("count:pmv", "pmv: the file has %d points" % len(pts))
        return
    at, k = [], 0
    for p in pens:
        while k < len(pts) and abs(pts[k][0] * 2.5 - p[0]) > 1.3:
            k += 1
        if k == len(pts):
            break
        at.append((p, pts[k]))
        k += 1
    # interpolated positions may lie between; only a full file may leave needle points out
    if len(at) < len(pens) and len(pts) < 100:
        p = pens[len(at)]
        res.bad("path:pmv", "pmv: needle point %d at %r is not among the %d points of the file: %r" % (len(at), p, len(pts), [q[0] * 2.5 for q in pts[-6:]]))
        return
    if len(pts) != len(pens) or len(pts) == 100:
        return
    lo, hi = 0.0, 0.4
    for i, (p, q) in enumerate(at):
        for p2, q2 in at[:i]:
            dy, dr = -(p[1] - p2[1]), q[1] - q2[1]
            if dy < 0:
                dy, dr = -dy, -dr
            if dy == 0:
                if abs(dr) > 1:
                    lo, hi = 1, 0
            else:
                lo, hi = max(lo, (dr - 1.02) / dy), min(hi, (dr + 1.02) / dy)
    ys = [p[1] for p in pens]
    if hi < lo - 1e-9 or (max(ys) - min(ys) <= 70 and hi < 0.399):
        res.bad("height:pmv", "pmv: the heights of the points %r are no squeeze of %r" % ([q[1] for _, q in at[:8]], [p[1] for p, _ in at[:8]]))


def meaning(res, case, fmt, d, exp, o, gv, back, single):
    th = [t["color"] for t in d["threads"]]
    frac = rt.fractional(d)
    full = len(th) >= exp["orders"]
    # thread tables that hold exact colours
    if full and fmt in ("vp3", "xxx", "tbf", "pes6", "pes6t") and not (exp["marks_stop"] and fmt != "vp3" and fmt != "tbf"):
        for j, ow in enumerate(gv["owner"]):
            i = back[j]
            if i >= len(exp["owner"]) or gv["lead"][j] and fmt in rt.PESLIKE or fmt == "tbf":
                continue
            want = th[exp["owner"][i]]
            if ow >= len(o.colors) or o.colors[ow] != want:
                res.bad("color:" + fmt, "%s: penetration %d belongs to block %d with %s, its thread is %06x" % (
                    fmt, j, ow, "%06x" % o.colors[ow] if ow < len(o.colors) else "no colour", want))
                break
    if full and fmt == "tbf" and not single and o.info["table_end"] <= 0x376 and o.colors != th:
        res.bad("color:tbf", "tbf: the thread table has %s, the design %s" % (["%06x" % c for c in o.colors[:8]], ["%06x" % c for c in th[:8]]))
    # counts and extents
    if "co" in o.info:
        want = exp_changes(o, fmt)
        if want is not None and o.info["co"] is not None and o.info["co"] > want:
            res.bad("change-count:" + fmt, "%s: the header counts %d colour changes, the stitches have %d" % (fmt, o.info["co"], want))
        if fmt != "tbf" and not exp["marks_stop"] and o.info["co"] != want:
            res.bad("change-count:" + fmt, "%s: the header counts %d colour changes, the stitches have %d" % (fmt, o.info["co"], want))
        if fmt == "tbf" and o.info["co"] != o.info["nco"]:
            res.bad("change-count:" + fmt, "%s: the header counts %d needle changes, the stitches have %d" % (fmt, o.info["co"], o.info["nco"]))
    first = next((k for k, s in enumerate(d["stitches"]) if s[2] >= 0 and s[2] & 0xFF == STITCH), 0)
    last = next((k for k in range(len(d["stitches"]) - 1, -1, -1) if d["stitches"][k][2] >= 0 and d["stitches"][k][2] & 0xFF == STITCH), 0)
    extents(res, fmt, exp, o, rt.fractional(d), any(s[2] >= 0 and s[2] & 0xFF in (SLOW, FAST) for s in d["stitches"][:first]),
            any(s[2] & 0xFF != END for s in d["stitches"][last + 1:]))
    if "graphics" in o.info and case["settings"].get("full_jump") is not False:  # (then a landing record at 0, 0 widens the file)
        icons(res, fmt, o)
    if "segments" in o.info:
        segments(res, fmt, d, exp, o, case["settings"].get("full_jump") is False)


def exp_changes(o, fmt):
    return o.changes()


def segments(res, fmt, d, exp, o, loose):
    pts, codes = [], []
    for flag, code, ps in o.info["segments"]:
        if flag == 0:
            pts += ps
            codes += [code] * len(ps)
    if not pts or not exp["pens"]:
        return
    # the segments are placed relative to the left and bottom edge of the design
    x0 = min(c[0] for c in o.cmds)
    y0 = max(c[1] for c in o.cmds)
    got = [(x + x0, y + y0) for x, y in pts]
    if len(got) != len(exp["pens"]):
        res.bad("seg-count:" + fmt, "%s: the segments have %d penetrations, the design %d" % (fmt, len(got), len(exp["pens"])))
        return
    # the edge may lie on an interpolated jump between two units: one constant offset below 1
    whole = not rt.fractional(d)
    tol = 1.01 if whole else 2.01
    if loose:
        got = [(a[0] + round(exp["pens"][0][0]) - got[0][0], a[1] + round(exp["pens"][0][1]) - got[0][1]) for a in got]
    off = (got[0][0] - exp["pens"][0][0], got[0][1] - exp["pens"][0][1])
    for k, (a, b) in enumerate(zip(got, exp["pens"])):
        if abs(a[0] - b[0]) > tol or abs(a[1] - b[1]) > tol or (whole and (a[0] - b[0], a[1] - b[1]) != off):
            res.bad("seg-path:" + fmt, "%s: penetration %d is %r in the segments, the design has %r" % (fmt, k, a, b))
            return
    # a jump segment leads from the needle point before it to the stitches after it
    prev, segs = None, o.info["segments"]
    moves = [c for c in o.cmds if c[2] != TRIM]  # (in a PEC block each jump is a trim too)
    ends = set((a[0] - x0, a[1] - y0) for a, b in zip(moves, moves[1:]) if a[2] == JUMP and b[2] != JUMP)
    for k, (flag, code, ps) in enumerate(segs):
        if flag == 0:
            prev = ps[-1] if ps else prev
            continue
        if len(ps) != 2 or loose:
            continue
        res.count("jump_segments")
        if prev is not None and (abs(ps[0][0] - prev[0]) > 1 or abs(ps[0][1] - prev[1]) > 1):
            res.bad("seg-jump:" + fmt, "%s: jump segment %d begins at %r, the needle was at %r" % (fmt, k, ps[0], prev))
            return
        if k + 1 < len(segs) and segs[k + 1][0] == 0 and not any(abs(ps[1][0] - x) <= 1 and abs(ps[1][1] - y) <= 1 for x, y in ends):
            res.bad("seg-jump:" + fmt, "%s: jump segment %d ends at %r, where no run of jumps does" % (fmt, k, ps[1]))
            return
    th = [t["color"] for t in d["threads"]]
    if len(th) < exp["orders"] or exp["marks_stop"]:
        return
    for k, c in enumerate(codes):
        t = th[exp["owner"][k]]
        if fmt == "pes6":
            if c >= len(o.colors) or o.colors[c] != t:
                res.bad("seg-color:" + fmt, "%s: penetration %d has thread %06x, its segment colour %d" % (fmt, k, t, c))
                return
        elif t in P.PEC and (c >= len(P.PEC) or P.PEC[c] != t):
            res.bad("seg-color:" + fmt, "%s: penetration %d has the palette colour %06x, its segment colour %d" % (fmt, k, t, c))
            return


def extents(res, fmt, exp, o, frac, start, moves_after):
    """Sizes and end positions in the header: they hold all penetrations and exceed no position in the file."""
    t = 2.01 if frac else 1.01
    px = [p[0] for p in exp["pens"]]
    py = [p[1] for p in exp["pens"]]
    inner = (min(px), min(py), max(px), max(py))
    x0, y0, x1, y1 = o.bounds()
    if start:  # a speed set before the first stitch stands at the origin
        x0, y0, x1, y1 = min(x0, 0), min(y0, 0), max(x1, 0), max(y1, 0)
    outer = (min(x0, inner[0]), min(y0, inner[1]), max(x1, inner[2]), max(y1, inner[3]))
    info = o.info

    def size(name, got, axis, unit=1.0):
        lo, hi = inner[axis + 2] - inner[axis], outer[axis + 2] - outer[axis]
        if hi < 32000 and not lo - t <= got / unit <= hi + t:
            res.bad("size:" + fmt, "%s: the %s in the header is %r, the penetrations span %r and all positions %r" % (fmt, name, got, lo, hi))

    def edge(name, got, k, sign=1, unit=1.0):
        a, b = sorted((sign * inner[k], sign * outer[k]))
        if max(abs(a), abs(b)) < 32000 and not a - t <= got / unit <= b + t:
            res.bad("extent:" + fmt, "%s: the %s edge in the header is %r, that of the penetrations %r, of all positions %r" % (fmt, name, got, sign * inner[k], sign * outer[k]))

    def last(name, got, want):
        if abs(want) < 32000 and abs(got - want) > t:
            res.bad("last:" + fmt, "%s: the end position %s in the header is %r, the stitches end at %r" % (fmt, name, got, want))

    if fmt in ("dst", "dstx", "tbf"):
        for k, (a, b) in enumerate((("-X", "+X"), ("-Y", "+Y"))):
            if inner[k] <= 0 <= inner[k + 2]:
                size("sum of %s and %s" % (a, b), info[a] + info[b], k)
            if not k and outer[0] <= 0 <= outer[2] and inner[0] <= 0 <= inner[2]:
                edge("-X", info[a], 0, -1)
                edge("+X", info[b], 2)
        last("AX", info["AX"], o.x)
        last("AY", info["AY"], -o.y)
    elif fmt == "jef":
        size("half width", info["half"][0] * 2, 0)
        size("half height", info["half"][1] * 2, 1)
        if info["half"][:2] != info["half"][2:]:
            res.bad("size:jef", "jef: the distances from the centre are %r" % (info["half"],))
        hoops = {1: (500, 500), 3: (1260, 1100), 2: (1400, 2000), 4: (2000, 2000)}
        w, h = inner[2] - inner[0], inner[3] - inner[1]
        if info["hoop"] in hoops and (w > hoops[info["hoop"]][0] or h > hoops[info["hoop"]][1]):
            res.bad("hoop:jef", "jef: a design of %r by %r is put into hoop %d" % (w, h, info["hoop"]))
        w, h = outer[2] - outer[0], outer[3] - outer[1]
        if info["hoop"] == 0 and any(w < a - 1 and h < b - 1 for a, b in hoops.values()):
            res.bad("hoop:jef", "jef: a design of %r by %r gets the fallback hoop" % (w, h))
    elif fmt == "xxx":
        size("width", info["size"][0], 0)
        size("height", info["size"][1], 1)
        edge("left", info["corner"][0], 0, -1)
        edge("bottom", info["corner"][1], 3)
        last("x", info["last"][0], o.x)
        last("y", info["last"][1], -o.y)
    elif fmt == "u01":
        for k, (n, sg) in enumerate(((0, 1), (3, -1), (2, 1), (1, -1))):
            edge("%d." % (k + 1), info["extents"][k], n, sg)
        last("x", info["last"][0], o.x)
        last("y", info["last"][1], -o.y)
    elif fmt == "vp3":
        for k, (n, sg) in enumerate(((2, 1), (1, -1), (0, 1), (3, -1))):
            edge3(res, fmt, info["extents"][k], n, sg, inner, t)
        # each block says how far it leads: to where the next one begins
        starts = info.get("starts", [])
        for k, (x, y, (sx, sy)) in enumerate(starts):
            if k + 1 < len(starts):
                to = starts[k + 1][:2]
            elif moves_after:
                continue
            else:
                to = (o.x, o.y)
            if max(abs(x), abs(y), abs(sx), abs(sy)) < 32000 and max(abs(x + sx - to[0]), abs(y + sy - to[1])) > t:
                res.bad("shift:vp3", "vp3: block %d begins at %r and says it leads by %r, but it leads to %r" % (k, (x, y), (sx, sy), to))
                break
    elif fmt == "gcode":
        if info.get("COMMAND_STITCH") != len(exp["pens"]) :
            res.bad("count:gcode", "gcode: COMMAND_STITCH is %r for %d penetrations" % (info.get("COMMAND_STITCH"), len(exp["pens"])))
        for n, k in (("EXTENTS_WIDTH", 0), ("EXTENTS_HEIGHT", 1)):
            if info.get(n, -1) * 10 < inner[k + 2] - inner[k] - t:
                res.bad("size:gcode", "gcode: %s is %r mm, the penetrations span %r" % (n, info.get(n), (inner[k + 2] - inner[k]) / 10.0))
    elif "size" in info:
        size("width", info["size"][0], 0)
        size("height", info["size"][1], 1)
    if "seg_size" in info:
        size("segment width", info["seg_size"][0], 0)
        size("segment height", info["seg_size"][1], 1)


def edge3(res, fmt, got, n, sg, inner, t):
    # jumps are not stored, so only the penetrations bound the edge
    v = got / 100.0 * sg
    if (n >= 2 and v < inner[n] - t) or (n < 2 and v > inner[n] + t):
        res.bad("extent:vp3", "vp3: edge %d in the header is %r, the penetrations reach %r" % (n, v, inner[n]))


def bits(g):
    return set((x, y) for y in range(38) for x in range(48) if g[y * 6 + x // 8] >> (x % 8) & 1)


def near(p, pts, r):
    return p in pts or any(abs(p[0] - q[0]) <= r and abs(p[1] - q[1]) <= r for q in pts)


FRAME = set((x, y) for x in range(48) for y in range(38) if x < 4 or x > 43 or y < 4 or y > 33)


def icons(res, fmt, o):
    """The icons show the needle points: all of them in the first, one colour block in each of the others."""
    blocks, lead = [[]], set()
    prev = [0, 0, JUMP]
    for c in o.cmds:
        if c[2] == STITCH and prev[2] != STITCH and c[:2] == prev[:2]:
            lead.add((c[0], c[1]))  # a landing record: the design need not have a needle point here
        if c[2] in (STITCH, JUMP):
            prev = c
        if c[2] == COLOR_CHANGE:
            blocks.append([])
        elif c[2] == STITCH:
            blocks[-1].append((c[0], c[1]))
    x0, y0, x1, y1 = o.bounds()
    for k, g in enumerate(o.info["graphics"]):
        if len(g) < 228:
            return
        pts = [p for b in blocks for p in b] if k == 0 else blocks[k - 1]
        buf = 4 if k == 0 else 5
        sc = min((48 - buf) / float(x1 - x0 or 1), (38 - buf) / float(y1 - y0 or 1))
        r = 1 + int(sc + .99)  # edges may lie half a unit aside

        def pixel(x, y):
            return int((x - (x0 + x1) / 2) * sc + 24), int((y - (y0 + y1) / 2) * sc + 19)

        want = set(pixel(*p) for p in pts)
        got = bits(g)
        miss = [p for p in set(pixel(*p) for p in pts if p not in lead) if not near(p, got, r)]
        more = [p for p in got - FRAME if not near(p, want, r)]
        if miss or more:
            res.bad("icon:" + fmt, "%s: icon %d lacks the needle points %r and shows %r in excess" % (fmt, k, sorted(miss)[:3], sorted(more)[:3]))
            return
