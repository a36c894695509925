"""C05: SVG, TXT and PNG exports are complete and well formed."""
import struct, xml.etree.ElementTree as ET, zlib
from .. import gen as G, harness as H, model as M
from ..const import *

CASES = {"quick": 6000, "thorough": 200000}
RULE = "a run exports a design with at least one penetration and decodes the file with an independent decoder; distinct cases counted"
MEASURE = "distinct (type, options, run lengths, disturbance kinds) combinations"
FMTS = ["svg", "txt", "png", "svg", "txt", "txtm"]
NAMES = {"STITCH": STITCH, "JUMP": JUMP, "TRIM": TRIM, "STOP": STOP, "END": END, "COLOR_CHANGE": COLOR_CHANGE, "SEW_TO": SEW_TO,
         "NEEDLE_AT": NEEDLE_AT, "NEEDLE_SET": NEEDLE_SET, "SLOW": SLOW, "FAST": FAST, "SEQUIN_MODE": SEQUIN_MODE,
         "SEQUIN_EJECT": SEQUIN_EJECT}


def gen(r, i, tier):
    fmt = FMTS[i % len(FMTS)]
    raw = r.random() < .5
    kw = {"limit": 220} if fmt == "png" else {}
    if fmt == "png":
        kw["origin"] = (r.randint(-200, 200), r.randint(-200, 200))
        kw["jumps"] = raw
    d = G.design(r, size=r.choice([1, 2, 4, 9, 20]), blocks=r.choice([1, 1, 2, 3, 5]), messy=False,
                 coords=r.choice(["int", "int", "half", "float"]), **kw)
    if fmt == "png":  # the image is as large as the design: keep it small
        for s in d["stitches"]:
            s[0], s[1] = s[0] % 180 + kw["origin"][0], s[1] % 180 + kw["origin"][1]
    if raw:
        for s in d["stitches"]:
            if s[2] == COLOR_BREAK:
                s[2] = COLOR_CHANGE
    if r.random() < .06:
        G.numbered(r, d)
    opts = {}
    if fmt == "png":
        for k, v in (("background", r.choice(["#ffffff", "black", 0x123456])), ("linewidth", r.choice([1, 2, 3])), ("fancy", True),
                     ("guides", True)):
            if r.random() < .3:
                opts[k] = v
    if raw:
        opts["encode"] = False
    return {"fmt": fmt, "design": d, "raw": raw, "opts": opts, "old": r.choice([0, 0, 1]),
            "knobs": {"bufsize": G.bufsize(r), "encoding": r.choice(["utf-8", "cp1252", "ascii"]), "rand_seed": r.randrange(99)},
            "faults": G.profile_faults(r, ("write",)) if r.random() < .6 else []}


def runs_of(d, raw):
    """Penetrations in order with (block, sure-break-before, maybe-break-before)."""
    out = []
    order = 0 if raw else -1
    sure = maybe = True
    for s in d["stitches"]:
        c = s[2] & 0xFF
        if c in (STITCH, NEEDLE_AT, SEW_TO) and not (raw and c != STITCH):
            if order < 0:
                order = 0
            out.append((s[0], s[1], order, sure, maybe))
            sure = maybe = False
        else:
            maybe = True
            if raw or c in (COLOR_CHANGE, COLOR_BREAK, STOP, TRIM):
                sure = True
            if c == COLOR_CHANGE or c == COLOR_BREAK:
                order += 1
            if c == END and not raw:
                break
    return out


def threads_of(d, n):
    return [t["color"] for t in d["threads"]]


def run(case):
    res = H.R()
    fmt = case["fmt"]
    ext, st = H.FORMATS[fmt]
    d = case["design"]
    raw = case["raw"]
    if raw and any(s[2] & 0xFF not in (STITCH, JUMP, TRIM, STOP, COLOR_CHANGE, END) for s in d["stitches"]):
        res.nontrivial = False
        return res
    pts = runs_of(d, raw)
    th = [t["color"] for t in d["threads"]]
    if not pts or max(p[2] for p in pts) >= len(th):
        res.nontrivial = False
        return res
    with H.Box(case) as w:
        path = w.path("d." + ext)
        if case["old"]:
            H.put(w, "d." + ext, b"<svg old='1'/>\n" * 20000)
        opts = dict(st)
        opts.update(case["opts"])
        kind, v = H.attempt(H.save, H.build(d), path, opts)
        if kind == "raise":
            res.bad("save-raises:" + ext, "exporting %s with %r raised %r" % (ext, case["opts"], v))
            return res
        data = H.get(w, "d." + ext)
        if data is None:
            res.bad("no-file:" + ext, "the export returned but there is no file")
            return res
        if fmt == "svg":
            svg(res, data, d, pts, th)
        elif fmt in ("txt", "txtm"):
            txt(res, data, d, pts, th, fmt, raw)
        else:
            png(res, data, d, pts, th, case["opts"], raw)
        res.digest.append(H.dig(data))
        res.state(fmt, raw, sorted(case["opts"]), min(len(pts), 40) // 3, sum(p[3] for p in pts) // 2, sorted(w.fired))
        res.count("penetrations", len(pts))
        res.world(w)
    return res


def near(a, b, tol=1e-6):
    return abs(a - b) <= tol * max(1.0, abs(a))


def svg(res, data, d, pts, th):
    try:
        root = ET.fromstring(data)
    except ET.ParseError as e:
        res.bad("malformed:svg", "the SVG does not parse: %s (%d bytes)" % (e, len(data)))
        return
    ns = "{http://www.w3.org/2000/svg}"
    if root.tag != ns + "svg":
        res.bad("malformed:svg", "root element is %s" % root.tag)
        return
    paths = [p for p in root.iter(ns + "path")]
    got = []
    for k, p in enumerate(paths):
        dd = p.get("d", "")
        try:
            xy = [tuple(float(v) for v in t.split(",")) for t in dd.replace("M", " ").replace("L", " ").split()]
            assert dd.strip()[:1] == "M" and all(len(t) == 2 for t in xy) and xy
        except (ValueError, AssertionError):
            res.bad("malformed:svg", "path %d has data %r" % (k, dd[:80]))
            return
        for j, (x, y) in enumerate(xy):
            got.append((x, y, p.get("stroke"), j == 0))
    if len(got) != len(pts):
        res.bad("points:svg", "%d penetrations in the design, %d points in the SVG" % (len(pts), len(got)))
        return
    box = [float(v) for v in root.get("viewBox").split()]
    for k, (g, p) in enumerate(zip(got, pts)):
        if not (near(g[0], p[0]) and near(g[1], p[1])):
            res.bad("points:svg", "point %d is %r, the penetration is %r" % (k, g[:2], p[:2]))
            return
        if g[2].lower() != "#%06x" % (th[p[2]] & 0xFFFFFF):
            res.bad("color:svg", "point %d has stroke %s, its thread is #%06x" % (k, g[2], th[p[2]]))
            return
        if p[3] and not g[3]:
            res.bad("runs:svg", "penetration %d starts a new run, but the path goes on" % k)
            return
        if g[3] and not p[4]:
            res.bad("runs:svg", "a new path starts at penetration %d in the middle of a run" % k)
            return
        if not (box[0] - 1e-6 <= g[0] <= box[0] + box[2] + 1e-6 and box[1] - 1e-6 <= g[1] <= box[1] + box[3] + 1e-6):
            res.bad("viewbox:svg", "penetration %r is outside the view box %r" % (g[:2], box))
            return
    if not (near(float(root.get("width")), box[2]) and near(float(root.get("height")), box[3])):
        res.bad("viewbox:svg", "width/height %s %s do not fit the view box %r" % (root.get("width"), root.get("height"), box))


def txt(res, data, d, pts, th, fmt, raw):
    try:
        text = data.decode("ascii")
        assert text.endswith("\n")
        rows = []
        for ln in text[:-1].split("\n"):
            xy, rest = ln.split(" ", 1)
            x, y = xy.split(",")
            f = dict(t.split(":", 1) for t in rest.split(" "))
            rows.append((float(x), float(y), f))
    except (ValueError, AssertionError, UnicodeDecodeError):
        res.bad("malformed:txt", "the TXT export does not parse: %r ... %r" % (data[:60], data[-60:]))
        return
    scale = 10.0 if fmt == "txtm" else 1.0
    tol = .0501 * scale
    flags = {0: STITCH, 1: JUMP, 2: TRIM, 4: COLOR_CHANGE, 8: SEQUIN_EJECT, 16: END}
    got = []
    try:
        for x, y, f in rows:
            c = flags[int(f["flags"])] if fmt == "txtm" else NAMES[f["command"]]
            if fmt == "txt" and int(f["flags"]) != c:
                raise ValueError
            got.append([x * scale, y * scale, c, int(f["color"])])
    except (KeyError, ValueError):
        res.bad("malformed:txt", "a TXT line has unknown fields: %r" % f)
        return
    if raw:
        want = [[s[0], s[1], s[2] & 0xFF] for s in d["stitches"]]
        if fmt == "txtm":
            for s in want:
                if s[2] == STOP:
                    s[2] = COLOR_CHANGE
        if len(want) != len(got):
            res.bad("lines:txt", "%d commands, %d lines" % (len(want), len(got)))
            return
        for k, (a, g) in enumerate(zip(want, got)):
            if a[2] != g[2] or abs(a[0] - g[0]) > tol or abs(a[1] - g[1]) > tol:
                res.bad("lines:txt", "line %d is %r, the command is %r" % (k, g, a))
                return
    gp = [g for g in got if g[2] == STITCH]
    if len(gp) != len(pts):
        res.bad("points:txt", "%d penetrations in the design, %d in the TXT" % (len(pts), len(gp)))
        return
    for k, (p, g) in enumerate(zip(pts, gp)):
        if abs(p[0] - g[0]) > tol or abs(p[1] - g[1]) > tol:
            res.bad("points:txt", "penetration %d is %r, TXT has %r" % (k, p[:2], g[:2]))
            return
        want = p[2] if fmt == "txtm" else th[p[2]]
        if g[3] != want:
            res.bad("color:" + fmt, "penetration %d of block %d (thread %06x) has color:%d" % (k, p[2], th[p[2]], g[3]))
            return


def unpng(data):
    if data[:8] != b"\x89PNG\r\n\x1a\n":
        raise ValueError("signature")
    pos, ch = 8, []
    while pos < len(data):
        n, tag = struct.unpack("!I4s", data[pos:pos + 8])
        body = data[pos + 8:pos + 8 + n]
        crc, = struct.unpack("!I", data[pos + 8 + n:pos + 12 + n])
        if zlib.crc32(tag + body) & 0xFFFFFFFF != crc:
            raise ValueError("checksum of %r" % tag)
        ch.append((tag, body))
        pos += 12 + n
    if ch[0][0] != b"IHDR" or ch[-1] != (b"IEND", b""):
        raise ValueError("chunk order")
    w, h, depth, ctype, comp, filt, inter = struct.unpack("!2I5B", ch[0][1])
    if (depth, comp, filt, inter) != (8, 0, 0, 0) or ctype not in (2, 6):
        raise ValueError("unsupported header %r" % (ch[0][1],))
    bpp = 4 if ctype == 6 else 3
    rawd = zlib.decompress(b"".join(b for t, b in ch if t == b"IDAT"))
    if len(rawd) != h * (w * bpp + 1):
        raise ValueError("pixel data is %d bytes, %dx%d needs %d" % (len(rawd), w, h, h * (w * bpp + 1)))
    rows, prev = [], bytearray(w * bpp)
    for y in range(h):
        f = rawd[y * (w * bpp + 1)]
        line = bytearray(rawd[y * (w * bpp + 1) + 1:(y + 1) * (w * bpp + 1)])
        if f:
            for i in range(len(line)):
                a = line[i - bpp] if i >= bpp else 0
                b = prev[i]
                c = prev[i - bpp] if i >= bpp else 0
                if f == 1:
                    v = a
                elif f == 2:
                    v = b
                elif f == 3:
                    v = (a + b) // 2
                else:
                    pa, pb, pc = abs(b - c), abs(a - c), abs(a + b - 2 * c)
                    v = a if pa <= pb and pa <= pc else b if pb <= pc else c
                line[i] = (line[i] + v) & 255
        rows.append(bytes(line))
        prev = line
    return w, h, bpp, rows


def seg_dist(px, py, a, b):
    ax, ay, bx, by = a[0], a[1], b[0], b[1]
    dx, dy = bx - ax, by - ay
    L = dx * dx + dy * dy
    t = 0 if not L else max(0.0, min(1.0, ((px - ax) * dx + (py - ay) * dy) / L))
    ex, ey = px - ax - t * dx, py - ay - t * dy
    return max(abs(ex), abs(ey))


def png(res, data, d, pts, th, opts, raw):
    try:
        w, h, bpp, rows = unpng(data)
    except (ValueError, struct.error, zlib.error, IndexError) as e:
        res.bad("malformed:png", "the PNG does not decode: %s" % e)
        return
    src = [s for s in d["stitches"]] if raw else pts
    x0, y0 = min(p[0] for p in src), min(p[1] for p in src)
    x1, y1 = max(p[0] for p in src), max(p[1] for p in src)
    # room for the stroke around the outermost points, and no more
    if not (x1 - x0 + 2 <= w <= x1 - x0 + 4 and y1 - y0 + 2 <= h <= y1 - y0 + 4):
        res.bad("size:png", "the design is %d x %d, the image %d x %d" % (x1 - x0, y1 - y0, w, h))
        return
    free = 48 if opts.get("guides") else 0  # the guides are drawn over the left and upper edge
    frac = any(v != int(v) for p in pts for v in p[:2]) or x0 != int(x0) or y0 != int(y0)
    # segments in painting order; sure ones are drawn, the others may be
    segs = [(k, pts[k], pts[k + 1], not pts[k + 1][4]) for k in range(len(pts) - 1) if not pts[k + 1][3]]
    lw = opts.get("linewidth", 3)

    def colors(c):
        o = [((c >> 16) & 255, (c >> 8) & 255, c & 255)]
        if max(o[0]) < 12:
            o.append((35, 35, 35))
        return o

    for n, (k, a, b, sure) in enumerate(segs):
        if not sure:
            continue
        spots = [(a[0], a[1]), (b[0], b[1])]
        if lw >= 3:
            spots.append(((a[0] + b[0]) // 2, (a[1] + b[1]) // 2))
        for px, py in spots:
            ok = colors(th[a[2]])
            for _, a2, b2, _ in segs[n + 1:]:
                if seg_dist(px, py, a2, b2) <= lw + 1:
                    ok += colors(th[a2[2]])
            x, y = int(px - x0) + 1, int(py - y0) + 1
            if x < free or y < free:
                continue
            good = False
            for ax in ((x - 1, x, x + 1) if frac else (x,)):
                for ay in ((y - 1, y, y + 1) if frac else (y,)):
                    pix = rows[ay][ax * bpp:ax * bpp + bpp]
                    if opts.get("fancy"):
                        good = good or bpp == 3 or pix[3] > 128
                    else:
                        good = good or tuple(pix[:3]) in ok and (bpp == 3 or pix[3] > 128)
            if not good:
                res.bad("pixel:png", "the pixel of needle point (%s, %s) is %r, its thread is %06x" % (px, py, list(pix), th[a[2]]))
                return
    # away from every segment there is nothing but the background
    rr = __import__("random").Random(len(data))
    all_segs = [(pts[k], pts[k + 1]) for k in range(len(pts) - 1)]
    back = {"#ffffff": (255, 255, 255), "black": (0, 0, 0), 0x123456: (0x12, 0x34, 0x56)}.get(opts.get("background"))
    for _ in range(40):
        x, y = rr.randrange(w), rr.randrange(h)
        if x < free or y < free or any(seg_dist(x - 1 + x0, y - 1 + y0, a, b) <= lw + 3 for a, b in all_segs):
            continue
        pix = rows[y][x * bpp:x * bpp + bpp]
        if (bpp == 4 and pix[3] != 0) if back is None else (tuple(pix[:3]) != back):
            res.bad("background:png", "pixel (%d, %d) is far from every stitch but it is %r" % (x, y, list(pix)))
            return
