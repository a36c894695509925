"""Independent encoders for the formats the library both reads and writes, as other programs write
them: the variants of header, record order, table and text layout the library's own writers never make.

Files are the same JSON values as in rofmt; importing this module registers the encoders."""
import random
from . import palettes as P, rofmt as F
from .const import *
from .rofmt import be16, be24, be32, end, enc_barudan, le16, le32, mag, needle, s8, u8, head

TXT = "abc XYZ019-_.\u00e9\u4e2d"


def rgb(f):
    return [(t * 0x9E3779B1 >> 5) & 0xFFFFFF if t > 1 else [0, 0xFFFFFF][t] for t in f["threads"]]


def words(f, n=1, chars=TXT):
    """n texts that depend on the file's own seed alone."""
    r = random.Random(f["opt"]["seed"])
    return [("".join(r.choice(chars) for _ in range(r.choice([0, 1, 4, 20])))).strip() for _ in range(n)]


def enc_dst(f, o):
    r = random.Random(f["opt"]["seed"])
    nl = r.choice([b"\r", b"\r", b"\n", b"\r\n"])
    o.threads = []
    w = words(f, 8, "abc XYZ019-_.\u00e9")
    lines = []
    for key, name, v in zip(("LA", "AU", "CP", "XX"), ("name", "author", "copyright", "XX"), w):
        if r.random() < .6:
            lines.append(("%s:%s" % (key, [v, v.ljust(16), " " + v][r.randrange(3)])).encode("utf8"))
            if v:
                o.meta[name] = v
    lines += [b"ST:%7d" % len(f["recs"]), b"CO:%3d" % sum(1 for x in f["recs"] if x[0] == "c")]
    o.meta["ST"] = str(len(f["recs"]))
    if r.random() < .3:
        lines.append(b"ZZ:\xff\xfe\x80")  # a line that is no text
    if r.random() < .5:
        for k, c in enumerate(rgb(f)[:8]):
            d = "thread %d" % k
            lines.append(("TC:%s%06x,%s,%s%d" % (["#", ""][r.randrange(2)], c, d, ["", " "][r.randrange(2)], k)).encode())
            o.threads.append(c)
            o.text[k] = {"description": d, "catalog_number": str(k)}
    r.shuffle(lines)
    if any(x.startswith(b"TC") for x in lines):
        tc = [x for x in lines if x.startswith(b"TC")]
        lines = [x for x in lines if not x.startswith(b"TC")] + sorted(tc, key=lambda x: int(x.rsplit(b",", 1)[1]))
    t = nl.join(lines) + nl
    o.b += (t + b"\x1a" + [b" ", b"\0"][r.randrange(2)] * 512)[:512]
    F._dst(f, o)


def enc_exp(f, o):
    for k, dx, dy, n in f["recs"]:
        if k in "Sj":
            dx, dy = s8(dx, -128), s8(dy)
            o.raw(0x80, {"S": 2, "j": 4}[k], u8(dx), u8(-dy))
            o.rel({"S": STITCH, "j": JUMP}[k], dx, dy)
        elif k == "s":
            dx, dy = s8(dx), s8(dy)
            o.raw(u8(dx), u8(-dy))
            o.rel(STITCH, dx, dy)
        elif k == "t":
            o.raw(0x80, 0x80, [7, 7, 0, n][n % 4], 0)
            o.rel(TRIM)
        elif k == "c":
            dx, dy = [(0, 0), (s8(dx, -128), s8(dy)), (s8(dx), 0), (0, s8(dy))][n % 4]
            o.raw(0x80, 0x01, u8(dx), u8(-dy))
            o.rel(COLOR_CHANGE)
            if dx or dy:
                o.rel(JUMP, dx, dy)
    o.rel(END)


def enc_jef(f, o):
    r = random.Random(f["opt"]["seed"])
    pal = P.JEF
    colors = [r.randrange(1, 79)]
    for k, dx, dy, n in f["recs"]:
        if k == "c":
            colors.append(0 if n % 4 == 0 else [r.randrange(1, 79), colors[-1] or 5, 78, 1][n % 4])
    body = bytearray()
    i = 0
    for k, dx, dy, n in f["recs"]:
        if k == "s":
            dx, dy = s8(dx), s8(dy)
            body += bytes([u8(dx), u8(-dy)])
            o.rel(STITCH, dx, dy)
        elif k == "j":
            dx, dy = s8(dx, -128), s8(dy)
            body += bytes([0x80, 2, u8(dx), u8(-dy)])
            o.rel(JUMP, dx, dy)
        else:
            body += bytes([0x80, 1, 0, 0])
            i += 1
            o.rel(COLOR_CHANGE if colors[i] else STOP)
    extra = r.choice([0, 0, 1, 3])
    colors += [r.choice([0, 7, 30]) for _ in range(extra)]
    gap = bytes(f["opt"].get("pad", b""))
    pos = 0x74 + 8 * len(colors) + len(gap)
    o.b += le32(pos) + le32(r.choice([0, 0x14, 0x0A])) + b"20260101120000\0\0" + le32(len(colors)) + le32(len(f["recs"]) + 1) + le32(r.randrange(5))
    o.b += bytes(r.randrange(256) for _ in range(0x74 - len(o.b)))
    for c in colors:
        o.b += le32(c)
    for c in colors:
        o.b += le32(0x0D)
    o.b += gap + body
    end(f, o, bytes([0x80, 0x10]) if r.random() < .5 else bytes([0x80, 0x10, 0, 0]))
    o.threads = [pal[c] for c in colors if c]


def vstr(b):
    return be16(len(b)) + b


def enc_vp3(f, o):
    r = random.Random(f["opt"]["seed"])
    w = words(f, 40)
    cols = rgb(f)
    cx, cy = r.choice([(0, 0), (r.randint(-90000, 90000), r.randint(-90000, 90000)), (-250, 1275)])
    blocks = []
    cur = None
    starts = []
    for rec in [["c", 0, 0, 0] if r.random() < .5 else ["c", 40, -30, 1]] + f["recs"]:
        k, dx, dy, n = rec
        if k == "c":
            if blocks:
                o.rel(COLOR_CHANGE)
            # where the block begins: as hundredths, relative to the centre
            bx, by = round(o.x * 100) + dx * [100, 37][n % 2], round(o.y * 100) + dy * 100
            ax, ay = (bx - cx) / 100 + cx / 100, (by - cy) / 100 + cy / 100
            cur = bytearray()
            if blocks or ax or ay:
                o.abs(JUMP, ax, ay)
            blocks.append(cur)
            starts.append((bx - cx, by - cy))
        elif k == "s":
            dx, dy = s8(dx), s8(dy)
            cur += bytes([u8(dx), u8(dy)])
            o.rel(STITCH, dx, dy)
        elif k == "S":
            cur += b"\x80\x01" + be16(dx) + be16(dy) + b"\x80\x02"
            o.rel(STITCH, dx, dy)
        elif k == "t":
            cur += b"\x80\x03"
            o.rel(TRIM)
        elif k == "x":
            cur += b"\x80\x02"
    o.rel(END)
    u16 = lambda s: s.encode("utf-16-be")
    o.b += b"%vsm%\0" + vstr(u16("Produced by " + w[0])) + b"\0\2\0" + be32(1234) + vstr(u16(w[1] * r.choice([1, 9])))
    o.b += bytes(r.randrange(256) for _ in range(32)) + be32(cx) + be32(-cy) + bytes(27) + vstr(u16(w[2])) + bytes(24) + vstr(u16("Made by"))
    o.b += be16(len(blocks))
    o.threads = []
    for k, b in enumerate(blocks):
        n = r.choice([1, 1, 1, 2, 3])
        th = [cols[(k + j) % len(cols)] for j in range(n)]
        t = bytes([n, r.randrange(2)])
        for c in th:
            t += be24(c) + bytes([r.randrange(101)]) + be16(r.randrange(9000))
        d = {"catalog_number": "%d" % (1000 + k), "description": w[3 + k % 30], "brand": w[4 + k % 30]}
        t += bytes([5, 40]) + b"".join(vstr(d[x].encode("utf8")) for x in ("catalog_number", "description", "brand"))
        o.threads.append(th[-1])
        o.text[k] = d
        sx, sy = starts[k]
        body = be32(sx) + be32(-sy) + t + be32(0) + be32(0) + vstr(b"\0") + be32(len(b) + 3) + b"\x0a\xf6\0" + b
        o.b += b"\0\5\0" + be32(len(body)) + body


def enc_u01(f, o):
    o.b += head(0x100, b"4:30.0 5")
    enc_barudan(f, o)


def enc_xxx(f, o):
    r = random.Random(f["opt"]["seed"])
    cols = rgb(f)
    if r.random() < .2:
        cols = [r.randrange(1 << 24) for _ in range(r.choice([20, 21, 22, 40]))]
    for k, dx, dy, n in f["recs"]:
        if k == "s":
            dx, dy = max(-127, min(124, dx)), s8(dy)
            o.raw(u8(dx), u8(-dy))
            o.rel(STITCH, dx, dy)
        elif k == "J":
            dy = max(-32767, dy)
            o.raw(0x7D + n % 2)
            o.b += le16(dx) + le16(-dy)
            o.rel(JUMP, dx, dy)
        elif k == "j":
            dx, dy = s8(dx, -128), s8(dy)
            o.raw(0x7F, 1, u8(dx), u8(-dy))
            o.rel(JUMP, dx, dy)
        elif k == "t":
            dx, dy = (0, 0) if n % 2 else (s8(dx, -128), s8(dy))
            o.raw(0x7F, 3, u8(dx), u8(-dy))
            o.rel(TRIM)
            if dx or dy:
                o.rel(JUMP, dx, dy)
        elif k == "c":
            o.raw(0x7F, ([8] * 3 + list(range(0x0A, 0x18)))[n % 17], 0, 0)
            o.rel(COLOR_CHANGE)
    body = bytes(o.b)
    o.b = bytearray(0x27) + le16(len(cols)) + bytes(0x100 - 0x29) + body
    o.b += r.choice([b"\x7f\x7f\x02\x14", b"\x7f\x7f\x02\x14", b"\x7f\x18\0\0"]) + b"\0\0"
    for c in cols:
        o.b += be32(c)
    if r.random() < .7:
        o.b += b"\xff\xff\xff\0" * max(0, 21 - len(cols)) + b"\0\1"
    o.threads = cols
    o.rel(END)


def enc_tbf(f, o):
    r = random.Random(f["opt"]["seed"])
    cols = rgb(f)
    if r.random() < .1:
        cols = [r.randrange(1 << 24) for _ in range(r.choice([60, 72, 120, 200]))]
    order = []
    recs = list(f["recs"])
    h = bytearray(b" " * 0x600)
    nm = words(f, 1, "abcXYZ 019")[0][:16].strip()
    h[0x83:0x93] = nm.ljust(16).encode()
    if nm:
        o.meta["name"] = nm
    for k, dx, dy, n in recs:
        dx, dy = s8(dx, -128), s8(dy)
        if k == "s":
            o.raw(u8(dx), u8(-dy), 0x80)
            o.rel(STITCH, dx, dy)
        elif k == "j":
            o.raw(u8(dx), u8(-dy), 0x90)
            if dx or dy:
                o.rel(JUMP, dx, dy)
            else:
                o.rel(TRIM)
        elif k == "t":
            o.raw(0, 0, 0x86)
            o.rel(TRIM)
        elif k == "p":
            o.raw(0, 0, 0x40)
            o.rel(STOP)
        elif k == "n" and len(order) < 256:
            v = [0, 1, 15, 1 + n % 15][n % 4]
            order.append(v)
            o.raw(0, 0, 0x81)
            o.rel(needle(v) if v else STOP)
    body = bytes(o.b)
    h[0x10A:0x20A] = bytes(order).ljust(256, b"\0")
    t = b"".join(b"\x45" + be24(c) + b" " for c in cols)
    h[0x20E:0x20E + len(t)] = t
    o.b = h + body
    o.threads = cols
    end(f, o, bytes([0, 0, 0x8F]))


def enc_gcode(f, o):
    r = random.Random(f["opt"]["seed"])
    cols = rgb(f)
    absolute, scale = True, 10.0
    nl = r.choice(["\n", "\n", "\r\n", "\r"])
    style = {"low": r.random() < .3, "gap": r.choice([" ", " ", "", "\t", "  "]), "num": r.random() < .3, "modal": r.random() < .4, "sum": r.random() < .1,
             "g": r.choice(["0", "00", "1", "01", "1.0"])}
    lines = []
    o.threads = []

    def word(c, v):
        return (c.lower() if style["low"] else c) + v

    def num(v, d):
        s = "%.*f" % (d, v)
        if r.random() < .2 and "." in s:
            s = s.rstrip("0").rstrip(".") or "0"
        if r.random() < .1 and s.startswith("0."):
            s = s[1:]
        if r.random() < .1 and v > 0:
            s = "+" + s
        return s

    def line(*ws):
        if style["num"]:
            ws = (word("N", str(10 * len(lines))),) + ws
        s = style["gap"].join(ws)
        if len(ws) > 1 and r.random() < .05:
            s = style["gap"].join(ws[:1] + (r.choice(["(mid X4)", "( )"]),) + ws[1:])
        if r.random() < .1:
            s += r.choice([" (note)", " ; note X9", " ;", "(a)(b)", "; v1 (beta) X2", ";(", "(;)"])
        if style["sum"]:
            s += "*%d" % (sum(s.encode()) & 255)
        if r.random() < .05:
            s = "/" + s
        lines.append(s)

    if r.random() < .3:
        lines.append("%")
    for k, c in enumerate(cols):
        lines.append(r.choice(["(Thread%d: #%06x)", "(Thread%d: #%06X name brand 12)", "(Thread%d: #%06x None)", ";Thread%d: #%06x x"]) % (k, c))
        o.threads.append(c)
    for k, dx, dy, n in f["recs"]:
        if k == "s":
            ws = [word("G", style["g"])]
            pos = [o.x, o.y]
            for a, (c, d) in enumerate((("X", dx), ("Y", dy))):
                if style["modal"] and not d:
                    continue
                t = num((-(pos[a] + d) if absolute else -d) / scale, 3 if scale == 10 else 4)
                ws.append(word(c, t))
                v = -float(t) * scale
                pos[a] = v if absolute else pos[a] + v
            if len(ws) == 1:
                ws.append(word("Z", num(n / 10, 1)))
            else:
                if n % 9 == 0:
                    ws.append(word("F", "600"))
                o.abs(STITCH, *pos)
            line(*ws)
        elif k == "c":
            line(word("M", ["0", "1", "00", "01"][n % 4]))
            o.rel(COLOR_CHANGE)
        elif k == "a":
            absolute = bool(n % 2)
            line(word("G", "90" if absolute else "91"))
        elif k == "u":
            g, scale = [("20", 254.0), ("21", 10.0), ("70", 254.0), ("71", 10.0)][n % 4]
            line(word("G", g))
        elif k == "x":
            if n % 5 == 0:
                lines.append(["", "(a comment X1 Y2 G91)", "; M30", "(Threads: 4)", "( )", "; sliced by hand (v2.1) G0 X3", ";)", "(; G91"][n // 5 % 8])
            else:
                line(*[word(*x) for x in [[("G", "4"), ("P", "2.5")], [("M", "3"), ("S", "900")], [("G", "54")], [("F", "1200")]][n % 4]])
    if f["opt"].get("endrec", True):
        line(word("M", ["30", "2", "02"][len(lines) % 3]))
        o.rel(END)
    o.b += (nl.join(lines) + nl).encode("utf8")  # a last line without a line end counts as torn (C12)


CMD = {STITCH: "STITCH", JUMP: "JUMP", TRIM: "TRIM", STOP: "STOP", COLOR_CHANGE: "COLOR_CHANGE", END: "END", FAST: "FAST", SLOW: "SLOW",
       NEEDLE_SET: "NEEDLE_SET", SEQUIN_MODE: "SEQUIN_MODE", SEQUIN_EJECT: "SEQUIN_EJECT"}


def enc_csv(f, o):
    r = random.Random(f["opt"]["seed"])
    nl = r.choice(["\n", "\r\n"])
    q = r.choice(["\"%s\"", "\"%s\"", "%s"])
    w = words(f, 30, "abc XYZ019-_.\u00e9,;#" if q != "%s" else "abcXYZ019-_.")
    rows = []
    row = lambda *v: rows.append(",".join(q % x for x in v))
    row("#", "A comment", "x")
    o.threads = []
    for k in range(2):
        if w[k]:
            row("@", "key%d" % k, w[k])
            o.meta["key%d" % k] = w[k]
    modder = r.random() < .4
    for k, c in enumerate(rgb(f)):
        a, b = w[2 + k % 20], w[3 + k % 20]
        t = {"description": a or None, "catalog_number": b or None}
        if modder:
            row("$", k + 1, c >> 16, c >> 8 & 255, c & 255, a, b)
        else:
            v = ["$", k, "#%06x" % c, a, "brand", b, "details", "40"][:r.choice([6, 7, 8])]
            row(*v)
            t["brand"] = "brand"
            if len(v) > 6:
                t["details"] = "details"
            if len(v) > 7:
                t["weight"] = "40"
        o.threads.append(c)
        o.text[k] = t
    for i, (k, dx, dy, n) in enumerate(f["recs"]):
        c, s = {"s": (STITCH, "STITCH"), "j": (JUMP, "JUMP"), "t": (TRIM, "TRIM"), "c": (COLOR_CHANGE, "COLOR_CHANGE"),
                "p": (STOP, "STOP"), "n": (needle(n % 15), "NEEDLE_SET n%d" % (n % 15)),
                "T": (COLOR_CHANGE | (n % 250 + 1) << 8, "COLOR_CHANGE t%d" % (n % 250)),
                "O": (COLOR_CHANGE | (n % 100 + 1) << 24, "COLOR_CHANGE o%d" % (n % 100))}[k]
        if n % 31 == 0 and k not in "sj":
            row("*", i, s)
            o.cmds.append([0, 0, c])
            continue
        x, y = o.x + dx, o.y + dy
        v = [str(x), "%.1f" % x, "%.6f" % x][n % 3], [str(y), "%.1f" % y, "%.2f" % y][n % 3]
        row("*", i, s, *v)
        o.abs(c, x, y)
    if f["opt"].get("endrec", True):
        row("*", len(f["recs"]), "END", o.x, o.y)
        o.rel(END)
    o.b += (nl.join(rows) + (nl if r.random() < .8 else "")).encode("utf8")


def enc_col(f, o):
    r = random.Random(f["opt"]["seed"])
    nl = r.choice(["\r\n", "\n"])
    cols = rgb(f)
    lines = [str(len(cols))]
    for k, c in enumerate(cols):
        lines.append("%d,%d,%d,%d" % (k * 3, c >> 16, c >> 8 & 255, c & 255))
        o.text[k] = {"catalog_number": str(k * 3)}
    o.b += (nl.join(lines) + (nl if r.random() < .7 else "")).encode()
    o.threads = cols


def enc_edr(f, o):
    r = random.Random(f["opt"]["seed"])
    o.threads = rgb(f)
    for c in o.threads:
        o.b += be24(c) + bytes([r.choice([0, 0, 255, 7])])


def enc_inf(f, o):
    w = words(f, 30)
    o.threads = rgb(f)
    body = bytearray()
    for k, c in enumerate(o.threads):
        a, b = w[k % 29], w[k % 29 + 1]
        t = be16(k) + be24(c) + be16(k + 1) + a.encode("utf8") + b"\0" + b.encode("utf8") + b"\0"
        body += be16(len(t) + 2) + t
        o.text[k] = {"description": a, "chart": b}
    o.b += be32(1) + be32(8) + be32(len(body) + 4) + be32(len(o.threads)) + body


NEW = {"dst": ("dst", enc_dst, "ssssssjjcq"), "exp": ("exp", enc_exp, "ssssssSjjtcc"), "jef": ("jef", enc_jef, "ssssssjjcc"),
       "vp3": ("vp3", enc_vp3, "ssssssSStcx"), "u01": ("u01", enc_u01, "ssssssjjfFlLtpn"), "xxx": ("xxx", enc_xxx, "ssssssJjtc"),
       "tbf": ("tbf", enc_tbf, "ssssssjjtpnn"), "gcode": ("gcode", enc_gcode, "sssssssscaux"), "csv": ("csv", enc_csv, "ssssssjjtcpnTO"),
       "col": ("col", enc_col, "s"), "edr": ("edr", enc_edr, "s"), "inf": ("inf", enc_inf, "s")}
NAMES = list(NEW) + ["dst", "jef", "vp3", "gcode", "u01", "xxx", "tbf"]
F.ALL.update(NEW)
