"""Independent decoders of the machine formats: the record layouts other programs and the machines
read, written down without the library.  Every decoder also checks the structure of the file.

decode(fmt, data) -> Out with cmds [[x, y, command], ...], colors (RGB list or None) and
problems [(signature, message), ...]."""
import struct
from .const import *

SIGN = {0: 1, 1: -1}


class Stop(Exception):
    pass


class Out:
    def __init__(self, fmt, data):
        self.fmt, self.data = fmt, data
        self.cmds, self.problems, self.colors = [], [], None
        self.info = {}
        self.x = self.y = 0

    def bad(self, sig, msg):
        if len(self.problems) < 20:
            self.problems.append((sig + ":" + self.fmt, "%s: %s" % (self.fmt, msg)))

    def need(self, cond, sig, msg):
        if not cond:
            self.bad(sig, msg)

    def fatal(self, sig, msg):
        self.bad(sig, msg)
        raise Stop()

    def move(self, dx, dy, c):
        self.x += dx
        self.y += dy
        self.cmds.append([self.x, self.y, c])

    def put(self, c):
        self.cmds.append([self.x, self.y, c])

    def changes(self, stops=True):
        return sum(1 for c in self.cmds if c[2] == COLOR_CHANGE or c[2] == NEEDLE_SET or (stops and c[2] == STOP))

    def bounds(self):
        xs = [c[0] for c in self.cmds]
        ys = [c[1] for c in self.cmds]
        return min(xs), min(ys), max(xs), max(ys)


def s8(v):
    return v - 256 if v > 127 else v


def tern(b0, b1, b2):
    """The balanced ternary deltas of a DST record (y up)."""
    w = [(b0, 0, 1), (b0, 1, -1), (b0, 2, 9), (b0, 3, -9), (b1, 0, 3), (b1, 1, -3), (b1, 2, 27), (b1, 3, -27), (b2, 2, 81), (b2, 3, -81)]
    v = [(b0, 7, 1), (b0, 6, -1), (b0, 5, 9), (b0, 4, -9), (b1, 7, 3), (b1, 6, -3), (b1, 5, 27), (b1, 4, -27), (b2, 5, 81), (b2, 4, -81)]
    return sum(k for b, n, k in w if b >> n & 1), sum(k for b, n, k in v if b >> n & 1)


def fields(o, text, names):
    """CR separated XX:value header fields."""
    out = {}
    pos = 0
    for n in names:
        if text[pos:pos + 3] != n.encode() + b":":
            o.fatal("header-field", "the header field %s is missing at byte %d: %r" % (n, pos, text[pos:pos + 20]))
        e = text.find(b"\r", pos)
        if e < 0:
            o.fatal("header-field", "the header field %s has no end" % n)
        out[n] = text[pos + 3:e]
        pos = e + 1
    return out, pos


def num(o, raw, name):
    try:
        return float(raw.replace(b" ", b""))
    except ValueError:
        o.bad("header-number", "the header field %s is not a number: %r" % (name, raw))
        return None


DSTF = ["LA", "ST", "CO", "+X", "-X", "+Y", "-Y", "AX", "AY", "MX", "MY", "PD"]


def dst_like_header(o, text, names):
    h, pos = fields(o, text, names)
    for n in names:
        if n in ("ST", "CO", "+X", "-X", "+Y", "-Y", "AX", "AY", "MX", "MY"):
            o.info[n] = num(o, h[n], n)
    return h, pos


def dec_dst(o, ext=False):
    d = o.data
    if len(d) < 512:
        o.fatal("header-size", "only %d bytes" % len(d))
    h, pos = dst_like_header(o, d[:512], DSTF)
    z = d.find(b"\x1a", 0, 512)
    o.need(z >= pos and d[z + 1:512].strip(b" ") == b"", "header-end", "the header does not end in 1A and blanks within 512 bytes")
    extra = [l for l in d[pos:z].split(b"\r") if l] if z >= pos else []
    if not ext:
        o.need(not extra, "header-extra", "unexpected header lines %r" % extra[:3])
    else:
        o.need(all(l[:3] in (b"AU:", b"CP:", b"TC:") for l in extra), "header-extra", "unexpected header lines %r" % extra[:3])
    body = d[512:]
    if body[-1:] == b"\x1a":
        body = body[:-1]
    if len(body) % 3:
        o.bad("record-size", "the stitch section of %d bytes is no multiple of 3" % len(body))
    end = sequins = False
    for k in range(0, len(body) - 2, 3):
        b0, b1, b2 = body[k:k + 3]
        if end:
            o.bad("after-end", "records follow the end record at %d" % k)
            break
        if b2 & 3 != 3:
            o.bad("record", "record %d %r lacks the low bits" % (k // 3, body[k:k + 3]))
            break
        if b2 == 0xF3:
            end = True
            continue
        dx, dy = tern(b0, b1, b2)
        if b2 & 0xC3 == 0xC3:
            o.need(b0 == b1 == 0 and b2 == 0xC3, "record", "change record %r carries a move" % body[k:k + 3])
            o.put(COLOR_CHANGE)
        elif b2 & 0x43 == 0x43 and not b2 & 0x80:
            o.put(SEQUIN_MODE)
            sequins = not sequins
        else:
            o.move(dx, -dy, (SEQUIN_EJECT if sequins else JUMP) if b2 & 0x80 else STITCH)
    o.need(end, "no-end", "the file has no end record")
    co = o.info.get("CO")
    if co is not None:
        o.info["co"] = co


def dec_exp(o):
    d = o.data
    k = 0
    while k < len(d):
        if d[k] != 0x80:
            if k + 1 >= len(d):
                o.bad("record", "a record is cut at the end")
                break
            o.move(s8(d[k]), -s8(d[k + 1]), STITCH)
            k += 2
            continue
        if k + 3 >= len(d):
            o.bad("record", "a command record is cut at the end")
            break
        c, dx, dy = d[k + 1], s8(d[k + 2]), -s8(d[k + 3])
        k += 4
        if c == 0x04 or c == 0x02:
            o.move(dx, dy, JUMP)
        elif c == 0x01:
            o.put(COLOR_CHANGE)
            o.x += dx
            o.y += dy
        elif c == 0x80:
            o.put(TRIM)  # 07 00 is not a move
        else:
            o.bad("record", "unknown command %02x" % c)
            break


def dec_jef(o):
    d = o.data
    if len(d) < 0x74:
        o.fatal("header-size", "only %d bytes" % len(d))
    off, flag = struct.unpack_from("<II", d, 0)
    o.need(flag == 0x14, "header-flag", "the second header word is %#x" % flag)
    date = d[8:22]
    o.need(date.isdigit() and d[22:24] == b"\0\0", "date", "the date field is %r" % d[8:24])
    colors, points, hoop = struct.unpack_from("<III", d, 24)
    half = struct.unpack_from("<4i", d, 36)
    o.info["half"] = half
    o.info["hoop"] = hoop
    o.need(off == 0x74 + 8 * colors, "offset", "stitches are said to start at %#x with %d colours" % (off, colors))
    if off > len(d):
        o.fatal("offset", "the stitch section starts at %d beyond the end %d" % (off, len(d)))
    pal = struct.unpack_from("<%di" % colors, d, 0x74)
    o.info["palette"] = pal
    o.need(all(0 <= c <= 78 for c in pal), "palette-index", "palette entries %r" % (pal,))
    o.need(d[0x74 + 4 * colors:off] == b"\x0d\0\0\0" * colors, "thread-type", "the thread type table is wrong")
    o.need(hoop in (0, 1, 2, 3, 4), "hoop", "hoop code %r" % hoop)
    edges = [struct.unpack_from("<4i", d, 52 + 16 * k) for k in range(4)]
    sizes = ((550, 550), (250, 250), (700, 1000), (700, 1000))
    for k, (e, (hw, hh)) in enumerate(zip(edges, sizes)):
        a, b = hw - half[0], hh - half[1]
        wn = (a, b, a, b) if min(a, b) >= 0 else (-1, -1, -1, -1)
        o.need(e == wn, "hoop-edge", "hoop distance %d is %r, should be %r" % (k, e, wn))
    k = off
    end = False
    while k + 1 < len(d):
        a, b = d[k], d[k + 1]
        k += 2
        if a != 0x80:
            o.move(s8(a), -s8(b), STITCH)
            continue
        if b == 0x10:
            end = True
            break
        if k + 1 >= len(d):
            o.bad("record", "a command record is cut at the end")
            break
        dx, dy = s8(d[k]), -s8(d[k + 1])
        k += 2
        if b == 0x01:
            o.move(dx, dy, COLOR_CHANGE)
        elif b == 0x02:
            o.move(dx, dy, JUMP)
        else:
            o.bad("record", "unknown command %02x" % b)
            break
    o.need(end and k == len(d), "no-end", "the end record is missing or not last (%d of %d bytes)" % (k, len(d)))
    o.need(points * 2 == len(d) - off, "point-count", "the header counts %d points, the stitch section has %d" % (points, (len(d) - off) // 2))
    ch = o.changes()
    o.need(colors in (ch + 1,), "color-count", "%d colours for %d changes and stops" % (colors, ch))


def pec_block(o, pos, graphics=True):
    """A PEC block (label onwards); returns the position behind its graphics."""
    d = o.data
    h = d[pos:pos + 512]
    if len(h) < 512:
        o.fatal("pec-header", "the PEC header is cut")
    o.need(h[:3] == b"LA:" and h[19:20] == b"\r", "pec-label", "the label field is %r" % h[:20])
    o.need(h[20:34] == b" " * 12 + b"\xff\0", "pec-header", "bytes 20-33 are %r" % h[20:34])
    o.need(h[34] == 6 and h[35] == 38, "pec-icon", "icon size %d %d" % (h[34], h[35]))
    n = h[48] + 1 & 0xFF
    pal = list(h[49:49 + n])
    o.info["palette"] = pal
    o.need(all(1 <= c <= 64 for c in pal), "palette-index", "palette entries %r" % pal)
    if n:
        o.need(h[49 + n:] == b" " * (463 - n), "pec-padding", "the palette is not padded with blanks")
    p = pos + 512
    b = d[p:p + 16]
    if len(b) < 16:
        o.fatal("pec-block", "the stitch block is cut")
    size = b[2] | b[3] << 8 | b[4] << 16
    o.need(b[:2] == b"\0\0" and b[5:8] == b"\x31\xff\xf0", "pec-block", "the block starts with %r" % b)
    o.info["size"] = struct.unpack("<HH", b[8:12])
    o.need(b[12:16] == b"\xe0\x01\xb0\x01", "pec-block", "the block starts with %r" % b)
    end = p + size
    if end > len(d) or size < 17:
        o.fatal("pec-length", "the block of %d bytes is said to have %d" % (len(d) - p, size))
    k = p + 16
    two = True
    done = False
    while k < end:
        if d[k] == 0xFF:
            k += 1
            done = True
            break
        if d[k] == 0xFE and d[k + 1] == 0xB0:
            o.need(d[k + 2] == (2 if two else 1), "pec-change", "change record ends in %d" % d[k + 2])
            two = not two
            o.put(COLOR_CHANGE)
            k += 3
            continue
        v = []
        fl = 0
        for _ in (0, 1):
            a = d[k]
            if a & 0x80:
                fl |= a & 0x70
                t = (a & 15) << 8 | d[k + 1]
                v.append(t - 4096 if t > 2047 else t)
                k += 2
            else:
                v.append(a - 128 if a > 63 else a)
                k += 1
        if fl & 0x20:
            o.put(TRIM)
            o.move(v[0], v[1], JUMP)
        elif fl & 0x10:
            o.move(v[0], v[1], JUMP)
        else:
            o.need(fl == 0, "pec-flags", "flags %02x" % fl)
            o.move(v[0], v[1], STITCH)
    o.need(done and k == end, "pec-length", "the end record is at %d, the block length says %d" % (k - p, end - p))
    ch = o.changes()
    o.need(n >= ch + 1 or not o.cmds, "color-count", "%d palette entries for %d changes" % (n, ch))
    o.info["graphics"] = [d[end + 228 * g:end + 228 * (g + 1)] for g in range(ch + 2)]
    pos = end + 228 * (ch + 2)
    if pos > len(d):
        o.bad("pec-graphics", "%d bytes of graphics for %d colour blocks" % (len(d) - end, ch + 1))
    return pos, n


def dec_pec(o):
    o.need(o.data[:8] == b"#PEC0001", "magic", "the file starts with %r" % o.data[:8])
    pos, n = pec_block(o, 8)
    o.need(pos == len(o.data), "pec-graphics", "the file has %d bytes, the graphics end at %d" % (len(o.data), pos))


class Rd:
    def __init__(self, o, pos=0, big=False):
        self.o, self.d, self.p = o, o.data, pos
        self.e = ">" if big else "<"

    def raw(self, n):
        v = self.d[self.p:self.p + n]
        if len(v) < n:
            self.o.fatal("cut", "the file ends at %d within a field of %d bytes" % (len(self.d), n))
        self.p += n
        return v

    def u8(self):
        return self.raw(1)[0]

    def u16(self):
        return struct.unpack(self.e + "H", self.raw(2))[0]

    def s16(self):
        return struct.unpack(self.e + "h", self.raw(2))[0]

    def u32(self):
        return struct.unpack(self.e + "I", self.raw(4))[0]

    def s32(self):
        return struct.unpack(self.e + "i", self.raw(4))[0]

    def f32(self):
        return struct.unpack(self.e + "f", self.raw(4))[0]

    def want(self, b, sig):
        g = self.raw(len(b))
        self.o.need(g == b, sig, "at %d: %r instead of %r" % (self.p - len(b), g, b))

    def str8(self):
        return self.raw(self.u8())

    def str16(self):
        return self.raw(self.u16())


def pes_v6_header(o, r, blocks):
    r.want(b"\x01\x00", "pes-header")
    r.want(b"02", "pes-header")
    o.info["strings"] = [r.str8() for _ in range(5)]
    for _ in range(18):
        r.u16()
    r.str8()
    m = [r.f32() for _ in range(6)]
    o.need(m[:4] == [1, 0, 0, 1], "pes-header", "matrix %r" % m)
    for k in range(3):
        o.need(r.u16() == 0, "pes-header", "fill, motif or feather patterns announced")
    n = r.u16()
    o.colors = []
    o.info["threads"] = []
    for _ in range(n):
        cat = r.str8()
        rgb = r.raw(3)
        r.u8()
        r.u32()
        o.colors.append(rgb[0] << 16 | rgb[1] << 8 | rgb[2])
        o.info["threads"].append([cat, r.str8(), r.str8(), r.str8()])
    got = r.u16()
    o.need(got == blocks, "pes-blocks", "%d distinct blocks announced" % got)


def sew_segments(o, r):
    """CEmbOne and CSewSeg: the stitches as a design program shows them."""
    r.want(b"\xff\xff\0\0", "pes-more")
    o.need(r.str16() == b"CEmbOne", "pes-section", "no CEmbOne")
    for _ in range(8):
        r.u16()
    m = [r.f32() for _ in range(6)]
    o.need(m[:4] == [1, 0, 0, 1], "pes-affine", "matrix %r" % m)
    one = r.u16()
    r.u16()
    r.u16()
    w, h = r.s16(), r.s16()
    o.need(one == 1, "pes-section", "word is %d" % one)
    # 350 and 100 + height place the design in the hoop of 1300 by 1800
    if max(w, h) < 32000:
        o.need(abs(m[4] - (350 + 650 - w / 2)) <= .51 and abs(m[5] - (100 + h + 900 - h / 2)) <= 1.01, "pes-affine", "translation %r for a design of %d by %d" % (m[4:], w, h))
    o.info["seg_size"] = (w, h)
    r.raw(8)
    count = r.u16()
    r.want(b"\xff\xff\0\0", "pes-more")
    o.need(r.str16() == b"CSewSeg", "pes-section", "no CSewSeg")
    secs = []
    while True:
        flag, code, n = r.u16(), r.u16(), r.u16()
        o.need(flag in (0, 1), "pes-segment", "segment flag %d" % flag)
        secs.append((flag, code, [(r.s16(), r.s16()) for _ in range(n)]))
        if len(secs) == count or r.d[r.p:r.p + 2] != b"\x03\x80":
            break
        r.u16()
    o.need(len(secs) == count, "pes-count", "%d segments announced, %d found" % (count, len(secs)))
    log = [(r.u16(), r.u16()) for _ in range(r.u16())]
    want, prev = [], None
    for k, s in enumerate(secs):
        if s[1] != prev:
            want.append((k, s[1]))
            prev = s[1]
    o.need(log == want, "pes-colorlog", "colour list %r for segments %r" % (log[:6], want[:6]))
    r.want(b"\0\0\0\0", "pes-end")
    o.info["segments"] = secs
    return log


def dec_pes(o):
    d = o.data
    six = o.fmt.startswith("pes6")
    tr = o.fmt.endswith("t")
    o.need(d[:8] == (b"#PES0060" if six else b"#PES0001"), "magic", "the file starts with %r" % d[:8])
    r = Rd(o, 8)
    off = r.u32()
    if tr and not six:
        r.raw(10)
    elif six:
        empty = tr
        pes_v6_header(o, r, 0 if empty else 1)
        if tr:
            r.raw(9)
        else:
            log = sew_segments(o, r)
            r.raw(8)
            for k in range(len(log)):
                o.need(r.u32() == k and r.u32() == 0, "pes-tree", "order entry %d" % k)
    else:
        a, b, c = r.u16(), r.u16(), r.u16()
        o.need((a, b, c) == (1, 1, 1), "pes-header", "header words %r" % ((a, b, c),))
        sew_segments(o, r)
    o.need(off == r.p, "pec-pointer", "the PEC block is said to be at %d, the PES part ends at %d" % (off, r.p))
    pos, n = pec_block(o, off)
    if six:
        m = len(o.colors)
        r = Rd(o, pos)
        if not tr:
            first = r.raw(128)
            o.need(list(first[1:1 + n]) == o.info["palette"], "pes-addendum", "the addendum palette is %r, the header palette %r" % (list(first[1:1 + n]), o.info["palette"]))
            for _ in range(m):
                r.raw(0x90)
            rgb = []
            for _ in range(m):
                v = r.raw(3)
                rgb.append(v[2] << 16 | v[1] << 8 | v[0])
            o.need(rgb == o.colors, "pes-addendum", "addendum colours differ from the thread table")
        else:
            r.raw(128)
        r.want(b"\0\0", "pes-end")
        pos = r.p
    o.need(pos == len(d), "pec-graphics", "the file has %d bytes, its parts end at %d" % (len(d), pos))


def dec_vp3(o):
    r = Rd(o, 0, True)
    r.want(b"%vsm%\0", "magic")
    r.str16()
    r.want(b"\0\x02\0", "block")
    e = r.u32()
    o.need(r.p + e == len(o.data), "block-length", "the file block has %d bytes, said %d" % (len(o.data) - r.p, e))
    r.str16()
    o.info["extents"] = [r.s32() for _ in range(4)]
    o.info["count"] = r.u32()
    r.u8()
    nc = r.u8()
    r.want(b"\x0c\0\x01", "designs")
    r.want(b"\0\x03\0", "block")
    e = r.u32()
    o.need(r.p + e == len(o.data), "block-length", "the design block has %d bytes, said %d" % (len(o.data) - r.p, e))
    cx, cy = r.s32(), r.s32()
    r.want(b"\0\0\0", "block")
    o.info["half"] = [r.s32() for _ in range(4)]
    o.info["size"] = [r.s32(), r.s32()]
    r.str16()
    r.want(b"dd" + struct.pack(">4i", 4096, 0, 0, 4096) + b"xxPP\x01\0", "transform")
    r.str16()
    n = r.u16()
    o.need(n & 0xFF == nc, "color-count", "the file counts %d colours, its design %d" % (nc, n))
    o.colors = []
    o.info["text"] = []
    for k in range(n):
        r.want(b"\0\x05\0", "block")
        e = r.u32()
        end = r.p + e
        if end > len(o.data):
            o.fatal("block-length", "colour block %d is longer than the file" % k)
        sx, sy = r.s32(), r.s32()
        x, y = (cx + sx) / 100.0, -(cy + sy) / 100.0
        o.need(r.u8() == 1, "thread", "more than one colour in a thread")
        r.u8()
        rgb = r.raw(3)
        o.colors.append(rgb[0] << 16 | rgb[1] << 8 | rgb[2])
        r.want(b"\0\0\0\x05\x28", "thread")
        o.info["text"].append([r.str16() for _ in range(3)])
        shift = r.s32() / 100.0, -r.s32() / 100.0
        r.want(b"\0\x01\0", "block")
        e2 = r.u32()
        end2 = r.p + e2
        o.need(end2 + 1 == end, "block-length", "colour block %d ends at %d, its stitches at %d" % (k, end, end2))
        r.want(b"\x0a\xf6\0", "block")
        if k:
            o.put(COLOR_CHANGE)
        o.info.setdefault("starts", []).append((x, y, shift))
        o.x, o.y = x, y
        while r.p < end2:
            a, b = r.raw(2)
            if a != 0x80:
                o.move(s8(a), s8(b), STITCH)
            elif b == 1:
                o.move(r.s16(), r.s16(), STITCH)
                r.want(b"\x80\x02", "record")
            elif b == 3:
                o.put(TRIM)
            else:
                o.fatal("record", "unknown record 80 %02x" % b)
        o.need(r.p == end2, "block-length", "the stitches of block %d end at %d, said %d" % (k, r.p, end2))
        r.p = end2
        r.want(b"\0", "block")
    o.need(r.p == len(o.data), "block-length", "%d bytes follow the last block" % (len(o.data) - r.p))


def dec_u01(o):
    d = o.data
    if len(d) < 0x103:
        o.fatal("header-size", "only %d bytes" % len(d))
    o.need(d[:0x80] == b"0" * 0x80, "header", "the first 80 bytes are not zeros")
    o.info["extents"] = struct.unpack_from("<4h", d, 0x80)
    o.info["last"] = struct.unpack_from("<2h", d, 0x90)
    o.info["count"] = struct.unpack_from("<I", d, 0x8C)[0]
    o.need(d[0x94:0x100] == b"\0" * (0x100 - 0x94), "header", "bytes 94-FF are not empty")
    o.need((len(d) - 0x100) % 3 == 0, "record-size", "the stitch section of %d bytes is no multiple of 3" % (len(d) - 0x100))
    o.need(d[-3:] == b"\xf8\0\0", "no-end", "the file ends in %r" % d[-3:])
    for k in range(0x100, len(d) - 3, 3):
        c, dy, dx = d[k:k + 3]
        if not c & 0x80:
            o.fatal("record", "record %d starts with %02x" % ((k - 0x100) // 3, c))
        if c & 0x20:
            dx = -dx
        if not c & 0x40:
            dy = -dy
        t = c & 0x1F
        if 2 <= t <= 5:
            o.put(FAST if t < 4 else SLOW)
            if not dx and not dy and not t & 1:
                continue  # only the speed
        if t in (0, 2, 4):
            o.move(dx, dy, STITCH)
        elif t in (1, 3, 5):
            o.move(dx, dy, JUMP)
        elif t in (6, 7):
            o.move(dx, dy, TRIM)
        elif t == 8:
            o.move(dx, dy, STOP)
        elif 9 <= t <= 0x17:
            o.move(dx, dy, NEEDLE_SET)
            o.info.setdefault("needles", []).append(t - 8)
        else:
            o.fatal("record", "unknown record %02x" % c)


def dec_xxx(o):
    d = o.data
    if len(d) < 0x100:
        o.fatal("header-size", "only %d bytes" % len(d))
    o.info["count"] = struct.unpack_from("<I", d, 0x17)[0]
    n = struct.unpack_from("<I", d, 0x27)[0]
    w, h, lx, ly, left, bottom = struct.unpack_from("<6h", d, 0x2D)
    o.info["size"] = (w, h)
    o.info["last"] = (lx, ly)
    o.info["corner"] = (left, bottom)
    end = struct.unpack_from("<I", d, 0xFC)[0]
    if d[end:end + 4] != b"\x7f\x7f\x02\x14":
        o.fatal("end-pointer", "the stitches are said to end at %d, where the file has %r" % (end, d[end:end + 4]))
    k = 0x100
    while k < end:
        a = d[k]
        if a in (0x7D, 0x7E):
            dx, dy = struct.unpack_from("<hh", d, k + 1)
            o.move(dx, -dy, STITCH)
            k += 5
        elif a == 0x7F:
            c, dx, dy = d[k + 1], s8(d[k + 2]), -s8(d[k + 3])
            k += 4
            if c == 1:
                o.move(dx, dy, JUMP)
            elif c == 3:
                o.move(dx, dy, TRIM)
            elif c == 8 or 0x0A <= c <= 0x17:
                o.move(dx, dy, COLOR_CHANGE)
            else:
                o.fatal("record", "unknown record 7f %02x" % c)
        else:
            o.move(s8(a), -s8(d[k + 1]), STITCH)
            k += 2
    o.need(k == end, "end-pointer", "records end at %d, the header says %d" % (k, end))
    t = d[end + 4:]
    o.need(t[:2] == b"\0\0", "color-table", "the colour table starts with %r" % t[:2])
    o.colors = [t[3 + 4 * k] << 16 | t[4 + 4 * k] << 8 | t[5 + 4 * k] for k in range(n) if 5 + 4 * k < len(t)]
    rest = t[2 + 4 * n:]
    pad = 4 * max(0, 21 - n)
    o.need(rest == b"\0" * pad + b"\0\xff\xff\xff\0\x01", "color-table", "after %d colours the table has %d bytes %r" % (n, len(rest), rest[-12:]))


def dec_tbf(o):
    d = o.data
    if len(d) < 0x600:
        o.fatal("header-size", "only %d bytes" % len(d))
    o.need(d[:0x80] == b"3.00".ljust(0x80), "header", "version field %r" % d[:8])
    names = ["LA", "ST", "CO", "+X", "-X", "+Y", "-Y", "AX", "AY", "TP", "JC"]
    dst_like_header(o, d[0x80:], names)
    o.need(d[0x107:0x10A] == b"DO:" and d[0x20A:0x20E] == b"\rDA:", "header-field", "the DO or DA field is not in place")
    order = list(d[0x10A:0x20A])
    k = 0x20E
    o.colors = []
    while d[k:k + 1] == b"\x45" and k < 0x376:
        o.colors.append(d[k + 1] << 16 | d[k + 2] << 8 | d[k + 3])
        o.need(d[k + 4] == 0x20, "thread", "thread entry ends in %02x" % d[k + 4])
        k += 5
    o.info["table_end"] = k
    if k <= 0x376:
        o.need(d[k:0x376] == b" " * (0x376 - k) and d[0x376:0x378] == b"\r\x1a" and d[0x378:0x600] == b" " * (0x600 - 0x378),
               "header-end", "the header is not closed by 0D 1A at 376")
    body = d[0x600:]
    o.need(len(body) % 3 == 1 and body[-1:] == b"\x1a", "record-size", "the stitch section has %d bytes and ends in %r" % (len(body), body[-1:]))
    needles = []
    end = False
    for k in range(0, len(body) - 3, 3):
        dx, dy, c = s8(body[k]), -s8(body[k + 1]), body[k + 2]
        if end:
            o.bad("after-end", "records follow the end record")
            break
        if c == 0x80:
            o.move(dx, dy, STITCH)
        elif c == 0x90:
            o.move(dx, dy, JUMP)
        elif c == 0x81:
            o.move(dx, dy, NEEDLE_SET)
            if len(needles) >= 256:
                o.fatal("order", "more than 256 needle changes")
            needles.append(order[len(needles)])
        elif c == 0x40:
            o.move(dx, dy, STOP)
        elif c == 0x86:
            o.move(dx, dy, TRIM)
        elif c == 0x8F:
            end = True
        else:
            o.fatal("record", "unknown record %02x" % c)
    o.need(end, "no-end", "the file has no end record")
    o.need(all(needles) and not any(order[len(needles):]), "order", "the DO table %r does not list the %d needle changes" % (order[:12], len(needles)))
    o.info["needles"] = needles
    o.info["co"] = o.info.get("CO")
    o.info["nco"] = len(needles)


def dec_gcode(o):
    import re
    z = None
    step = None
    end = False
    for line in o.data.split(b"\n"):
        line = line.decode("utf8")
        if not line:
            continue
        if line[0] == "(":
            m = re.fullmatch(r"\(([A-Z_]+): (-?[\d.]+)\)", line)
            if m and not o.cmds and m[1] not in o.info:
                o.info[m[1]] = float(m[2])
            o.need(line[-1] == ")" and ")" not in line[1:-1], "comment", "comment line %r" % line)
            continue
        if end:
            o.bad("after-end", "a line follows M30: %r" % line)
            break
        m = re.fullmatch(r"G00 X(-?\d+\.\d{3}) Y(-?\d+\.\d{3})", line)
        if m:
            o.x, o.y = -10 * float(m[1]), -10 * float(m[2])
            o.put(STITCH)
            continue
        m = re.fullmatch(r"G00 Z(-?\d+\.\d)", line)
        if m:
            v = float(m[1])
            if z is not None:
                s = v - z
                if step is None:
                    step = s
                o.need(abs(s - step) < .11, "z-travel", "Z steps by %r and %r" % (step, s))
            else:
                o.need(v == 0, "z-travel", "Z starts at %r" % v)
            z = v
            continue
        if line == "M00":
            o.put(STOP)
        elif line == "M30":
            end = True
        else:
            o.fatal("line", "unknown line %r" % line)
    o.need(end, "no-end", "there is no M30")
    o.info["zstep"] = step


def dec_pmv(o):
    d = o.data
    o.need(d[:8] == b"#PMV0001", "magic", "the file starts with %r" % d[:8])
    k = 0x64
    pts = []
    px = 0
    while True:
        n, size = struct.unpack_from("<HH", d, k)
        k += 4
        if size >= 256:
            break
        o.need(size == 2 * n, "block", "a block of %d points has the length %d" % (n, size))
        for j in range(n):
            x, y = d[k], d[k + 1]
            k += 2
            if x > 63 or y > 31:
                o.fatal("point", "point %d is %02x %02x, beyond 6 and 5 bits" % (len(pts), x, y))
            px += x - 64 if x > 31 else x
            pts.append((px, y - 32 if y > 15 else y))
    o.need((n, size) == (0, 256), "end", "the block list ends in %d, %d" % (n, size))
    o.need(d[k:k + 16] == b"\0\0\0\0\5\0\0\0\0\0\0\0\0\0\2\0", "trailer", "the block list is followed by %r" % d[k:k + 16])
    k += 20
    for name in ("length", "width"):
        last, n = d[k], d[k + 1]
        k += 2
        o.need(last == n - 1, "table", "the %s table of %d entries has the last index %d" % (name, n, last))
        t = [struct.unpack_from("<HH", d, k + 4 * j) for j in range(n)]
        k += 4 * n
        o.need(all(a[0] < b[0] for a, b in zip(t, t[1:])), "table", "the %s table is not ascending: %r" % (name, t[:5]))
    o.need(len(d) == k + 18, "length", "the tables end at %d, the file has %d bytes" % (k, len(d)))
    o.info["points"] = pts


def dec_inf(o):
    d = o.data
    one, eight, size, n = struct.unpack_from(">IIII", d, 0)
    o.need((one, eight) == (1, 8), "magic", "the file starts with %d, %d" % (one, eight))
    o.need(size == len(d) - 12, "length", "the size field is %d, %d bytes follow it" % (size, len(d) - 12))
    k = 16
    o.info["rows"] = []
    for j in range(n):
        ln, idx, r, g, b, needle = struct.unpack_from(">HHBBBH", d, k)
        t = d[k + 9:k + ln].split(b"\0")
        o.need(len(t) == 3 and t[2] == b"", "record", "record %d of length %d holds %r" % (j, ln, t))
        o.need((idx, needle) == (j, j + 1), "record", "record %d has the index %d and needle %d" % (j, idx, needle))
        o.info["rows"].append((r << 16 | g << 8 | b, t[0].decode("utf8"), t[1].decode("utf8") if len(t) > 1 else None))
        k += ln
    o.need(k == len(d), "length", "the records end at %d, the file has %d bytes" % (k, len(d)))


def dec_col(o):
    t = o.data.decode("ascii")
    o.need(t.endswith("\r\n"), "line-end", "the file ends in %r" % t[-4:])
    rows = t.split("\r\n")[:-1]
    o.need(rows and rows[0] == str(len(rows) - 1), "count", "the count is %r, %d lines follow" % (rows[:1], len(rows) - 1))
    o.info["rows"] = []
    for j, l in enumerate(rows[1:]):
        v = [int(x) for x in l.split(",")]
        o.need(len(v) == 4 and v[0] == j and all(0 <= x < 256 for x in v[1:]), "record", "line %d is %r" % (j, l))
        o.info["rows"].append((v[1] << 16 | v[2] << 8 | v[3],))


def dec_edr(o):
    o.need(len(o.data) % 4 == 0 and not any(o.data[3::4]), "record", "the file has %d bytes" % len(o.data))
    o.info["rows"] = [(o.data[k] << 16 | o.data[k + 1] << 8 | o.data[k + 2],) for k in range(0, len(o.data) - 3, 4)]


DEC = {"pmv": dec_pmv, "inf": dec_inf, "col": dec_col, "edr": dec_edr, "dst": dec_dst, "dstx": lambda o: dec_dst(o, True), "exp": dec_exp, "jef": dec_jef, "pec": dec_pec, "pes1": dec_pes, "pes6": dec_pes,
       "pes1t": dec_pes, "pes6t": dec_pes, "vp3": dec_vp3, "u01": dec_u01, "xxx": dec_xxx, "tbf": dec_tbf, "gcode": dec_gcode}


def decode(fmt, data):
    o = Out(fmt, data)
    try:
        DEC[fmt](o)
    except Stop:
        pass
    except (IndexError, struct.error, UnicodeDecodeError) as e:
        o.bad("cut", "the file ends within a record or is no text: %s" % e)
    return o
