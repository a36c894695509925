"""Independent encoders for the formats the library reads: from a list of records they make
a well-formed file and, without the library, the commands and thread colours it encodes.

A file is a JSON value {"fmt", "recs": [[kind, dx, dy, n], ...], "threads": [...], "opt": {...}}.
encode(file) -> {"bytes", "cmds": [[x, y, cmd]], "threads": [colour or None], "meta": {...}}.
"""
import struct
from . import palettes as P
from .const import *


def needle(n):
    return NEEDLE_SET | ((n & 0xFF) + 1) << 16


class Out:
    """The machine's position and the commands a file stands for."""

    def __init__(self):
        self.x = self.y = 0
        self.b = bytearray()
        self.cmds = []
        self.threads = None
        self.meta = {}
        self.text = {}
        self.icons = {}     # picture number -> (bytes, row stride, thread index before stops or None)

    def rel(self, c, dx=0, dy=0):
        self.x += dx
        self.y += dy
        self.cmds.append([self.x, self.y, c])

    def abs(self, c, x, y):
        self.x, self.y = x, y
        self.cmds.append([x, y, c])

    def raw(self, *v):
        self.b += bytes(v)


def u8(v):
    return v & 0xFF


def le16(v):
    return struct.pack("<H", v & 0xFFFF)


def be16(v):
    return struct.pack(">H", v & 0xFFFF)


def le24(v):
    return struct.pack("<I", v & 0xFFFFFF)[:3]


def be24(v):
    return struct.pack(">I", v & 0xFFFFFF)[1:]


def le32(v):
    return struct.pack("<I", v & 0xFFFFFFFF)


def be32(v):
    return struct.pack(">I", v & 0xFFFFFFFF)


def mag(v, lim):
    """Clamp into the sign-magnitude range."""
    return max(-lim, min(lim, v))


def sign(v, bit, r=0):
    return bit if v < 0 else 0


def head(n, txt=b""):
    return (txt + b" " * n)[:n]


def dst_header(o, f):
    nm = f["opt"].get("name", "")
    if nm:
        o.meta["name"] = nm.strip()
    t = b"LA:%s\rST:%7d\rCO:%3d\r" % (nm.encode("utf8"), len(f["recs"]), 0)
    o.b += (t + b"\x1a" + b" " * 512)[:512]


# --------------------------------------------------------------- 3-byte families
def enc_10o(f, o):
    for k, dx, dy, n in f["recs"]:
        dx, dy = mag(dx, 255), mag(dy, 255)
        c = 0x80 | sign(dx, 0x20) | (0x40 if dy > 0 else 0)
        if k == "s":
            o.raw(c, abs(dy), abs(dx))
            o.rel(STITCH, dx, dy)
        elif k == "j":
            o.raw(c | 0x10, abs(dy), abs(dx))
            o.rel(JUMP, dx, dy)
        elif k == "c":
            o.raw(0x85, 0, 0)
            o.rel(COLOR_CHANGE)
        elif k == "p":
            o.raw(0x82, 0, 0)
            o.rel(STOP)
        elif k == "t":
            o.raw(0x81, 0, 0)
            o.rel(TRIM)
        elif k == "x":
            o.raw(0x8A, 0, 0)
    end(f, o, bytes([0x87, 0, 0]))


def end(f, o, rec):
    """The end record, or the end of the file itself."""
    if f["opt"].get("endrec", True):
        o.b += rec + bytes(f["opt"].get("tail", b""))
    o.rel(END)


def enc_100(f, o):
    for k, dx, dy, n in f["recs"]:
        dx, dy = mag(dx, 127), mag(dy, 127)
        bx = 0x80 - dx if dx < 0 else dx
        by = 0x80 + dy if dy > 0 else -dy
        if k == "s":
            o.raw(0x61, n & 0xFF, bx, by)
            o.rel(STITCH, dx, dy)
        elif k == "j":
            o.raw([0x01, 0x21, 0x41][n % 3], n & 0xFF, bx, by)
            o.rel(JUMP, dx, dy)
        elif k == "c":
            o.raw([0x00, 0x02, 0x60][n % 3], n & 0xFF, bx, by)
            o.rel(COLOR_CHANGE)
    o.rel(END)


def s8(v, lo=-127):
    return max(lo, min(127, v))


def enc_bro(f, o):
    o.b += head(0x100, b"BRO")
    for k, dx, dy, n in f["recs"]:
        if k == "s":
            dx, dy = s8(dx), s8(dy)
            o.raw(u8(dx), u8(-dy))
            o.rel(STITCH, dx, dy)
        elif k == "x":
            o.raw(0x80, n & 0xFF, 0x00)
        elif k == "j":
            o.raw(0x80, n & 0xFF, [0x7E, 0x03][n % 2])
            o.b += le16(dx) + le16(-dy)
            o.rel(JUMP, dx, dy)
        elif k == "n":
            n = 1 + n % 15
            o.raw(0x80, 0, 0xE0 + n)
            o.b += le16(dx) + le16(-dy)
            o.rel(needle(n))
            o.rel(JUMP, dx, dy)
    end(f, o, bytes([0x80, 0, [0x02, 0xE0][len(f["recs"]) % 2]]))


def enc_barudan(f, o):
    for k, dx, dy, n in f["recs"]:
        dx, dy = mag(dx, 255), mag(dy, 255)
        c = 0x80 | sign(dx, 0x20) | (0x40 if dy > 0 else 0)
        if k in "sj":
            o.raw(c | (0 if k == "s" else 1), abs(dy), abs(dx))
            o.rel(STITCH if k == "s" else JUMP, dx, dy)
            continue
        code, cmd, then = {"f": (2, FAST, STITCH), "F": (3, FAST, JUMP), "l": (4, SLOW, STITCH), "L": (5, SLOW, JUMP),
                           "t": (6 + n % 2, TRIM, JUMP), "p": (8, STOP, JUMP), "n": (9 + n % 15, needle(1 + n % 15), JUMP)}[k]
        if n % 3 == 0 and k in "tpn":
            dx = dy = 0
            c = 0x80
        o.raw(c | code, abs(dy), abs(dx))
        o.rel(cmd)
        if dx or dy:
            o.rel(then, dx, dy)
    end(f, o, bytes([0xF8, 0, 0]))


def enc_sunstar(f, o):
    o.b += head(0x100, b"SUNSTAR")
    for k, dx, dy, n in f["recs"]:
        dx, dy = mag(dx, 127), mag(dy, 127)
        if n % 3 == 0 and k in "tc":
            dx = dy = 0
        bx = abs(dx) | sign(dx, 0x80)
        by = abs(dy) | (0x80 if dy > 0 else 0)
        code = {"s": 0x07, "j": 0x04, "t": 0x80, "c": 0x87, "i": 0x84}[k]
        o.raw(bx, by, code)
        if k in "si":
            o.rel(STITCH, dx, dy)
        elif k == "j":
            o.rel(JUMP, dx, dy)
        else:
            o.rel(TRIM if k == "t" else COLOR_CHANGE)
            if dx or dy:
                o.rel(JUMP, dx, dy)
    end(f, o, bytes([0, 0, 0]))


def enc_dsb(f, o):
    dst_header(o, f)
    for k, dx, dy, n in f["recs"]:
        dx, dy = mag(dx, 255), mag(dy, 255)
        c = 0x80 | sign(dx, 0x20) | (0x40 if dy > 0 else 0)
        if k in "sj":
            o.raw(c | (0 if k == "s" else 1), abs(dy), abs(dx))
            o.rel(STITCH if k == "s" else JUMP, dx, dy)
        elif k == "t":
            o.raw(0xE7, 0, 0)
            o.rel(TRIM)
        elif k == "p":
            o.raw(0xE8, 0, 0)
            o.rel(STOP)
        elif k == "n":
            n = 1 + n % 15
            o.raw(0xE8 + n, 0, 0)
            o.rel(needle(n))
    end(f, o, bytes([0xF8, 0, 0]))


def _z(f, o):
    for k, dx, dy, n in f["recs"]:
        dx, dy = mag(dx, 255), mag(dy, 255)
        c = 0x80 | sign(dx, 0x40) | (0x20 if dy > 0 else 0)
        if k in "sj":
            o.raw(abs(dy), abs(dx), c | (0 if k == "s" else 1))
            o.rel(STITCH if k == "s" else JUMP, dx, dy)
        elif k == "t":
            o.raw(0, 0, 0x9B)
            o.rel(TRIM)
        elif k == "p":
            o.raw(0, 0, 0x82)
            o.rel(STOP)
        elif k == "n":
            n = n % 12
            o.raw(0, 0, 0x83 + 2 * n)
            o.rel(needle(n))
    end(f, o, bytes([0, 0, 0x9F]))


def enc_dsz(f, o):
    dst_header(o, f)
    _z(f, o)


def enc_fxy(f, o):
    o.b += head(0x100, b"FXY")
    _z(f, o)


def enc_gt(f, o):
    o.b += head(0x200, b"GT")
    _z(f, o)


def enc_emd(f, o):
    o.b += head(0x30, b"@EMD")
    for k, dx, dy, n in f["recs"]:
        if k == "s":
            dx, dy = s8(dx), s8(dy)
            o.raw(u8(dx), u8(-dy))
            o.rel(STITCH, dx, dy)
        elif k == "j":
            dx, dy = s8(dx, -128), s8(dy)
            o.raw(0x80, 0x80, u8(dx), u8(-dy))
            o.rel(JUMP, dx, dy)
        elif k == "c":
            o.raw(0x80, 0x2A)
            o.rel(COLOR_CHANGE)
        elif k == "t":
            o.raw(0x80, [0xAD, 0x90][n % 2])
            o.rel(TRIM)
        elif k == "x":
            o.raw(0x80, 0x7D)
    end(f, o, bytes([0x80, 0xFD]))


def tern(v):
    """Balanced ternary digits of v (1, 3, 9, 27, 81)."""
    d = []
    for _ in range(5):
        m = v % 3
        if m == 2:
            m = -1
        d.append(m)
        v = (v - m) // 3
    return d


def dst_rec(dx, dy, flags):
    """One DST record; dy in library orientation (down), the file stores up."""
    b = [0, 0, 0]
    #        1        3        9        27       81    (+byte, +bit, -bit)
    xs = [(0, 0, 1), (1, 0, 1), (0, 2, 3), (1, 2, 3), (2, 2, 3)]
    ys = [(0, 7, 6), (1, 7, 6), (0, 5, 4), (1, 5, 4), (2, 5, 4)]
    for v, tab in ((dx, xs), (-dy, ys)):
        for d, (i, p, m) in zip(tern(v), tab):
            if d == 1:
                b[i] |= 1 << p
            elif d == -1:
                b[i] |= 1 << m
    b[2] |= flags
    return bytes(b)


def _dst(f, o):
    for k, dx, dy, n in f["recs"]:
        dx, dy = mag(dx, 121), mag(dy, 121)
        if k == "s":
            o.b += dst_rec(dx, dy, 0x03)
            o.rel(STITCH, dx, dy)
        elif k == "j":
            o.b += dst_rec(dx, dy, 0x83)
            o.rel(JUMP, dx, dy)
        elif k == "c":
            o.b += dst_rec(dx, dy, 0xC3)
            o.rel(COLOR_CHANGE, dx, dy)
        elif k == "q":  # sequins: mode on, one ejected, mode off
            o.b += dst_rec(0, 0, 0x43) + dst_rec(dx, dy, 0x83) + dst_rec(0, 0, 0x43)
            o.rel(SEQUIN_MODE)
            o.rel(SEQUIN_EJECT, dx, dy)
            o.rel(SEQUIN_MODE)
    end(f, o, bytes([0, 0, 0xF3]))


def enc_exy(f, o):
    o.b += head(0x100, b"EXY")
    _dst(f, o)


def enc_tap(f, o):
    _dst(f, o)


def enc_inb(f, o):
    o.b += head(0x2000, b"INB")
    for k, dx, dy, n in f["recs"]:
        dx, dy = mag(dx, 255), mag(dy, 255)
        c = 0x80 | sign(dx, 0x40) | (0x20 if dy > 0 else 0)
        o.raw(abs(dx), abs(dy), c | {"s": 0, "j": 2, "c": 1}[k])
        o.rel({"s": STITCH, "j": JUMP, "c": COLOR_CHANGE}[k], dx, dy)
    end(f, o, bytes([0, 0, 0x04]))


def enc_jpx(f, o):
    th = f["threads"]
    tail = bytes(f["opt"].get("pad", b""))
    pos = 4 + 0x1C + 4 + 0x18 + 4 * len(th) + len(tail)
    o.b += le32(pos) + head(0x1C, b"JPX") + le32(len(th)) + head(0x18)
    for t in th:
        o.b += le32(t)
    o.b += tail
    o.threads = [None] * len(th)
    for k, dx, dy, n in f["recs"]:
        if k == "s":
            dx, dy = s8(dx), s8(dy)
            o.raw(u8(dx), u8(-dy))
            o.rel(STITCH, dx, dy)
        elif k == "j":
            dx, dy = s8(dx, -128), s8(dy)
            o.raw(0x80, 0x02, u8(dx), u8(-dy))
            o.rel(JUMP, dx, dy)
        elif k == "c":
            dx, dy = [(0, 0), (s8(dx, -128), s8(dy)), (s8(dx), 0), (0, s8(dy))][n % 4]
            o.raw(0x80, 0x01, u8(dx), u8(-dy))
            o.rel(COLOR_CHANGE)
            if dx or dy:
                o.rel(JUMP, dx, dy)
    end(f, o, bytes([0x80, 0x10, 0, 0]))


def enc_stx(f, o):
    pos = 0x0C + 12 + len(f["opt"].get("pad", b""))
    o.b += head(0x0C, b"STX") + le32(24) + le32(24) + le32(pos) + bytes(f["opt"].get("pad", b""))
    for k, dx, dy, n in f["recs"]:
        if k == "s":
            dx, dy = s8(dx), s8(dy)
            o.raw(u8(dx), u8(-dy))
            o.rel(STITCH, dx, dy)
        elif k == "S":
            dx, dy = s8(dx, -128), s8(dy)
            o.raw(0x80, 0x02, u8(dx), u8(-dy))
            o.rel(STITCH, dx, dy)
        elif k == "j":
            dx, dy = s8(dx, -128), s8(dy)
            o.raw(0x80, 0x04, u8(dx), u8(-dy))
            o.rel(JUMP, dx, dy)
        elif k == "t":
            o.raw(0x80, 0x80, 0x07, 0x00)
            o.rel(TRIM)
        elif k == "c":
            dx, dy = [(0, 0), (s8(dx, -128), s8(dy)), (s8(dx), 0), (0, s8(dy))][n % 4]
            o.raw(0x80, 0x01, u8(dx), u8(-dy))
            o.rel(COLOR_CHANGE)
            if dx or dy:
                o.rel(JUMP, dx, dy)
    o.rel(END)


def enc_ksm(f, o):
    o.b += head(0x200, b"KSM")
    trimmed = stitched = False
    for k, dx, dy, n in f["recs"]:
        dx, dy = mag(dx, 255), mag(dy, 255)
        if k == "s" and not dx and not dy:
            dx = 1
        if k in "tbnpu" and n % 3:
            dx = dy = 0
        ctrl = {"s": 0, "t": [0x07, 0x13, 0x1D][n % 3], "b": 0x17 + n % 3, "n": 0x0B + n % 8, "p": 0x05, "u": 0x1B}[k]
        o.raw(abs(dy), abs(dx), ctrl | 0x80 | sign(dx, 0x40) | (0x20 if dy > 0 else 0))
        if dx or dy:
            if trimmed:
                o.rel(JUMP, dx, dy)
            else:
                o.rel(STITCH, dx, dy)
                stitched = True
        if k == "t":
            if stitched:
                o.rel(TRIM)
            trimmed = True
        elif k in "bu":
            trimmed = False
        elif k == "n":
            o.rel(needle(1 + n % 8))
            trimmed = True
        elif k == "p":
            o.rel(STOP)
    end(f, o, bytes([0, 0, 0x88]))


def enc_max(f, o):
    o.b += head(0xD5, b"MAX") + le32(len(f["recs"]))
    x = y = 0
    for k, dx, dy, n in f["recs"]:
        x, y = x + dx, y + dy
        o.b += le24(x) + bytes([n & 0xFF]) + le24(y) + bytes([n & 0xFF])
        o.abs(STITCH, x * 1.235, y * 1.235)
    o.rel(END)


def enc_mit(f, o):
    prev = -1
    for k, dx, dy, n in f["recs"]:
        dx, dy = mag(dx, 31), mag(dy, 31)
        if k == "c":
            if prev != 7:
                continue
            ctrl = 8
            dx = dy = 0
        else:
            ctrl = {"s": [7, 7, 4, 5, 1, 2, 3, 6, 9, 10, 11, 13, 14, 15][n % 14], "j": 12}[k]
        o.raw(abs(dx) | sign(dx, 0x80) | (ctrl & 0xC) << 3, abs(dy) | (0x80 if dy > 0 else 0) | (ctrl & 3) << 5)
        if ctrl == 8:
            o.rel(COLOR_CHANGE)
        else:
            o.rel(JUMP if k == "j" else STITCH, 2.0 * dx, 2.0 * dy)
        prev = ctrl
    if f["opt"].get("endrec", True):
        o.raw(0, 0)
    o.rel(END)


def enc_new(f, o):
    o.b += le16(len(f["recs"]))
    for k, dx, dy, n in f["recs"]:
        dx, dy = mag(dx, 255), mag(dy, 255)
        c = 0x80 | sign(dx, 0x40) | (0x20 if dy > 0 else 0)
        if k == "c":
            o.raw(0, 0, 0x82)
            o.rel(COLOR_CHANGE)
        else:
            o.raw(abs(dx), abs(dy), c | (0 if k == "s" else 1))
            o.rel(STITCH if k == "s" else JUMP, dx, dy)
    end(f, o, bytes([0, 0, 0x11]))


def enc_pcd(f, o, ver=None):
    th = f["threads"]
    o.raw(0x32, {"pcd": 0, "pcq": 1, "pcs": 2 + len(th) % 2}[f["fmt"]])
    o.b += le16(len(th))
    for t in th:
        o.b += be24(t) + b"\0"
    o.threads = list(th)
    o.b += le16(len(f["recs"]))
    x = y = 0
    for k, dx, dy, n in f["recs"]:
        x, y = x + dx, y + dy
        o.b += bytes([n & 0xFF]) + le24(x) + bytes([n & 0xFF]) + le24(-y)
        _pc(o, k, n, x, y)
    end(f, o, bytes(8) + b"\x08")


def _pc(o, k, n, x, y):
    r = 5.0 / 3.0
    if k == "s":
        o.raw(0)
        o.abs(STITCH, x * r, y * r)
    elif k == "c":
        o.raw([1, 3][n % 2])
        o.rel(COLOR_CHANGE)
    elif k == "j":
        o.raw([4, 6][n % 2])
        o.abs(JUMP, x * r, y * r)


PCM = [0x000000, 0x000080, 0x0000FF, 0x008080, 0x00FFFF, 0x800080, 0xFF00FF, 0x800000, 0xFF0000, 0x008000, 0x00FF00, 0x808000,
       0xFFFF00, 0x808080, 0xC0C0C0, 0xFFFFFF]


def enc_pcm(f, o):
    th = [t % 16 for t in f["threads"]]
    o.b += b"PC" + be16(len(th)) + b"".join(be16(t) for t in th) + be16(len(f["recs"]))
    o.threads = [PCM[t] for t in th]
    x = y = 0
    for k, dx, dy, n in f["recs"]:
        x, y = x + dx, y + dy
        o.b += be24(x) + bytes([n & 0xFF]) + be24(-y) + bytes([n & 0xFF])
        _pc(o, k, n, x, y)
    end(f, o, bytes(8) + b"\x08")


def enc_sew(f, o):
    th = [t % 79 for t in f["threads"]]
    o.b += le16(len(th)) + b"".join(le16(t + 79 * (i % 2)) for i, t in enumerate(th))
    o.b += bytes(0x1D78 - len(o.b))
    o.threads = [P.SEW[t] for t in th]
    for k, dx, dy, n in f["recs"]:
        if k == "s":
            dx, dy = s8(dx), s8(dy)
            o.raw(u8(dx), u8(-dy))
            o.rel(STITCH, dx, dy)
        elif k == "S":
            dx, dy = s8(dx, -128), s8(dy)
            o.raw(0x80, 0x10, u8(dx), u8(-dy))
            o.rel(STITCH, dx, dy)
        elif k == "j":
            dx, dy = s8(dx, -128), s8(dy)
            o.raw(0x80, [2, 4][n % 2], u8(dx), u8(-dy))
            o.rel(JUMP, dx, dy)
        elif k == "c":
            o.raw(0x80, [1, 3, 0x81][n % 3], 0, 0)
            o.rel(COLOR_CHANGE)
    end(f, o, bytes([0x80, 0x14, 0, 0]))


def enc_shv(f, o):
    nm = f["opt"].get("name", "")
    nb = nm.encode("utf8")[:200]
    o.meta["name"] = nm
    w, h = f["opt"].get("size", [5, 7])
    blocks, cost, cur = [], 0, []
    jumping = False
    for k, dx, dy, n in f["recs"]:
        if k == "c":
            if cost:
                blocks.append((cost, cur))
                cost, cur = 0, []
            continue
        cur.append([k, dx, dy, n])
        cost += 3 if k == "j" else 1
    if cost or not blocks:
        blocks.append((cost, cur))
    th = [f["threads"][i % len(f["threads"])] if f["threads"] else 0 for i in range(len(blocks))]
    o.b += head(0x56, b"Embroidery disk") + bytes([len(nb)]) + nb + bytes([w, h]) + bytes(-(-h // 2) * w) + bytes(4)
    o.b += bytes([len(blocks)]) + bytes(18)
    for i, (c, _) in enumerate(blocks):
        o.b += be32(c) + bytes([th[i] % 43]) + bytes(9 if i < len(blocks) - 1 else 7)
    o.threads = [P.SHV[t % 43] for t in th]
    jumping = False
    for i, (c, recs) in enumerate(blocks):
        if i:
            o.rel(COLOR_CHANGE)
        for k, dx, dy, n in recs:
            if k == "s":
                dx, dy = s8(dx), s8(dy, -128)
                o.raw(u8(dx), u8(dy))
                o.rel(JUMP if jumping else STITCH, dx, dy)
            elif k == "j":
                dx, dy = mag(dx, 32767), mag(dy, 32767)
                o.raw(0x80, 1)
                o.b += be16(dx) + be16(dy)
                o.rel(JUMP, dx, dy)
                jumping = True
            elif k == "u":
                o.raw(0x80, 2)
                jumping = False
            elif k == "x":
                o.raw(0x80, 3)
    o.rel(END)


def enc_stc(f, o):
    o.b += head(0x28, b"DESIGN: x STITCHES: 1")
    for k, dx, dy, n in f["recs"]:
        dx, dy = s8(dx, -128), s8(dy)
        if k == "n":
            n = 1 + n % 22
            o.raw(0, 0, n + 2)
            o.rel(needle(n))
        else:
            o.raw(u8(dx), u8(-dy), 1 if k == "s" else 0)
            o.rel(STITCH if k == "s" else JUMP, dx, dy)
    end(f, o, bytes([0, 0, 25]))


def zval(v):
    """The ZHS displacement nearest to v, as (stored byte, displacement)."""
    best = max(-129, min(128, v))
    if abs(best) == 63:
        best = 62 if best > 0 else -62
    raw = best - 1 if best >= 64 else best + 1 if best <= -64 else best
    return raw & 0xFF, best


def enc_zhs(f, o):
    hdr = bytearray()
    th = f["threads"]
    hdr.append(len(th))
    for t in th:
        hdr += be24(t)
    txt = "T"
    o.text = {}
    for i in range(min(len(th), f["opt"].get("texts", 0))):
        a, b, c = [["A", "Acme%d" % i, ""][i % 3], "Rot-%d \u00e4" % i, ["1234--", "5"][i % 2]]
        txt += "&$" + "&#".join((a, b, c))
        o.text[i] = [a or None, b, c[:-2] if len(c) > 3 else None]
    tb = txt.encode("utf8")
    hdr += le16(len(tb)) + tb
    st = bytearray()
    ax = ay = 0
    for k, dx, dy, n in f["recs"]:
        rx, dx = zval(dx)
        ry, dy = zval(-dy)
        b1 = (rx & 0b01010101) | (ry & 0b10101010)
        b2 = (rx & 0b10101010) | (ry & 0b01010101)
        if k == "h":
            st += bytes([0x10, n & 0xFF, 0x55])
            continue
        st += bytes([{"s": 2, "j": 1, "c": 4, "m": 0x41}[k], b1, b2])
        ax += dx
        ay += dy
        if k == "m":
            continue
        if k == "c":
            o.rel(COLOR_CHANGE)
        else:
            o.rel(STITCH if k == "s" else JUMP, ax, -ay)
        ax = ay = 0
    if f["opt"].get("endrec", True):
        st += bytes([0x80, 0, 0])
    pad = bytes(f["opt"].get("pad", b""))
    o.b += head(0x0F, b"ZHS") + le32(23 + len(hdr) + len(pad)) + le32(23)
    o.b += hdr + pad + st
    o.threads = list(th)
    o.rel(END)


def enc_zxy(f, o):
    pad = bytes(f["opt"].get("pad", b""))
    o.b += b"Z" + be16(len(pad)) + pad
    for k, dx, dy, n in f["recs"]:
        dx, dy = mag(dx, 255), mag(dy, 255)
        c = sign(dx, 0x08) | (0x04 if dy > 0 else 0)
        if k == "n":
            n = 1 + n % 12
            o.raw(0x20, 0, n)
            o.rel(needle(n))
        else:
            o.raw(c | (0 if k == "s" else 2), abs(dx), abs(dy))
            o.rel(STITCH if k == "s" else JUMP, dx, dy)
    end(f, o, bytes([0x20, 0xFF, 0]))


def enc_spx(f, o):
    o.b += head(0x11E, b"SPX")
    for k, dx, dy, n in f["recs"]:
        dx, dy, c = mag(dx, 32767), mag(dy, 32000), (n & 0xFF) - 128
        o.b += bytes(2) + be16(-dy) + be16(dx) + bytes([c & 0xFF]) + bytes(2)
        o.rel(STITCH, dx, dy - c)


def enc_pmv(f, o):
    o.b += head(0x64, b"#PMV0001")
    px = 0
    recs = f["recs"]
    i = 0
    while i < len(recs):
        part = recs[i:i + 100]
        o.b += le16(len(part)) + le16(2 * len(part))
        for k, dx, dy, n in part:
            x, y = mag(dx, 31), mag(dy, 15)
            o.raw(x & 63, y & 31)
            o.abs(STITCH, px + x * 2.5, y * -2.5)
            px += x * 2.5
        i += 100
    o.b += le16(0) + le16(256) + bytes(16)
    o.rel(END)


# --------------------------------------------------------------- PEC and its relatives
def pec_coord(v, short, flags):
    if short and -64 <= v <= 63 and not flags:
        return bytes([v & 0x7F])
    v &= 0xFFF
    return bytes([0x80 | flags | v >> 8, v & 0xFF])


def pec_stitches(f, o):
    """PEC stitch records; n chooses the short or long form of each coordinate."""
    nch = 0
    for k, dx, dy, n in f["recs"]:
        dx, dy = max(-2048, min(2047, dx)), max(-2048, min(2047, dy))
        if k == "s":
            o.b += pec_coord(dx, n & 1 == 0, 0) + pec_coord(dy, n & 2 == 0, 0)
            o.rel(STITCH, dx, dy)
        elif k in "jt":
            fl = 0x10 if k == "j" else 0x20
            fx, fy = [(fl, fl), (fl, 0), (0, fl)][n % 3]
            o.b += pec_coord(dx, True, fx) + pec_coord(dy, True, fy)
            if k == "t":
                o.rel(TRIM)
            o.rel(JUMP, dx, dy)
        elif k == "c":
            nch += 1
            o.raw(0xFE, 0xB0, 1 + nch % 2)
            o.rel(COLOR_CHANGE)
    o.raw(0xFF, 0x00)
    o.rel(END)


def same_as_stop(cmds, colors):
    """Neighbouring blocks of one thread are one block with a stop, in files of this family."""
    cmds = [list(c) for c in cmds]
    out = []
    last = None
    fresh = True
    idx = 0
    th = list(colors)
    for i, c in enumerate(cmds):
        if c[2] == STITCH:
            if fresh:
                if last is not None and idx and idx < len(th) and th[idx] == th[idx - 1]:
                    cmds[last][2] = STOP
                    del th[idx]
                elif idx < len(th):
                    idx += 1
                else:
                    return cmds, th
                fresh = False
        elif c[2] == COLOR_CHANGE:
            if fresh:
                idx += 1
            fresh = True
            last = i
    return cmds, th


def pec_block(f, o, colors, nm):
    o.b += b"LA:" + head(16, nm.encode("ascii", "replace")) + bytes([0x0D]) + b" " * 12 + b"\xff\x00"
    stride, height = f["opt"].get("icon", (6, 38))
    o.raw(stride, height)
    o.b += b" " * 12
    o.raw(len(colors) - 1)
    o.b += bytes(colors)
    o.b += b" " * (0x1D0 - (len(colors) - 1))
    at = len(o.b)
    o.b += b"\0\0\0" + b"\x31\xff\xf0" + bytes(8)
    pec_stitches(f, o)
    # the size field counts from the two bytes in front of it, the graphics follow the stitches
    o.b[at:at + 3] = le24(len(o.b) - at + 2)
    for i in range(len(colors) + 1):
        pic = bytes((j * 7 + i) & 0xFF for j in range(stride * height))
        o.b += pic
        o.icons[i] = (pic, stride)


def pec_cols(f):
    n = 1 + sum(1 for r in f["recs"] if r[0] == "c")
    th = f["threads"] or [5]
    return [1 + th[i % len(th)] % 64 for i in range(n)]


def enc_pec(f, o):
    o.b += b"#PEC0001"
    cols = pec_cols(f)
    pec_block(f, o, cols, f["opt"].get("name", "n"))
    o.meta["Name"] = f["opt"].get("name", "n").strip()[:16].strip()
    _pec_done(o, [P.PEC[c] for c in cols])


def _pec_done(o, rgb, keys=None):
    keys = rgb if keys is None else keys
    o.cmds, th = same_as_stop(o.cmds, list(zip(rgb, keys)))
    o.threads = [t[0] for t in th]
    for k, (c, i) in enumerate(th):
        if isinstance(i, tuple):    # a chart entry
            i = i[1]
            o.text[k] = {"catalog_number": "c%d" % i, "description": "d\u00e9%d" % i, "brand": "b"}
    for i in o.icons:
        o.icons[i] += (rgb[i - 1] if 0 < i <= len(rgb) else None,)


def pstr(t):
    b = t.encode("utf8")[:255]
    return bytes([len(b)]) + b


PES_MAGIC = {"pes2": b"#PES0020", "pes22": b"#PES0022", "pes3": b"#PES0030", "pes4": b"#PES0040", "pes5": b"#PES0050", "pes55": b"#PES0055",
             "pes56": b"#PES0056", "pes6": b"#PES0060", "pes7": b"#PES0070", "pes8": b"#PES0080", "pes9": b"#PES0090", "pes10": b"#PES0100",
             "pes1": b"#PES0001", "pesx": b"#PES0120"}
PES_VER = {"pes2": 2, "pes22": 2.2, "pes3": 3, "pes4": 4, "pes5": 5, "pes55": 5.5, "pes56": 5.6, "pes6": 6, "pes7": 7, "pes8": 8, "pes9": 9,
           "pes10": 10, "pes1": 1}


def enc_pes(f, o):
    ver = f["fmt"]
    cols = pec_cols(f)
    nth = f["opt"].get("chart", "full")
    names = f["opt"].get("meta", ["", "", "", "", ""])
    hd = bytearray(PES_MAGIC[ver] + b"\0\0\0\0")
    chart = []
    if ver in PES_VER and ver not in ("pes1", "pes2", "pes22", "pes3"):
        hd += bytes(4)
        for key, v in zip(("name", "category", "author", "keywords", "comments"), names):
            hd += pstr(v)
            if v:
                o.meta[key] = v
    if ver in ("pes5", "pes55", "pes56", "pes6", "pes7", "pes8", "pes9", "pes10"):
        if ver in ("pes5", "pes55", "pes56"):
            hd += bytes(24) + pstr("i.bmp") + bytes(24)
            o.meta["image"] = "i.bmp"
        elif ver in ("pes6", "pes7"):
            hd += bytes(36) + pstr("i.bmp") + bytes(24)
            o.meta["image_file"] = "i.bmp"
        elif ver == "pes8":
            hd += bytes(38) + pstr("i.bmp") + bytes(26)
            o.meta["image_file"] = "i.bmp"
        elif ver == "pes9":
            hd += bytes(14) + pstr("hoop") + bytes(30) + pstr("i.bmp") + bytes(34)
            o.meta["hoop_name"] = "hoop"
            o.meta["image_file"] = "i.bmp"
        elif ver == "pes10":
            hd += bytes(14) + pstr("hoop") + bytes(38) + pstr("i.bmp") + bytes(34)
            o.meta["hoop_name"] = "hoop"
            o.meta["image_file"] = "i.bmp"
        if nth == "fills":
            hd += le16(1) + bytes(9)
        else:
            if nth == "full":
                for i in range(len(cols)):
                    chart.append((0x010203 * (i + 1) ^ f["threads"][i % len(f["threads"])] if f["threads"] else i * 999) & 0xFFFFFF)
            elif nth == "table":
                for i in range(min(len(set(cols)), max(0, len(cols) - 1))):
                    chart.append((0x0A0B0C * (i + 1)) & 0xFFFFFF)
            hd += le16(0) * 3 + le16(len(chart))
            for i, c in enumerate(chart):
                hd += pstr("c%d" % i) + be24(c) + bytes(5) + pstr("d\u00e9%d" % i) + pstr("b") + pstr("")
    hd += bytes(f["opt"].get("pad", b""))
    hd[8:12] = le32(len(hd))
    o.b += hd
    if ver in PES_VER:
        o.meta["version"] = PES_VER[ver]
    pec_block(f, o, cols, f["opt"].get("name", "n"))
    o.meta["Name"] = f["opt"].get("name", "n").strip()[:16].strip()
    if not chart:
        _pec_done(o, [P.PEC[c] for c in cols])
    elif len(chart) >= len(cols):
        _pec_done(o, list(chart), [(c, i) for i, c in enumerate(chart)])
    else:
        m, rgb, keys = {}, [], []
        left = list(enumerate(chart))
        for c in cols:
            if c not in m:
                m[c] = (left[0][1], ("t", left.pop(0)[0])) if left else (P.PEC[c], "p%d" % c)
            rgb.append(m[c][0])
            keys.append(m[c][1])
        _pec_done(o, rgb, keys)


def enc_phb(f, o):
    cols = pec_cols(f)
    b = bytearray(head(0x71, b"#PHB0003"))
    b += le16(len(cols)) + bytes(cols)
    l1 = len(b) + 5 - 0x52
    b[0x54:0x58] = le32(l1)
    b += bytes(5)                      # -> 0x52 + l1
    l2 = 11
    b += le32(l2) + bytes(l2 + 2 - 4)  # -> + l2 + 2
    l3 = 9
    b += le32(l3) + bytes(l3 - 4)      # -> + l3
    b += bytes(14) + bytes([len(cols)]) + bytes(len(cols) + 0x15)
    o.b += b
    pec_stitches(f, o)
    _pec_done(o, [P.PEC[c] for c in cols])


def enc_phc(f, o):
    cols = pec_cols(f)
    b = bytearray(head(0x4A, b"#PHC0001"))
    h, st = 4, 3
    b += bytes([h, 0, st]) + le16(len(cols)) + bytes(cols)
    for i in range(len(cols)):
        pic = bytes((i + j) & 0xFF for j in range(h * st))
        b += pic
        o.icons[i] = (pic, st)
    add = 7
    b[0x2B] = add
    b[0x30:0x32] = le16(len(b))
    b += bytes(add)
    b += le16(6) + bytes(6)
    b += le32(9) + bytes(9 + 10) + bytes([len(cols)]) + bytes(len(cols) + 0x1D)
    o.b += b
    pec_stitches(f, o)
    _pec_done(o, [P.PEC[c] for c in cols])
    o.icons = {i: v[:2] for i, v in o.icons.items()}


# --------------------------------------------------------------- HUS (compressed)
class Bits:
    def __init__(self):
        self.s = []

    def put(self, v, n):
        for i in range(n - 1, -1, -1):
            self.s.append((v >> i) & 1)

    def bytes(self):
        s = self.s + [0] * (-len(self.s) % 8)
        return bytes(int("".join(map(str, s[i:i + 8])), 2) for i in range(0, len(s), 8))


def lengths_for(used, r, maxlen):
    """A complete prefix code for the symbols in use: {symbol: length}."""
    syms = sorted(used)
    if len(syms) == 1:
        return {syms[0]: 1}
    leaves = [(0, s) for s in syms]
    need = 0
    while (1 << need) < len(syms):
        need += 1
    # split a random leaf until there are enough, never deeper than maxlen
    tree = [0]
    while len(tree) < len(syms):
        ok = [i for i, d in enumerate(tree) if d < maxlen and d < (need + 4)]
        i = ok[r(len(ok))]
        d = tree.pop(i)
        tree += [d + 1, d + 1]
    tree.sort()
    order = list(syms)
    out = {}
    for d in tree:
        out[order.pop(r(len(order)))] = d
    return out


def codes_of(lengths):
    """Canonical codes: by length, then by symbol."""
    code, prev, out = 0, 0, {}
    for s, n in sorted(lengths.items(), key=lambda t: (t[1], t[0])):
        code <<= n - prev
        prev = n
        out[s] = (code, n)
        code += 1
    return out


def put_var(b, m):
    """A code length: 3 bits, continued in unary from 7."""
    if m < 7:
        b.put(m, 3)
    else:
        b.put(7, 3)
        for _ in range(m - 7):
            b.put(1, 1)
        if m - 7 < 13:
            b.put(0, 1)


def hus_compress(data, seed, ends=True):
    """An independent compressor for the HUS/ARJ-like scheme, choices drawn from the seed."""
    st = [seed & 0x7FFFFFFF or 1]

    def r(n):
        st[0] = (st[0] * 1103515245 + 12345) & 0x7FFFFFFF
        return (st[0] >> 12) % n if n > 1 else 0
    toks = []
    i = 0
    while i < len(data):
        best = None
        if i >= 1 and r(4):
            backs = [1, 2, 3, 4, 5, 8, 16, 33, 64, 1 + r(max(1, i))]
            if len(data) > 200:  # where the same three bytes stood before
                at = data.find(bytes(data[i:i + 3]), 0, i + 1)
                if 0 <= at < i:
                    backs.append(i - at)
            for back in backs:
                if back > i:
                    continue
                n = 0
                while n < 256 and i + n < len(data) and data[i + n] == data[i + n - back]:
                    n += 1
                if n >= 3 and (best is None or n > best[0]):
                    best = (n, back)
        if best:
            n = best[0] if r(3) else 3 + r(best[0] - 2)
            toks.append((253 + n, best[1]))
            i += n
        else:
            toks.append((data[i], None))
            i += 1
    if ends:
        toks.append((510, None))
    b = Bits()
    while toks:
        m = len(toks) if r(3) else 1 + r(len(toks))
        block, toks = toks[:m], toks[m:]
        b.put(len(block), 16)
        used = set(t[0] for t in block)
        dist = [t[1] - 1 for t in block if t[1] is not None]

        def dsym(v):
            return v.bit_length()
        dused = set(dsym(v) for v in dist)
        if len(used) == 1 and r(2):
            b.put(0, 5)
            b.put(0, 5)
            b.put(0, 9)
            b.put(list(used)[0], 9)
            ccodes = {list(used)[0]: (0, 0)}
        else:
            L = lengths_for(used, r, 13)
            cnt = max(used) + 1
            seq = []  # (symbol of the length code, extra value, extra bits)
            k = 0
            while k < cnt:
                if k in L:
                    seq.append((L[k] + 2, 0, 0))
                    k += 1
                    continue
                z = 0
                while k + z < cnt and k + z not in L:
                    z += 1
                if z >= 20 and r(5):
                    q = min(z, 20 + 511)
                    seq.append((2, q - 20, 9))
                    k += q
                elif z >= 3 and r(5):
                    q = min(z, 3 + 15)
                    seq.append((1, q - 3, 4))
                    k += q
                else:
                    seq.append((0, 0, 0))
                    k += 1
            lused = set(s for s, _, _ in seq)
            if len(lused) == 1 and list(lused)[0] < 32 and r(2):
                b.put(0, 5)
                b.put(list(lused)[0], 5)
                lc = {list(lused)[0]: (0, 0)}
            else:
                LL = lengths_for(lused, r, 7 + r(3))
                n = max(lused) + 1
                b.put(n, 5)
                k = 0
                while k < n:
                    if k == 3:
                        sk = 0
                        while sk < 3 and k + sk < n and (k + sk) not in LL and k + sk + 1 < n:
                            sk += 1
                        b.put(sk, 2)
                        k += sk
                    put_var(b, LL.get(k, 0))
                    k += 1
                lc = codes_of(LL)
            b.put(cnt, 9)
            for s, v, nb in seq:
                b.put(*lc[s])
                if nb:
                    b.put(v, nb)
            ccodes = codes_of(L)
        if not dused:
            b.put(0, 5)
            b.put(0, 5)
            dcodes = {}
        elif len(dused) == 1 and r(2):
            b.put(0, 5)
            b.put(list(dused)[0], 5)
            dcodes = {list(dused)[0]: (0, 0)}
        else:
            D = lengths_for(dused, r, 12)
            n = max(dused) + 1
            b.put(n, 5)
            for k in range(n):
                put_var(b, D.get(k, 0))
            dcodes = codes_of(D)
        for s, back in block:
            b.put(*ccodes[s])
            if back is not None:
                v = back - 1
                d = dsym(v)
                b.put(*dcodes[d])
                if d > 1:
                    b.put(v - (1 << (d - 1)), d - 1)
    return b.bytes()


def enc_hus(f, o):
    th = [t % 29 for t in f["threads"]]
    cm, xs, ys = bytearray(), bytearray(), bytearray()
    for k, dx, dy, n in f["recs"]:
        dx, dy = s8(dx, -128), s8(dy)
        if k == "c" and n % 2:
            dx = dy = 0
        if k == "t" and n % 2:
            dx = dy = 0
        cm.append({"s": 0x80, "j": 0x81, "c": 0x84, "t": 0x88}[k])
        xs.append(u8(dx))
        ys.append(u8(-dy))
        if k == "t":
            if dx or dy:
                o.rel(JUMP, dx, dy)
            o.rel(TRIM)
        else:
            o.rel({"s": STITCH, "j": JUMP, "c": COLOR_CHANGE}[k], dx, dy)
    cm.append(0x90)
    xs.append(0)
    ys.append(0)
    o.rel(END)
    seed = f["opt"].get("seed", 1)
    ends = f["opt"].get("endrec", True)
    parts = [hus_compress(d, seed + i, ends) for i, d in enumerate((cm, xs, ys))]
    hl = 4 * 3 + 8 + 12 + 8 + 2 + 2 * len(th)
    offs = [hl, hl + len(parts[0]), hl + len(parts[0]) + len(parts[1])]
    o.b += le32(0x00C8AF5B) + le32(len(cm)) + le32(len(th)) + bytes(8)
    for v in offs:
        o.b += le32(v)
    o.b += head(8, b"HUS") + le16(0)
    for t in th:
        o.b += le16(t)
    for p in parts:
        o.b += p
    o.threads = [P.HUS[t] for t in th]


ENC = {
    # name: (extension, encoder, record kinds, weights, max magnitude)
    "10o": ("10o", enc_10o, "ssssssjjcptx"), "100": ("100", enc_100, "ssssssjjc"), "bro": ("bro", enc_bro, "ssssssjjnx"),
    "dat": ("dat", enc_barudan, "ssssssjjfFlLtpn"), "dats": ("dat", enc_sunstar, "ssssssjjtci"), "dsb": ("dsb", enc_dsb, "ssssssjjtpn"),
    "dsz": ("dsz", enc_dsz, "ssssssjjtpn"), "fxy": ("fxy", enc_fxy, "ssssssjjtpn"), "gt": ("gt", enc_gt, "ssssssjjtpn"),
    "emd": ("emd", enc_emd, "ssssssjjctx"), "exy": ("exy", enc_exy, "ssssssjjcq"), "tap": ("tap", enc_tap, "ssssssjjcq"),
    "inb": ("inb", enc_inb, "ssssssjjc"), "jpx": ("jpx", enc_jpx, "ssssssjjcc"), "stx": ("stx", enc_stx, "ssssssSjjtcc"),
    "ksm": ("ksm", enc_ksm, "ssssssssttbbnpu"), "max": ("max", enc_max, "s"), "mit": ("mit", enc_mit, "ssssssjjc"),
    "new": ("new", enc_new, "ssssssjjc"), "pcd": ("pcd", enc_pcd, "ssssssjjc"), "pcq": ("pcq", enc_pcd, "ssssssjjc"),
    "pcs": ("pcs", enc_pcd, "ssssssjjc"), "pcm": ("pcm", enc_pcm, "ssssssjjc"), "sew": ("sew", enc_sew, "ssssssSjjc"),
    "shv": ("shv", enc_shv, "sssssssjuucx"), "stc": ("stc", enc_stc, "ssssssjjn"), "zhs": ("zhs", enc_zhs, "ssssssjjcmh"),
    "zxy": ("zxy", enc_zxy, "ssssssjjn"), "pmv": ("pmv", enc_pmv, "s"), "spx": ("spx", enc_spx, "s"), "pec": ("pec", enc_pec, "ssssssjjtc"),
    "phb": ("phb", enc_phb, "ssssssjjtc"), "phc": ("phc", enc_phc, "ssssssjjtc"), "hus": ("hus", enc_hus, "ssssssjjtc"),
}
for _v in PES_MAGIC:
    ENC[_v] = ("pes", enc_pes, "ssssssjjtc")
NAMES = list(ENC)
ALL = dict(ENC)  # rwfmt adds the formats the library also writes
WIDE = ("bro", "max", "pcd", "pcq", "pcs", "pcm", "shv", "pec", "phb", "phc", "vp3", "xxx", "csv") + tuple(PES_MAGIC)
EDGE = [0, 0, 1, -1, 2, 3, 12, 13, 30, 31, -31, 40, 41, 62, 63, -63, 64, -64, -65, 80, 81, 120, 121, -121, 126, 127, -127, -128, 128, -129, 129,
        200, 254, 255, -255]
FAR = [256, -256, 511, 512, 2047, -2047, -2048, 2046, 4095, 5000, -5000, 32767, -32768, 32000]


def sample(r, fmt=None, size=None):
    """A random well-formed file of the format."""
    if fmt is None:
        fmt = r.choice(NAMES)
    kinds = ALL[fmt][2]
    if size is None:
        size = r.choice([0, 1, 2, 4, 8, 16, 40, 120])
    recs = []
    mode = r.choice(["edge", "small", "any", "run"])
    last = [1, 1]
    for _ in range(size):
        k = r.choice(kinds)
        if mode == "edge":
            dx, dy = r.choice(EDGE), r.choice(EDGE)
        elif mode == "small":
            dx, dy = r.randint(-14, 14), r.randint(-14, 14)
        elif mode == "run" and r.random() < .8:
            k = "s"
            dx, dy = last
        else:
            dx, dy = r.randint(-255, 255), r.randint(-255, 255)
        if fmt in WIDE and r.random() < .2:
            dx, dy = r.choice(FAR), r.choice(FAR + EDGE)
            if fmt == "bro" or fmt == "shv":
                dx, dy = max(-32767, dx), max(-32767, dy)
            if k == "c" and fmt == "shv":
                k = "j"
        last = [dx, dy]
        recs.append([k, dx, dy, r.randrange(256)])
    if fmt == "hus" and r.random() < .15:
        # a long file that repeats itself after hundreds or thousands of stitches
        part = recs[:40] or [["s", 3, 4, 0]]
        gap = r.choice([200, 300, 520, 800, 1100, 2100, 3000])
        recs = part + [["s", r.randint(-99, 99), r.randint(-99, 99), r.randrange(256)] for _ in range(gap)] + part * r.choice([1, 2])
    opt = {"endrec": r.random() < .8, "name": "".join(r.choice("ABCdef 123") for _ in range(r.randint(0, 9))), "seed": r.randrange(1 << 20)}
    if r.random() < .3:
        opt["pad"] = [r.randrange(256) for _ in range(r.randint(1, 9))]
    if r.random() < .2:
        opt["tail"] = [r.randrange(256) for _ in range(r.randint(1, 9))]
    if fmt == "shv":
        opt["size"] = [r.randint(0, 9), r.randint(0, 9)]
    if fmt == "zhs":
        opt["texts"] = r.choice([0, 0, 1, 3])
    if fmt == "pec" or fmt.startswith("pes"):
        opt["icon"] = r.choice([[6, 38]] * 3 + [[4, 16], [1, 1], [9, 70]])
    if fmt.startswith("pes"):
        opt["chart"] = r.choice(["full", "full", "table", "none", "fills"])
        opt["meta"] = ["".join(r.choice("ABC xyz\u00e9\u4e2d") for _ in range(r.choice([0, 0, 3, 12, 60]))) for _ in range(5)]
    nth = r.choice([0, 1, 2, 5, 12])
    if fmt in ("pcd", "pcq", "pcs", "zhs"):
        th = [r.choice([0, 0xFFFFFF, r.randrange(1 << 24)]) for _ in range(nth)]
    else:
        th = [r.randrange(256) for _ in range(max(nth, 1))]
        if r.random() < .2:
            th = [th[0]] * len(th)
    return {"fmt": fmt, "recs": recs, "threads": th, "opt": opt}


def encode(f):
    o = Out()
    opt = f["opt"]
    g = dict(f, opt=dict(opt))
    ALL[f["fmt"]][1](g, o)
    return {"bytes": bytes(o.b), "cmds": o.cmds, "threads": o.threads, "meta": o.meta, "text": o.text, "icons": o.icons}


def ext_of(fmt):
    return ALL[fmt][0]
