"""A by-value model of a design under editing: what each documented editing call makes of it."""
from .const import *

SEWING = (STITCH, SEW_TO, NEEDLE_AT)
CHANGES = (COLOR_CHANGE, COLOR_BREAK, NEEDLE_SET)
FIELDS = ("description", "catalog_number", "details", "brand", "chart", "weight")


def cmd(c):
    return c & 0xFF


class Design:
    """st: [[x, y, command]], th: threads by value, ex: metadata, prev: where relative calls go on from (None: not
    said by the documentation after the calls before), None coordinates: any place."""

    def __init__(self, st=(), th=(), ex=None, prev=(0, 0)):
        self.st = [list(s) for s in st]
        self.th = [list(t) for t in th]
        self.ex = dict(ex or {})
        self.prev = prev

    def copy(self):
        return Design(self.st, self.th, self.ex, self.prev)

    # ------------------------------------------------ adding
    def absolute(self, c, x, y):
        self.st.append([x, y, c])
        self.prev = (x, y)

    def relative(self, c, dx, dy):
        self.absolute(c, self.prev[0] + dx, self.prev[1] + dy)

    def insert_relative(self, pos, c, dx, dy):
        n = len(self.st)
        if pos < 0:
            pos += n
        if pos == n and n:
            self.relative(c, dx, dy)
        elif pos == 0:
            self.st.insert(0, [dx, dy, c])
        else:
            self.st.insert(pos, [self.st[pos - 1][0] + dx, self.st[pos - 1][1] + dy, c])

    def points(self, block):
        v = block[0]
        if isinstance(v, (list, tuple)):
            for q in block:
                self.absolute(q[2] if len(q) > 2 else STITCH, q[0], q[1])
        elif isinstance(v, complex):
            for q in block:
                self.absolute(STITCH, q.real, q.imag)
        else:
            for k in range(0, len(block), 2):
                self.absolute(STITCH, block[k], block[k + 1])

    def sewn(self):
        return any(cmd(s[2]) in SEWING for s in self.st)

    def plus_thread(self, t):
        self.th.append(t)
        if self.sewn():
            self.relative(COLOR_CHANGE, 0, 0)

    def block(self, block, t=None):
        if t is not None:
            self.th.append(t)
        if block is None or len(block) == 0 and block is not None:
            return
        self.points(block)
        self.st.append([0, 0, COLOR_BREAK])

    def blocks_begun(self):
        n, fresh = 0, True
        for s in self.st:
            if cmd(s[2]) in SEWING and fresh:
                n, fresh = n + 1, False
            elif cmd(s[2]) in CHANGES:
                fresh = True
        return n

    def pattern(self, o, dx=None, dy=None, sx=None, sy=None, rotate=None):
        o = o.copy()
        if self.st and self.st[-1][2] & 0xFF == END:
            self.st.pop()
        if dx is not None or dy is not None:
            self.st.append([dx or 0, dy or 0, MATRIX_TRANSLATE])
        if sx is not None or sy is not None:
            self.st.append([sy if sx is None else sx, sx if sy is None else sy, MATRIX_SCALE])
        if rotate is not None:
            self.st.append([rotate, 0, MATRIX_ROTATE])
        while len(self.th) < self.blocks_begun():
            self.th.append(None)  # any colour
        if o.th:
            if not self.th:
                self.th = o.th
            elif self.th[-1] == o.th[0]:
                self.th += o.th[1:]
            else:
                self.th += o.th
                self.st.append([None, None, COLOR_CHANGE])
        for s in o.st:
            if cmd(s[2]) in SEWING:
                break
            if cmd(s[2]) in CHANGES:
                s[2] = NO_COMMAND
        self.st += o.st
        self.ex.update(o.ex)
        self.prev = None

    # ------------------------------------------------ whole design
    def bounds(self):
        return min(s[0] for s in self.st), min(s[1] for s in self.st), max(s[0] for s in self.st), max(s[1] for s in self.st)

    def translate(self, dx, dy):
        for s in self.st:
            s[0] += dx
            s[1] += dy
        self.prev = None

    def center(self):
        x0, y0, x1, y1 = self.bounds()
        self.translate(-round((x1 + x0) / 2.0), -round((y1 + y0) / 2.0))

    def affine(self, m):
        a, b, c, d, e, f = m
        for s in self.st:
            s[0], s[1] = a * s[0] + c * s[1] + e, b * s[0] + d * s[1] + f
        self.prev = None

    # ------------------------------------------------ inspection
    def blocks_of_stitches(self):
        """[(stitches, thread number)]: runs of stitches with the number of colour changes before them."""
        out, cur, n = [], [], 0
        for s in self.st:
            if cmd(s[2]) == STITCH:
                cur.append(s)
                continue
            if cur:
                out.append((cur, n))
                cur = []
            if cmd(s[2]) == COLOR_CHANGE:
                n += 1
        if cur:
            out.append((cur, n))
        return out

    def blocks_of_colors(self):
        out, cur = [], []
        for s in self.st:
            c = cmd(s[2])
            if c == COLOR_BREAK:
                if cur:
                    out.append(cur)
                cur = []
            elif c == COLOR_CHANGE:
                out.append(cur + [s])
                cur = []
            elif c == NEEDLE_SET and cur:
                out.append(cur)
                cur = [s]
            else:
                cur.append(s)
        if cur:
            out.append(cur)
        return [(b, k) for k, b in enumerate(out)]

    def single_threads(self):
        out = []
        for t in self.th:
            if not out or out[-1] != t:
                out.append(t)
        return out

    # ------------------------------------------------ what the passes must keep
    def meaning(self):
        """Needle points with the number of boundaries and stops before them and their thread, and all stops."""
        out, n, stops, k = [], 0, 0, 0
        for s in self.st:
            c = cmd(s[2])
            if c in SEWING:
                out.append((s[0], s[1], c, k, n + stops))
            elif c in CHANGES:
                n += 1
                k += 1
            elif c in (STOP, FRAME_EJECT):
                stops += 1
        return out

    def sewn_with(self):
        """(position, thread by value, how often the machine halted before) of every needle point."""
        return [(x, y, c, self.th[k] if k < len(self.th) else None, h) for x, y, c, k, h in self.meaning()]
