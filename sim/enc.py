"""Reference meaning of the encoder's commands and save options, from the documentation: which needle points,
sequins, boundaries and trims a saved design must have, and which extra needle points it may have."""
import math
from .const import *

SEWING = (STITCH, NEEDLE_AT, SEW_TO)
UTIL, TOJUMP, TOSTITCH, REMOVE = CONTINGENCY_SEQUIN_UTILIZE, CONTINGENCY_SEQUIN_JUMP, CONTINGENCY_SEQUIN_STITCH, CONTINGENCY_SEQUIN_REMOVE
# what a format's saves use when the caller does not say
DEFAULTS = {
    "dst": dict(max_stitch=121, max_jump=121, sequin=UTIL), "exp": dict(max_stitch=127, max_jump=127), "jef": dict(max_stitch=127, max_jump=127),
    "pes": dict(max_stitch=2047, max_jump=2047), "vp3": dict(max_stitch=255, max_jump=3200), "u01": dict(max_stitch=127, max_jump=127),
    "xxx": dict(max_stitch=124, max_jump=124), "tbf": dict(max_stitch=127, max_jump=127, explicit_trim=True), "gcode": dict(sequin=TOSTITCH),
}
for _f in ("pec", "pes1", "pes6", "pes1t", "pes6t"):
    DEFAULTS[_f] = DEFAULTS["pes"]
DEFAULTS["dstx"] = DEFAULTS["dst"]


class Map:
    """An affine map of the plane; commands act in the coordinates the map is from."""

    def __init__(self):
        self.m = (1.0, 0.0, 0.0, 1.0, 0.0, 0.0)

    def __call__(self, x, y):
        a, b, c, d, e, f = self.m
        return (a * x + c * y + e, b * x + d * y + f)

    def inner(self, a, b, c, d, e, f):
        A, B, C, D, E, F = self.m
        self.m = (A * a + C * b, B * a + D * b, A * c + C * d, B * c + D * d, A * e + C * f + E, B * e + D * f + F)

    def translate(self, x, y):
        self.inner(1, 0, 0, 1, x, y)

    def scale(self, sx, sy, q=(0, 0)):
        self.inner(sx, 0, 0, sy, q[0] - sx * q[0], q[1] - sy * q[1])

    def rotate(self, deg, q=(0, 0)):
        t = math.radians(deg)
        c, s = math.cos(t), math.sin(t)
        self.inner(c, s, -s, c, q[0] - c * q[0] + s * q[1], q[1] - s * q[0] - c * q[1])

    def back(self, x, y):
        a, b, c, d, e, f = self.m
        det = a * d - b * c
        x, y = x - e, y - f
        return ((d * x - c * y) / det, (a * y - b * x) / det)


def interpret(design, opts):
    """Elements in order:
      ("B", [marks])               boundary marks between needle points: C change, S stop, T trim, F fast, L slow
      ("L", a, b, step)            any needle points on the line from a to b
      ("P", point, step, jump)     one needle point; the step to it and the jumps before it within the limits
      ("Q", point, step, jump)     one sequin
      ("T", point, anchor, step)   a tie of small stitches at point towards anchor
    """
    st = design["stitches"]
    ms, mj = opts.get("max_stitch", math.inf), opts.get("max_jump", math.inf)
    sequin = opts.get("sequin", TOJUMP)
    long = opts.get("long", CONTINGENCY_LONG_STITCH_JUMP_NEEDLE)
    on, off = opts.get("tie_on", False), opts.get("tie_off", False)
    explicit = opts.get("explicit_trim", False)
    speeds = opts.get("writes_speeds", True)
    rnd = opts.get("round", False)
    A = Map()
    if opts.get("translate"):
        A.translate(*opts["translate"])
    if opts.get("scale") is not None:
        s = opts["scale"]
        A.scale(*(s if isinstance(s, (list, tuple)) else (s, s)))
    if opts.get("rotate"):
        A.rotate(opts["rotate"])
    out = []
    pos = (0.0, 0.0)
    trimmed, order, jumping = True, -1, False
    last = None                      # where the needle went in last
    gap = [ms, mj]

    def mark(m):
        if out and out[-1][0] == "B":
            out[-1][1].append(m)
        else:
            out.append(("B", [m]))

    def family(i):
        return 0 <= i < len(st) and st[i][2] in SEWING + (SEQUIN_EJECT,)

    def at(i):
        return A(st[i][0], st[i][1])

    def tie(i):
        if family(i):
            out.append(("T", pos, at(i), ms))

    def trim():
        nonlocal trimmed
        if not trimmed:
            if off:
                tie(i - 1)
            mark("T")
            trimmed = True

    def more():
        for s in st[i:]:
            c = s[2] & 0xFF
            if s[2] == NO_COMMAND:
                continue
            if c in SEWING + (TIE_ON, SEQUIN_EJECT):
                return True
            if c == END:
                return False
        return False

    def change():
        nonlocal order, trimmed
        order += 1
        if order:
            mark("C")
        trimmed = True

    def point(k, p, step):
        nonlocal pos, gap, last
        out.append((k, p, step, max(gap)))
        pos = last = p
        gap = [ms, mj]

    def begin(p):
        nonlocal trimmed, order
        if order == -1:
            order = 0
        trimmed = False
        point("P", p, max(mj, ms))
        if on:
            tie(i + 1)

    for i, s in enumerate(st):
        if s[2] == NO_COMMAND:
            continue
        c = s[2] & 0xFF
        p = A(s[0], s[1])
        if rnd:
            p = (float(round(p[0])), float(round(p[1])))
        if c in SEWING:
            if trimmed:
                begin(p)
            else:
                sew = c == SEW_TO or (c == STITCH and long == CONTINGENCY_LONG_STITCH_SEW_TO)
                none = c == STITCH and long == CONTINGENCY_LONG_STITCH_NONE
                if jumping:
                    sew = none = False
                    jumping = False
                if sew and max(abs(p[0] - pos[0]), abs(p[1] - pos[1])) > ms:
                    out.append(("L", pos, p, ms))
                point("P", p, math.inf if none else ms)
        elif c == SEQUIN_EJECT:
            if trimmed:
                begin(p)
            if sequin == REMOVE:
                continue
            if max(abs(p[0] - pos[0]), abs(p[1] - pos[1])) > ms:
                out.append(("L", pos, p, ms))
            if sequin == TOJUMP:
                pos = p
            else:
                point("Q" if sequin == UTIL else "P", p, ms)
        elif c == JUMP:
            if not jumping:
                pos = p
        elif c == STITCH_BREAK:
            jumping = True
        elif c in (TRIM, SEQUENCE_BREAK):
            trim()
        elif c == FRAME_EJECT:
            trim()
            pos = p
            mark("S")
            trimmed = True
        elif c == STOP:
            mark("S")
            trimmed = True
        elif c == COLOR_BREAK:
            if order < 0:
                continue
            if not trimmed:
                if off:
                    tie(i - 1)
                if explicit:
                    mark("T")
                    trimmed = True
            if more():
                change()
        elif c in (COLOR_CHANGE, NEEDLE_SET):
            if not trimmed:
                if off:
                    tie(i - 1)
                if explicit:
                    mark("T")
            change()
        elif c == TIE_ON:
            if on:
                tie(i + 1)
        elif c == TIE_OFF:
            if off:
                tie(i - 1)
        elif c in (SLOW, FAST):
            if speeds:
                mark("L" if c == SLOW else "F")
        elif c == END:
            break
        elif c == MATRIX_TRANSLATE:
            A.translate(s[0], s[1])
        elif c == MATRIX_SCALE_ORIGIN:
            A.scale(s[0], s[1])
        elif c == MATRIX_ROTATE_ORIGIN:
            A.rotate(s[0])
        elif c == MATRIX_SCALE:
            A.scale(s[0], s[1], A.back(*pos))
        elif c == MATRIX_ROTATE:
            A.rotate(s[0], A.back(*pos))
        elif c == MATRIX_RESET:
            A = Map()
        elif c == OPTION_MAX_STITCH_LENGTH:
            ms = s[0]
            gap[0] = max(gap[0], ms)
        elif c == OPTION_MAX_JUMP_LENGTH:
            mj = s[0]
            gap[1] = max(gap[1], mj)
        elif c == OPTION_EXPLICIT_TRIM:
            explicit = True
        elif c == OPTION_IMPLICIT_TRIM:
            explicit = False
        elif c in (CONTINGENCY_TIE_ON_THREE_SMALL, CONTINGENCY_TIE_ON_NONE):
            on = c == CONTINGENCY_TIE_ON_THREE_SMALL
        elif c in (CONTINGENCY_TIE_OFF_THREE_SMALL, CONTINGENCY_TIE_OFF_NONE):
            off = c == CONTINGENCY_TIE_OFF_THREE_SMALL
        elif c in (CONTINGENCY_LONG_STITCH_NONE, CONTINGENCY_LONG_STITCH_JUMP_NEEDLE, CONTINGENCY_LONG_STITCH_SEW_TO):
            long = c
        elif c in (UTIL, TOJUMP, TOSTITCH, REMOVE):
            sequin = c
    return out


def events(stitches, marks="CSTFL"):
    """A command list as the same kind of stream: needle points and sequins with the step to them, and marks."""
    out, pos, gap, jumped = [], (0, 0), 0.0, True
    sub = {COLOR_CHANGE: "C", NEEDLE_SET: "C", COLOR_BREAK: "C", STOP: "S", TRIM: "T", FAST: "F", SLOW: "L"}
    for k, s in enumerate(stitches):
        if s[2] < 0:
            continue
        c = s[2] & 0xFF
        p = (s[0], s[1])
        step = max(abs(p[0] - pos[0]), abs(p[1] - pos[1]))
        if c in (STITCH, SEQUIN_EJECT):
            out.append(("P" if c == STITCH else "Q", p, step, gap, jumped and p == pos, k))
            pos, gap, jumped = p, 0.0, False
        elif c == JUMP:
            gap = max(gap, step)
            pos, jumped = p, True
        elif sub.get(c, "-") in marks:
            if out and out[-1][0] == "B":
                out[-1][1].append(sub[c])
            else:
                out.append(("B", [sub[c]]))
    return out


def near(p, a, b, tol):
    """p is within tol of the segment from a to b."""
    dx, dy = b[0] - a[0], b[1] - a[1]
    n = dx * dx + dy * dy
    t = 0 if n == 0 else max(0.0, min(1.0, ((p[0] - a[0]) * dx + (p[1] - a[1]) * dy) / n))
    return abs(a[0] + t * dx - p[0]) <= tol and abs(a[1] + t * dy - p[1]) <= tol


def match(els, evs, tol, kinds="CSTFL", same=True, lead=False, limits=True, loose=None, extra=False):
    """None when the stream is what the elements ask for, else (what, message).  same: marks must be equal, else
    any mark stands for any other; lead: zero-length needle points where a jump lands may come and go; extra: so may
    marks be added."""
    loose = tol if loose is None else loose
    E = []
    for e in els:
        if e[0] == "B":
            m = [x for x in e[1] if x in kinds]
            if m:
                if E and E[-1][0] == "B":
                    E[-1] = ("B", E[-1][1] + m)
                else:
                    E.append(("B", m))
        else:
            E.append(e)
    # boundaries before the first needle point and after the last are judged elsewhere
    while E and E[0][0] == "B":
        E.pop(0)
    while E and E[-1][0] == "B":
        E.pop()
    X = []
    for v in evs:
        if v[0] == "B":
            m = [x for x in v[1] if x in kinds]
            if m and X:
                X.append(("B", m))
        else:
            X.append(v)
    while X and X[-1][0] == "B":
        X.pop()
    N = len(E)

    def close(states):
        """Elements that need no event."""
        todo = list(states)
        seen = set(states)
        while todo:
            i, n = todo.pop()
            nx = None
            if i < N:
                if E[i][0] == "L":
                    nx = (i + 1, 0)
                elif E[i][0] == "T" and (n >= 4 or n == -1):
                    nx = (i + 1, 0)
                elif lead and E[i][0] == "P" and i and n == 0:
                    j = i - 1
                    while j and E[j][0] in "BTL":
                        j -= 1
                    if E[j][0] == "P" and abs(E[j][1][0] - E[i][1][0]) <= tol and abs(E[j][1][1] - E[i][1][1]) <= tol:
                        nx = (i + 1, 0)
                elif lead and E[i][0] == "P" and i == 0 and abs(E[i][1][0]) <= tol and abs(E[i][1][1]) <= tol:
                    nx = (i + 1, 0)
            if nx and nx not in seen:
                seen.add(nx)
                todo.append(nx)
        return seen

    cur = close({(0, 0)})
    for v in X:
        nxt = set()
        why = []
        for i, n in cur:
            if v[0] == "B":
                if i < N and E[i][0] == "B" and (not same or E[i][1] == v[1]):
                    nxt.add((i + 1, 0))
                if extra or not same and (i and E[i - 1][0] == "B" or lead and (i == 0 or i == N)):
                    nxt.add((i, n))
                continue
            if lead and v[0] == "P" and v[4]:
                nxt.add((i, n))
            if i >= N:
                continue
            e = E[i]
            if e[0] == v[0]:
                if abs(e[1][0] - v[1][0]) <= tol and abs(e[1][1] - v[1][1]) <= tol:
                    if limits and v[2] > e[2] + 1e-6 and v[2] > 1e-6:
                        why.append(("step", "the step to needle point %r is %g, the limit %g" % (v[1], v[2], e[2])))
                    elif limits and v[3] > e[3] + 1e-6:
                        why.append(("jump", "a jump before needle point %r is %g, the limit %g" % (v[1], v[3], e[3])))
                    else:
                        nxt.add((i + 1, 0))
            if e[0] in "LT" and limits and v[2] > e[3] + 1e-6:
                if near(v[1], e[1], e[2], loose):
                    why.append(("step", "the step to the added needle point %r is %g, the limit %g" % (v[1], v[2], e[3])))
                continue
            if e[0] == "L" and v[0] == "P" and near(v[1], e[1], e[2], loose):
                nxt.add((i, 0))
            if e[0] == "T" and v[0] == "P":
                if near(v[1], e[1], e[2], loose):
                    m = min(n + 1, 3)
                    nxt.add((i, m))
                    if m == 3 and abs(v[1][0] - e[1][0]) <= loose and abs(v[1][1] - e[1][1]) <= loose:
                        nxt.add((i, 4))
        nxt = close(nxt)
        if not nxt:
            if why:
                return why[0]
            i = max(a for a, _ in cur)
            e = E[i] if i < N else None
            n = sum(1 for q in E[:i] if q[0] in "PQ")
            what = "boundary" if v[0] == "B" or (e and e[0] == "B") else "sequin" if v[0] == "Q" or (e and e[0] == "Q") else "tie" if e and e[0] == "T" else "path"
            return what, "after %d needle points the design means %s, there is %s" % (n, describe(e), describe(v))
        cur = nxt
    if not any(i == N for i, _ in cur):
        i = max(a for a, _ in cur)
        return "tie" if E[i][0] == "T" else "sequin" if E[i][0] == "Q" else "path", "the commands end where the design means %s" % describe(E[i])
    return None


def describe(e):
    if e is None:
        return "the end"
    return {"P": "a needle point at %r", "Q": "a sequin at %r", "B": "the marks %r", "L": "sewing from %r", "T": "a tie at %r"}[e[0]] % (e[1],)


class XY:
    """A pair as callers' point classes have it."""

    def __init__(self, x, y):
        self.x, self.y = x, y

    def __eq__(self, other):
        return isinstance(other, XY) and (self.x, self.y) == (other.x, other.y)


PAIRS = {"list": list, "tuple": tuple, "object": lambda v: XY(*v)}


def as_settings(opts):
    """The same options for the library."""
    o = {}
    for k, v in opts.items():
        if k == "sequin":
            o["sequin_contingency"] = v
        elif k == "long":
            o["long_stitch_contingency"] = v
        elif k == "tie_on":
            o[k] = v if opts.get("plain") else CONTINGENCY_TIE_ON_THREE_SMALL if v else CONTINGENCY_TIE_ON_NONE
        elif k == "tie_off":
            o[k] = v if opts.get("plain") else CONTINGENCY_TIE_OFF_THREE_SMALL if v else CONTINGENCY_TIE_OFF_NONE
        elif k in ("plain", "pairs"):
            pass
        elif isinstance(v, list):
            o[k] = PAIRS[opts.get("pairs", "tuple")](v)
        else:
            o[k] = v
    return o


# ---------------------------------------------------------------- generation
def options(r, fmt=None):
    o = {}
    for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
        k = r.choice(["max_stitch", "max_jump", "sequin", "long", "tie_on", "tie_off", "explicit_trim", "writes_speeds", "translate", "scale", "rotate", "round", "full_jump"])
        o[k] = {"max_stitch": lambda: r.choice([20, 33, 50, 100, 120]), "max_jump": lambda: r.choice([20, 33, 50, 100, 120]),
                "sequin": lambda: r.choice([TOJUMP, TOSTITCH, REMOVE] + ([UTIL] * 2 if fmt in (None, "dst", "dstx") else [])),
                "long": lambda: r.choice([CONTINGENCY_LONG_STITCH_JUMP_NEEDLE, CONTINGENCY_LONG_STITCH_SEW_TO] + [CONTINGENCY_LONG_STITCH_NONE] * (fmt is None)),
                "tie_on": lambda: r.random() < .8, "tie_off": lambda: r.random() < .8, "explicit_trim": lambda: r.random() < .7,
                "writes_speeds": lambda: r.random() < .3, "translate": lambda: [r.randint(-300, 300), r.randint(-300, 300)],
                "scale": lambda: r.choice([2, .5, -1, 1.3, 3, [1, -1], [2, .5], [-1.5, 1]]), "rotate": lambda: r.choice([90, 180, -90, 45, 10, 33.3, 270, 360]),
                "round": lambda: True, "full_jump": lambda: r.random() < .5}[k]()
    if r.random() < .3:
        o["plain"] = True
    if any(isinstance(v, list) for v in o.values()):
        o["pairs"] = r.choice(["tuple", "list", "object"])
    return o


def program(r, size=None, stops=True, sequins=True, flt=None):
    """A design program with inline encoder commands, in a few colour blocks."""
    st = []
    x = y = 0
    if r.random() < .6:
        x, y = r.randint(-400, 400), r.randint(-400, 400)
    far = r.choice([.03, .1, .3])
    n = size or r.choice([3, 5, 8, 13, 20, 30])
    rate = r.choice([.05, .15, .3])
    home = r.choice([0, 0, .05, .15])
    odd = r.random() < .2

    def go():
        nonlocal x, y
        if r.random() < home:
            dx, dy = -x, -y
        elif r.random() < far:
            dx, dy = r.choice([(r.randint(-900, 900), r.randint(-900, 900)), (r.randint(-300, 300), 0), (0, r.choice([-1, 1]) * r.choice([100, 121, 122, 127, 128, 240, 254, 255, 256, 2047, 2048]))])
        else:
            dx, dy = r.randint(-30, 30), r.randint(-30, 30)
        x += dx if abs(x + dx) < 5000 else -dx
        y += dy if abs(y + dy) < 5000 else -dy
        if flt:
            return round(x + r.random(), 2), round(y + r.random(), 2)
        return x, y

    def put(c, a=None, b=None):
        st.append([x if a is None else a, y if b is None else b, c])

    def special():
        k = r.choice(["tieset", "tieset", "tie", "long", "sequin", "seqset", "max", "matrix", "matrix", "trimopt", "break", "speed", "eject", "no"])
        if k == "tieset":
            put(r.choice([CONTINGENCY_TIE_ON_THREE_SMALL, CONTINGENCY_TIE_OFF_THREE_SMALL] * 2 + [CONTINGENCY_TIE_ON_NONE, CONTINGENCY_TIE_OFF_NONE]), 0, 0)
        elif k == "tie":
            if any(s[2] in SEWING for s in st):
                put(r.choice([TIE_ON, TIE_OFF]), 0, 0)
        elif k == "long":
            put(r.choice([CONTINGENCY_LONG_STITCH_JUMP_NEEDLE, CONTINGENCY_LONG_STITCH_SEW_TO]), 0, 0)
        elif k == "sequin" and sequins:
            for _ in range(r.choice([1, 2, 3])):
                put(SEQUIN_EJECT, *go())
        elif k == "seqset" and sequins:
            put(r.choice([TOJUMP, TOSTITCH, REMOVE] + [UTIL] * (2 if sequins == "all" else 0)), 0, 0)
        elif k == "max":
            put(r.choice([OPTION_MAX_STITCH_LENGTH, OPTION_MAX_JUMP_LENGTH]), r.choice([15, 40, 77, 100, 120]), 0)
        elif k == "matrix":
            m = r.choice([MATRIX_TRANSLATE, MATRIX_TRANSLATE, MATRIX_SCALE, MATRIX_ROTATE, MATRIX_SCALE_ORIGIN, MATRIX_ROTATE_ORIGIN, MATRIX_RESET])
            if m == MATRIX_TRANSLATE:
                put(m, r.randint(-200, 200), r.randint(-200, 200))
            elif m in (MATRIX_SCALE, MATRIX_SCALE_ORIGIN):
                put(m, *r.choice([(2, 2), (.5, .5), (-1, 1), (1, -1), (1.5, .75)]))
            elif m == MATRIX_RESET:
                put(m, 0, 0)
            else:
                put(m, r.choice([90, -90, 180, 45, 30, 7]), 0)
        elif k == "trimopt":
            put(r.choice([OPTION_EXPLICIT_TRIM, OPTION_EXPLICIT_TRIM, OPTION_IMPLICIT_TRIM]), 0, 0)
        elif k == "break":
            put(r.choice([STITCH_BREAK, SEQUENCE_BREAK, TRIM]))
        elif k == "speed":
            put(r.choice([SLOW, FAST]))
        elif k == "eject" and stops:
            put(r.choice([FRAME_EJECT, STOP]), *go())
        elif k == "no":
            put(NO_COMMAND)

    for b in range(r.choice([1, 1, 2, 3, 4])):
        if b or odd and r.random() < .1:
            put(r.choice([COLOR_CHANGE, COLOR_BREAK]))
        if odd and r.random() < .5:  # a block without stitches of its own
            for _ in range(r.choice([0, 1, 1, 2, 3])):
                k = r.choice(["special", "special", "sequin", "jump", "trim"])
                if k == "special":
                    special()
                elif k == "sequin" and sequins:
                    put(SEQUIN_EJECT, *go())
                elif k == "jump":
                    put(JUMP, *go())
                else:
                    put(TRIM)
            continue
        for _ in range(max(1, n // (b + 1))):
            if r.random() < rate:
                special()
            if r.random() < .1:
                put(JUMP, *go())
            put(r.choice([STITCH] * 8 + [SEW_TO, NEEDLE_AT]), *go())
    if r.random() < .2:
        special()
    if r.random() < .7:
        put(END)
    return {"stitches": st, "threads": [], "extras": {}}


def begun(st):
    """Which block each change command of a program begins (None: none), and how many blocks there are."""
    order, out = -1, []
    for i, s in enumerate(st):
        if s[2] < 0:
            continue
        c = s[2] & 0xFF
        if c == END:
            break
        if c in SEWING + (SEQUIN_EJECT,):
            order = max(order, 0)
        elif c in (COLOR_CHANGE, NEEDLE_SET):
            order += 1
            out.append(order)
        elif c == COLOR_BREAK:  # only between two blocks
            rest = [t[2] & 0xFF for t in st[i:] if t[2] >= 0]
            sews = [k for k, t in enumerate(rest) if t in SEWING + (TIE_ON, SEQUIN_EJECT)]
            if order >= 0 and sews and END not in rest[:sews[0]]:
                order += 1
                out.append(order)
            else:
                out.append(None)
    return out, order + 1


def extent(els):
    return max([max(abs(c) for p in e[1:] if isinstance(p, tuple) for c in p) for e in els if e[0] in "PQLT"] or [0])
