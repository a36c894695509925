"""Seeded generators of designs, options and fault plans (all plain JSON values)."""
from .const import *

ASCII = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 -_.+"
UNI = "äöüßéñçøåœłžčÅÉλΩжЮ漢字日本語ありがとう한국어€–…✂🧵🪡"

# per format: deltas around which encodings change
EDGE = [0, 1, 2, 3, 4, 5, 9, 13, 14, 26, 27, 31, 39, 40, 41, 62, 63, 64, 65, 80, 81, 82, 94, 120, 121, 122, 123, 124, 125,
        126, 127, 128, 129, 130, 200, 241, 242, 243, 254, 255, 256, 257, 300, 363, 500, 510, 511, 512]
FAR = [1000, 2046, 2047, 2048, 2049, 3199, 3200, 3201, 4094, 4095, 4096, 5000]


def text(r, lo=0, hi=20, uni=0.25, extra=""):
    n = r.randint(lo, hi)
    al = ASCII + extra
    if r.random() < uni:
        al = al + UNI * 2
    s = "".join(r.choice(al) for _ in range(n))
    return s


def color(r):
    m = r.random()
    if m < 0.55:
        return r.randrange(1 << 24)
    if m < 0.7:
        return r.choice([0x000000, 0xFFFFFF, 0xFF0000, 0x00FF00, 0x0000FF, 0x000001, 0x010000, 0x0D0D0D, 0x454545, 0x0A0A0A, 0x800080])
    if m < 0.85:  # near-identical greys
        v = r.choice([0, 1, 2, 126, 127, 128, 254, 255])
        return v << 16 | r.choice([v, max(0, v - 1)]) << 8 | v
    return r.choice([0xED171F, 0xFFFF00, 0x0E1F7C, 0xE1000A, 0x0A55A3]) ^ r.choice([0, 1, 256, 65536])


def thread(r, rich=True, uni=0.3):
    t = {"color": color(r)}
    if rich:
        for k, p in (("description", .6), ("catalog_number", .5), ("brand", .5), ("chart", .3), ("details", .3), ("weight", .3)):
            if r.random() < p:
                t[k] = text(r, 1, 14, uni)
    return t


def _delta(r, mode):
    if mode == "small":
        return r.randint(-12, 12), r.randint(-12, 12)
    if mode == "mid":
        return r.randint(-130, 130), r.randint(-130, 130)
    if mode == "edge":
        return (r.choice(EDGE) * r.choice([1, -1]), r.choice(EDGE) * r.choice([1, -1]))
    if mode == "axis":
        d = r.choice(EDGE) * r.choice([1, -1])
        return (d, 0) if r.random() < .5 else (0, d)
    if mode == "zero":
        return 0, 0
    if mode == "far":
        return (r.choice(FAR + EDGE) * r.choice([1, -1]), r.choice(FAR + EDGE) * r.choice([1, -1]))
    if mode == "big":
        return r.randint(-2500, 2500), r.randint(-2500, 2500)
    raise ValueError(mode)


MODES = ["small", "mid", "edge", "axis", "zero", "far", "big"]


def design(r, size=None, blocks=None, messy=None, stops=True, coords="int", rich=True, threads=True,
           middle=False, limit=15000, uni=0.3, seq=False, extras=None, origin=None, trims=True, jumps=True, profile=None):
    """A design program.  canonical: non-empty colour blocks, one change between; messy: anything goes."""
    if messy is None:
        messy = r.random() < 0.35
    if blocks is None:
        blocks = r.choice([1, 1, 2, 2, 3, 4, 6, 9])
    if size is None:
        size = r.choice([1, 2, 3, 5, 8, 13, 25])
    rare = 1.0 if size * blocks < 300 else 60.0 / (size * blocks) * 5
    profile = profile or r.choice([["small"], ["mid"], ["edge"], ["edge", "axis", "zero"], ["far", "small"], MODES, MODES, ["small", "big"]])
    st = []
    if origin is None:
        origin = r.choice([(0, 0), (0, 0), (r.randint(-500, 500), r.randint(-500, 500)), (r.randint(-3000, 3000), 0), (0, r.randint(-3000, 3000))])
    x, y = origin

    def step():
        nonlocal x, y
        dx, dy = _delta(r, r.choice(profile))
        if abs(x + dx) > limit:
            dx = -dx
        if abs(y + dy) > limit:
            dy = -dy
        x += dx
        y += dy
        if coords == "half":
            return x + r.choice([0, .5]), y + r.choice([0, .5])
        if coords == "float":
            return round(x + r.random() - .5, r.choice([1, 3, 6])), round(y + r.random() - .5, 3)
        return x, y

    def put(c):
        st.append([x, y, c])

    chg = r.choice([COLOR_CHANGE, COLOR_CHANGE, COLOR_BREAK]) if r.random() < .8 else None
    for b in range(blocks):
        if b:
            put(chg if chg is not None else r.choice([COLOR_CHANGE, COLOR_BREAK]))
            if messy and r.random() < .15:
                put(r.choice([COLOR_CHANGE, TRIM, STOP if stops else TRIM, COLOR_BREAK]))
        if jumps and r.random() < .5:
            px, py = step()
            st.append([px, py, JUMP])
        n = max(1, int(size * r.choice([.3, 1, 1, 1.5])))
        if messy and r.random() < .1:
            n = 0
        for i in range(n):
            if trims and r.random() < .05:
                put(TRIM)
            if stops and i and r.random() < .05 * rare:
                put(STOP)
            if jumps and r.random() < (.15 if messy else .04):
                px, py = step()
                st.append([px, py, JUMP])
            if messy and r.random() < .04 * rare:
                put(r.choice([SEQUENCE_BREAK, STITCH_BREAK, TRIM, FRAME_EJECT if stops else TRIM, SLOW, FAST]))
            px, py = step()
            c = STITCH
            if middle and r.random() < .1:
                c = NEEDLE_AT
            st.append([px, py, c])
        if messy and trims and r.random() < .3:
            put(TRIM)
        if messy and jumps and r.random() < .15:
            px, py = step()
            st.append([px, py, JUMP])
    if messy and r.random() < .1:
        put(r.choice([COLOR_CHANGE, TRIM, JUMP, COLOR_BREAK]))
    if r.random() < .8:
        put(END)
    d = {"stitches": st, "threads": [], "extras": {}}
    if threads:
        need = blocks + sum(1 for s in st if s[2] == COLOR_CHANGE)
        d["threads"] = threadlist(r, need, rich, uni)
    if extras:
        d["extras"] = dict(extras)
    return numbered(r, d) if r.random() < .02 else d


def numbered(r, d):
    """Some sewing commands carry thread, needle or order numbers, which say nothing for them."""
    p = r.choice([.1, .5, 1])
    for s in d["stitches"]:
        if s[2] in (STITCH, NEEDLE_AT, SEW_TO, JUMP, TRIM, SEQUIN_EJECT, END) and r.random() < p:
            s[2] |= r.choice([1 << 8, 3 << 8, 1 << 16, 5 << 16, 1 << 24, 2 << 24, r.randrange(1 << 24) << 8])
    return d


def threadlist(r, need, rich=True, uni=0.3):
    out = []
    mode = r.choice(["any", "any", "repeat", "near"])
    pool = [thread(r, rich, uni) for _ in range(3)]
    base = r.randrange(1 << 24)
    for i in range(need):
        if mode == "repeat":
            out.append(dict(r.choice(pool)))
        elif mode == "near":
            t = thread(r, rich, uni)
            t["color"] = (base ^ r.choice([0, 1, 2, 3, 256, 512, 65536, 131072])) & 0xFFFFFF
            out.append(t)
        else:
            out.append(thread(r, rich, uni))
    return out


# ---------------------------------------------------------------- disk
def bufsize(r):
    return r.choice([1, 2, 7, 16, 64, 512, 4096, 8192, 8192, 65536])


def profile_faults(r, ops=("read", "write"), heavy=None):
    """Non-failing disturbances: short transfers and interrupted calls."""
    out = []
    for op in ops:
        if r.random() < .75:
            out.append({"op": op, "file": "*", "kind": "short", "p": r.choice([.1, .5, 1.0]), "max": r.choice([1, 3, 64, 4096]),
                        "seed": r.randrange(1 << 16)})
        if r.random() < .5:
            out.append({"op": op, "file": "*", "kind": "eintr", "p": r.choice([.05, .2, .5]), "seed": r.randrange(1 << 16)})
    r.shuffle(out)
    return out
