"""Damage to stored bytes: truncation, flips, splices, runs and hostile size fields."""
from random import Random

HOT = [0, 1, 2, 0x7F, 0x80, 0x81, 0xFE, 0xFF, 0x10, 0x20, 0xF0, 0xB0]


def script(r, n=None):
    """A list of byte edits, positions as fractions so that they fit any file."""
    if n is None:
        n = r.choice([1, 1, 1, 2, 3, 6, 15])
    out = []
    for _ in range(n):
        k = r.choice(["cut", "flip", "flip", "set", "set", "set", "word", "word", "dup", "del", "rand", "zero", "tail", "swap"])
        pos = r.random()
        if r.random() < .5:
            pos = r.random() ** 3 * .5  # headers matter most
        out.append([k, round(pos, 5), r.choice([1, 1, 2, 3, 4, 8, 40, 300]), r.choice(HOT) if r.random() < .6 else r.randrange(256), r.randrange(1 << 16)])
    if r.random() < .03:
        out.insert(0, ["noise", 0, r.choice([0, 1, 3, 20, 200, 2000]), 0, r.randrange(1 << 16)])
    return out


def apply(data, sc):
    b = bytearray(data)
    for k, pos, n, v, seed in sc:
        i = min(len(b), int(pos * (len(b) + 1)))
        if k == "cut":
            del b[i:]
        elif k == "flip":
            if i < len(b):
                b[i] ^= 1 << (v & 7)
        elif k == "set":
            if i < len(b):
                b[i] = v
        elif k == "word":  # a hostile 16/24/32-bit field
            w = [2, 3, 4, 4][seed % 4]
            val = [0, 1, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xFFFF, 0x10000, len(b), len(b) - 1, 0xFFFFFF][(seed >> 2) % 10]
            f = (val & ((1 << (8 * w)) - 1)).to_bytes(w, "little" if seed & 0x800 else "big")
            b[i:i + w] = f
        elif k == "dup":
            b[i:i] = b[i:i + n]
        elif k == "del":
            del b[i:i + n]
        elif k == "rand":
            q = Random(seed)
            for j in range(i, min(len(b), i + n)):
                b[j] = q.randrange(256)
        elif k == "zero":
            b[i:i + n] = bytes(len(b[i:i + n]))
        elif k == "tail":
            q = Random(seed)
            b += bytes(q.randrange(256) for _ in range(n))
        elif k == "swap":
            j = (i + n) % (len(b) or 1)
            if i < len(b) and j < len(b):
                b[i], b[j] = b[j], b[i]
        elif k == "noise":
            q = Random(seed)
            b = bytearray(q.randrange(256) for _ in range(n))
    return bytes(b)
