"""Damaged files for C10 and C11: a well-formed file of any readable format, then edits to
its bytes, to the values of its JSON tree, or to the cells of its CSV rows."""
import csv, io, json
from random import Random
from . import gen as G, mutate as M, ops as O, rofmt as F

EXTRA = ["hus", "hus", "hus", "vp3", "jef", "json", "json", "json", "csv", "csv", "gcode", "pes6", "pes5"]  # formats with more structure get more runs
ODD = [None, True, "", "x", [], {}, -1, 1e308, "12", "nan", [1, 2], "#12", "#ggg", "None", "random", 1 << 40, 0.5]


def gen(r, i):
    n = len(O.SOURCES) + len(EXTRA)
    name = (O.SOURCES + EXTRA)[i % n]
    src = O.source(r, name, r.choice([0, 1, 3, 8, 20]) if r.random() < .7 else None)
    case = {"src": src, "edits": [], "mut": [], "knobs": {"bufsize": r.choice([1, 64, 8192, 8192]), "rand_seed": 3},
            "via": "path" if O.source_ext(src) in O.TEXT_READ or r.random() < .8 else "stream"}
    if name in ("json", "csv", "csvdelta", "csvfull") and r.random() < .6:
        case["edits"] = [[r.randrange(1 << 20), r.randrange(len(ODD)) if r.random() < .7 else 0, r.random() < .2] for _ in range(r.choice([1, 1, 2, 5]))]
    if not case["edits"] or r.random() < .2:
        case["mut"] = M.script(r)
    if name == "hus" and r.random() < .5:  # noise in the compressed streams
        case["mut"] = [["rand", round(.4 + .6 * r.random(), 5), r.choice([4, 20, 100]), 0, r.randrange(1 << 16)]] + case["mut"][:r.choice([0, 0, 1])]
    if name == "hus" and r.random() < .15:
        case["bomb"] = [r.randrange(4), r.randrange(1 << 16), r.choice([1, 3, 40])]
        case["mut"] = case["mut"] if r.random() < .2 else []
    if name == "hus" and not case.get("bomb") and r.random() < .3:  # sound streams, but the header claims more stitches
        case["claim"] = r.choice([0xFFFFFFFF, 0x7FFFFFFF, 0x80000000, 50000000, 5000000])
        case["mut"] = []
    return case


def bomb(mode, seed, blocks):
    """A compressed stream whose Huffman tables are as hostile as the fields allow."""
    q = Random(seed)
    b = F.Bits()

    def var(n):
        b.put(min(n, 7), 3)
        if n >= 7:
            for _ in range(n - 7):
                b.put(1, 1)
            if n < 20:
                b.put(0, 1)
    for _ in range(blocks):
        b.put(q.choice([0, 1, 2, 500]), 16)
        count = 31
        if mode == 0:  # code lengths beyond 16 in the first table
            lens = [q.choice([1, 2, 18, 20, 20]) for _ in range(count)]
        elif mode == 1:  # symbols 3 and 30: lengths 1 and 28 for the characters
            lens = [1 if i in (3, 30) else 0 for i in range(count)]
        else:  # symbols 3 and 18: lengths 1 and 16
            lens = [1 if i in (3, 18) else 0 for i in range(count)]
        b.put(count, 5)
        i = 0
        while i < count:
            if i == 3:
                b.put(0, 2)
            var(lens[i])
            i += 1
        b.put(511, 9)
        for i in range(511):
            b.put(1 if (mode == 3 and i == 510) or (mode < 3 and q.random() < .1) else 0, 1)
        b.put(31, 5)
        for i in range(31):
            var(q.choice([1, 1, 16, 20]) if mode != 3 else q.choice([1, 16]))
        b.put(q.getrandbits(64), 64)
    return b.bytes()


def _slots(v, path=()):
    if isinstance(v, dict):
        for k in v:
            yield path + (k,)
            yield from _slots(v[k], path + (k,))
    elif isinstance(v, list):
        for k in range(len(v)):
            yield path + (k,)
            yield from _slots(v[k], path + (k,))


def shape(path):
    return ".".join("*" if isinstance(k, int) else k for k in path)


def data_of(case):
    """The bytes of the damaged file; call inside a world."""
    b = O.source_bytes(case["src"])
    ext = O.source_ext(case["src"])
    if case["edits"] and ext == "json":
        v = json.loads(b)
        for pos, odd, drop in case["edits"]:
            sl = list(_slots(v))
            if pos & 1:  # every kind of value alike, however many there are
                kinds = sorted(set(shape(p) for p in sl))
                k = kinds[(pos >> 1) % len(kinds)]
                sl = [p for p in sl if shape(p) == k]
            if not sl:
                break
            p = sl[(pos >> 8) % len(sl)]
            t = v
            for k in p[:-1]:
                t = t[k]
            if drop:
                del t[p[-1]]
            else:
                t[p[-1]] = json.loads(json.dumps(ODD[odd]))
        b = json.dumps(v).encode()
    elif case["edits"] and ext == "csv":
        rows = list(csv.reader(io.StringIO(b.decode("utf8"), newline="")))
        for pos, odd, drop in case["edits"]:
            if not rows:
                break
            row = rows[pos % len(rows)]
            if not row:
                continue
            k = (pos // 64) % len(row)
            if drop:
                del row[k]
            else:
                row[k] = str(ODD[odd])
        o = io.StringIO(newline="")
        csv.writer(o, quoting=csv.QUOTE_ALL).writerows(rows)
        b = o.getvalue().encode("utf8", "replace")
    if case.get("claim"):
        b = b[:4] + case["claim"].to_bytes(4, "little") + b[8:]
    if case.get("bomb"):
        le = lambda o: int.from_bytes(b[o:o + 4], "little")
        k, (mode, seed, blocks) = seed_part(case["bomb"][1]), case["bomb"]
        cut = [le(20), le(24), le(28)]
        parts = [b[cut[0]:cut[1]], b[cut[1]:cut[2]], b[cut[2]:]]
        parts[k] = bomb(mode, seed, blocks)
        head, at = bytearray(b[:cut[0]]), cut[0]
        for j in range(3):
            head[20 + 4 * j:24 + 4 * j] = at.to_bytes(4, "little")
            at += len(parts[j])
        b = bytes(head) + b"".join(parts)
    return M.apply(b, case["mut"])


def seed_part(seed):
    return seed % 3
