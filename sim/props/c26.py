"""C26: a design is what its editing calls say, through failed and interrupted calls, saves and reloads."""
from .. import edit as E, gen as G, harness as H, sched as S
from ..const import *
from ..csscolors import NAMES

CASES = {"quick": 9000, "thorough": 400000}
RULE = "a run is a history of editing, combining, inspecting, saving and reloading calls on one design, some failing or interrupted part way, each compared with a by-value model; distinct cases counted"
MEASURE = "distinct (call, argument class, call before, size class) combinations"
STEP = 4_000_000
COMMANDS = [STITCH, JUMP, TRIM, STOP, END, COLOR_CHANGE, NEEDLE_SET, SEQUIN_MODE, SEQUIN_EJECT, SLOW, FAST, COLOR_BREAK, STITCH_BREAK, SEQUENCE_BREAK,
            FRAME_EJECT, SEW_TO, NEEDLE_AT, TIE_ON, TIE_OFF, MATRIX_TRANSLATE, OPTION_EXPLICIT_TRIM, NO_COMMAND]
CORE = {STITCH, JUMP, TRIM, STOP, END, COLOR_CHANGE, SEQUIN_EJECT, SLOW, FAST}
# what each pass is for: breaks and needle changes count as thread changes for some
PASS_ON = {"trims": CORE | {NEEDLE_SET}, "gettrim": CORE | {NEEDLE_SET}, "stable": CORE}
RICH = CORE | {NEEDLE_SET, COLOR_BREAK, SEW_TO, NEEDLE_AT}
REL = {"stitch": STITCH, "move": JUMP, "stop": STOP, "trim": TRIM, "color_change": COLOR_CHANGE, "sequin_eject": SEQUIN_EJECT, "sequin_mode": SEQUIN_MODE, "end": END}
ADD = ["rel"] * 6 + ["rel_at"] * 4 + ["needle", "abs", "abs", "abs_at", "insert", "prepend", "command", "relative", "translation"]
BLOCK = ["iadd_points", "iadd_points", "iadd_cmd", "iadd_thread", "iadd_meta", "iadd_empty", "block", "block", "stitchblock"]
THREAD = ["thread", "thread", "meta", "set_meta", "set_stitch", "del_stitch", "poke"]
COMBINE = ["iadd_pattern", "add_pattern", "add_pattern", "plus"]
WHOLE = ["translate", "center", "affine", "clear", "copy", "fixcolors"]
PASS = ["trims", "trims", "dupstop", "stopdup", "eject", "gettrim", "merge", "stable"]
LOOK = ["look"] * 6
FAIL = ["bad_points", "bad_block", "bad_stitchblock", "bad_iadd", "bad_index", "bad_read"]
DISK = ["persist", "persist"]


def value(r):
    x = r.random()
    return r.randint(-60, 60) if x < .8 else r.choice([0, 0, 1, -1, 3000, -5000]) if x < .95 else r.randint(-999, 999) / 8


def thread(r):
    x = r.random()
    c = r.choice([0, 0xFF0000, 0x0000FF, 0x123456]) if x < .5 else r.randrange(1 << 24)
    f = {}
    for k in E.FIELDS:
        if r.random() < .2:
            f[k] = G.text(r, 1, 5)
    return [c] + [f.get(k) for k in E.FIELDS]


def gen(r, i, tier):
    n = r.choice([3, 6, 10, 16, 25, 40])
    pool = ADD + BLOCK + THREAD + WHOLE + LOOK + DISK + COMBINE + PASS
    m = r.random()
    if m < .25:    # core commands only, so that the passes apply
        pool = ["core"] * 20 + ["thread"] * 3 + LOOK + PASS + ["copy", "persist"]
    elif m < .5:
        pool = ADD * 2 + LOOK + ["copy"]
    elif m < .6:
        pool += FAIL * 3
    ops = []
    for _ in range(n):
        ops.append([r.choice(pool), r.randrange(1 << 16), value(r), value(r), r.randrange(1 << 16), thread(r)])
    c = {"ops": ops, "faults": [], "knobs": {"bufsize": G.bufsize(r), "rand_const": 0x35A06F}, "inject": [],
         "start": G.design(r, size=r.choice([1, 3]), blocks=r.choice([1, 2, 3]), limit=3000, extras={"name": "s"}) if r.random() < .5 else None,
         "other": [G.design(r, size=r.choice([1, 2]), blocks=r.choice([1, 2, 3]), limit=3000, extras={k: G.text(r, 1, 5) for k in ("name", "tp") if r.random() < .5}) for _ in range(2)]}
    for o in c["other"] + ([c["start"]] if c["start"] else []):  # threads for all blocks, seams that meet in equal threads
        need = 1 + sum(1 for s in o["stitches"] if s[2] >= 0 and s[2] & 0xFF in E.CHANGES)
        if r.random() < .8:
            o["threads"] = [dict(zip(("color",) + E.FIELDS, thread(r))) for _ in range(need)]
    for j in reversed(range(n)):
        th = c["other"][ops[j][1] & 1]["threads"]
        if ops[j][0] in COMBINE and th and r.random() < .4:
            ops.insert(j, ["thread", 0, 0, 0, 0, [th[0].get(k) for k in ("color",) + E.FIELDS]])
    c["rich"] = r.random() < .5
    c["numbers"] = r.random() < .2
    if m < .25:
        c["start"] = None
    for o in c["other"] + ([c["start"]] if c["start"] else []):
        if r.random() < .1:
            G.numbered(r, o)
    for o in c["other"]:    # designs that begin with thread changes and settings
        while r.random() < .25:
            o["stitches"].insert(0, [value(r), value(r), r.choice([COLOR_CHANGE, COLOR_BREAK, NEEDLE_SET, NEEDLE_SET | r.randrange(6) << 16, COLOR_CHANGE | 1 << 8, SLOW, TRIM, JUMP, STOP])])
    if r.random() < .2:
        c["inject"] = [[0, int(2 ** r.uniform(0, 11)), r.choice(["KeyboardInterrupt", "MemoryError"])]]
    if r.random() < .4:
        c["faults"] = G.profile_faults(r)
    return c


NAMED = sorted(NAMES)


def colour_text(t):
    """A text for a colour, and the colour: names, and digits in every length."""
    k = t[0] * 7919 >> 4
    name = NAMED[k % len(NAMED)]
    h = "%03x" % (k & 0xFFF)
    return [("#%06x" % t[0], t[0]), ([name, name.upper(), name.title()][k // 7 % 3], NAMES[name]), ("#" + h, int("".join(c + c for c in h), 16)),
            ("#%s%x" % (h, k & 15), int("".join(c + c for c in h), 16)), ("#%06X%02x" % (t[0], k & 255), t[0])][t[0] % 5]


def thread_object(t):
    if t[0] % 3 == 0:
        return H.pe.EmbThread(t[0], *t[1:])
    o = H.pe.EmbThread()
    o.color = t[0]
    for k, v in zip(E.FIELDS, t[1:]):
        setattr(o, k, v)
    return o if t[0] % 3 == 1 else H.pe.EmbThread(o)


def thread_argument(t, how):
    """(argument, value): the ways to give a thread."""
    if how == 0:
        return thread_object(t), list(t)
    if how == 1:
        text, rgb = colour_text(t)
        return text, [rgb] + [None] * 6
    if how == 2:
        return t[0], [t[0]] + [None] * 6
    q = t[0] >> 3
    text, rgb = colour_text(t)
    k = [t[0]] * 6 + [rgb, rgb, t[0]]
    d = [{"color": t[0]}, {"rgb": t[0]}, {"hex": "#%06x" % t[0]}, {"color": "#%06X" % t[0]}, {"rgb": (t[0] >> 16, t[0] >> 8 & 255, t[0] & 255)}, {"hex": "%06x" % t[0]},
         {"color": text}, {"rgb": text}, {"rgb": [t[0] >> 16, t[0] >> 8 & 255, t[0] & 255]}][q % 9]
    rgb = k[q % 9]
    names = {"description": ("description", "desc", "name"), "catalog_number": ("catalog", "id"), "brand": ("brand", "manufacturer"), "details": ("details",), "weight": ("weight",)}
    for k, v in zip(E.FIELDS, t[1:]):
        if v is not None and k in names:
            d[names[k][q % len(names[k])]] = v
    return d, [rgb] + [v if k in names else None for k, v in zip(E.FIELDS, t[1:])]


class Skip(Exception):
    pass


class Maker:
    """Turns an operation into a call on the library and one on the model."""

    def __init__(self, case, w, model, sources, source_models):
        self.case, self.w, self.m, self.src, self.srcm = case, w, model, sources, source_models

    def points(self, op):
        _, n, dx, dy, k, t = op
        cnt = n % 4 + 1
        pts = [(dx + 3 * q, dy - 2 * q) for q in range(cnt)]
        how = k % 5
        if how == 0:
            return pts, "tuples"
        if how == 1:
            return [[a, b, COMMANDS[(k + a_i) % len(COMMANDS)]] for a_i, (a, b) in enumerate(pts)], "lists"
        if how == 2:
            return [complex(a, b) for a, b in pts], "complex"
        if how == 3:
            return tuple([a, b] if q % 2 else [a, b, JUMP] for q, (a, b) in enumerate(pts)), "mixed"
        return [v for q in pts for v in q], "numbers"

    def make(self, op):
        """(library call, model call, class of the arguments)"""
        kind, n, dx, dy, k, t = op
        m = self.m
        P = H.pe
        N = len(m.st)

        def at(lo=None):
            """A position; after the first, before the last, counted from the end."""
            if not N:
                raise Skip
            pos = n % (N + 1)
            if k & 1 and pos < N:
                pos -= N
            return pos
        need_prev = lambda: (_ for _ in ()).throw(Skip()) if m.prev is None else None
        if kind == "core":
            c = [STITCH] * 6 + [JUMP] * 6 + [TRIM, STOP, STOP, COLOR_CHANGE, COLOR_CHANGE, SEQUIN_EJECT, FAST]
            c = c[n % len(c)]
            if t[0] & 3 == 0 and n < 0x3000:
                c = {STITCH: (SEW_TO, NEEDLE_AT, STITCH)[t[0] >> 2 & 1 if self.case["rich"] else 2], COLOR_CHANGE: (COLOR_BREAK, NEEDLE_SET | (n % 5 << 16), COLOR_CHANGE)[t[0] >> 2 & 1 if self.case["rich"] else 1]}.get(c, c)
            if c == JUMP and k % 3 == 0 and N:  # back to where the thread is
                q = next((s for s in reversed(m.st) if s[2] & 0xFF == STITCH), None)
                if q:
                    return lambda p: p.move_abs(q[0], q[1]), lambda d: d.absolute(JUMP, q[0], q[1]), "back"
            plain = c
            if self.case.get("numbers") and k & 12 == 0 and c in (STITCH, JUMP, TRIM, STOP, SEQUIN_EJECT, COLOR_CHANGE):  # numbers that say nothing
                c |= (1 << 8, 3 << 16, 1 << 24, 0x2A0501 << 8)[k >> 4 & 3]
            if m.prev is None:
                return lambda p: p.add_stitch_absolute(c, dx, dy), lambda d: d.absolute(c, dx, dy), c
            if plain not in (STITCH, JUMP, SEQUIN_EJECT):
                return lambda p: p.add_stitch_relative(c), lambda d: d.relative(c, 0, 0), c
            return lambda p: p.add_stitch_relative(c, dx, dy), lambda d: d.relative(c, dx, dy), c
        if kind == "rel":
            need_prev()
            name = list(REL)[k % len(REL)]
            if n % 5 == 0:
                return lambda p: getattr(p, name)(), lambda d: d.relative(REL[name], 0, 0), name + "0"
            if n % 5 == 1:
                return lambda p: getattr(p, name)(dy=dy), lambda d: d.relative(REL[name], 0, dy), name + "y"
            return lambda p: getattr(p, name)(dx, dy), lambda d: d.relative(REL[name], dx, dy), name
        if kind == "rel_at":
            pos = at()
            if pos == N:
                need_prev()
            name = list(REL)[(k >> 1) % len(REL)]
            return lambda p: getattr(p, name)(dx, dy, position=pos), lambda d: d.insert_relative(pos, REL[name], dx, dy), (name, pos == N, pos == 0, pos < 0)
        if kind == "needle":
            c = lambda q: NEEDLE_SET | (q + 1 & 255) << 16
            if k & 2 and N:
                pos = at()
                if pos == N:
                    need_prev()
                return lambda p: p.needle_change(n % 20, dx, dy, pos), lambda d: d.insert_relative(pos, c(n % 20), dx, dy), "at"
            need_prev()
            return lambda p: p.needle_change(n % 20, dx, dy), lambda d: d.relative(c(n % 20), dx, dy), "end"
        if kind == "abs":
            name, c = (("stitch_abs", STITCH), ("move_abs", JUMP))[k & 1]
            if k & 2:
                c = COMMANDS[n % len(COMMANDS)]
                return lambda p: p.add_stitch_absolute(c, dx, dy), lambda d: d.absolute(c, dx, dy), c
            return lambda p: getattr(p, name)(dx, dy), lambda d: d.absolute(c, dx, dy), name
        if kind in ("abs_at", "insert"):
            pos = at()
            name, c = (("stitch_abs", STITCH), ("move_abs", JUMP))[k >> 1 & 1]
            if kind == "insert":
                c = COMMANDS[k % len(COMMANDS)]

            def model(d):
                d.st.insert(pos, [dx, dy, c])
                if pos == N:
                    d.prev = None
            return (lambda p: p.insert(pos, c, dx, dy)) if kind == "insert" else (lambda p: getattr(p, name)(dx, dy, position=pos)), model, (pos == N, pos < 0)
        if kind == "prepend":
            c = COMMANDS[n % len(COMMANDS)]
            return lambda p: p.prepend_command(c, dx, dy), lambda d: d.st.insert(0, [dx, dy, c]), ""
        if kind == "command":
            c = COMMANDS[n % len(COMMANDS)]
            if self.case.get("numbers") and c != NO_COMMAND:
                c |= (1 << 8, 3 << 16, 1 << 24, 0)[k >> 4 & 3]
            if k & 1:
                return lambda p: p.add_command(c), lambda d: d.st.append([0, 0, c]), "0"
            return lambda p: p.add_command(c, dx, dy), lambda d: d.st.append([dx, dy, c]), ""
        if kind == "relative":
            need_prev()
            c = COMMANDS[n % len(COMMANDS)]
            if self.case.get("numbers") and c != NO_COMMAND:
                c |= (1 << 8, 3 << 16, 1 << 24, 0)[k >> 4 & 3]
            return lambda p: p.add_stitch_relative(c, dx, dy), lambda d: d.relative(c, dx, dy), c
        if kind == "translation":
            need_prev()

            def model(d):
                d.relative(MATRIX_TRANSLATE, dx, dy)
                if d.prev != (dx, dy):
                    d.st[-1][:2] = [None, None]
                d.prev = None
            return lambda p: p.append_translation(dx, dy), model, ""
        if kind == "iadd_points":
            pts, how = self.points(op)
            return lambda p: p.__iadd__(pts), lambda d: d.points(pts), how
        if kind == "iadd_cmd":
            c = COMMANDS[n % len(COMMANDS)]
            return lambda p: p.__iadd__(c), lambda d: d.st.append([0, 0, c]), ""
        if kind == "iadd_thread":
            if m.sewn():
                need_prev()
            a, v = thread_argument(t, n & 1)
            return lambda p: p.__iadd__(a), lambda d: d.plus_thread(v), m.sewn()
        if kind == "iadd_meta":
            return lambda p: p.__iadd__(("k%d" % (n % 3), "v%d" % k)), lambda d: d.ex.update({"k%d" % (n % 3): "v%d" % k}), ""
        if kind == "iadd_empty":
            return lambda p: p.__iadd__([] if n & 1 else ()), lambda d: None, ""
        if kind == "block":
            pts, how = self.points(op)
            if n % 7 == 0:
                pts, how = (None, []), "none"
                pts = pts[k & 1]
            a, v = thread_argument(t, n % 5) if k & 4 else (None, None)
            return lambda p: p.add_block(pts, a) if a is not None else p.add_block(pts), lambda d: d.block(pts, v), (how, a is None)
        if kind == "stitchblock":
            need_prev()
            pts = [[dx + q, dy - q, STITCH] for q in range(n % 3 + 1)]
            same = bool(k & 1 and m.th)
            if k % 4 == 2 and m.th and isinstance(m.th[-1], list):
                t = list(m.th[-1])  # another thread that looks the same

            def lib(p):
                p.add_stitchblock((pts, p.threadlist[-1] if same else thread_object(t)))

            def model(d):
                if not same:
                    d.th.append(list(t))
                d.relative(SEQUENCE_BREAK if same else COLOR_BREAK, 0, 0)
                d.points(pts)
            return lib, model, bool(same)
        if kind == "thread":
            a, v = thread_argument(t, n % 5)
            return lambda p: p.add_thread(a), lambda d: d.th.append(v), n % 5
        if kind == "meta":
            return lambda p: p.metadata("k%d" % (n % 4), "v%d" % k), lambda d: d.ex.update({"k%d" % (n % 4): "v%d" % k}), ""
        if kind == "set_meta":
            return lambda p: p.__setitem__("k%d" % (n % 4), "w%d" % k), lambda d: d.ex.update({"k%d" % (n % 4): "w%d" % k}), ""
        if not N and kind in ("set_stitch", "del_stitch", "poke", "center"):
            raise Skip
        j = n % N if N else 0

        def touched(d):
            if j == N - 1:
                d.prev = None
        if kind == "set_stitch":
            def model(d):
                d.st[j] = [dx, dy, TRIM]
                touched(d)
            return lambda p: p.__setitem__(j - N if k & 1 else j, [dx, dy, TRIM]), model, k & 1
        if kind == "poke":
            def lib(p):
                p[j][0] = dx

            def model(d):
                d.st[j][0] = dx
                touched(d)
            return lib, model, ""
        if kind == "del_stitch":
            def lib(p):
                del p.stitches[j]

            def model(d):
                del d.st[j]
                d.prev = None
            return lib, model, ""
        s = n & 1
        if kind == "iadd_pattern":
            return lambda p: p.__iadd__(self.src[s]), lambda d: d.pattern(self.srcm[s]), self.seam(s)
        if kind == "plus":
            def lib(p):
                return ("replace", p + self.src[s])
            return lib, lambda d: d.pattern(self.srcm[s]), self.seam(s)
        if kind == "add_pattern":
            a = [{"dx": dx}, {"dy": dy}, {"dx": dx, "dy": dy}, {"sx": 2}, {"sy": 3}, {"sx": 2, "sy": .5}, {"rotate": 30}, {"dx": dx, "dy": dy, "sx": 2, "sy": 1, "rotate": -90}][k % 8]
            return lambda p: p.add_pattern(self.src[s], **a), lambda d: d.pattern(self.srcm[s], **a), (self.seam(s), sorted(a))
        if kind == "translate":
            return lambda p: p.translate(dx, dy), lambda d: d.translate(dx, dy), ""
        if kind == "center":
            return lambda p: p.move_center_to_origin(), lambda d: d.center(), ""
        if kind == "affine":
            def lib(p):
                x = P.EmbMatrix()
                x.post_translate(dx, dy)
                if k & 1:
                    x.post_scale(2, -1)
                p.transform(x)
            f = (2, 0, 0, -1, dx, dy) if k & 1 else (1, 0, 0, 1, dx, dy)
            return lib, lambda d: d.affine(f), k & 1
        if kind == "clear":
            def model(d):
                d.st, d.th, d.ex, d.prev = [], [], {}, (0, 0)
            return lambda p: p.clear(), model, ""
        if kind == "copy":
            return lambda p: ("replace", p.copy() if k & 1 else P.EmbPattern(p)), lambda d: None, k & 1
        if kind == "fixcolors":
            def model(d):
                while len(d.th) < d.blocks_begun():
                    d.th.append(None)
            return lambda p: p.fix_color_count(), model, len(m.th) < m.blocks_begun()
        if kind == "persist":
            ext = "json"

            def lib(p):
                H.save(p, self.w.path("d." + ext))
                q = H.load(self.w.path("d." + ext))
                return ("replace", q)

            def model(d):
                d.prev = None
            return lib, model, ext
        raise Skip

    def seam(self, s):
        a, b = self.m.th, self.srcm[s].th
        return "none" if not a or not b else "equal" if a[-1] == b[0] else "different"

    def bad(self, op):
        """A call that fails part way."""
        kind, n, dx, dy, k, t = op
        pts = [(dx, dy), (dx + 1, dy)][:n % 3]
        if kind in ("bad_points", "bad_block", "bad_stitchblock"):
            broken = [pts + [(1,)], [dx, dy] * (n % 3) + [dx], pts + [(None,)], pts + [5], [1j] * (n % 3 + 1) + ["x"]][k % 5]
            if kind == "bad_stitchblock":
                broken = [pts + [(1,)], pts + [()], pts + [5]][k % 3]
                return lambda p: p.add_stitchblock((broken, thread_object(t)))
            if kind == "bad_block":
                return lambda p: p.add_block(broken, thread_object(t) if n & 8 else None)
            return lambda p: p.__iadd__(broken)
        if kind == "bad_iadd":
            return lambda p: p.__iadd__([object(), None, {"a": 1}, 2.5][k % 4])
        if kind == "bad_index":
            return [lambda p: p[len(p) + n % 5], lambda p: p["nothing"], lambda p: p.__setitem__(len(p) + n % 5, [0, 0, 0]), lambda p: p.get_thread(p.count_threads() + n % 3)][k % 4]
        return [lambda p: p.read(self.w.path("none.dst")), lambda p: p.read(self.w.path("bad.json")), lambda p: p.read(self.w.path("torn.pes"))][k % 3]


def same(a, b):
    """The model's stitches and the design's; None stands for any coordinate."""
    if len(a) != len(b):
        return False
    for u, v in zip(a, b):
        if u[2] != v[2]:
            return False
        for i in (0, 1):
            if u[i] is not None and u[i] != v[i] and not abs(u[i] - v[i]) <= 1e-9 * max(1, abs(u[i])):
                return False
    return True


def difference(d, s, stitches=True):
    if not same(d.st, s["stitches"]):
        u, v = d.st, s["stitches"]
        j = next((j for j in range(min(len(u), len(v))) if not same([u[j]], [v[j]])), min(len(u), len(v)))
        return "stitches", "command %d is %r, the calls made it %r (%d and %d commands)" % (j, v[j:j + 1], u[j:j + 1], len(v), len(u))
    u, v = d.th, s["threads"]
    if len(u) != len(v) or any(a is not None and a != b for a, b in zip(u, v)):
        j = next((j for j in range(min(len(u), len(v))) if u[j] is not None and u[j] != v[j]), min(len(u), len(v)))
        return "threads", "thread %d is %r, the calls made it %r (%d and %d threads)" % (j, v[j:j + 1], u[j:j + 1], len(v), len(u))
    if d.ex != s["extras"]:
        return "metadata", "the metadata is %r, the calls made it %r" % (s["extras"], d.ex)
    return None


def adopt(d, s):
    """Take over what the model leaves open."""
    d.st = [list(x) for x in s["stitches"]]
    d.th = [list(x) for x in s["threads"]]
    d.ex = dict(s["extras"])


def run(case):
    res = H.R()
    with H.Box(case) as w:
        w.enabled = False
        H.put(w, "bad.json", b'{"stitches": [[1, 2, "STITCH')
        H.put(w, "torn.pes", b"#PES0001\x10\x00\x00")
        sources = [H.build(o) for o in case["other"]]
        models = [snapshot(p) for p in sources]
        if case["start"]:
            p = H.build(case["start"])
            d = snapshot(p)
        else:
            p, d = H.pe.EmbPattern(), E.Design()
        state = {"p": p, "d": d}
        w.enabled = True

        def go():
            last = ""
            for op in case["ops"]:
                if not one(res, case, w, state, sources, models, op, last):
                    return
                last = op[0]
        if case["inject"]:
            sch = S.Scheduler([], inject=case["inject"], budget=STEP)
            kind, v = sch.run([go])[0]
            if kind != "ok":
                if isinstance(v, (KeyboardInterrupt, MemoryError)):
                    res.count("interrupted_between")
                else:
                    raise v
            if sch.injected:
                res.count("fault.inject:" + sch.injected[0][2])
        else:
            go()
        for k, q in enumerate(sources):
            b = difference(models[k], H.snap(q))
            if b and not res.viol:
                res.bad("source-changed", "a design that was only added from changed: " + b[1])
        res.digest.append(H.snap(state["p"]))
        res.world(w)
    return res


def snapshot(p):
    s = H.snap(p)
    return E.Design(s["stitches"], s["threads"], s["extras"], None)


def one(res, case, w, state, sources, models, op, last):
    p, d = state["p"], state["d"]
    mk = Maker(case, w, d, sources, models)
    kind = op[0]
    if kind == "look":
        return look(res, p, d, op, case["inject"])
    if kind in PASS:
        return a_pass(res, case, p, d, op)
    before = d.copy()
    if kind in FAIL:
        call = mk.bad(op)
        k, v = H.attempt(call, p)
        s = H.snap(p)
        if k == "ok":
            res.bad("accepted:" + kind, "a malformed call was accepted: %r" % (op,))
            return False
        cut = front(before, s)
        if cut:
            res.bad("failed-call:%s:%s" % (kind, cut[0]), "after a call that raised %s: %s" % (H.exc_name(v), cut[1]))
            return False
        adopt(d, s)
        d.prev = None
        res.count("failed_calls")
        return True
    try:
        lib, model, cls = mk.make(op)
    except Skip:
        return True
    n0 = len(d.st)
    model(d)
    if kind in ("rel_at", "needle") and n0 == 0:
        d.prev = None
    k, v = H.attempt(lib, p)
    q = p
    if k == "raise":
        if case["inject"] and isinstance(v, (KeyboardInterrupt, MemoryError)):
            s = H.snap(p)
            if kind in ("rel_at", "needle", "abs_at", "insert", "prepend", "set_stitch", "poke", "del_stitch"):
                cut = None if difference(before, s) is None or difference(d, s) is None else ("stitches", "the design is neither as before the call nor as after it")
            elif kind in ("translate", "center", "affine"):
                cut = None if [x[2] for x in s["stitches"]] == [x[2] for x in before.st] and s["threads"] == before.th else ("stitches", "the commands or threads changed")
            elif kind == "clear":
                cut = None
            else:
                cut = front(before, s, kind in COMBINE)
            if cut:
                res.bad("interrupted:%s:%s" % (kind, cut[0]), "after %s was interrupted: %s" % (kind, cut[1]))
                return False
            adopt(d, s)
            d.prev = None
            res.count("interrupted_calls")
            return True
        res.bad("raises:%s:%s" % (kind, H.exc_name(v)), "%s raised %s: %s" % (kind, H.exc_name(v), v))
        return False
    if isinstance(v, tuple) and len(v) == 2 and v[0] == "replace":
        q = v[1]
        if q is None:
            res.bad("nothing:" + kind, "%s gave no design" % kind)
            return False
        if kind != "persist":
            b = difference(before, H.snap(p))
            if b:
                res.bad("source-changed:" + kind, "%s changed the design it was called on: %s" % (kind, b[1]))
                return False
    s = H.snap(q)
    b = difference(d, s)
    if b:
        res.bad("%s:%s" % (kind, b[0]), "after %s (%s): %s" % (kind, cls, b[1]))
        return False
    adopt(d, s)
    state["p"] = q
    res.count("calls")
    res.state(kind, str(cls), last, min(4, n0.bit_length()))
    return True


def front(before, s, end=False):
    """Earlier content stands in front."""
    old = before.st
    if end and old and old[-1][2] & 0xFF == END:
        old = old[:-1]
    if not same(old, s["stitches"][:len(old)]):
        return "stitches", "the commands there before are not in front (%d before, %d now)" % (len(old), len(s["stitches"]))
    if s["threads"][:len(before.th)] != before.th:
        return "threads", "the threads there before are not in front (%d before, %d now)" % (len(before.th), len(s["threads"]))
    if any(k not in s["extras"] for k in before.ex):
        return "metadata", "metadata there before is gone"
    return None


# ---------------------------------------------------------------- inspecting
def look(res, p, d, op, interrupted):
    bad = None
    pl = lambda l: [list(x) for x in l]
    th = lambda t: H.snap(type("D", (), {"stitches": [], "threadlist": [t], "extras": {}})())["threads"][0]

    def want(what, got, exp):
        nonlocal bad
        if bad is None and got != exp:
            bad = (what, "%s gives %r, the design's is %r" % (what, str(got)[:200], str(exp)[:200]))

    def right(what, got, n):
        nonlocal bad
        if bad is None:
            t = th(got)
            if n < len(d.th):
                want(what, t, d.th[n])
            elif t[0] & 0xFFFFFF in [x[0] & 0xFFFFFF for x in d.th]:
                bad = (what, "%s fills in a thread of a colour in use, %r" % (what, t))
    try:
        N = len(d.st)
        want("len", len(p), N)
        want("count_stitches", p.count_stitches(), N)
        want("count_threads", p.count_threads(), len(d.th))
        for c in COMMANDS:
            of = [s for s in d.st if s[2] & 0xFF == c]
            want("count_stitch_commands", p.count_stitch_commands(c), len(of))
            want("get_match_commands", pl(p.get_match_commands(c)), of)
        want("count_color_changes", p.count_color_changes(), sum(1 for s in d.st if s[2] & 0xFF == COLOR_CHANGE))
        want("count_needle_sets", p.count_needle_sets(), sum(1 for s in d.st if s[2] & 0xFF == NEEDLE_SET))
        if N:
            for f in (p.bounds, p.extents, p.extends):
                want("bounds", tuple(f()), d.bounds())
            j = op[1] % N
            want("index", list(p[j]), d.st[j])
            want("index", list(p[j - N]), d.st[j])
            want("slice", pl(p[j:]), d.st[j:])
            want("slice", pl(p[:j:2]), d.st[:j:2])
        for k, v in d.ex.items():
            want("metadata", p[k], v)
            want("get_metadata", p.get_metadata(k), v)
        want("get_metadata", p.get_metadata("not there", 5), 5)
        for k in range(len(d.th)):
            right("get_thread", p.get_thread(k), k)
        right("get_thread_or_filler", p.get_thread_or_filler(op[1] % (len(d.th) + 2)), op[1] % (len(d.th) + 2))
        got = list(p.get_as_stitchblock())
        exp = d.blocks_of_stitches()
        want("get_as_stitchblock", [pl(b) for b, _ in got], [b for b, _ in exp])
        for (_, t), (_, n) in zip(got, exp):
            right("get_as_stitchblock", t, n)
        got = list(p.get_as_colorblocks())
        exp = d.blocks_of_colors()
        want("get_as_colorblocks", [pl(b) for b, _ in got], [b for b, _ in exp])
        for (_, t), (_, n) in zip(got, exp):
            right("get_as_colorblocks", t, n)
        got = [b for b in p.get_as_command_blocks() if len(b)]
        want("get_as_command_blocks", [list(s) for b in got for s in b], d.st)
        if bad is None:
            for k, b in enumerate(got):
                cs = {s[2] & 0xFF for s in b}
                if len(cs) != 1 or k and got[k - 1][-1][2] & 0xFF in cs:
                    bad = ("get_as_command_blocks", "block %d mixes or splits commands: %r" % (k, str(b)[:100]))
        got = [list(s) for s in p.get_as_stitches()]
        off = lambda v, sh: (v >> sh & 255) - 1 if v >> sh & 255 else None
        want("get_as_stitches", got, [[k, s[0], s[1], s[2] & 0xFF if s[2] != NO_COMMAND else got[k][3] if k < len(got) else 0] + ([off(s[2], 8), off(s[2], 16), off(s[2], 24)] if s[2] != NO_COMMAND else got[k][4:] if k < len(got) else []) for k, s in enumerate(d.st)])
        want("get_singleton_threadlist", [th(t) for t in p.get_singleton_threadlist()], d.single_threads())
        want("get_unique_threadlist", sorted(map(str, [th(t) for t in p.get_unique_threadlist()])), sorted({str(t) for t in d.th}))
        q = p.copy()
        want("equal", (p == q, p != q, p == 5), (True, False, False))
        if N:
            q.stitches[op[1] % N][1] += 1
            want("unequal", (p == q, p != q), (False, True))
        if d.th:
            q = p.copy()
            t = q.threadlist[op[1] % len(d.th)]
            k = ["color", "description", "catalog_number", "details", "brand", "chart", "weight"][op[1] % 7]
            setattr(t, k, t.color ^ 0x10100 if k == "color" else "%s." % getattr(t, k))
            want("unequal-thread", (p == q, p != q), (False, True))
            q = p.copy()
            del q.threadlist[-1]
            want("unequal-threads", (p == q, p != q), (False, True))
        q = p.copy()
        q.metadata("another", "x")
        want("unequal-metadata", (p == q, p != q), (False, True))
    except (H.HarnessError, S.BudgetExceeded):
        raise
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, MemoryError)) and interrupted:
            b = difference(d, H.snap(p))
            if b:
                res.bad("interrupted:look:" + b[0], "inspecting, interrupted, changed the design: " + b[1])
            return not b
        bad = ("raises", "inspecting the design raised %s: %s" % (H.exc_name(e), e))
    if bad is None:
        b = difference(d, H.snap(p))
        if b:
            bad = ("changed", "inspecting changed the design: " + b[1])
    if bad:
        res.bad("look:" + bad[0], bad[1])
        return False
    res.count("inspections")
    return True


# ---------------------------------------------------------------- passes
def runs(st):
    """[(start, end)] of the maximal runs of jumps, and the state of the thread before each command."""
    out, cut, k = [], True, 0
    state = []
    for k, s in enumerate(st):
        state.append(cut)
        c = s[2] & 0xFF
        if c in (STITCH, SEQUIN_EJECT):
            cut = False
        elif c in (COLOR_CHANGE, NEEDLE_SET, TRIM):
            cut = True
        if c == JUMP:
            if out and out[-1][1] == k:
                out[-1][1] = k + 1
            else:
                out.append([k, k + 1])
    return out, state


def with_trims(st, n, dist, clip):
    out = []
    rs, _ = runs(st)
    rs = {a: b for a, b in rs}
    k, cut = 0, True
    while k < len(st):
        if k not in rs:
            out.append(list(st[k]))
            c = st[k][2]
            cut = c & 0xFF in (COLOR_CHANGE, NEEDLE_SET, TRIM) or cut and c & 0xFF not in (STITCH, SEQUIN_EJECT)
            k += 1
            continue
        a, b = k, rs[k]
        x, y = (st[a - 1][0], st[a - 1][1]) if a else (0, 0)
        dx = dy = 0
        trim, zero = n is not None and b - a >= n, a
        for j in range(a, b):
            dx += st[j][0] - x
            dy += st[j][1] - y
            x, y = st[j][0], st[j][1]
            if dist is not None and (abs(dx) > dist or abs(dy) > dist):
                trim = True
            if dx == 0 and dy == 0:
                zero = j + 1
        if trim and not cut:
            out.append([st[a - 1][0], st[a - 1][1], TRIM])
            cut = True
        out += [list(s) for s in st[zero if clip else a:b]]
        k = b
    return out


def a_pass(res, case, p, d, op):
    kind, n, dx, dy, k, t = op
    if any(s[2] & 0xFF not in PASS_ON.get(kind, RICH) for s in d.st):
        return True
    before = d.copy()
    changes = sum(1 for s in d.st if s[2] & 0xFF in E.CHANGES)
    enough = len(d.th) > changes
    new = None
    if kind == "trims":
        a = (1 + n % 4 if n % 5 else None, (None, 10, 40, 100)[k % 4], bool(k & 8))
        call = lambda: p.interpolate_trims(*a)
    elif kind == "dupstop":
        call = p.interpolate_duplicate_color_as_stop
    elif kind == "stopdup":
        call = p.interpolate_stop_as_duplicate_color
    elif kind == "eject":
        call = p.interpolate_frame_eject
    elif kind == "gettrim":
        call = lambda: p.get_pattern_interpolate_trim(1 + n % 4)
    elif kind == "merge":
        call = p.get_pattern_merge_jumps
    else:
        call = p.get_stable_pattern
    if kind in ("dupstop", "stopdup", "stable") and not enough:
        return True
    r, v = H.attempt(call)
    s = H.snap(p)
    bad = None
    if r == "raise":
        if case["inject"] and isinstance(v, (KeyboardInterrupt, MemoryError)):
            if kind in ("gettrim", "merge", "stable"):
                bad = difference(before, s)
            if bad:
                res.bad("interrupted:%s:%s" % (kind, bad[0]), "after %s was interrupted: %s" % (kind, bad[1]))
                return False
            unalias(p)
            adopt(d, H.snap(p))
            d.prev = None
            return True
        res.bad("raises:%s:%s" % (kind, H.exc_name(v)), "%s raised %s: %s" % (kind, H.exc_name(v), v))
        return False
    if kind in ("gettrim", "merge", "stable"):
        bad = difference(before, s)
        if bad:
            bad = ("source", bad[1])
        else:
            new = snapshot(v)
            if new.ex != before.ex:
                bad = ("metadata", "the new design's metadata is %r, the source's %r" % (new.ex, before.ex))
            elif kind != "stable" and new.th != before.th:
                bad = ("threads", "the new design has %d threads, the source %d" % (len(new.th), len(before.th)))
    after = new or E.Design(s["stitches"], s["threads"], s["extras"])
    if not bad:
        bad = judge(kind, before, after, (1 + n % 4) if kind == "gettrim" else a if kind == "trims" else None)
    if bad:
        res.bad("pass-%s:%s" % (kind, bad[0]), "after %s: %s" % (kind, bad[1]))
        return False
    unalias(p)
    adopt(d, H.snap(p))
    d.prev = None
    res.count("passes")
    res.state(kind, len(before.st).bit_length(), len(after.st) - len(before.st))
    return True


def unalias(p):
    """One thread object per place (a duplicated colour is one object twice)."""
    p.threadlist[:] = [thread_object(H.thread_snap(t)) for t in p.threadlist]


def judge(kind, b, a, arg):
    if kind == "trims":
        want = with_trims(b.st, *arg)
        if not same(want, a.st):
            x = difference(E.Design(want, a.th, a.ex), {"stitches": a.st, "threads": a.th, "extras": a.ex})
            return "trims", "with %r %s" % (arg, x[1])
        return difference(E.Design(a.st, b.th, b.ex), {"stitches": a.st, "threads": a.th, "extras": a.ex})
    if kind == "gettrim":
        rs, state = runs(b.st)
        want = []
        k = 0
        rs = {x: y for x, y in rs}
        while k < len(b.st):
            if k in rs and not state[k]:
                e = rs[k]
                if e - k >= arg and not (e == len(b.st) and e - k == arg and not (a.st and len(a.st) > len(want) and a.st[len(want)][2] & 0xFF == TRIM)):
                    want.append([b.st[k - 1][0], b.st[k - 1][1], TRIM])
                want.append(b.st[e - 1])
                k = e
            else:
                want.append(b.st[k])
                k += 1
        if not same(want, a.st):
            x = difference(E.Design(want, a.th, a.ex), {"stitches": a.st, "threads": a.th, "extras": a.ex})
            return "trims", "with %r %s" % (arg, x[1])
        return None
    if kind == "merge":
        want, run_ = [], False
        for s in b.st:
            if s[2] & 0xFF == JUMP:
                if not run_:
                    want.append([0, 0, STITCH_BREAK])
                run_ = True
            else:
                want.append(s)
                if s[2] & 0xFF in E.SEWING:
                    run_ = False
        # a break already pending covers later jumps up to the next stitch; breaking again is the same
        clean = lambda l: [s for k, s in enumerate(l) if s[2] & 0xFF != STITCH_BREAK]
        if not same(clean(want), clean(a.st)):
            return "commands", "%d commands other than jumps became %d" % (len(clean(want)), len(clean(a.st)))
        if broken(want) != broken(a.st):
            return "breaks", "stitches reached by a jump: %r, in the merged design by a break: %r" % (broken(want), broken(a.st))
        is_break = lambda s: s[2] & 0xFF == STITCH_BREAK
        if not any(map(is_break, b.st)) and any(is_break(s) and is_break(t) for s, t in zip(a.st, a.st[1:])):
            return "merge", "two breaks in a row are left"
        return None
    if kind == "stable":
        want, got, n = [], [], 0
        for s in b.st:
            if s[2] & 0xFF == COLOR_CHANGE:
                n += 1
            elif s[2] & 0xFF == STITCH:
                want.append((s[0], s[1], b.th[n]))
        n = -1
        for s in a.st:
            if s[2] & 0xFF == COLOR_BREAK:
                n += 1
            elif s[2] & 0xFF == STITCH:
                got.append((s[0], s[1], a.th[n] if 0 <= n < len(a.th) else None))
            elif s[2] & 0xFF != SEQUENCE_BREAK:
                return "command", "the stable design holds command 0x%x" % s[2]
        if want != got:
            return "stitches", "the stitches or their threads differ (%d, %d)" % (len(want), len(got))
        return None
    # the in-place rewrites of stops: same needle points, threads and halts
    if kind == "eject" and many_stops(b.st):
        return None
    x, y = b.sewn_with(), a.sewn_with()
    if x != y:
        j = next((j for j in range(min(len(x), len(y))) if x[j] != y[j]), min(len(x), len(y)))
        return "meaning", "needle point %d (place, command, thread, halts before) was %r and is %r" % (j, x[j:j + 1], y[j:j + 1])
    if b.ex != a.ex:
        return "metadata", "the metadata changed"
    if kind == "stopdup" and any(s[2] & 0xFF == STOP for s in a.st):
        return "stop", "a stop is left"
    if kind == "dupstop":
        g = [s[2] for s in b.st if s[2] & 0xFF in E.SEWING + E.CHANGES]
        g = [s & 0xFF in E.CHANGES for s in g]
        if any(u and v for u, v in zip(g, g[1:])):
            return None  # empty blocks keep their change
        n, last = 0, None
        for s in a.st:
            if s[2] & 0xFF in E.SEWING:
                if last is not None and n == last + 1 and a.th[n] == a.th[last]:
                    return "duplicate", "blocks %d and %d have the same thread" % (last, n)
                last = n
            elif s[2] & 0xFF in E.CHANGES:
                n += 1
    if kind == "eject":
        stops = [s[:2] for s in b.st if s[2] & 0xFF == STOP]
        if [s[:2] for s in a.st if s[2] & 0xFF in (STOP, FRAME_EJECT)] != stops:
            return "place", "the stops stood at %r, stops and ejects stand at %r" % (stops, [s[:2] for s in a.st if s[2] & 0xFF in (STOP, FRAME_EJECT)])
        g = []
        for s in a.st + [[0, 0, STITCH]]:
            if s[2] & 0xFF in E.SEWING + E.CHANGES:
                if g in ([JUMP, STOP, JUMP],):
                    return "left", "a jump-stop-jump is left"
                g = []
            elif s[2] & 0xFF in (JUMP, STOP, FRAME_EJECT) and not (g and g[-1] == s[2]):
                g.append(s[2])
    return None


def broken(st):
    """Numbers of the stitches that are reached by a jump or break."""
    out, n, pend = [], 0, False
    for s in st:
        if s[2] & 0xFF in (JUMP, STITCH_BREAK):
            pend = True
        elif s[2] & 0xFF in E.SEWING:
            if pend:
                out.append(n)
            pend = False
            n += 1
    return out


def many_stops(st):
    """More than one stop, or other commands, between two stitches."""
    n = 0
    for s in st:
        if s[2] & 0xFF in E.SEWING + E.CHANGES:
            n = 0
        elif s[2] & 0xFF == STOP:
            n += 1
            if n > 1:
                return True
        elif s[2] & 0xFF in (SEQUIN_EJECT, SLOW, FAST, END):
            return True
    return False
