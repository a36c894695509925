"""C16: copies and combined designs are independent of their sources (value semantics)."""
from .. import gen as G, harness as H, ops as O, sched as S, world as W
from ..const import *

CASES = {"quick": 7000, "thorough": 300000}
RULE = "a run is a history of copy, combine, derive, edit, load and save operations on up to 9 live designs by 1 to 3 scheduled workers, each design checked against a by-value model after every operation; a run counts when at least one copy or combination was edited afterwards; distinct cases counted"
MEASURE = "distinct (making operation, editing operation, which side was edited, workers) combinations and distinct schedules"
STEP = 3_000_000
STEP_BUDGET = 60_000_000

MAKE = ["copy", "copy", "ctor", "copycopy", "deepcopy", "slice_add", "add", "radd", "new_iadd"]
EDIT = ["stitch", "stitch_at", "move", "trim_at", "insert", "prepend", "command", "translate", "transform", "center", "trims", "dupstop", "stopdup",
        "eject", "fixcolors", "jumps2trim", "clear", "setitem", "setmeta", "metadata", "thread_set", "thread_field", "add_thread", "iadd_thread", "iadd_list", "block",
        "del_stitch", "poke", "iadd_pattern", "add_pattern", "read", "save", "pop_thread", "iadd_meta", "iadd_cmd", "color"]
DERIVE = ["normalized", "merge", "interp", "stable"]


def one_edit(r, nslots):
    k = r.choice(EDIT + ["iadd_pattern", "add_pattern", "thread_set", "poke", "translate"])
    return [k, r.randrange(1 << 16), r.randint(-40, 40), r.randint(-40, 40), r.randrange(1 << 24)]


def gen(r, i, tier):
    workers = r.choice([1, 1, 2, 3])
    c = {"knobs": {"bufsize": r.choice([64, 8192]), "rand_const": 0x35A06F}, "faults": [], "inject": [], "switches": []}
    c["template"] = G.design(r, size=r.choice([1, 2, 4]), blocks=r.choice([1, 2, 3]), limit=2000, extras={k: G.text(r, 1, 6) for k in ("name", "author", "own") if r.random() < .5})
    c["second"] = G.design(r, size=r.choice([1, 2]), blocks=r.choice([1, 2]), limit=2000, extras={k: G.text(r, 1, 6) for k in ("name", "comments") if r.random() < .5})
    if r.random() < .5:  # equal neighbouring threads at the seam are merged
        if c["template"]["threads"] and c["second"]["threads"]:
            c["second"]["threads"][0] = dict(c["template"]["threads"][-1])
    c["src"] = O.source(r, r.choice(["dst", "pes6", "csv", "jef", "exy", "vp3", "pec"]), 2)
    # what is made of the two templates before the workers start: [how, a, b], new slots from 2 on
    c["make"] = [[r.choice(MAKE), r.randrange(2 + k), r.randrange(2 + k)] for k in range(r.choice([1, 2, 2, 3, 4]))]
    if r.random() < .3:
        c["make"].append([r.choice(DERIVE), r.randrange(2 + len(c["make"])), 0])
    prog = []
    for _ in range(workers):
        ops = []
        for _ in range(r.choice([1, 2, 4, 8])):
            x = r.random()
            if x < .12:
                ops.append(["make", r.choice(MAKE), r.randrange(16), r.randrange(16)])
            else:
                ops.append(["edit"] + [r.randrange(16)] + one_edit(r, 0))
        prog.append(ops)
    c["prog"] = prog
    if workers > 1:
        m = r.choice(["fine", "coarse", "log"])
        if m == "fine":
            c["switches"] = [[r.randint(1, 4), r.randrange(3)] for _ in range(200)]
        elif m == "coarse":
            c["switches"] = [[r.randint(1, 400), r.randrange(3)] for _ in range(r.randint(1, 8))]
        else:
            c["switches"] = [[int(2 ** r.uniform(0, 9)), r.randrange(3)] for _ in range(r.randint(5, 30))]
    x = r.random()
    if x < .2:
        c["inject"] = [[0, int(2 ** r.uniform(0, 10)), r.choice(["KeyboardInterrupt", "MemoryError"])]]
    elif x < .3:
        c["faults"] = [{"op": r.choice(["read", "open", "close"]), "file": "src.*", "nth": r.choice([0, 0, 1, 2]), "kind": "eio", "sticky": True}]
    return c


def vclone(v):
    """A copy by value of anything a design is made of."""
    if isinstance(v, list):
        return [vclone(x) for x in v]
    if isinstance(v, tuple):
        return tuple(vclone(x) for x in v)
    if isinstance(v, dict):
        return {k: vclone(x) for k, x in v.items()}
    if isinstance(v, (H.pe.EmbPattern, H.pe.EmbThread)):
        n = object.__new__(type(v))
        if hasattr(v, "__dict__"):
            n.__dict__.update({k: vclone(x) for k, x in v.__dict__.items()})
        return n
    return v


def unalias(p):
    """One thread object per place in the list, not shared with any other design (sharing by these operations is outside the property)."""
    p.threadlist[:] = [vclone(t) for t in p.threadlist]


def make(how, a, b):
    import copy
    if how == "copy":
        return a.copy()
    if how == "ctor":
        return H.pe.EmbPattern(a)
    if how == "copycopy":
        return copy.copy(a)
    if how == "deepcopy":
        return copy.deepcopy(a)
    if how == "slice_add":
        return copy.deepcopy([a, b])[0]
    if how == "add":
        return a + b
    if how == "radd":
        return a.__radd__(b)
    if how == "new_iadd":
        n = H.pe.EmbPattern()
        n.add_stitch_absolute(STITCH, 1, 2)
        n.add_thread("#102030")
        n += a
        return n
    n = {"normalized": lambda: a.get_normalized_pattern({"max_stitch": 60, "max_jump": 60}), "merge": a.get_pattern_merge_jumps,
         "interp": lambda: a.get_pattern_interpolate_trim(2), "stable": a.get_stable_pattern}[how]()
    unalias(n)
    return n


COPYING = ("copy", "ctor", "copycopy", "deepcopy", "slice_add")


def edit(w, p, e, other):
    k, n, dx, dy, col = e
    st = p.stitches
    pos = n % (len(st) + 1)
    if k == "stitch":
        p.stitch(dx, dy)
    elif k == "stitch_at":
        p.stitch(dx, dy, position=pos)
    elif k == "move":
        p.move(dx, dy) if n & 1 else p.move_abs(dx, dy, position=pos)
    elif k == "trim_at":
        p.trim(position=pos)
    elif k == "insert":
        p.insert(pos, STITCH, dx, dy)
    elif k == "prepend":
        p.prepend_command(COLOR_BREAK, dx, dy)
    elif k == "command":
        p.add_command(TRIM if n & 1 else COLOR_CHANGE, dx, dy)
    elif k == "color":
        p.color_change(dx, dy)
    elif k == "translate":
        p.translate(dx, dy)
    elif k == "transform":
        m = H.pe.EmbMatrix()
        m.post_translate(dx, dy)
        if n & 1:
            m.post_scale(2, 2)
        p.transform(m)
    elif k == "center":
        if st:
            p.move_center_to_origin()
    elif k == "trims":
        p.interpolate_trims(1 + n % 3, 30 if n & 4 else None, bool(n & 8))
    elif k == "dupstop":
        p.interpolate_duplicate_color_as_stop()
    elif k == "stopdup":
        p.interpolate_stop_as_duplicate_color()
        unalias(p)
    elif k == "eject":
        p.interpolate_frame_eject()
    elif k == "fixcolors":
        p.fix_color_count()
    elif k == "jumps2trim":
        p.append_translation(dx, dy) if n & 1 else p.add_stitchblock([[dx, dy, STITCH], [n, dy, JUMP]])
    elif k == "clear":
        p.clear()
    elif k == "setitem":
        if st:
            p[n % len(st)] = [dx, dy, JUMP]
    elif k == "setmeta":
        p["name"] = "n%d" % n
    elif k == "metadata":
        p.metadata(["name", "own", "x%d" % (n % 5)][n % 3], "v%d" % col)
    elif k == "thread_set":
        if p.threadlist:
            p.threadlist[n % len(p.threadlist)].set("#%06x" % col)
    elif k == "thread_field":
        if p.threadlist:
            t = p.get_thread(n % len(p.threadlist))
            t.description, t.catalog_number, t.brand = "d%d" % n, "%d" % dx, "b%d" % dy
            t.set_color(n & 255, 3, 4)
    elif k == "add_thread":
        p.add_thread("#%06x" % col) if n & 1 else p.add_thread({"rgb": col, "name": "t%d" % n})
    elif k == "iadd_thread":
        p += "#%06x" % col
    elif k == "iadd_list":
        p += ([(dx, dy), (n, dy)], [[dx, dy, JUMP]], [1.5, 2.5, 3, 4], [1 + 2j, 3 + 4j])[n & 3]
    elif k == "iadd_meta":
        p += ("own", "m%d" % n)
    elif k == "iadd_cmd":
        p += STOP if n & 1 else TRIM
    elif k == "block":
        p.add_block([(0, 0), (dx, dy), (n, 0)], "#%06x" % col)
    elif k == "del_stitch":
        if st:
            del st[n % len(st)]
    elif k == "poke":
        if st:
            p[n % len(st)][0] = dx + .5
            st[(n // 7) % len(st)][2] = TRIM
    elif k == "pop_thread":
        if p.threadlist:
            p.threadlist.pop(n % len(p.threadlist))
    elif k == "iadd_pattern":
        p += other
    elif k == "add_pattern":
        if n & 1:
            p.add_pattern(other, dx, dy)
        elif n & 2:
            p.add_pattern(other, sx=2, sy=2, rotate=dx)
        else:
            p.add_pattern(other)
    elif k == "read":
        p.read(w.path("src." + w.src_ext))
    elif k == "save":
        import io
        H.save(p, w.path("out%d.%s" % (n % 3, ["csv", "dst", "pes", "vp3", "jef"][n % 5])), {"date": "20200102030405", "encode": bool(n & 8)})
    else:
        raise H.HarnessError(k)


def run(case):
    res = H.R()
    with H.Box(case) as w:
        w.enabled = False
        w.src_ext = O.source_ext(case["src"])
        H.put(w, "src." + w.src_ext, O.source_bytes(case["src"]))
        live = [H.build(case["template"]), H.build(case["second"])]
        model = [vclone(p) for p in live]
        origin = ["source", "source"]
        used = set()
        busy = set()

        def check(who, what):
            """Every design is what the model says."""
            for k in range(len(live)):
                if k in busy:
                    continue  # another worker is in the middle of an operation on it
                a, b = H.snap(live[k]), H.snap(model[k])
                if a != b:
                    res.bad("changed:%s:%s" % (origin[k], what), "%s changed a design it was not applied to (made by %s): %s" % (what, origin[k], diff(b, a)))
                    return False
            return True

        def do_make(how, a, b, tag):
            pa, pb = model[a], model[b]
            if how in COPYING:
                want = vclone(pa)
            else:
                kind, want = H.attempt(make, how, vclone(pa), vclone(pb))
                if kind == "raise":
                    want = None
            kind, got = H.attempt(make, how, live[a], live[b])
            if kind == "raise":
                if isinstance(got, (KeyboardInterrupt, MemoryError)) and case["inject"]:
                    return True
                if want is not None:
                    res.bad("make-raises:%s" % how, "%s raised %s: %s" % (how, H.exc_name(got), got))
                    return False
                return True
            if want is None:
                return True
            if H.snap(got) != H.snap(want):
                res.bad("unequal:%s" % how, "the design made by %s is not what its sources give: %s" % (how, diff(H.snap(want), H.snap(got))))
                return False
            live.append(got)
            model.append(want)
            origin.append(how)
            return True

        for how, a, b in case["make"]:
            a, b = a % len(live), b % len(live)
            if not do_make(how, a, b, "start") or not check("start", how):
                return res
        n = len(live)
        workers = len(case["prog"])
        # each design belongs to one worker; worker 0 owns the templates
        owner = [0, 0] + [(k + 1) % workers for k in range(n - 2)]
        stop = []

        def worker(k):
            mine = [s for s in range(n) if owner[s] == k]
            new = []

            def go():
                for op in case["prog"][k]:
                    if stop or not mine:
                        return
                    if op[0] == "make":
                        if workers > 1:
                            # concurrent: sources that are the worker's own
                            a, b = mine[op[2] % len(mine)], mine[op[3] % len(mine)]
                        else:
                            a, b = op[2] % len(live), op[3] % len(live)
                        if len(live) < 12:
                            m0 = len(live)
                            ok = do_make(op[1], a, b, k)
                            if len(live) > m0:
                                mine.append(len(live) - 1)
                                owner.append(k)
                            if not ok or not check(k, op[1]):
                                stop.append(1)
                                return
                        continue
                    t = mine[op[1] % len(mine)]
                    e = op[2:]
                    src = mine[(op[1] // 2 + e[1]) % len(mine)] if workers > 1 else (op[1] // 2 + e[1]) % len(live)
                    mo = model[src] if src == t else vclone(model[src])
                    if e[0] in ("iadd_pattern", "add_pattern") and src == t:
                        mo = model[t]
                    goal = model[t]
                    busy.add(t)
                    if e[0] == "save":
                        kind, v = H.attempt(edit, w, live[t], e, live[src])
                        mk = kind
                    elif e[0] == "read":
                        pre = vclone(live[t])
                        w.enabled = True
                        kind, v = H.attempt(edit, w, live[t], e, live[src])
                        w.enabled = False
                        if kind == "raise":
                            model[t] = vclone(live[t])
                            mk = kind
                        else:
                            mk, mv = H.attempt(mirror, w, goal, e, mo)
                    else:
                        kind, v = H.attempt(edit, w, live[t], e, live[src])
                        if kind == "raise" and isinstance(v, (KeyboardInterrupt, MemoryError)) and case["inject"]:
                            model[t] = vclone(live[t])
                            mk = kind
                        else:
                            mk, mv = H.attempt(mirror, w, goal, e, mo)
                    busy.discard(t)
                    if kind == "raise" and isinstance(v, S.BudgetExceeded):
                        raise v
                    if mk != kind and not (kind == "raise" and isinstance(v, (KeyboardInterrupt, MemoryError))):
                        res.bad("outcome:%s" % e[0], "%s %s on the live design and %s on an equal design on its own" % (e[0], kind, mk))
                        stop.append(1)
                        return
                    if kind == "raise":
                        model[t] = vclone(live[t])
                        res.count("edit_raised")
                    res.count("edits")
                    used.add((origin[t], e[0]))
                    if not check(k, e[0]):
                        stop.append(1)
                        return
            return go

        def mirror(w, goal, e, mo):
            # the same operation on the model, outside the schedule
            import sys
            t = sys.gettrace()
            sys.settrace(None)
            old, w.enabled = w.enabled, False
            try:
                return edit(w, goal, e, mo)
            finally:
                w.enabled = old
                sys.settrace(t)

        w.enabled = False
        sch = S.Scheduler(case["switches"], inject=case["inject"], budget=STEP)
        out = sch.run([worker(k) for k in range(workers)])
        for kind, v in out:
            if kind == "exc":
                if isinstance(v, S.BudgetExceeded):
                    res.bad("stuck", "an operation did not end")
                elif isinstance(v, (KeyboardInterrupt, MemoryError)) and case["inject"]:
                    continue
                elif isinstance(v, H.HarnessError):
                    raise v
                else:
                    raise v
        if not res.viol:
            check("end", "the end of the run")
        res.world(w)
        res.nontrivial = bool(used)
        res.count("designs", len(live))
        for u in used:
            res.state(*u, workers)
        if sch.order:
            res.states.add(H.dig(sch.order)[:10])
        if sch.injected:
            res.count("fault.inject:" + sch.injected[0][2])
        res.digest.append([H.snap(p) for p in live])
    return res


def diff(b, a):
    for k in b:
        if a[k] != b[k]:
            if isinstance(b[k], list):
                j = next((j for j in range(min(len(a[k]), len(b[k]))) if a[k][j] != b[k][j]), min(len(a[k]), len(b[k])))
                return "%s[%d] was %r, now %r (%d before, %d now)" % (k, j, b[k][j:j + 1], a[k][j:j + 1], len(b[k]), len(a[k]))
            return "%s was %r, now %r" % (k, b[k], a[k])
    return "?"
