"""C24: saving honours encoder commands and save options."""
import copy
from .. import enc as N, gen as G, harness as H, model as M, rt, world as W
from ..const import *

CASES = {"quick": 16000, "thorough": 500000}
RULE = "a run normalises a design with inline encoder commands under chosen options and saves it, after other saves with other options, through the simulated disk; distinct cases counted"
MEASURE = "distinct (format, option, kinds of encoder commands, elements reached) combinations"
LOW = {STITCH, JUMP, TRIM, STOP, END, COLOR_CHANGE, NEEDLE_SET, SEQUIN_MODE, SEQUIN_EJECT, SLOW, FAST}
ROUND = ("dst", "dstx", "exp", "jef", "xxx", "tbf") + rt.PESLIKE
MATRIX = (MATRIX_SCALE, MATRIX_ROTATE, MATRIX_SCALE_ORIGIN, MATRIX_ROTATE_ORIGIN)
CAP = {"gcode": 9000, "vp3": 9000}

# formats with records for trims and speeds; in the + ones a run of jumps, or an empty jump, counts as a trim too
TRIMS = {"exp": "T", "vp3": "T", "xxx": "T", "u01": "TFL", "tbf": "T+", "jef": "T+", "dst": "T+", "dstx": "T+"}


def gen(r, i, tier):
    fmt = H.MACHINE[i % len(H.MACHINE)]
    d = N.program(r, stops=fmt != "u01" or r.random() < .7, sequins=r.random() < .6 and ("all" if fmt in ("dst", "dstx") else True), flt=r.random() < .1)
    case = {"fmt": fmt, "design": d, "opts": dict(N.options(r, fmt), **({"trims": True} if fmt == "jef" and r.random() < .5 else {})), "knobs": {"bufsize": G.bufsize(r), "rand_const": 0x35A06F},
            "faults": G.profile_faults(r) if r.random() < .4 else [], "before": [], "refs": [], "change": None, "own": r.random() < .2}
    blocks = 1 + sum(1 for s in d["stitches"] if s[2] in (COLOR_CHANGE, COLOR_BREAK))
    d["threads"] = G.threadlist(r, blocks + 2, r.random() < .3)
    case["refs"] = []
    if r.random() < .25:
        refs(r, case, blocks)
    x = r.random()
    if x < .3:
        case["change"] = r.choice([NEEDLE_SET, NEEDLE_SET, STOP, COLOR_CHANGE])
        if r.random() < .7:
            case["needles"] = r.choice([1, 2, 3, 6, 15])
    if r.random() < .1:
        G.numbered(r, d)
    for _ in range(r.choice([0, 0, 1, 2])):
        case["before"].append([r.choice(H.MACHINE), N.options(r), r.random() < .3])
    return case


def refs(r, case, blocks):
    """The threads of the blocks chosen by number, in the change commands or set in advance."""
    d = case["design"]
    begun, n = N.begun(d["stitches"])
    odd = begun != list(range(1, blocks))
    blocks = max(n, 1)
    want = [r.randrange(len(d["threads"])) if r.random() < .7 else None for _ in range(blocks)]
    how = r.choice(["inline", "inline", "preset", "order"] if odd else ["inline", "preset", "order", "spread"])
    head = []
    k = 0
    if how == "inline":
        lost = sewn = False
        if 0 not in begun:
            want[0] = None
        for s in d["stitches"]:
            sewn = sewn or s[2] in N.SEWING + (SEQUIN_EJECT,)
            if s[2] in (COLOR_CHANGE, COLOR_BREAK) and k < len(begun):
                b = begun[k]
                k += 1
                lost = lost or b is None and (sewn or any(x is not None for x in begun[:k]))  # (the unused thread of the last blocks)
                if b is not None and lost:
                    want[b] = None
                elif b is not None and want[b] is not None:
                    s[2] |= (want[b] + 1) << 8
    elif how == "preset":
        n = r.randint(1, blocks)
        want = [r.randrange(len(d["threads"])) for _ in range(n)] + [None] * (blocks - n)
        head = [[0, 0, SET_CHANGE_SEQUENCE | (want[j] + 1) << 8] for j in range(n)]
    elif how == "spread":  # given on the way: each counts on from the last block named or begun
        out, ahead, k, st = {}, 0, 0, []
        for s in d["stitches"]:
            while r.random() < (.15 if ahead < blocks else 0):
                t = r.randrange(len(d["threads"]))
                st.append([0, 0, SET_CHANGE_SEQUENCE | (t + 1) << 8])
                out[ahead] = t
                ahead += 1
            if s[2] in (COLOR_CHANGE, COLOR_BREAK):
                k += 1
                if r.random() < .3:
                    out[k] = r.randrange(len(d["threads"]))
                    s[2] |= (out[k] + 1) << 8
                ahead = max(ahead, k + 1)
            st.append(s)
        d["stitches"] = st
        want = [out.get(k) for k in range(blocks)]
    else:
        head = [[0, 0, SET_CHANGE_SEQUENCE | (j + 1) << 24 | (want[j] + 1) << 8] for j in range(blocks) if want[j] is not None]
    d["stitches"][0:0] = head
    case["preset"] = how == "order"
    case["refs"] = want


def threads_of(case, orders):
    """The number of each block's thread."""
    out, n = [], 0
    for k in range(orders):
        w = case["refs"][k] if k < len(case["refs"]) else None
        if w is None:
            w = n
            n += 1
        out.append(w)
    return out


def plain(d):
    """The design without thread numbers in its commands."""
    return {"stitches": [[s[0], s[1], s[2] if s[2] < 0 else s[2] & 0xFF] for s in d["stitches"]]}


def whole(els):
    for e in els:
        if e[0] in "PQ" and (abs(e[1][0] - round(e[1][0])) > 1e-7 or abs(e[1][1] - round(e[1][1])) > 1e-7):
            return False
    return True


def run(case):
    res = H.R()
    fmt = case["fmt"]
    d = case["design"]
    pd = plain(d)
    opts = dict(case["opts"])
    with H.Box(case) as w:
        p = H.build(d)
        for f, o, own in case["before"]:
            w.enabled = False
            kind, v = H.attempt(H.save, p if own else H.build(d), w.path("b." + H.FORMATS[f][0]), dict(H.FORMATS[f][1], **N.as_settings(o)))
            w.enabled = True
            res.count("earlier_" + kind)
        normal(res, case, d, pd, opts, p)
        if not res.viol:
            saved(res, case, d, pd, opts, p, w)
        res.world(w)
        for k in {s[2] & 0xFF for s in d["stitches"] if s[2] >= 0} - {STITCH, JUMP, END}:
            res.state(fmt, k, sorted(opts)[:2])
    return res


def normal(res, case, d, pd, opts, p):
    """The normalised design, which every writer gets."""
    st = N.as_settings(opts)
    cmd = case["change"] or COLOR_CHANGE
    if case["change"]:
        st["thread_change_command"] = cmd
    needles = case.get("needles", 5)
    if "needles" in case:
        st["needle_count"] = needles
    if cmd == NEEDLE_SET and needles <= 1:
        cmd = STOP
    keep = dict(st)
    els = N.interpret(pd, opts)
    n = p.get_normalized_pattern(st)
    if st != keep:
        res.bad("options-changed", "normalising changed the caller's options from %r to %r" % (keep, st))
    got = H.snap(n)["stitches"]
    if cmd == STOP:
        els = [("B", ["S" if m == "C" else m for m in e[1]]) if e[0] == "B" else e for e in els]
    tol = 1e-6
    if opts.get("round") and not whole(N.interpret(pd, dict(opts, round=False))):
        tol = 2.01
    bad = N.match(els, N.events(got), tol, limits=tol < 1)
    if bad:
        res.bad("normal:" + bad[0], "normalised with %r: %s" % (st, bad[1]))
        return
    odd = [s for s in got if s[2] & 0xFF not in LOW]
    if odd:
        res.bad("normal:command", "the normalised design holds command 0x%x" % odd[0][2])
        return
    if [s[2] & 0xFF for s in got].count(END) != 1 or got[-1][2] & 0xFF != END:
        res.bad("normal:end", "the normalised design has %d ends, its last command is 0x%x" % ([s[2] & 0xFF for s in got].count(END), got[-1][2]))
        return
    mode = False
    for k, s in enumerate(got):
        c = s[2] & 0xFF
        if c == SEQUIN_MODE:
            mode = not mode
        elif c == SEQUIN_EJECT and not mode or c in (JUMP, TRIM) and mode:
            res.bad("normal:sequin-mode", "command %d of the normalised design is %s with sequin mode %s" % (k, {SEQUIN_EJECT: "a sequin", JUMP: "a jump", TRIM: "a trim"}[c], "on" if mode else "off"))
            return
    # the threads of the blocks, in order
    changes = [s for s in got if s[2] & 0xFF == cmd and (cmd != STOP or s[2] >> 8)]
    orders = N.begun(pd["stitches"])[1]
    use = threads_of(case, orders)
    have = H.snap(n)["threads"]
    src = H.snap(p)["threads"]
    if cmd == NEEDLE_SET:
        if have != src:
            res.bad("normal:threads", "with needle changes the thread list went from %d to %d threads" % (len(src), len(have)))
            return
        wantc = [(use[k], k % needles + 1) for k in range(orders)]
    else:
        if have != [src[k] for k in use]:
            k = next((k for k in range(min(len(have), len(use))) if have[k] != src[use[k]]), min(len(have), len(use)))
            res.bad("normal:threads", "block %d of %d has thread %r, the design gives it number %r of %d" % (k, orders, have[k:k + 1], use[k:k + 1], len(src)))
            return
        wantc = [(use[k], k % needles + 1) for k in range(1 if cmd == COLOR_CHANGE else 0, orders)]
    gotc = [((s[2] >> 8 & 255) - 1, (s[2] >> 16 & 255) - 1) for s in changes]
    if case.get("preset"):  # default needles go by the order in which blocks were first named
        gotc, wantc = [a for a, _ in gotc], [a for a, _ in wantc]
    if gotc != wantc:
        k = next((k for k in range(min(len(gotc), len(wantc))) if gotc[k] != wantc[k]), min(len(gotc), len(wantc)))
        res.bad("normal:change", "thread change %d asks for thread and needle %r, the design means %r" % (k, gotc[k:k + 1], wantc[k:k + 1]))
        return
    if H.snap(n)["extras"] != H.snap(p)["extras"]:
        res.bad("normal:metadata", "normalising lost metadata")
    res.count("normalised")
    res.count("elements", len(els))


def saved(res, case, d, pd, opts, p, w, tag="", load=None):
    """load: another way to get the commands of the file; its result is handed back."""
    fmt = case["fmt"]
    ext, base = H.FORMATS[fmt]
    eff = dict(N.DEFAULTS[fmt])
    if fmt in ROUND:
        eff["round"] = True
    for k in ("max_stitch", "max_jump"):
        if k in opts and (eff.get(k) or 0) < opts[k]:
            opts.pop(k)  # more than the format holds
    eff.update(opts)
    if fmt in ("dst", "dstx") or fmt == "gcode":
        pass
    elif eff.get("sequin") == N.UTIL or any(s[2] == N.UTIL for s in pd["stitches"]):
        res.count("sequins_not_stored")
        return
    if fmt == "gcode" and (eff.get("sequin") == N.UTIL or any(s[2] == N.UTIL for s in pd["stitches"])):
        return
    if fmt == "gcode":  # mirrored by its own default scale, which these replace or meet
        if any(s[2] == MATRIX_RESET for s in pd["stitches"]):
            return
        for k in ("scale", "translate"):
            opts.pop(k, None)
            eff.pop(k, None)
    cap = {"vp3": 3200, "gcode": 1e9}.get(fmt, eff.get("max_jump", 0))
    for s in pd["stitches"]:
        if s[2] in (OPTION_MAX_STITCH_LENGTH, OPTION_MAX_JUMP_LENGTH) and s[0] > min(eff.get("max_stitch", 1e9), cap):
            return
    els = N.interpret(pd, eff)
    if N.extent(els) > CAP.get(fmt, 15000) or not any(e[0] in "P" for e in els):
        res.count("beyond_capacity")
        return
    if eff.get("round") is not True and fmt in ROUND:
        return
    raw = N.interpret(pd, dict(eff, round=False))
    frac = not whole(raw)
    st = dict(base, **N.as_settings(opts))
    keep = copy.deepcopy(st)
    before = H.snap(p)
    path = w.path("d." + ext)
    kind, v = H.attempt(H.save, p, path, st)
    if kind == "raise":
        res.bad(tag + "save-raises:" + fmt, "saving as %s with %r raised %s: %s" % (fmt, keep, H.exc_name(v), v))
        return
    if H.snap(p) != before or st != keep:
        res.bad(tag + "source-changed:" + fmt, "saving as %s changed the design or the caller's options" % fmt)
        return
    if load:
        q = load(path, st)
        if q is None:
            return
        got = q.cmds
    else:
        kind, q = H.attempt(H.load, path, {"trims": True} if opts.get("trims") else None)
        if kind == "raise" or q is None:
            res.bad(tag + "load-raises:" + fmt, "loading the saved %s raised %r" % (fmt, q))
            return
        got = H.snap(q)["stitches"]
    ties = any(e[0] in "TL" for e in els)
    if fmt == "vp3":  # truncates: a hair below a whole number is the number before
        frac = frac or ties or bool(set(opts) & {"scale", "rotate"}) or any(s[2] in MATRIX or s[0] != int(s[0]) or s[1] != int(s[1]) for s in pd["stitches"])
    tol = rt.tolerance(fmt, frac) + 1e-6
    if frac and (fmt in ROUND or opts.get("round")):
        tol = (2.01 if any(s[2] in (MATRIX_SCALE, MATRIX_ROTATE) for s in pd["stitches"]) else 1.01) + (fmt == "vp3")
    kinds = rt.KINDS[fmt]
    bad = N.match(els, N.events(got, "CS" if kinds != "C" else "C"), tol, "C" if kinds == "C" else "CS", kinds == "exact" and False, fmt in rt.PESLIKE, limits=False, loose=max(tol, 1.01 if fmt != "gcode" else .02) * 1.42 + .01)
    if bad:
        res.bad(tag + "%s:%s" % (bad[0], fmt), "saved as %s with %r: %s" % (fmt, keep, bad[1]))
        return
    for k in TRIMS.get(fmt, "").rstrip("+"):
        if fmt == "jef" and not opts.get("trims") or load and fmt in ("jef", "dst", "dstx"):
            continue  # (there jumps are trims to those who count them)
        if k != "T":  # a speed comes with the next record that moves; of two speeds in one place the last counts
            ps = [(int(round(e[1][0])), int(round(e[1][1]))) for e in els if e[0] == "P"]
            if ties or any(abs(a[0] - b[0]) + abs(a[1] - b[1]) < 3 for a, b in zip([(0, 0)] + ps, ps)):
                break
        some = lambda es: [("B", e[1][:1]) if e[0] == "B" else e for e in es]
        only = lambda es: [e if e[0] != "B" else ("B", [m for m in e[1] if (m in "FL") == (k in "FL")][-1:] if k != "T" else ["T"] * ("T" in e[1])) for e in es]
        bad = N.match(only(els), some(N.events(got, k)), tol, k, True, limits=False, loose=max(tol, 1.01) * 1.42 + .01, extra="+" in TRIMS[fmt])
        if bad:
            res.bad(tag + "%s-%s:%s" % ({"T": "trim"}.get(k, "speed"), bad[0], fmt), "saved as %s with %r: looking at %s, %s" % (fmt, keep, {"T": "trims", "F": "the fast command", "L": "the slow command"}[k], bad[1]))
            return
        res.count("trims_compared")
    res.digest.append(got)
    res.count("saved")
    return q
