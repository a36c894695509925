"""C21: chains of conversions keep the design."""
import json, os
from .. import gen as G, harness as H, model as M, rt, world as W
from ..const import *

CASES = {"quick": 2600, "thorough": 120000}
RULE = "a run takes a design through a chain of 2 to 6 conversions between machine and lossless formats, in one process or with a restart (new process, files only) between steps, with steps that fail or crash and are retried; distinct cases counted"
MEASURE = "distinct (source format, target format, disturbance, restarted) steps"
FMTS = H.MACHINE + ["csv", "json"]
TIMEOUT = 60


def gen(r, i, tier):
    n = r.choice([2, 2, 3, 3, 4, 6])
    first = FMTS[i % len(FMTS)]
    chain = [first]
    while len(chain) < n:
        chain.append(r.choice(FMTS))
    if r.random() < .3:  # there and back again
        chain = (chain[:2] * 3)[:n]
    d = G.design(r, size=r.choice([1, 2, 4, 8]), blocks=r.choice([1, 2, 3, 5]), limit=9000, extras={k: G.text(r, 1, 8) for k in ("name", "author") if r.random() < .4},
                 stops="u01" not in chain or r.random() < .7)
    many = r.random() < .05  # more blocks than a machine has needles
    if many:
        d = G.design(r, size=r.choice([1, 2]), blocks=r.choice([14, 17, 20, 34]), limit=9000)
    steps = []
    for k in range(n):
        x = r.random()
        f = None
        if x < .25:
            f = {"op": r.choice(["write", "write", "read", "open", "close", "seek"]), "side": None, "nth": r.choice([0, 0, 0, 1, 2, 4]), "kind": r.choice(["eio", "enospc"]), "n": r.choice([0, 1, 30])}
            f["side"] = "in" if f["op"] == "read" else "out" if f["op"] == "write" else r.choice(["in", "out"])
        elif x < .4:
            f = {"op": "write", "side": "out", "nth": r.choice([0, 0, 1, 2, 5]), "kind": "crash", "n": r.choice([0, 1, 7, 100])}
        steps.append(f)
    opts = [{"needle_count": r.choice([15, 16, 20, 40])} if many and c == "tbf" and r.random() < .7 else options(r, c) if c not in ("csv", "json") and r.random() < .25 else {} for c in chain]
    return {"opts": opts, "chain": chain, "design": d, "steps": steps, "restart": r.random() < .3, "stable": r.random() < .6, "names": r.choice(["each", "each", "one"]),
            "knobs": {"bufsize": r.choice([16, 64, 512, 8192]), "rand_const": 0x35A06F, "clock": 1.7e9}, "faults": [], "noise": G.profile_faults(r) if r.random() < .3 else []}


def options(r, fmt):
    """Options that change how a step is stored, not what it means."""
    o = [{"full_jump": True}, {"full_jump": False}, {"explicit_trim": True}, {"explicit_trim": False}, {"writes_speeds": r.random() < .5}, {"trim_at": r.choice([1, 2, 3, 5])}, {"clipping": False}]
    if fmt == "jef":
        o += [{"date": "20200101000000"}, {"trims": True}]
    elif fmt == "gcode":
        o += [{"stitch_z_travel": r.choice([5.0, 0, .25])}]
    elif fmt in ("u01", "tbf"):
        o += [{"needle_count": r.choice([2, 3, 7, 12, 15])}] * 2
    elif fmt in rt.PESLIKE:
        o += [{"truncated": True}]
    return r.choice(o)


def step(w, restart, fn):
    """Runs fn in this process or in a new one that has only the files; returns its outcome."""
    if not restart:
        kind, v = H.attempt(fn)
        if isinstance(v, W.SimCrash):
            w.crashed = False
        return [kind, H.exc_name(v) if kind == "raise" else None, dict(w.fired)]
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rfd)
            kind, v = H.attempt(fn)
            os.write(wfd, json.dumps([kind, H.exc_name(v) if kind == "raise" else None, dict(w.fired)]).encode())
        finally:
            os._exit(0)
    os.close(wfd)
    b = b""
    while True:
        part = os.read(rfd, 65536)
        if not part:
            break
        b += part
    os.close(rfd)
    os.waitpid(pid, 0)
    return json.loads(b)


def name_of(k, fmt, names="each"):
    """One file per step, or one per type: then later steps replace the files of earlier ones, or their own source."""
    return "%s.%s" % ("w" if names == "one" else "f%d" % k, H.FORMATS[fmt][0])


def settings(fmt, more=None):
    return dict(H.FORMATS[fmt][1], **(more or {}))


def check_step(res, what, src, got, fmt):
    """The loaded result against the design it was made from."""
    d = {"stitches": src["stitches"]}
    exp = M.expected(d)
    if fmt in ("csv", "json"):
        if got["stitches"] != src["stitches"]:
            k = next((k for k in range(min(len(got["stitches"]), len(src["stitches"]))) if got["stitches"][k] != src["stitches"][k]), min(len(got["stitches"]), len(src["stitches"])))
            res.bad("lossless:" + fmt, "%s: command %d was %r, is %r" % (what, k, src["stitches"][k:k + 1], got["stitches"][k:k + 1]))
            return False
        return True
    if not exp["pens"]:
        return True
    errs = rt.path_errors(d, got["stitches"], fmt, exp)[0]
    if errs:
        res.bad("step-" + errs[0][0], "%s: %s" % (what, errs[0][1]))
        return False
    return True


def run(case):
    res = H.R()
    chain = case["chain"]
    design = case["design"]
    names = case.get("names", "each")
    opts = list(case.get("opts") or []) + [{}] * 9
    exp0 = M.expected(design)
    if not exp0["pens"]:
        res.nontrivial = False
        return res
    with H.Box(case) as w:
        p = H.build(design)
        kind, v = H.attempt(H.save, p, w.path(name_of(0, chain[0], names)), settings(chain[0], opts[0]))
        if kind == "raise":
            res.bad("save-raises:" + chain[0], "saving as %s raised %r" % (chain[0], v))
            return res
        cur = H.snap(H.load(w.path(name_of(0, chain[0], names))))
        if not check_step(res, "saving as " + chain[0], {"stitches": [list(s) for s in design["stitches"]]}, cur, chain[0]):
            return res
        loose = rt.tolerance(chain[0], False)
        kinds = set("CS") - (set("S") if chain[0] == "vp3" else set())
        lead = chain[0] in rt.PESLIKE
        todo = [(a, b, case["steps"][k + 1] if k + 1 < len(case["steps"]) else None) for k, (a, b) in enumerate(zip(chain, chain[1:]))]
        extra = [(chain[-1], chain[-1], None)] * 3 if case["stable"] else []
        tail = []
        for k, (a, b, f) in enumerate(todo + extra):
            src, dst = name_of(k, a, names), name_of(k + 1, b, names)
            before = H.get(w, src)
            go = lambda: H.pe.EmbPattern.convert(w.path(src), w.path(dst), settings(b, opts[k + 1] if k < len(todo) else None))
            what = "step %d of %s: %s to %s%s" % (k + 1, ">".join(chain), a, b, " with %r" % opts[k + 1] if k < len(todo) and opts[k + 1] else "")
            if f is not None and src != dst:
                w.faults = [{"op": f["op"], "file": src if f["side"] == "in" else dst, "open": w.open_counts.get(src if f["side"] == "in" else dst, 0), "nth": f["nth"], "kind": f["kind"], "n": f["n"]}]
                out = step(w, case["restart"], go)
                w.faults = []
                for q, c in out[2].items():
                    if case["restart"]:
                        res.count("fault." + q, c)
                res.count("step_" + out[0])
                if H.get(w, src) != before:
                    res.bad("source:%s" % a, "%s failed (%s) and changed its source file" % (what, out[1]))
                    return res
                what += " (retried after %s)" % out[1] if out[0] == "raise" else " (again)"
            w.faults = list(case["noise"])
            out = step(w, case["restart"], go)
            w.faults = []
            if out[0] == "raise":
                res.bad("convert-raises:%s:%s" % (a, b), "%s raised %s" % (what, out[1]))
                return res
            if src != dst and H.get(w, src) != before:
                res.bad("source:%s" % a, "%s changed its source file" % what)
                return res
            kind, v = H.attempt(H.load, w.path(dst))
            if kind == "raise" or v is None:
                res.bad("load-raises:%s" % b, "%s: loading the result raised %r" % (what, v))
                return res
            got = H.snap(v)
            if not check_step(res, what, cur, got, b):
                return res
            frac = rt.fractional({"stitches": cur["stitches"]})
            loose += rt.tolerance(b, frac) if b not in ("csv", "json") else 0
            lead = lead or b in rt.PESLIKE
            if b == "vp3":
                kinds.discard("S")
            # the whole chain against the first design: a format may turn a stop into a change, none may lose one
            gv = M.view(got["stitches"])
            if b in ("csv", "json"):
                pass  # identical to the step before
            elif lead:
                # zero-length penetrations came and went on the way: the others are all there, in order
                j = missing(exp0["pens"], gv["pens"], loose)
                if j is not None:
                    res.bad("chain-path:%s" % b, "after %s penetration %d %r of the first design is missing" % (what, j, exp0["pens"][j]))
                    return res
            elif "S" in kinds or not exp0["marks_stop"]:
                err, sig, _ = M.align(exp0, gv, loose, False, "CS", True)
                if err:
                    res.bad("chain-%s:%s" % (sig, b), "after %s the design differs from the first one: %s" % (what, err))
                    return res
            elif not M_pens(exp0, gv, loose, False):
                res.bad("chain-path:%s" % b, "after %s the penetrations differ from those of the first design" % what)
                return res
            res.state(a, b, f and f["op"] + f["kind"], case["restart"])
            if k >= len(todo):
                tail.append(got)
            cur = got
        if len(tail) == 3:
            for key in ("stitches", "threads"):
                u, v = tail[1][key], tail[2][key]
                if key == "stitches" and chain[-1] == "vp3":  # it stores no jumps, blocks without stitches begin where the one before began
                    u, v = ([s for s in l if s[2] & 0xFF != JUMP] for l in (u, v))
                if u != v:
                    j = next((j for j in range(min(len(u), len(v))) if u[j] != v[j]), min(len(u), len(v)))
                    res.bad("unstable:%s:%s" % (chain[-1], key), "converting %s to %s over and over does not settle: after %s, %s[%d] was %r and became %r (%d, %d entries)" % (
                        chain[-1], chain[-1], ">".join(chain), key, j, u[j:j + 1], v[j:j + 1], len(u), len(v)))
                    return res
        res.world(w)
        res.count("steps", len(todo) + len(extra))
        res.digest.append(cur)
    return res


def missing(want, got, tol):
    """Index of the first penetration of want that is not in got in order (zero-length ones aside), or None."""
    j = 0
    last = None
    for i, p in enumerate(want):
        if last is not None and M.close(p, last, tol):
            continue
        while j < len(got) and not M.close(p, got[j], tol):
            j += 1
        if j >= len(got):
            return i
        j += 1
        last = p
    return None


def M_pens(want, got, tol, lead):
    a = dict(want, marks={})
    b = dict(got, marks={})
    return M.align(a, b, tol, lead, "", True)[0] is None
