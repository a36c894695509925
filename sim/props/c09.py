"""C09: files the library opens are closed; caller streams stay open."""
from .. import harness as H, iosweep as I, ops as O, mutate as M
from .c08 import label

CASES = {"quick": 4000, "thorough": 60000}
RULE = "a run performs one operation on good, damaged or unsaveable input and once per injected I/O error; distinct cases counted"
MEASURE = "distinct (operation, format, outcome, fault operation) combinations"


def gen(r, i, tier):
    case = I.gen(r, i, tier)
    m = r.random()
    if case["op"] == "save" and m < .4:
        case["spoil"] = {"what": r.choice(["x", "x", "cmd", "color", "color", "name", "thread"]), "v": r.choice(["nan", "inf", "str", "none", "huge"]), "at": r.randrange(50)}
    elif case["op"] != "save" and m < .5:
        case["mut"] = M.script(r)
    return case


def run(case):
    res = H.R()
    lab = label(case)
    data = None
    if case.get("mut"):
        with H.Box({"faults": []}):
            data = M.apply(O.source_bytes(case["src"]), case["mut"])
    base = I.Run(case, [], None, data)
    check(res, case, lab, base, None)
    res.world(base.w)
    for f, r, hit in I.sweep(case, base):
        res.world(r.w)
        check(res, case, lab, r, f)
    res.nontrivial = bool(base.w.handles) or base.stream is not None
    return res


def check(res, case, lab, r, f):
    what = "%s of %s (%s%s)" % (case["op"], lab, "returned" if r.kind == "ok" else "raised " + str(r.exc_txt)[:80],
                               "" if f is None else ", %s %d failing with %s" % (f["op"], f["nth"], f["kind"]))
    foc = {"only": [] if f is None else [f]}
    if r.open_now:
        res.bad("open:%s:%s" % (case["op"], lab), "%s leaves %s open" % (what, r.open_now[0].fname), foc)
    elif r.leaks:
        res.bad("leak:%s:%s" % (case["op"], lab), "%s left closing %s to the garbage collector" % (what, r.leaks[0].fname), foc)
    if r.stream is not None and r.stream.was_closed:
        res.bad("stream:%s:%s" % (case["op"], lab), "%s closed the caller's stream" % what, foc)
    res.state(case["op"], lab, r.kind, f and f["op"])
    res.count("outcome_" + r.kind)
