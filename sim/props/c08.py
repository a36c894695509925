"""C08: an I/O error during a load, save or conversion is always reported."""
from .. import harness as H, iosweep as I, ops as O

CASES = {"quick": 4000, "thorough": 60000}
RULE = "a run performs one operation undisturbed and then once per injected I/O error; distinct cases counted"
MEASURE = "distinct (operation, format, fault operation, error kind, position class) combinations"


def gen(r, i, tier):
    return I.gen(r, i, tier)


def label(case):
    return (O.source_name(case["src"]) if "src" in case else "") + (">" if case["op"] == "convert" else "") + case.get("fmt", "")


def run(case):
    res = H.R()
    quiet = dict(case, noise=[], via="path", knobs={"bufsize": 8192})
    ref = I.Run(quiet, [])
    base = I.Run(case, [], None, ref.data)
    lab = label(case)
    if base.kind != ref.kind:
        res.bad("disturbed:%s:%s" % (case["op"], lab), "%s %s: undisturbed it %s, with partial or interrupted transfers it %s (%s)" % (
            case["op"], lab, ref.kind, base.kind, base.exc_txt))
    res.world(base.w)
    if base.kind == "raise":
        res.nontrivial = False
        return res
    # after a normal return everything the format requires is there
    if case["op"] == "load" and base.value != ref.value:
        res.bad("partial-load:" + lab, "loading %s under partial or interrupted reads gives a different design" % lab)
    for nm in base.files:
        got = base.stream.getvalue() if base.stream is not None and nm == base.dst else base.files[nm]
        if got != ref.files[nm] and (base.stream is None or nm == base.dst):
            a, b = got or b"", ref.files[nm] or b""
            k = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), min(len(a), len(b)))
            res.bad("partial-save:" + lab, "%s: %s returned normally but %s differs from the complete file at byte %d (%d of %d bytes)" % (
                lab, case["op"], nm, k, len(a), len(b)))
    n = 0
    for f, r, hit in I.sweep(case, base):
        res.world(r.w)
        if not hit:
            res.count("not_reached")
            continue
        n += 1
        where = "stream" if f.get("stream") else f["file"]
        if r.kind != "raise":
            res.bad("swallowed:%s:%s" % (case["op"], lab), "%s of %s returned normally although %s number %d of %s failed with %s" % (
                case["op"], lab, f["op"], f["nth"], where, f["kind"]), {"only": [f]})
        res.state(case["op"], lab, f["op"], f["kind"], min(f["nth"], 3), where)
    res.count("errors_injected", n)
    if not n:
        res.nontrivial = False
    return res
