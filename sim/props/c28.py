"""C28: files of the formats the library also writes, made by other programs, decode to what they encode."""
from .. import gen as G, rofmt as F, rwfmt as RW
from . import c06

CASES = {"quick": 12000, "thorough": 500000}
RULE = "a run loads one file with at least one record or thread through the simulated disk; distinct cases counted"
MEASURE = "distinct (format, record kinds, end form, disturbance) combinations"
TEXT = ("csv", "col")


def gen(r, i, tier):
    fmt = RW.NAMES[i % len(RW.NAMES)]
    f = F.sample(r, fmt)
    via = r.choice(["path", "path", "path", "upper", "stream"])
    if fmt in TEXT and via == "stream":
        via = "path"
    return {"file": f, "via": via, "ropt": c06.read_options(r, fmt),
            "knobs": {"bufsize": G.bufsize(r), "encoding": r.choice(["utf-8", "ascii", "latin-1"])},
            "faults": G.profile_faults(r, ("read",)) if r.random() < .6 else []}


def run(case):
    f = case["file"]
    res = c06.run(case)
    res.nontrivial = bool(f["recs"] or f["threads"])
    return res
