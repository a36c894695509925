"""Round-trip oracle: compares a loaded design with the reference model of the saved one."""
from . import model as M
from .const import *

PESLIKE = ("pec", "pes1", "pes6", "pes1t", "pes6t")
# which boundary kinds the format stores, and whether it tells them apart
KINDS = {"dst": "merge", "dstx": "merge", "exp": "merge", "xxx": "merge", "gcode": "merge", "jef": "merge", "u01": "exact",
         "tbf": "exact", "vp3": "C"}
for _f in PESLIKE:
    KINDS[_f] = "merge"


def tolerance(fmt, fractional):
    if fmt == "gcode":
        return 0.011
    if not fractional:
        return 0.011 if fmt == "vp3" else 0  # block starts are stored in 1/1000 mm from the centre
    if fmt == "vp3":
        return 1.02
    return 0.5001


def fractional(design):
    return any(s[0] != int(s[0]) or s[1] != int(s[1]) for s in design["stitches"])


def path_errors(design, stitches, fmt, exp=None, merge=False, also=None):
    """([(sig, message)], loaded view, back map) for the needle path and the boundaries."""
    want = exp or M.expected(design)
    got = M.view(stitches)
    if also is not None:
        also = also(want, got)
    kind = KINDS[fmt]
    err, what, back = M.align(want, got, tolerance(fmt, fractional(design)), fmt in PESLIKE,
                              "C" if kind == "C" else "CS", merge or kind == "merge", also)
    if err is not None:
        return [("%s:%s" % (what, fmt), "%s: %s" % (fmt, err))], got, None
    return [], got, back
