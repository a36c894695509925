"""The reference model: what a saved design must contain, computed from the design
program alone (never through the library), and the same view of a loaded design."""
from .const import *


def expected(design, scale=None):
    """Needle penetrations, boundary kinds between them, and the thread index of each."""
    pens, owner = [], []
    marks = {}
    order = -1
    st = design["stitches"]

    def more(i):
        for s in st[i:]:
            c = s[2] & 0xFF if s[2] >= 0 else NO_COMMAND
            if c in (STITCH, NEEDLE_AT, SEW_TO, TIE_ON, SEQUIN_EJECT):
                return True
            if c == END:
                return False
        return False

    for i, s in enumerate(st):
        if s[2] < 0:
            continue
        c = s[2] & 0xFF
        if c in (STITCH, NEEDLE_AT, SEW_TO):
            if order == -1:
                order = 0
            pens.append((s[0], s[1]))
            owner.append(order)
        elif c in (COLOR_CHANGE, NEEDLE_SET):
            order += 1
            if order:
                marks.setdefault(len(pens), []).append("C")
        elif c == COLOR_BREAK:
            if order >= 0 and more(i):
                order += 1
                marks.setdefault(len(pens), []).append("C")
        elif c in (STOP, FRAME_EJECT):
            marks.setdefault(len(pens), []).append("S")
        elif c == END:
            break
    return {"pens": pens, "marks": marks, "owner": owner, "orders": order + 1,
            "marks_stop": any("S" in m for m in marks.values())}


def view(stitches):
    """The same view of a loaded command list [[x, y, cmd], ...]."""
    pens, marks, owner = [], {}, []
    lead = []  # penetration i was a zero-length stitch right where a jump landed
    order = 0
    px = py = 0  # the machine starts here as if a jump had landed
    jumped = True
    for s in stitches:
        c = s[2] & 0xFF if s[2] >= 0 else NO_COMMAND
        if c in (STITCH, NEEDLE_AT, SEW_TO):
            pens.append((s[0], s[1]))
            lead.append(jumped and (s[0], s[1]) == (px, py))
            owner.append(order)
            jumped = False
        elif c == COLOR_CHANGE or c == NEEDLE_SET or c == COLOR_BREAK:
            order += 1
            marks.setdefault(len(pens), []).append("C")
        elif c == STOP:
            marks.setdefault(len(pens), []).append("S")
        elif c == JUMP:
            jumped = True
        if c in (STITCH, NEEDLE_AT, SEW_TO, JUMP):
            px, py = s[0], s[1]
    return {"pens": pens, "marks": marks, "owner": owner, "lead": lead}


def close(a, b, tol):
    return abs(a[0] - b[0]) <= tol and abs(a[1] - b[1]) <= tol


def _tokens(v, kinds, lead=None):
    """Penetrations and boundary markers as one sequence, from the first penetration to the last."""
    out = []
    n = len(v["pens"])
    for k in range(n):
        if k:
            m = v["marks"].get(k)
            if m:
                b = "".join(sorted(set(c for c in m if c in kinds)))
                if b:
                    out.append(("B", b, k))
        out.append(("P", v["pens"][k], k, bool(lead and lead[k])))
    return out


def align(want, got, tol, allow_lead, kinds="CS", merge=True, also=None):
    """Match a loaded design to the expected one: every penetration in order and every
    boundary between the same penetrations.  Zero-length penetrations where a jump lands
    may be dropped when allow_lead.  Returns (error or None, what, back) with back[j] = the
    expected index of loaded penetration j (of a dropped one: the index of the next).
    also(j, i), when given, must hold for loaded penetration j to be expected penetration i."""
    wt = _tokens(want, kinds)
    lead = got["lead"] if allow_lead else None
    gt = _tokens(got, kinds, lead)
    W = len(wt)
    cur = {0: None}
    hist = []
    for t in gt:
        nxt = {}
        for i in cur:
            if t[0] == "P":
                if i < W and wt[i][0] == "P" and close(wt[i][1], t[1], tol) and (also is None or also(t[2], wt[i][2])):
                    nxt.setdefault(i + 1, i)
                if t[3]:
                    nxt.setdefault(i, i)
            else:
                if i < W and wt[i][0] == "B" and (merge or wt[i][1] == t[1]):
                    nxt.setdefault(i + 1, i)
                if i and wt[i - 1][0] == "B" and (merge or t[1] in wt[i - 1][1]):
                    nxt.setdefault(i, i)
                if allow_lead and (i == 0 or i == W):
                    nxt.setdefault(i, i)
        if not nxt:
            i = max(cur)
            exp = "the end" if i >= W else "%s %r" % ("penetration %d" % wt[i][2] if wt[i][0] == "P" else "a change/stop before penetration %d:" % wt[i][2], wt[i][1])
            kind = "boundary" if t[0] == "B" or (i < W and wt[i][0] == "B") else "path"
            if t[0] == "P" and i < W and wt[i][0] == "B" and not close(wt[i + 1][1], t[1], tol):
                kind = "path"
            return "saved %s, loaded %s %r (loaded penetration %d)" % (exp, "penetration at" if t[0] == "P" else "a change/stop", t[1], t[2]), kind, None
        hist.append(nxt)
        cur = nxt
    if W not in cur:
        i = max(cur)
        k = wt[i][2]
        return "the loaded design ends before penetration %d %r" % (k, want["pens"][k]), "path", None
    back = {}
    i = W
    for j in range(len(gt) - 1, -1, -1):
        pi = hist[j][i]
        t = gt[j]
        if t[0] == "P":
            if pi != i:
                back[t[2]] = wt[pi][2]
            else:
                back[t[2]] = wt[i][2] if i < W else len(want["pens"])
        i = pi
    return None, None, back
