"""Runs one operation once undisturbed to learn its I/O calls, then again with an error
injected at each of them.  Shared by C08 (errors are reported) and C09 (files are closed)."""
from random import Random
from . import gen as G, harness as H, ops as O, world as W
from .const import *

KINDS = {"open": ["eacces", "eio", "emfile", "enospc", "erofs", "enoent", "eperm", "enotdir", "ebusy", "enametoolong", "eloop", "etimedout", "eisdir", "enomem"],
         "read": ["eio", "eio", "eio", "estale", "etimedout", "econnreset", "eacces", "eisdir", "enoent", "einval"],
         "write": ["enospc", "eio", "edquot", "efbig", "etimedout", "epipe", "eperm", "estale", "einval"],
         "seek": ["eio", "estale", "einval"], "close": ["eio", "enospc", "edquot", "etimedout"], "truncate": ["eio"]}


def gen(r, i, tier):
    op = r.choice(["load", "load", "save", "save", "convert"])
    case = {"op": op, "via": "path", "knobs": {"bufsize": r.choice([1, 3, 16, 64, 256, 8192, 8192]), "encoding": "utf-8"},
            "noise": G.profile_faults(r) if r.random() < .3 else [], "pick": r.randrange(1 << 30), "only": None,
            "old": r.choice([0, 0, 50, 40000]), "sticky": r.random() < .2, "side": False, "encode": r.random() < .85,
            "spoil": None, "pointcap": 24 if tier == "quick" else 60}
    if op in ("load", "convert"):
        case["src"] = O.source(r, O.SOURCES[(i // 2) % len(O.SOURCES)])
    if op in ("save", "convert"):
        case["fmt"] = O.SAVED[(i // 3) % len(O.SAVED)]
        if op == "convert" and case["fmt"] == "png":  # a picture of an arbitrary file may be huge
            case["fmt"] = "svg"
        case["side"] = case["fmt"] == "tbf" and r.random() < .7
    if op == "save":
        case["design"] = O.small_design(r, case["fmt"])
    if op == "load" and O.source_ext(case["src"]) not in O.TEXT_READ and r.random() < .25:
        case["via"] = "stream"
    if op == "save" and case["fmt"] not in O.TEXT_WRITE and r.random() < .25:
        case["via"] = "stream"
    return case


class Run:
    """One execution of the operation in a fresh world."""

    def __init__(self, case, faults, sfail=None, data=None):
        c2 = {"faults": list(faults) + list(case["noise"]), "knobs": dict(case["knobs"], rand_seed=1)}
        self.op = op = case["op"]
        self.value = None
        self.stream = None
        self.files = {}
        with H.Box(c2) as w:
            self.w = w
            self.data = data
            if op in ("load", "convert"):
                if self.data is None:
                    self.data = O.source_bytes(case["src"])
                    w.rng.seed(1)  # making the source must not move the random source of the run
                src = "in." + O.source_ext(case["src"])
                H.put(w, src, self.data)
            if op in ("save", "convert"):
                self.dst = "out." + H.FORMATS[case["fmt"]][0]
                if case["old"]:
                    H.put(w, self.dst, b"\x55" * case["old"])
                st = O.settings(case["fmt"], w, "side.ct0" if case["side"] else None, {} if case["encode"] else {"encode": False})
            w.open_counts.clear()
            del w.handles[:], w.leaks[:], w.trace[:]
            if op == "save":
                p = build(case)
            if op == "load" and case["via"] == "stream":
                self.stream = W.CallerStream(self.data, sfail)
                f = lambda: H.pe.EmbPattern.read_embroidery(H.reader_of(O.source_ext(case["src"])), self.stream)
            elif op == "load":
                f = lambda: H.load(w.path(src))
            elif op == "save" and case["via"] == "stream":
                self.stream = W.CallerStream(b"", sfail)
                f = lambda: H.pe.EmbPattern.write_embroidery(H.writer_of(H.FORMATS[case["fmt"]][0]), p, self.stream, st)
            elif op == "save":
                f = lambda: H.save(p, w.path(self.dst), st)
            else:
                f = lambda: H.pe.EmbPattern.convert(w.path(src), w.path(self.dst), st)
            before = w.io_ops
            self.kind, v = H.attempt(f)
            self.exc = v if self.kind == "raise" else None
            self.open_now = [h for h in w.handles if not h.closed]
            self.leaks = list(w.leaks)
            if self.kind == "ok" and op == "load":
                self.value = H.snap(v)
            if op in ("save", "convert"):
                for nm in (self.dst, "side.ct0"):
                    self.files[nm] = H.get(w, nm)
            self.fired = [e for e in w.fired_list if e["kind"] not in ("short", "eintr")]
            self.exc_txt = "%s: %s" % (type(self.exc).__name__, self.exc) if self.exc is not None else None
            self.exc = v = None

    def points(self):
        out = []
        for h in self.w.handles:
            out.append(("open", h.fname, h.opn, 0))
            for op in ("read", "write", "seek", "close", "truncate"):
                for n in range(h.n[op]):
                    out.append((op, h.fname, h.opn, n))
        return out


def build(case):
    p = H.build(case["design"])
    sp = case.get("spoil")
    if sp and p.stitches:
        i = sp["at"] % len(p.stitches)
        v = {"nan": float("nan"), "inf": float("inf"), "str": "x", "none": None, "huge": 1 << 70}[sp["v"]]
        if sp["what"] == "x":
            p.stitches[i][0] = v
        elif sp["what"] == "cmd":
            p.stitches[i][2] = None if sp["v"] in ("nan", "inf") else v
        elif sp["what"] == "color" and p.threadlist:
            p.threadlist[sp["at"] % len(p.threadlist)].color = None if sp["v"] != "str" else "x"
        elif sp["what"] == "name":
            p.extras["name"] = None if sp["v"] == "none" else b"\xff\xfe"
        elif sp["what"] == "thread":
            p.threadlist.insert(0, None)
    return p


def choose(points, case, cap):
    """All opens and closes, the first and last call of each kind, and a seeded sample of the rest."""
    r = Random(case["pick"])
    must, rest = [], []
    seen = {}
    for p in points:
        seen.setdefault((p[0], p[1]), []).append(p)
    for k in sorted(seen):
        li = seen[k]
        must += [li[0]] + ([li[-1]] if len(li) > 1 else [])
        rest += li[1:-1]
    r.shuffle(must)
    r.shuffle(rest)
    return (must + rest)[:max(cap, min(len(must), cap * 2))]


def fault_of(p, r, sticky):
    k = r.choice(KINDS[p[0]])
    f = {"op": p[0], "file": p[1], "open": p[2], "nth": p[3], "kind": k, "n": r.choice([0, 0, 1, 5])}
    if sticky and p[0] in ("read", "write"):
        f["sticky"] = True
    return f


def sweep(case, base):
    """Yields (fault description, Run) for every chosen point; focus information included."""
    r = Random(case["pick"] + 1)
    if case["via"] == "stream":
        pts = [("stream", op, n) for op in ("read", "write", "seek", "tell") for n in range(base.stream.calls[op])]
        r2 = Random(case["pick"])
        first = [p for p in pts if p[2] == 0]
        rest = [p for p in pts if p[2]]
        r2.shuffle(rest)
        todo = [{"stream": True, "op": p[1], "nth": p[2], "kind": r2.choice(["eio", "eio"] + KINDS.get(p[1], [])), "sticky": case["sticky"]} for p in (first + rest)[:case["pointcap"]]]
    else:
        todo = [fault_of(p, r, case["sticky"]) for p in choose(base.points(), case, case["pointcap"])]
    if case["only"] is not None:
        todo = case["only"]
    for f in todo:
        if f.get("stream"):
            run = Run(case, [], f, base.data)
            hit = run.stream.fired
        else:
            run = Run(case, [f], None, base.data)
            hit = len(run.fired)
        yield f, run, hit
