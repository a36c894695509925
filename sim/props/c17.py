"""C17: the same save always produces the same bytes, the same load the same design."""
import json
from .. import damage as D, gen as G, harness as H, ops as O, sched as S, world as W
from ..const import *
from . import c07, c15

CASES = {"quick": 2600, "thorough": 110000}
CROSS_HASH = True
RULE = "a run performs a set of saves and loads, then a history of other operations (some failing, some cancelled), then the same saves and loads again; every case is also run in a second process with another hash seed; distinct cases counted"
MEASURE = "distinct (probe, preceding operation, its outcome) combinations"
SRC = [s for s in O.SOURCES if s != "jpx"]
STEP = 3_000_000


def full_threads(r, d):
    need = 2 + sum(1 for s in d["stitches"] if s[2] & 0xFF in (COLOR_CHANGE, COLOR_BREAK, STOP, FRAME_EJECT, NEEDLE_SET))
    while len(d["threads"]) < need:
        d["threads"].append(G.thread(r))
    return d


def probe(r, i):
    if r.random() < .3:
        return {"op": "load", "src": O.source(r, SRC[i % len(SRC)], r.choice([1, 3, 8])),
                "settings": r.choice([None, None, {"trim_at": 2}, {"trims": True}])}
    fmt = O.SAVED[i % len(O.SAVED)]
    if r.random() < .5:
        d = full_threads(r, O.small_design(r, fmt, size=r.choice([1, 3, 8])))
    else:
        d = full_threads(r, c07.gen_design(r, fmt))
    o = c07.options(r, fmt) if r.random() < .5 else {}
    return {"op": "save", "fmt": fmt, "design": d, "opts": o}


def before(r, i):
    """An operation of the history, with what befalls it."""
    o = c15.op_of(r, i)
    x = r.random()
    if x < .2:
        o["inject"] = [int(2 ** r.uniform(0, 12)), r.choice(["KeyboardInterrupt", "MemoryError"])]
    elif x < .45:
        o["fault"] = {"op": r.choice(["read", "write", "write", "open", "seek", "close"]), "file": "*", "nth": r.choice([0, 0, 1, 2, 5]), "kind": "eio"}
    elif x < .55 and o["op"] in ("load", "convert"):
        o["cut"] = r.random()
    if r.random() < .2 and "design" in o:  # no threads: fillers are drawn
        o["design"]["threads"] = []
    if r.random() < .3 and o["op"] == "save":
        o["opts"] = c07.options(r, o["fmt"])
    return o


def gen(r, i, tier):
    n = r.choice([1, 1, 2, 3])
    c = {"knobs": {"bufsize": r.choice([1, 64, 8192]), "rand_const": r.randrange(1 << 24)}, "faults": []}
    c["probes"] = [probe(r, i * 3 + k) for k in range(n)]
    c["history"] = [before(r, r.randrange(1000)) for _ in range(r.choice([1, 2, 3, 6]))]
    if r.random() < .4:  # an operation of the same format just before
        q = c["probes"][0]
        h = before(r, 0)
        for k in ("src", "fmt", "design", "opts", "opt", "inject", "fault", "cut"):
            if k != "inject" and k != "fault":
                h.pop(k, None)
        if q["op"] == "load":
            h.update(op="load", src=O.source(r, O.source_name(q["src"]), 3))
        else:
            h.update(op="save", fmt=q["fmt"], design=O.small_design(r, q["fmt"], size=2))
        c["history"].append(h)
    c["live"] = r.random() < .5
    c["encoding"] = [r.choice(["utf-8", "utf-8", "cp1252", "ascii"]) for _ in range(2)]
    return c


def settings(q, w):
    o = dict(H.FORMATS[q["fmt"]][1])
    if q["fmt"] == "jef":
        o["date"] = "20200102030405"
    o.update(q["opts"])
    if q["fmt"] == "tbf":
        o["ct0"] = w.path("probe.ct0")
    return o


def do_probe(w, q, k, live):
    if q["op"] == "load":
        kind, v = H.attempt(H.load, w.path("p%d.%s" % (k, O.source_ext(q["src"]))), q["settings"])
        if kind != "ok":
            return ["raise", H.exc_name(v)]
        out = H.snap(v)
        for t in v.threadlist:  # what the caller does with the design is the caller's
            t.color = t.color ^ 0x10203
            t.description = "other"
        v.translate(3, -4)
        v.metadata("other", "x")
        for g in v.extras.values():
            if isinstance(g, tuple) and len(g) and isinstance(g[0], bytearray) and len(g[0]):
                g[0][0] ^= 255
        return ["ok", out]
    name = "probe%d.%s" % (k, H.FORMATS[q["fmt"]][0])
    p = live if live is not None else H.build(q["design"])
    kind, v = H.attempt(H.save, p, w.path(name), settings(q, w))
    out = [kind, None if kind == "ok" else H.exc_name(v), H.get(w, name) if kind == "ok" else None,
           H.get(w, "probe.ct0") if q["fmt"] == "tbf" and kind == "ok" else None]
    return out


def run(case):
    res = H.R()
    with H.Box(case) as w:
        w.enabled = False
        for k, q in enumerate(case["probes"]):
            if q["op"] == "load":
                H.put(w, "p%d.%s" % (k, O.source_ext(q["src"])), O.source_bytes(q["src"]))
        live = [H.build(q["design"]) if q["op"] == "save" and case["live"] else None for q in case["probes"]]
        w.encoding = case["encoding"][0]
        first = [do_probe(w, q, k, live[k]) for k, q in enumerate(case["probes"])]
        outcomes = []
        for k, o in enumerate(case["history"]):
            if "src" in o:
                b = O.source_bytes(o["src"])
                if "cut" in o:
                    b = b[:int(len(b) * o["cut"])]
                H.put(w, "h_i%d.%s" % (k, O.source_ext(o["src"])), b)
            if "opts" in o:
                name = w.path("h_o%d.%s" % (k, H.FORMATS[o["fmt"]][0]))
                go = lambda o=o, name=name: H.save(H.build(o["design"]), name, settings(dict(o, opts=o["opts"]), w))
            else:
                go, _ = c15.job(w, o, k, None, "h_")
            w.enabled = True
            w.faults = [dict(o["fault"])] if "fault" in o else []
            if "inject" in o:
                sch = S.Scheduler([], inject=[[0] + o["inject"]], budget=STEP)
                (kind, v), = sch.run([go])
                if sch.injected:
                    res.count("fault.inject:" + o["inject"][1])
                kind = "stopped" if sch.injected else kind
            else:
                kind, v = H.attempt(go)
            w.faults = []
            w.enabled = False
            res.count("history_" + kind)
            outcomes.append(kind)
            w.encoding = case["encoding"][1]
            for j, q in enumerate(case["probes"]):
                got = do_probe(w, q, j, live[j])
                nm = q.get("fmt") or O.source_name(q["src"])
                res.state(q["op"], nm, o["op"], o.get("fmt"), kind)
                if got != first[j]:
                    res.bad("differs:%s:%s" % (q["op"], nm), "%s %s gave another result after %s (%s) than before it: first %s, then %s" % (
                        q["op"], nm, ", ".join("%s %s" % (h["op"], h.get("fmt") or O.source_name(h["src"]) if "fmt" in h or "src" in h else "") for h in case["history"][:k + 1]),
                        ", ".join(outcomes), c15.brief(first[j], got), c15.brief(got, first[j])))
                    return res
        res.world(w)
        res.digest = [[H.dig(x) if not isinstance(x, list) else [H.dig(y) for y in x] for x in first], outcomes]
    return res
