"""C14: a save rejected before output leaves the old file untouched."""
from .. import damage as D, gen as G, harness as H, iosweep as I, ops as O, rofmt as F, world as W
from ..const import *

CASES = {"quick": 9000, "thorough": 400000}
RULE = "a run attempts one operation that has to be rejected, over a destination with known content; cases where the damaged source still loads are not counted; distinct cases counted"
MEASURE = "distinct (operation, reason, source and target format, destination, error) combinations"
BAD_EXT = ["zzz", "", "dsb", "hus", "bak", "dst2", "ds", "emd", "jpeg", "tap", "PNGX", "d st", "sew", "max"]
ENCODED = ["dst", "dstx", "exp", "jef", "pec", "pes1", "pes6", "pes1t", "pes6t", "vp3", "u01", "xxx", "tbf", "gcode", "svg", "png", "txt", "txtm", "pmv"]
SPOIL = [[k, v] for k in ("x", "y", "cmd") for v in (None, "x", [], {})]


def gen(r, i, tier):
    why = ["target", "spoil", "source-type", "source-missing", "source-damaged", "source-fault", "target-convert"][i % 7]
    c = {"why": why, "old": r.choice([None, 0, 10, 3000]), "knobs": {"bufsize": r.choice([1, 64, 8192]), "rand_seed": 3}, "faults": [],
         "ext": r.choice(BAD_EXT), "fmt": r.choice(ENCODED), "same": r.random() < .2, "via": "path", "again": r.random() < .3,
         "noise": G.profile_faults(r) if r.random() < .2 else []}
    if why in ("target", "spoil"):
        c["design"] = O.small_design(r)
    if why == "spoil":
        c["spoil"] = [r.randrange(1000), r.randrange(len(SPOIL))]
        if r.random() < .2:
            c["via"] = "stream"
        if r.random() < .3:
            c["settings"] = r.choice([{"max_stitch": 30}, {"full_jump": True}, {"explicit_trim": True}, {"long_stitch_contingency": 0xF6}, {"round": True}])
    if why == "source-damaged":
        c.update({k: v for k, v in D.gen(r, i // 7).items() if k in ("src", "edits", "mut")})
    if why in ("source-fault", "target-convert", "source-type"):
        c["src"] = O.source(r, O.SOURCES[(i // 7) % len(O.SOURCES)])
        c["edits"] = c["mut"] = []
    if why == "source-fault":
        c["nth"] = r.choice([0, 0, 0, 1, 1, 2, 3, 4, 7, 12, 30])
        c["fop"] = r.choice(["read", "read", "read", "open", "close"])
        c["kind"] = r.choice(["eio", "eio", "estale", "eacces", "enoent", "etimedout", "eisdir", "eperm"])
    return c


def run(case):
    res = H.R()
    why = case["why"]
    fmt = case["fmt"]
    with H.Box(case) as w:
        ext = H.FORMATS[fmt][0]
        st = O.settings(fmt, w, "side.ct0" if fmt == "tbf" else None, case.get("settings"))
        dst = "out." + ext
        src = None
        if case.get("src"):
            data = D.data_of(case)
            src = "in." + O.source_ext(case["src"])
            if why == "source-type":
                src = "in." + case["ext"] if case["ext"] not in H.READ_EXT else "in.zzz"
        if why in ("target", "target-convert"):
            dst = "out." + case["ext"] if case["ext"] else "out"
        if case["same"] and src and why in ("source-damaged", "source-fault") and H.writer_of(O.source_ext(case["src"])):
            dst = src  # the file is to be rewritten in place
        if case["old"] is not None:
            H.put(w, dst, bytes((7 * k) & 0xFF for k in range(case["old"])))
            H.put(w, "side.ct0", b"side")
        if src:
            H.put(w, src, data)
        if why == "source-missing":
            src = "missing.dst"
        old = {n: H.get(w, n) for n in (dst, "side.ct0")}
        stream = None
        if why == "source-damaged":
            k, e = H.attempt(H.load, w.path(src), None)
            if k == "ok":
                res.nontrivial = False
                return res
        w.faults = list(case["noise"])
        if why == "source-damaged" and isinstance(e, UnicodeDecodeError):
            w.faults = []  # undecodable bytes behind the content are met or not with the size of the reads
        if why == "source-fault":
            w.faults.insert(0, {"op": case["fop"], "file": src, "open": w.open_counts.get(src, 0), "nth": case["nth"] if case["fop"] == "read" else 0, "kind": case["kind"]})
        if why == "target":
            p = H.build(case["design"])
            f = lambda: H.save(p, w.path(dst), {})
        elif why == "spoil":
            p = H.build(case["design"])
            at = [k for k, s in enumerate(p.stitches) if s[2] & 0xFF in (STITCH, JUMP)]
            if not at:
                res.nontrivial = False
                return res
            what, v = SPOIL[case["spoil"][1]]
            p.stitches[at[case["spoil"][0] % len(at)]][{"x": 0, "y": 1, "cmd": 2}[what]] = v
            if case["via"] == "stream":
                stream = W.CallerStream(b"old content")
                f = lambda: H.pe.EmbPattern.write_embroidery(H.writer_of(ext), p, stream, st)
            else:
                f = lambda: H.save(p, w.path(dst), st)
        else:
            f = lambda: H.pe.EmbPattern.convert(w.path(src), w.path(dst), st if why != "target-convert" else {})
        for rnd in range(2 if case["again"] else 1):
            if rnd and why == "source-fault":
                break
            kind, e = H.attempt(f)
            if why == "source-fault" and not any(v.split(":")[1] not in ("short", "eintr") for v in w.fired):
                res.nontrivial = False
                return res
            label = "%s:%s" % (why, O.source_name(case["src"]) if why in ("source-damaged", "source-fault") else fmt if why == "spoil" else "")
            txt = {"target": "saving as .%s" % case["ext"], "target-convert": "converting to .%s" % case["ext"],
                   "spoil": "saving a design with the %s %r as %s" % (tuple(SPOIL[case["spoil"][1]]) + (fmt,)) if why == "spoil" else "",
                   "source-type": "converting from %s" % src, "source-missing": "converting a missing file",
                   "source-damaged": "converting a damaged %s that does not load" % src, "source-fault": "converting from %s with a failing %s call" % (src, case.get("fop"))}[why]
            res.state(why, fmt, case["ext"] if "target" in why else None, O.source_name(case["src"]) if src and case.get("src") else None, case["old"], kind, H.exc_name(e) if kind == "raise" else None)
            res.count("rejected_" + why)
            if kind == "ok":
                res.bad("accepted:" + label, txt + " returned normally")
                return res
            if not isinstance(e, Exception):
                res.bad("abort:" + label, "%s raised %s" % (txt, H.exc_name(e)))
                return res
            for n in (dst, "side.ct0"):
                now = H.get(w, n)
                if now != old[n]:
                    res.bad("destination:" + label, "%s was rejected (%s) but %s went from %s to %s" % (
                        txt, H.exc_name(e), n, "nothing" if old[n] is None else "%d bytes" % len(old[n]), "nothing" if now is None else "%d bytes" % len(now)))
                    return res
            if stream is not None and (stream.getvalue() != b"old content" or stream.tell() != 0):
                res.bad("destination:" + label, "%s to a stream was rejected but the stream holds %r" % (txt, stream.getvalue()[:40]))
                return res
            extra = [n for n in __import__("os").listdir(w.root) if n not in (dst, "side.ct0", src)]
            if extra:
                res.bad("litter:" + label, "%s was rejected but left the file %s" % (txt, extra[0]))
                return res
        res.world(w)
    return res
