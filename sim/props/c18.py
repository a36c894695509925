"""C18: only JEF's date field depends on the clock."""
import os, time
from .. import gen as G, harness as H, ops as O, sched as S, world as W
from ..const import *
from . import c07, c15, c17

CASES = {"quick": 5000, "thorough": 240000}
RULE = "a run performs one save, load, conversion or computation under several simulated clocks (fixed, skewed, jumping at every read, other time zone) and compares the results; a JEF save also has its date field compared with the clock readings it took; distinct cases counted"
MEASURE = "distinct (operation, format, kind of clock, time zone, clock reads) combinations"
SRC = [s for s in O.SOURCES if s != "jpx"]
ZONES = ["UTC0", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "IST-5:30", "NZST-12NZDT,M9.5.0,M4.1.0/3", "XXX11:45", "LINT-14", None]
# moments near a change of second, minute, day, month, year, era of an int, and of summer time
MOMENTS = [0, 1, 59, 3599, 86399, 951782399, 951868799, 1e9, 1.7e9, 1709164799, 1735689599, 2147483647, 2147483648, 4102444799, 4294967295, 4294967296,
           1710053999, 1730609999, 1711846799, 1729990799, 253402214400, -1, -86400, 915148799]


def moment(r):
    if r.random() < .6:
        return r.choice(MOMENTS) + r.choice([0, 0, -1, .25, .999999, -.000001, -3600, 7200])
    return r.uniform(0, 4.2e9)


def clock(r):
    k = r.choice(["fixed", "step", "jump", "back", "edge"])
    t = moment(r)
    if k == "fixed":
        return {"kind": k, "clock": t}
    if k == "step":
        return {"kind": k, "clock": t, "clock_step": r.choice([1e-6, .5, 1, 59.5, 3600])}
    if k == "back":
        return {"kind": k, "clock": t, "clock_step": -r.choice([1e-6, .5, 1, 3600, 86400])}
    if k == "edge":  # just before a round moment, passing it between two readings
        return {"kind": k, "clock": r.choice([86400 * r.randint(1, 30000), 3600 * r.randint(1, 500000), 60 * r.randint(1, 9999999)]) - .4, "clock_step": r.choice([.5, 1])}
    return {"kind": k, "clock": t, "script": [moment(r) for _ in range(6)]}


def gen(r, i, tier):
    if i % 3 == 0:
        op = {"op": "save", "fmt": "jef", "design": c17.full_threads(r, c07.gen_design(r, "jef") if r.random() < .5 else O.small_design(r, "jef")), "opts": c07.options(r, "jef") if r.random() < .5 else {}}
        for k in ("date", "encode"):  # what an unencoded design cannot be stored as, no reader has to load
            op["opts"].pop(k, None)
        if r.random() < .25:
            op["opts"]["date"] = "%014d" % r.randrange(10 ** 14)
        if r.random() < .15:
            op = {"op": "convert", "src": O.source(r, SRC[i % len(SRC)], 3), "fmt": "jef"}
    else:
        op = c15.op_of(r, i)
        if op.get("fmt") == "jef" and op["op"] == "save":
            op["opts"] = {}
        if "design" in op:
            c17.full_threads(r, op["design"])
    return {"op": op, "clocks": [clock(r) for _ in range(r.choice([2, 2, 3]))], "zones": [r.choice(ZONES) for _ in range(3)],
            "knobs": {"rand_const": 0x35A06F, "bufsize": r.choice([16, 8192])}, "faults": [], "at_import": False}


def set_zone(z):
    if z is None:
        os.environ.pop("TZ", None)
    else:
        os.environ["TZ"] = z
    time.tzset()


def digits(t):
    """The 14 digits of local time t, computed without the library's own route."""
    s = W._real["localtime"](t // 1)
    return ("%04d%02d%02d%02d%02d%02d" % s[:6]).encode()


def run(case):
    res = H.R()
    op = case["op"]
    fmt = op.get("fmt")
    zone0 = os.environ.get("TZ")
    with H.Box(case) as w:
        data = None
        if "src" in op:
            w.clock = 1.7e9
            data = O.source_bytes(op["src"])
            H.put(w, "i0." + O.source_ext(op["src"]), data)
        outs = []
        try:
            for k, c in enumerate(case["clocks"]):
                set_zone(case["zones"][k % len(case["zones"])])
                w.clock, w.clock_step, w.clock_script = c["clock"], c.get("clock_step", 0.0), list(c.get("script", ()))
                w.clock_values = []
                if op["op"] == "save":
                    name = "o%d.%s" % (k, H.FORMATS[fmt][0])
                    st = dict(H.FORMATS[fmt][1])
                    st.update(op.get("opts") or {})
                    if fmt == "tbf":
                        st["ct0"] = w.path("x.ct0")
                    kind, v = H.attempt(H.save, H.build(op["design"]), w.path(name), st)
                    out = [kind, None if kind == "ok" else H.exc_name(v), H.get(w, name), H.get(w, "x.ct0")]
                elif op["op"] == "convert":
                    name = "o%d.%s" % (k, H.FORMATS[fmt][0])
                    st = dict(H.FORMATS[fmt][1])
                    kind, v = H.attempt(lambda: H.pe.EmbPattern.convert(w.path("i0." + O.source_ext(op["src"])), w.path(name), st))
                    out = [kind, None if kind == "ok" else H.exc_name(v), H.get(w, name), None]
                else:
                    go, result = c15.job(w, op, 0, None, "")
                    kind, v = H.attempt(go)
                    out = result(kind, v)
                read = list(w.clock_values)
                res.state(op["op"], fmt, c["kind"], case["zones"][k % len(case["zones"])], len(read))
                if fmt == "jef" and out[0] == "ok":
                    b = out[2]
                    got = b[8:22]
                    want = None
                    if (op.get("opts") or {}).get("date"):
                        want = [op["opts"]["date"].encode()]
                    else:
                        want = [digits(t) for t in read]
                        # a value rounded to the microsecond may land on the next second
                        want += [digits(t + 1e-6) for t in read]
                        if not read:
                            res.bad("no-date", "the JEF save did not look at the clock; its date field is %r" % got)
                            break
                    if got not in want:
                        res.bad("date", "the JEF date field is %r; the clock said %s during the save" % (got, [x.decode() for x in want[:3]]))
                        break
                    out[2] = b[:8] + b"D" * 14 + b[22:]
                    p = H.load(w.path("o%d.jef" % k))
                    out.append(H.snap(p))
                outs.append(out)
                if outs[0] != out:
                    a = outs[0]
                    res.bad("depends:%s:%s" % (op["op"], fmt or ""), "%s %s depends on the clock: at %r it gave %s, at %r %s" % (
                        op["op"], fmt or O.source_name(op["src"]) if "src" in op or fmt else "", case["clocks"][0]["clock"], c15.brief(a, out), c["clock"], c15.brief(out, a)))
                    break
        finally:
            set_zone(zone0)
        res.world(w)
        res.sim_s = sum(abs(c["clock"] - case["clocks"][0]["clock"]) for c in case["clocks"])
        res.count("clocks", len(case["clocks"]))
        res.digest.append([H.dig(o) if not isinstance(o, list) else [H.dig(x) for x in o] for o in outs])
    return res
