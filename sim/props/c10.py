"""C10: loading any bytes ends in bounded time and memory."""
import resource, sys
from .. import damage as D, harness as H, ops as O, sched as S, world as W

CASES = {"quick": 9000, "thorough": 600000}
STEP_BUDGET = 60_000_000
RULE = "a run loads one damaged file while every executed line of library code is counted; distinct cases counted"
MEASURE = "distinct (format, outcome, magnitude of steps per byte) combinations"
FIXED_STEPS = 150_000       # the most any file of a few bytes cost was 2000; a count in a header must not be worked through without content
STEPS_PER_BYTE = 300        # HUS needs up to 80, all others up to 30
FIXED_MEM = 160 << 20
MEM_PER_BYTE = 20000


def gen(r, i, tier):
    case = D.gen(r, i)
    if r.random() < .06 and not case.get("bomb") and not case.get("claim"):  # a large file: a part of it again and again
        case["grow"] = [round(r.random(), 4), r.choice([1, 2, 3, 3, 4, 6, 8, 9, 12, 24, 60]), r.choice([2000, 10000, 40000])]
        if r.random() < .5:
            case["mut"], case["edits"] = [], []
    return case


def grown(data, grow):
    at = int(grow[0] * len(data))
    part = data[at:at + grow[1]]
    return data[:at] + part * (grow[2] // max(1, len(part))) + data[at:]


class Counter:
    def __init__(self, budget):
        self.n = 0
        self.budget = budget
        self.lib = S._lib_dir
        self.over = False
        self.where = None

    def local(self, frame, event, arg):
        self.n += 1
        if self.n > self.budget:
            self.over = True
            self.where = frame.f_code.co_name
            raise S.BudgetExceeded()
        return self.local

    def glob(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(self.lib):
            return self.local
        return None


def run(case):
    res = H.R()
    name = O.source_name(case["src"])
    ext = O.source_ext(case["src"])
    with H.Box(case) as w:
        data = D.data_of(case)
        if case.get("grow"):
            data = grown(data, case["grow"])
        H.put(w, "d." + ext, data)
        budget = FIXED_STEPS + STEPS_PER_BYTE * len(data)
        expand = 0
        if ext == "hus" and len(data) >= 8:
            # compressed: the work is bounded by the number of stitches the header declares
            # (or, when only that number is damaged, by the stitches that are there)
            expand = len(case["src"]["enc"]["recs"]) + 1 if case.get("claim") else min(int.from_bytes(data[4:8], "little"), len(data) * 65535)
            budget += 60 * expand
            if expand > 300000:
                res.nontrivial = False
                return res
        rss0 = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss
        c = Counter(budget)
        out = "ok"
        sys.settrace(c.glob)
        try:
            if case["via"] == "stream":
                H.pe.EmbPattern.read_embroidery(H.reader_of(ext), W.CallerStream(data))
            else:
                H.load(w.path("d." + ext))
        except S.BudgetExceeded:
            pass
        except MemoryError:
            out = "MemoryError"
        except BaseException as e:
            out = type(e).__name__
        finally:
            sys.settrace(None)
        rss = (resource.getrusage(resource.RUSAGE_SELF).ru_maxrss - rss0) * 1024
        if c.over:
            res.bad("steps:" + name, "loading %d bytes of damaged %s was still running after %d lines of library code (in %s)" % (len(data), name, budget, c.where))
        elif out == "MemoryError":
            res.bad("memory:" + name, "loading %d bytes of damaged %s ran out of the address space of the process" % (len(data), name))
        elif rss > FIXED_MEM + MEM_PER_BYTE * len(data) + 2000 * expand:
            res.bad("memory:" + name, "loading %d bytes of damaged %s took more than %d MB (%s)" % (len(data), name, (FIXED_MEM >> 20), out))
        res.count("outcome_" + ("ok" if out == "ok" else "raise"))
        res.count("steps", c.n)
        res.state(name, out, min(12, (c.n // (len(data) + 1)).bit_length()))
        res.world(w)
        res.digest.append([c.n, out])
    return res
