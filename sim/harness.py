"""Glue between a case and the real library: building designs, saving, loading,
snapshots.  Imports pyembroidery from the repository's working tree."""
import hashlib, json, os, shutil, sys, tempfile
from . import world as W, sched as S

REPO = os.environ.get("VERIF_REPO", "/repo")
LIB_DIR = os.path.join(os.path.realpath(REPO), "pyembroidery") + os.sep
pe = None


class HarnessError(Exception):
    pass


def load_library():
    """Install the seams, then import every module of the library from the working tree."""
    global pe
    if pe is not None:
        return pe
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(os.sep, "nonexistent-vpsim")  # never read stale bytecode of the library
    W.install()
    S.set_lib(LIB_DIR)
    S.install_locks()
    sys.path.insert(0, os.path.realpath(REPO))
    import pyembroidery
    if not os.path.realpath(pyembroidery.__file__).startswith(LIB_DIR):
        raise HarnessError("pyembroidery imported from %s, not from %s" % (pyembroidery.__file__, LIB_DIR))
    import importlib
    for fn in sorted(os.listdir(LIB_DIR)):
        if fn.endswith(".py") and fn != "__init__.py":
            try:
                importlib.import_module("pyembroidery." + fn[:-3])
            except Exception:
                pass  # a module the package itself does not import may be broken
    import xml.etree.ElementTree, csv, json as _j, zlib, struct, datetime  # noqa: lazily imported by the library
    sys.pycache_prefix = None
    pe = pyembroidery
    return pe


FORMATS = {
    # name: (extension, settings)
    "dst": ("dst", {}), "dstx": ("dst", {"version": "extended"}), "exp": ("exp", {}), "jef": ("jef", {}),
    "pec": ("pec", {}), "pes1": ("pes", {"version": "1"}), "pes6": ("pes", {"version": "6"}),
    "pes1t": ("pes", {"version": "1t"}), "pes6t": ("pes", {"version": "6t"}), "vp3": ("vp3", {}),
    "u01": ("u01", {}), "xxx": ("xxx", {}), "tbf": ("tbf", {}), "gcode": ("gcode", {}),
    "csv": ("csv", {}), "csvdelta": ("csv", {"version": "delta"}), "csvfull": ("csv", {"version": "full"}),
    "json": ("json", {}), "svg": ("svg", {}), "txt": ("txt", {}), "txtm": ("txt", {"mimic": True}), "png": ("png", {}),
    "pmv": ("pmv", {}), "col": ("col", {}), "edr": ("edr", {}), "inf": ("inf", {}),
}
MACHINE = ["dst", "dstx", "exp", "jef", "pec", "pes1", "pes6", "pes1t", "pes6t", "vp3", "u01", "xxx", "tbf", "gcode"]
READ_EXT = ["100", "10o", "bro", "csv", "col", "dat", "dsb", "dst", "dsz", "edr", "emd", "exp", "exy", "fxy", "gcode", "gt",
            "hus", "inb", "inf", "jef", "jpx", "json", "ksm", "max", "mit", "new", "pcd", "pcm", "pcq", "pcs", "pec", "pes",
            "phb", "phc", "pmv", "sew", "shv", "spx", "stc", "stx", "tap", "tbf", "u01", "vp3", "xxx", "zhs", "zxy"]


def writer_of(ext):
    for ft in pe.EmbPattern.supported_formats():
        if ft["extension"] == ext:
            return ft.get("writer")


def reader_of(ext):
    for ft in pe.EmbPattern.supported_formats():
        if ft["extension"] == ext:
            return ft.get("reader")


THREAD_FIELDS = ("description", "catalog_number", "details", "brand", "chart", "weight")


def make_thread(t):
    th = pe.EmbThread()
    th.color = t["color"]
    for k in THREAD_FIELDS:
        if k in t:
            setattr(th, k, t[k])
    return th


def build(design):
    p = pe.EmbPattern()
    for s in design["stitches"]:
        p.add_stitch_absolute(s[2], s[0], s[1])
    for t in design.get("threads", ()):
        p.add_thread(make_thread(t))
    for k, v in design.get("extras", {}).items():
        p.metadata(k, v)
    return p


def thread_snap(t):
    if t is None or not hasattr(t, "color"):
        return repr(t)
    return [t.color] + [getattr(t, k, "?") for k in THREAD_FIELDS]


def _jsonable(v):
    if isinstance(v, (bytes, bytearray)):
        return "bytes:" + bytes(v).hex()
    if isinstance(v, (list, tuple)):
        return [_jsonable(i) for i in v]
    if isinstance(v, (str, int, float, bool)) or v is None:
        return v
    if hasattr(v, "color"):
        return ["thread"] + thread_snap(v)
    return repr(type(v))


def snap(p):
    """Everything observable of a design, as plain values (so it cannot alias the design)."""
    if p is None:
        return None
    return {"stitches": [list(s) for s in p.stitches], "threads": [thread_snap(t) for t in p.threadlist],
            "extras": {str(k): _jsonable(v) for k, v in p.extras.items()}}


def dig(x):
    if isinstance(x, (bytes, bytearray)):
        return hashlib.sha1(bytes(x)).hexdigest()[:16]
    return hashlib.sha1(json.dumps(x, sort_keys=True, default=str).encode()).hexdigest()[:16]


def exc_name(e):
    return type(e).__name__


budget = None  # steps left and allowed, where the steps of each operation are counted


def attempt(fn, *a, **k):
    """('ok', value) or ('raise', exception).  Simulator control exceptions pass through."""
    if budget:
        budget[0][0] = budget[1]
    try:
        return "ok", fn(*a, **k)
    except (S.BudgetExceeded, HarnessError):
        raise
    except BaseException as e:
        return "raise", e


def save(p, path, settings=None):
    return pe.EmbPattern.static_write(p, path, settings)


def load(path, settings=None, pattern=None):
    return pe.EmbPattern.static_read(path, settings, pattern)


BASE = None  # scratch directory of this run, set by the runner
_boxes = [0]


class Box:
    """A world with its scratch directory, active inside the with-block."""

    def __init__(self, case):
        if BASE is not None:
            _boxes[0] += 1
            self.root = os.path.join(BASE, "w%d" % _boxes[0])
            os.makedirs(self.root)
        else:
            self.root = tempfile.mkdtemp(prefix="vpsim-")
        self.w = W.World(self.root, case.get("faults", ()), case.get("knobs"))

    def __enter__(self):
        self.cwd = os.getcwd()
        os.chdir(self.root)
        W.activate(self.w)
        return self.w

    def __exit__(self, *a):
        W.activate(None)
        os.chdir(self.cwd)
        shutil.rmtree(self.root, ignore_errors=True)


def put(w, name, data):
    """Place bytes on the simulated disk without going through the fault layer."""
    with W.real_open(w.path(name), "wb") as f:
        f.write(data)


def get(w, name):
    try:
        with W.real_open(w.path(name), "rb") as f:
            return f.read()
    except FileNotFoundError:
        return None


def clean_bytes(design, fmt, extra=None, pattern=None):
    """Bytes of a save of the design on a healthy disk (faults off)."""
    ext, st = FORMATS[fmt]
    st = dict(st)
    st.update(extra or {})
    w = W.WORLD
    old = w.enabled
    w.enabled = False
    nm = w.path("_clean_." + ext)
    try:
        pe.EmbPattern.static_write(pattern if pattern is not None else build(design), nm, st)
        return get(w, "_clean_." + ext)
    finally:
        w.enabled = old
        if os.path.exists(nm):
            os.unlink(nm)


class R:
    """Result of one simulated run."""

    def __init__(self):
        self.viol = []      # [signature, message, focus]
        self.stats = {}     # counters
        self.states = set() # distinct states/interleavings reached
        self.digest = []    # values the determinism proof compares
        self.nontrivial = True
        self.sim_s = 0.0
        self.fired = []

    def bad(self, sig, msg, focus=None):
        self.viol.append([sig, str(msg)[:900], focus])

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def state(self, *parts):
        self.states.add(dig(list(parts))[:10])

    def world(self, w):
        for k, v in w.fired.items():
            self.count("fault." + k, v)
        self.fired += w.fired_list[:60]
        self.count("io_ops", w.io_ops)
        self.count("clock_reads", w.clock_reads)
        self.count("random_draws", w.rand_draws)
        self.sim_s += max(0.0, w.clock_max - w.clock_min)
        self.digest.append([list(map(str, e)) for e in w.trace])

    def export(self):
        return {"viol": self.viol, "stats": self.stats, "states": sorted(self.states), "digest": dig([self.digest, self.viol]),
                "nontrivial": self.nontrivial, "sim_s": self.sim_s, "fired": self.fired[:60]}
