"""Mechanical mutants of the library, to find what the checks do not see (development aid).

  mutants.py SEED COUNT [FILE...]   sample COUNT mutants, keep those the stable tests pass, run the checks
                                    on each (stop at the first that reports), print the survivors
"""
import ast, json, os, random, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
sys.path.insert(0, os.path.join(V, "tools"))
import seedbug
LIB = os.path.join(REPO, "pyembroidery")
CMP = {ast.Lt: ["<="], ast.LtE: ["<"], ast.Gt: [">="], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"]}
TXT = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is", ast.IsNot: "is not"}
BIN = {ast.Add: ("+", "-"), ast.Sub: ("-", "+"), ast.Mult: ("*", "/"), ast.LShift: ("<<", ">>"), ast.RShift: (">>", "<<"),
       ast.BitAnd: ("&", "|"), ast.BitOr: ("|", "&")}


def offsets(src):
    o, pos = [], 0
    for line in src.split("\n"):
        o.append(pos)
        pos += len(line) + 1
    return o


def mutants(fn):
    with open(fn, newline="", encoding="utf8") as f:
        src = f.read()
    tree = ast.parse(src)
    flat = src
    lines = offsets(flat)
    blines = flat.split("\n")

    def at(line, col):
        return lines[line - 1] + len(blines[line - 1].encode()[:col].decode())

    def span(n):
        return at(n.lineno, n.col_offset), at(n.end_lineno, n.end_col_offset)
    out = []

    def put(a, b, new, what, line):
        if len(flat[a:b]) > 400:
            return
        text = flat[:a] + new + flat[b:]
        out.append((line, what, flat[a:b].strip()[:80], new[:80], text))
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(getattr(n.body[0], "value", None), ast.Constant):
            doc.add(n.body[0])
            doc.add(n.body[0].value)
    inside = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            for m in ast.walk(n):
                inside.add(m)
    for n in ast.walk(tree):
        if n not in inside or n in doc:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            a, b = span(n.left)[1], span(n.comparators[0])[0]
            gap = flat[a:b]
            t = TXT[type(n.ops[0])]
            if t in gap:
                for new in CMP[type(n.ops[0])]:
                    put(a, b, gap.replace(t, new, 1), "cmp", n.lineno)
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            a, b = span(n)
            for d in (1, -1):
                put(a, b, str(n.value + d), "const", n.lineno)
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            a, b = span(n)
            put(a, b, str(not n.value), "bool", n.lineno)
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            a, b = span(n.left)[1], span(n.right)[0]
            gap = flat[a:b]
            t, new = BIN[type(n.op)]
            if t in gap:
                put(a, b, gap.replace(t, new, 1), "bin", n.lineno)
        elif isinstance(n, ast.BoolOp) and len(n.values) == 2:
            a, b = span(n.values[0])[1], span(n.values[1])[0]
            gap = flat[a:b]
            t, new = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            put(a, b, gap.replace(t, new, 1), "boolop", n.lineno)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            a, b = span(n)
            c, d = span(n.operand)
            put(a, b, flat[c:d], "unary", n.lineno)
        elif isinstance(n, (ast.If, ast.While)):
            a, b = span(n.test)
            put(a, b, "False", "cond", n.lineno)
            if isinstance(n, ast.If):
                put(a, b, "True", "cond", n.lineno)
        elif isinstance(n, (ast.Continue, ast.Break)):
            a, b = span(n)
            put(a, b, "pass", "flow", n.lineno)
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)):
            a, b = span(n)
            put(a, b, "pass", "del", n.lineno)
        elif isinstance(n, ast.Return) and n.value is not None:
            a, b = span(n)
            put(a, b, "return None", "ret", n.lineno)
    good = []
    for line, what, old, new, text in out:
        try:
            ast.parse(text)
        except SyntaxError:
            continue
        good.append({"file": os.path.basename(fn), "line": line, "what": what, "old": old, "new": new, "text": text})
    return good


ORDER = ["C01", "C24", "C26", "C27", "C28", "C29", "C02", "C06", "C03", "C04", "C05", "C21", "C20", "C17", "C07", "C16", "C13", "C14", "C12", "C19", "C18", "C08", "C09", "C11", "C10", "C15"]


def order_for(f):
    n = f.lower()
    first = []
    if n in ("csvreader.py", "csvwriter.py", "jsonreader.py", "jsonwriter.py", "genericwriter.py"):
        first = ["C29"] if "generic" in n else ["C04", "C21"]
    elif n in ("svgwriter.py", "txtwriter.py", "pngwriter.py"):
        first = ["C05", "C07"]
    elif n.endswith("reader.py"):
        first = ["C28", "C06", "C01", "C02", "C03"]
    return first + [c for c in ORDER if c not in first]


def one(m, frac):
    d = tempfile.mkdtemp(prefix="mu-", dir="/dev/shm")
    try:
        t = os.path.join(d, "repo")
        shutil.copytree(REPO, t, ignore=shutil.ignore_patterns(".git", "__pycache__"))
        with open(os.path.join(t, "pyembroidery", m["file"]), "w", newline="", encoding="utf8") as f:
            f.write(m["text"])
        if not passes(t):
            return "tests"
        for p in order_for(m["file"]):
            mod_cases = CASES[p]
            env = dict(os.environ, VERIF_REPO=t, VERIF_EVIDENCE=d + "/ev", SIM_REPLAYS=d + "/rep", SIM_JOBS="2", SIM_STOP_AFTER="1", SIM_SHRINK_S="0",
                       SIM_CASES=str(max(40, int(mod_cases * frac))), SIM_CAP="200")
            try:
                rc, out = seedbug.run(["./check", p], cwd=V, env=env, timeout=900)
            except subprocess.TimeoutExpired:
                return "timeout:" + p
            if rc == 1 and "VIOLATION property=%s" % p in out:
                return p
            if rc not in (0, 1):
                return "error:" + p + ":" + out[-200:]
        return "SURVIVED"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def passes(t):
    try:
        return seedbug.tests(t)[0] == 0
    except Exception:
        return False


def main():
    seed, count = int(sys.argv[1]), int(sys.argv[2])
    files = sys.argv[3:] or sorted(f for f in os.listdir(LIB) if f.endswith(".py") and f != "__init__.py")
    frac = float(os.environ.get("MUT_FRAC", ".1"))
    r = random.Random(seed)
    pool = []
    for f in files:
        ms = mutants(os.path.join(LIB, f))
        pool.append(ms)
    # even out the files: weight by sqrt of size
    pick = []
    w = [len(p) ** .5 for p in pool]
    while len(pick) < count and any(pool):
        k = r.choices(range(len(pool)), w)[0]
        if not pool[k]:
            w[k] = 0
            if not any(w):
                break
            continue
        pick.append(pool[k].pop(r.randrange(len(pool[k]))))
    t0 = time.time()
    tally = {}
    jobs = int(os.environ.get("MUT_JOBS", "5"))
    logf = open(os.environ.get("MUT_LOG", "/tmp/mut/log-%d.jsonl" % seed), "a")
    with ThreadPoolExecutor(jobs) as ex:
        for m, res in zip(pick, ex.map(lambda m: one(m, frac), pick)):
            k = res.split(":")[0]
            tally[k] = tally.get(k, 0) + 1
            logf.write(json.dumps(dict({k: v for k, v in m.items() if k != "text"}, res=res)) + "\n")
            logf.flush()
            if k in ("SURVIVED", "error", "timeout"):
                print("%s %s:%d [%s] %s -> %s" % (res, m["file"], m["line"], m["what"], m["old"], m["new"]))
                sys.stdout.flush()
    print(tally, "%.0f s" % (time.time() - t0))


if __name__ == "__main__":
    sys.path.insert(0, V)
    import importlib
    CASES = {}
    for i in list(range(1, 22)) + [24, 26, 27, 28, 29]:
        src = open(os.path.join(V, "sim/props/c%02d.py" % i)).read()
        import re
        CASES["C%02d" % i] = int(re.search(r'CASES = \{"quick": (\d+)', src).group(1))
    main()
