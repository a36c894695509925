"""Seeded search: cases, forked runs, shards, minimisation, replay, evidence.

case i of seed s of a property is generated by Random("<prop>:<s>:<i>") and is a
plain JSON value.  Each case runs in a process forked from one that has just
imported the library, so a run depends on its case alone.  The case numbers are
dealt to shard processes with different PYTHONHASHSEED values; the outcome must
not depend on that.
"""
import hashlib, importlib, json, os, resource, select, shutil, signal, subprocess, sys, tempfile, time, traceback
from random import Random

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HASHSEEDS = [0, 1, 2, 3, 17, 101, 4242, 99991]
CHILD_AS = 3 << 30
wall = time.monotonic
real_fork = os.fork


def load_prop(prop):
    return importlib.import_module("sim.props." + prop.lower())


def make_case(mod, prop, seed, i, tier):
    r = Random("%s:%s:%s" % (prop, seed, i))
    return mod.gen(r, i, tier)


# ------------------------------------------------------------------ one run
def _child(mod, case, base, trace_budget, fd, cpu):
    from . import harness as H, sched as S
    try:
        import gc
        gc.disable()
        resource.setrlimit(resource.RLIMIT_AS, (CHILD_AS, CHILD_AS))
        resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 29, 1 << 29))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        sys.unraisablehook = lambda u: None
        import warnings
        warnings.simplefilter("ignore")
        H.BASE = base
        # whatever the library prints must not reach the check's own output
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
        os.dup2(dn, 2)
        out = {}
        try:
            if trace_budget:
                res = run_budgeted(mod, case, trace_budget)
            else:
                res = mod.run(case)
            out = res.export()
        except S.BudgetExceeded:
            out = {"viol": [["never-returns", "an operation was still running after %d steps of library code"
                             % (trace_budget or 0), None]]}
        except BaseException as e:
            tb = traceback.extract_tb(e.__traceback__)
            lib = [f for f in tb if f.filename.startswith(H.LIB_DIR)]
            txt = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-2500:]
            if isinstance(e, H.HarnessError) or not lib:
                out = {"error": txt}
            else:
                f = lib[-1]
                out = {"viol": [["unexpected-raise:%s" % type(e).__name__, "the library raised %s: %s (%s in %s)" % (
                    type(e).__name__, str(e)[:200], f.name, os.path.basename(f.filename)), None]]}
        data = json.dumps(out).encode()
    except BaseException as e:  # pragma: no cover
        data = json.dumps({"error": "child: %r" % (e,)}).encode()
    try:
        mv = memoryview(data)
        while mv:
            n = os.write(fd, mv)
            mv = mv[n:]
    finally:
        os._exit(0)


def run_budgeted(mod, case, budget):
    """Run the case with every library line counted; an operation past the budget ends the run."""
    from . import harness as H, sched as S
    left = [budget]
    H.budget = (left, budget)
    lib = S._lib_dir

    def local(frame, event, arg):
        left[0] -= 1
        if left[0] < 0:
            raise S.BudgetExceeded()
        return local

    def glob(frame, event, arg):
        if frame.f_code.co_filename.startswith(lib):
            left[0] -= 1
            if left[0] < 0:
                raise S.BudgetExceeded()
            return local
        return None
    sys.settrace(glob)
    try:
        return mod.run(case)
    finally:
        sys.settrace(None)


def fork_run(mod, case, base, timeout, trace_budget=0):
    """Run one case in a forked child.  Returns the result dict; 'hang' when it did not end."""
    r, w = os.pipe()
    pid = real_fork()
    if pid == 0:
        os.close(r)
        _child(mod, case, base, trace_budget, w, int(timeout) + 1)
        os._exit(3)
    os.close(w)
    chunks = []
    end = wall() + min(5 * timeout, 240)  # the limit is processor time; a busy machine is no hang
    hang = False
    while True:
        left = end - wall()
        if left <= 0:
            hang = True
            break
        rl, _, _ = select.select([r], [], [], left)
        if rl:
            b = os.read(r, 1 << 16)
            if not b:
                break
            chunks.append(b)
    os.close(r)
    if hang:
        os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    if os.path.isdir(base):
        for nm in os.listdir(base):
            shutil.rmtree(os.path.join(base, nm), ignore_errors=True)
    if hang or os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGXCPU:
        return {"hang": True}
    try:
        return json.loads(b"".join(chunks))
    except ValueError:
        return {"error": "child died, status %d" % status, "died": status}


def run_case(mod, case, base, timeout=None):
    """As fork_run, deciding a hang by counting steps of library code instead of wall time."""
    t = timeout or getattr(mod, "TIMEOUT", 20)
    out = fork_run(mod, case, base, t)
    if out.get("hang"):
        out = fork_run(mod, case, base, 150, getattr(mod, "STEP_BUDGET", 20_000_000))
        if out.get("hang"):
            out = {"viol": [["never-returns", "an operation did not end (150 s under step counting, stuck outside "
                             "Python lines)", None]]}
        elif not out.get("viol") and not out.get("error"):
            out["slow"] = True
    if out.get("died") is not None:
        again = fork_run(mod, case, base, t)
        if again.get("died") is not None:
            return {"viol": [["process-died", "the process running the case died: %s" % again["error"], None]]}
        out = again
    return out


# ------------------------------------------------------------------ shard
def shard_main(argv):
    prop, seed, tier, k, n, count, cap, base = argv[0], int(argv[1]), argv[2], int(argv[3]), int(argv[4]), int(argv[5]), float(argv[6]), argv[7]
    from . import harness as H
    H.load_library()
    mod = load_prop(prop)
    if hasattr(mod, "prepare"):
        mod.prepare()
    cross = getattr(mod, "CROSS_HASH", False)
    t0 = wall()
    agg = {"done": 0, "nontrivial": 0, "stats": {}, "states": set(), "viol": [], "errors": [], "digests": {}, "sim_s": 0.0,
           "samples": [], "capped": False, "slow": 0, "sigs": {}, "cases": set()}
    known = known_sigs(prop)
    stop_after = int(os.environ.get("SIM_STOP_AFTER", "4"))
    want_dig = cross or os.environ.get("SIM_DIGESTS")
    mine = list(range(k, count, n))
    if cross:
        mine += list(range((k + 1) % n, count, n))
    base = os.path.join(base, "s%d" % k)
    os.makedirs(base, exist_ok=True)
    bad = 0
    for i in mine:
        if wall() - t0 > cap:
            agg["capped"] = True
            break
        case = make_case(mod, prop, seed, i, tier)
        out = run_case(mod, case, base)
        agg["done"] += 1
        if out.get("error"):
            agg["errors"].append([i, out["error"]])
            if len(agg["errors"]) > 3:
                break
            continue
        if out.get("slow"):
            agg["slow"] += 1
        for s, c in out.get("stats", {}).items():
            agg["stats"][s] = agg["stats"].get(s, 0) + c
        agg["states"].update(out.get("states", ()))
        agg["sim_s"] += out.get("sim_s", 0.0)
        if out.get("nontrivial", True):
            agg["cases"].add(hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:12])
            agg["nontrivial"] += 1
        if want_dig:
            agg["digests"][i] = out.get("digest")
        if len(agg["samples"]) < 2 and out.get("nontrivial", True) and not out.get("viol"):
            agg["samples"].append([i, case])
        fresh = False
        for v in out.get("viol", ()):
            sig = v[0]
            agg["sigs"][sig] = agg["sigs"].get(sig, 0) + 1
            if sum(1 for x in agg["viol"] if x[1] == sig) < 1:
                agg["viol"].append([i, sig, v[1], v[2]])
            if sig not in known:
                fresh = True
        if fresh:
            bad += 1
            if bad >= stop_after:
                agg["stopped"] = True
                break
    agg["states"] = sorted(agg["states"])
    agg["cases"] = sorted(agg["cases"])
    agg["wall"] = wall() - t0
    with open(argv[8], "w") as f:
        json.dump(agg, f)


def known_list():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def known_sigs(prop):
    return {k["signature"]: k for k in known_list() if k["property"] == prop and k.get("status") == "known"}


# ------------------------------------------------------------------ coordinator
def spawn(args, hashseed):
    env = dict(os.environ)
    env["PYTHONHASHSEED"] = str(hashseed)
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONPATH"] = HERE
    env.pop("PYTHONWARNINGS", None)
    env["TZ"] = "UTC"
    return subprocess.Popen([sys.executable, "-X", "utf8=0", "-c", "import sys; from sim.runner import entry; entry(sys.argv[1:])"] + args,
                            env=env, cwd=HERE, stdin=subprocess.DEVNULL)


def scratch():
    b = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
    try:
        st = os.statvfs(b) if b else None
        if st is not None and st.f_bavail * st.f_frsize < (256 << 20):
            b = None
    except OSError:
        b = None
    return tempfile.mkdtemp(prefix="vpsim-", dir=b)


def run_shards(prop, seed, tier, count, cap, njobs):
    base = scratch()
    procs = []
    try:
        outs = []
        for k in range(njobs):
            o = os.path.join(base, "out%d.json" % k)
            outs.append(o)
            hs = HASHSEEDS[k % len(HASHSEEDS)]
            if os.environ.get("SIM_HASHSEED"):
                hs = int(os.environ["SIM_HASHSEED"]) + k
            procs.append(spawn(["shard", prop, str(seed), tier, str(k), str(njobs), str(count), str(cap), base, o], hs))
        res = []
        for p, o in zip(procs, outs):
            p.wait()
            if p.returncode != 0 or not os.path.exists(o):
                raise SystemExit("shard failed with status %s" % p.returncode)
            with open(o) as f:
                res.append(json.load(f))
        return res
    finally:
        for p in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(base, ignore_errors=True)


def check(prop, seed, tier):
    t0 = wall()
    mod = load_prop(prop)
    count = mod.CASES[tier]
    if os.environ.get("SIM_CASES"):
        count = int(os.environ["SIM_CASES"])
    cap = float(os.environ.get("SIM_CAP", 420 if tier == "quick" else 780))
    njobs = int(os.environ.get("SIM_JOBS", "8"))
    res = run_shards(prop, seed, tier, count, cap, njobs)
    errors = [e for a in res for e in a["errors"]]
    viol = sorted((v for a in res for v in a["viol"]), key=lambda v: v[0])
    # the same case under two hash seeds must give the same run
    mismatch = []
    if getattr(mod, "CROSS_HASH", False):
        dig = {}
        for k, a in enumerate(res):
            for i, d in a["digests"].items():
                dig.setdefault(int(i), []).append((k, d))
        for i in sorted(dig):
            ds = dig[i]
            if len(set(d for _, d in ds)) > 1:
                mismatch.append((i, [HASHSEEDS[k % len(HASHSEEDS)] for k, _ in ds]))
    known = known_sigs(prop)
    done = sum(a["done"] for a in res)
    planned = count * (2 if getattr(mod, "CROSS_HASH", False) else 1)
    sigs = {}
    for a in res:
        for s, c in a["sigs"].items():
            sigs[s] = sigs.get(s, 0) + c
    status = 0
    reported = []
    for s in sorted(sigs):
        if s in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, known[s]["what"]))
    fresh = []
    for v in viol:
        if v[1] not in known and v[1] not in [f[1] for f in fresh]:
            fresh.append(v)
    for i, hs in mismatch[:1]:
        path = write_replay(prop, {"property": prop, "seed": seed, "tier": tier, "index": i, "case": make_case(mod, prop, seed, i, tier),
                                   "signature": "hash-seed-dependent", "message": "the run differs between PYTHONHASHSEED %s and %s" % tuple(hs[:2]),
                                   "hashseeds": hs[:2]})
        print("violation: case %d of seed %d differs under PYTHONHASHSEED %s" % (i, seed, hs))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        reported.append({"signature": "hash-seed-dependent", "replay": path})
        status = 1
    for i, sig, msg, focus in fresh[:3]:
        path = minimise(prop, seed, tier, i, sig, msg, focus)
        with open(path) as f:
            rep = json.load(f)
        print("violation: %s: %s" % (sig, rep["message"]))
        print("  seed %d, case %d; minimised in %d runs; replay: ./check replay %s" % (seed, i, rep.get("shrink_runs", 0), path))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.stdout.flush()
        reported.append({"signature": sig, "replay": path, "message": rep["message"], "seed": seed, "index": i})
        status = 1
    wall_s = wall() - t0
    write_evidence(prop, mod, seed, tier, res, count, planned, done, reported, wall_s, sigs, known)
    if status:
        return 1
    if errors:
        print("harness error in case %d: %s" % tuple(errors[0]))
        return 2
    if any(a.get("capped") for a in res) and done < planned * 0.2:
        print("too slow: only %d of %d runs finished" % (done, planned))
        return 2
    print("OK property=%s runs=%d distinct=%d states=%d wall=%.1fs" % (
        prop, done, len(set(c for a in res for c in a["cases"])), len(set(s for a in res for s in a["states"])), wall_s))
    return 0


def write_replay(prop, rep):
    d = os.environ.get("SIM_REPLAYS") or os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    name = "%s-%s.json" % (prop, hashlib.sha1(json.dumps([rep["signature"], rep["case"]], sort_keys=True).encode()).hexdigest()[:10])
    path = os.path.join(d, name)
    with open(path, "w") as f:
        json.dump(rep, f, indent=1, sort_keys=True)
        f.write("\n")
    return path


# ------------------------------------------------------------------ minimisation
def _paths(v, p=()):
    if isinstance(v, dict):
        for k in sorted(v):
            yield from _paths(v[k], p + (k,))
    elif isinstance(v, list):
        yield p, "list"
        for i, x in enumerate(v):
            yield from _paths(x, p + (i,))
    elif isinstance(v, bool) or v is None:
        return
    elif isinstance(v, (int, float)):
        yield p, "num"
    elif isinstance(v, str):
        yield p, "str"


def _get(v, p):
    for k in p:
        v = v[k]
    return v


def _with(v, p, new):
    if not p:
        return new
    if isinstance(v, dict):
        d = dict(v)
        d[p[0]] = _with(v[p[0]], p[1:], new)
        return d
    li = list(v)
    li[p[0]] = _with(v[p[0]], p[1:], new)
    return li


def shrinker(case, ok, deadline, keep=()):
    """Greedy delta debugging on the JSON case: drop list chunks, then simplify scalars."""
    runs = 0
    changed = True
    rounds = 0
    while changed and wall() < deadline and rounds < 6:
        changed = False
        rounds += 1
        lists = [p for p, k in _paths(case) if k == "list"]
        lists.sort(key=lambda p: (-len(json.dumps(_get(case, p))), p))
        for p in lists:
            if wall() > deadline:
                break
            try:
                cur = _get(case, p)
            except (KeyError, IndexError, TypeError):
                continue
            if not isinstance(cur, list) or not cur or (p and p[0] in keep):
                continue
            if p and isinstance(p[-1], int) and len(cur) <= 5 and any(not isinstance(x, (list, dict)) for x in cur):
                continue  # a record: its fields may get simpler but not fewer
            size = max(1, len(cur) // 2)
            while size >= 1 and wall() < deadline:
                j = 0
                while j < len(cur) and wall() < deadline:
                    cand = cur[:j] + cur[j + size:]
                    c2 = _with(case, p, cand)
                    runs += 1
                    if ok(c2):
                        case, cur = c2, cand
                        changed = True
                    else:
                        j += size
                size //= 2
        if rounds > 1 or not changed:
            for p, k in list(_paths(case)):
                if wall() > deadline:
                    break
                if p and (p[0] in keep or p[-1] in ("fmt", "kind", "op", "ext", "prop")):
                    continue
                try:
                    cur = _get(case, p)
                except (KeyError, IndexError, TypeError):
                    continue
                if k == "num" and not isinstance(cur, (dict, list, str)) and cur:
                    for new in (0, int(cur / 2), int(cur), cur - 1 if cur > 0 else cur + 1):
                        if new == cur and type(new) is type(cur):
                            continue
                        if abs(new) > abs(cur):
                            continue
                        c2 = _with(case, p, new)
                        runs += 1
                        if ok(c2):
                            case = c2
                            changed = True
                            break
                elif k == "str" and isinstance(cur, str) and len(cur) > 1 and len(cur) < 5000:
                    for new in ("", cur[:len(cur) // 2], cur[len(cur) // 2:], cur[1:], cur[:-1]):
                        c2 = _with(case, p, new)
                        runs += 1
                        if ok(c2):
                            case = c2
                            changed = True
                            break
    return case, runs


def minimise(prop, seed, tier, i, sig, msg, focus):
    """Minimise in a fresh process, confirm in another, and write the replay file."""
    base = scratch()
    o = os.path.join(base, "min.json")
    try:
        with open(os.path.join(base, "in.json"), "w") as f:
            json.dump({"focus": focus}, f)
        p = spawn(["minimise", prop, str(seed), tier, str(i), sig, base, o], HASHSEEDS[0])
        p.wait()
        if p.returncode == 0 and os.path.exists(o):
            with open(o) as f:
                rep = json.load(f)
        else:
            mod = load_prop(prop)
            rep = {"case": make_case(mod, prop, seed, i, tier), "message": msg, "shrink_runs": 0}
    finally:
        shutil.rmtree(base, ignore_errors=True)
    rep.update({"property": prop, "seed": seed, "tier": tier, "index": i, "signature": sig})
    path = write_replay(prop, rep)
    p = spawn(["replay", path, "quiet"], HASHSEEDS[1])
    p.wait()
    rep["confirmed_in_fresh_process"] = p.returncode == 1
    with open(path, "w") as f:
        json.dump(rep, f, indent=1, sort_keys=True)
        f.write("\n")
    return path


def minimise_main(argv):
    prop, seed, tier, i, sig, base, o = argv[0], int(argv[1]), argv[2], int(argv[3]), argv[4], argv[5], argv[6]
    from . import harness as H
    H.load_library()
    mod = load_prop(prop)
    if hasattr(mod, "prepare"):
        mod.prepare()
    with open(os.path.join(base, "in.json")) as f:
        focus = json.load(f)["focus"]
    case = make_case(mod, prop, seed, i, tier)
    base = os.path.join(base, "m")
    os.makedirs(base, exist_ok=True)

    last = {}

    def ok(c):
        try:
            out = fork_run(mod, c, base, 20)
        except Exception:
            return False
        if out.get("hang"):
            if sig != "never-returns":
                return False
            out = run_case(mod, c, base, 3)
        for v in out.get("viol", ()):
            if v[0] == sig:
                last[json.dumps(c, sort_keys=True)] = [v[1], out.get("digest"), out.get("fired")]
                return True
        return False
    runs = 0
    if focus:
        c2 = dict(case)
        c2.update(focus)
        runs += 1
        if ok(c2):
            case = c2
    limit = float(os.environ.get("SIM_SHRINK_S", "20"))
    if sig == "never-returns":
        limit *= 2
    case, n = shrinker(case, ok, wall() + limit, getattr(mod, "KEEP", ()))
    ok(case)
    info = last.get(json.dumps(case, sort_keys=True), ["", None, None])
    with open(o, "w") as f:
        json.dump({"case": case, "message": info[0], "digest": info[1], "faults_fired": info[2], "shrink_runs": runs + n}, f)


def replay_main(argv):
    path = argv[0]
    quiet = len(argv) > 1 and argv[1] == "quiet"
    with open(path) as f:
        rep = json.load(f)
    prop = rep["property"]
    if rep.get("hashseeds") and os.environ.get("SIM_INNER") != "1":
        ds = []
        for hs in rep["hashseeds"]:
            os.environ["SIM_INNER"] = "1"
            b = scratch()
            o = os.path.join(b, "o")
            p = spawn(["one", path, o], hs)
            p.wait()
            with open(o) as f:
                ds.append(json.load(f).get("digest"))
            shutil.rmtree(b, ignore_errors=True)
        if len(set(ds)) > 1:
            print("VIOLATION property=%s replay=%s" % (prop, path))
            sys.exit(1)
        print("not reproduced")
        sys.exit(0)
    from . import harness as H
    H.load_library()
    mod = load_prop(prop)
    if hasattr(mod, "prepare"):
        mod.prepare()
    base = scratch()
    try:
        out = run_case(mod, rep["case"], base)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    hit = [v for v in out.get("viol", ()) if v[0] == rep["signature"]]
    if not quiet:
        for v in out.get("viol", ()):
            print("%s: %s" % (v[0], v[1]))
        if out.get("error"):
            print(out["error"])
        if rep.get("digest") and out.get("digest") == rep["digest"]:
            print("the run's event digest equals the recorded one")
        elif rep.get("digest"):
            print("note: event digest differs from the recorded one (the code has changed)")
    if hit:
        if not quiet:
            print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    if not quiet:
        print("not reproduced")
    sys.exit(0)


def one_main(argv):
    with open(argv[0]) as f:
        rep = json.load(f)
    from . import harness as H
    H.load_library()
    mod = load_prop(rep["property"])
    if hasattr(mod, "prepare"):
        mod.prepare()
    base = scratch()
    try:
        out = run_case(mod, rep["case"], base)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    with open(argv[1], "w") as f:
        json.dump(out, f)


# ------------------------------------------------------------------ evidence
REAL = ["all of pyembroidery's readers, writers, encoder, pattern, thread and stream code (imported from the working tree)",
        "CPython io stack above the raw file (BufferedReader/Writer, TextIOWrapper)", "csv, json, struct, xml, zlib modules"]
STUB = ["raw file calls (simulated disk over a scratch tmpfs directory)", "open() for scratch paths", "clock (datetime, time)",
        "random module and os.urandom", "default text encoding", "thread scheduling (baton scheduler) where tasks run"]


def write_evidence(prop, mod, seed, tier, res, count, planned, done, reported, wall_s, sigs, known):
    stats, states, cases = {}, set(), set()
    for a in res:
        for k, v in a["stats"].items():
            stats[k] = stats.get(k, 0) + v
        states.update(a["states"])
        cases.update(a["cases"])
    faults = {k[6:]: v for k, v in stats.items() if k.startswith("fault.")}
    sim_s = sum(a["sim_s"] for a in res)
    samples = [s for a in res for s in a["samples"]][:6]

    def cut(c):
        t = json.dumps(c, sort_keys=True)
        return t if len(t) < 700 else t[:700] + "..."
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"), "wall_s": round(wall_s, 2),
        "violations": reported,
        "known_findings_seen": sorted(s for s in sigs if s in known),
        "coverage": {
            "evaluations": int(stats.get("evaluations", done)),
            "distinct_nontrivial": len(cases),
            "rule": mod.RULE,
            "samples": [{"index": i, "case": cut(c)} for i, c in samples],
            "simulated_runs": done, "planned_runs": planned, "seeds": [seed], "case_streams": "%s:%d:0..%d" % (prop, seed, count - 1),
            "runs_per_hour": int(done / max(wall_s, 1e-6) * 3600),
            "simulated_time_s": round(sim_s, 3),
            "fault_kinds_fired": dict(sorted(faults.items())), "faults_fired_total": sum(faults.values()),
            "distinct_states": len(states), "state_measure": getattr(mod, "MEASURE", "distinct (format, outcome, disk behaviour) classes"),
            "counters": {k: v for k, v in sorted(stats.items()) if not k.startswith("fault.")},
            "real_components": REAL, "stub_components": STUB,
            "hash_seeds": HASHSEEDS, "capped": any(a.get("capped") for a in res), "slow_runs": sum(a.get("slow", 0) for a in res),
            "time_bounded_note": "a run that exceeds its wall limit is decided again by counting library steps",
        },
    }
    d = os.environ.get("VERIF_EVIDENCE") or os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")


def determinism(props, seeds):
    """Every case twice: different worker counts, different hash seeds; the digests must agree."""
    bad = 0
    for prop in props:
        mod = load_prop(prop)
        for seed in seeds:
            got = []
            for jobs, hs in ((8, "7"), (3, "5000")):
                os.environ["SIM_DIGESTS"] = "1"
                os.environ["SIM_HASHSEED"] = hs
                os.environ["SIM_STOP_AFTER"] = "1000000"
                n = int(os.environ.get("SIM_CASES", max(64, mod.CASES["quick"] // 20)))
                res = run_shards(prop, seed, "quick", n, 3000, jobs)
                d = {}
                for a in res:
                    d.update({int(i): x for i, x in a["digests"].items()})
                got.append(d)
            same = got[0] == got[1]
            diff = [i for i in got[0] if got[0][i] != got[1].get(i)]
            print("%s seed %d: %d runs twice, %s" % (prop, seed, len(got[0]), "identical" if same else "DIFFER at %s" % diff[:10]))
            sys.stdout.flush()
            bad += not same
    return 1 if bad else 0


def entry(argv):
    cmd, rest = argv[0], argv[1:]
    if cmd == "shard":
        shard_main(rest)
    elif cmd == "minimise":
        minimise_main(rest)
    elif cmd == "replay":
        replay_main(rest)
    elif cmd == "one":
        one_main(rest)
    else:
        raise SystemExit("unknown command " + cmd)
