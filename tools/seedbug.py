"""Make and try planted bugs (development aid; no check uses it).

  seedbug.py make SPECS [ID...]  build seeded/<id>/ from a file of bug(...) calls and confirm each: the patch
                              applies, the stable tests pass, the demo separates the trees
  seedbug.py try ID [PROP...] run checks (default: the bug's own) against a patched copy
A spec is bug(id, property, needs, breaks, [(file, old, new)...], demo_body).
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PRE = '''import io, os, sys, tempfile, shutil
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
from pyembroidery import *
import pyembroidery
TMP = tempfile.mkdtemp(prefix="demo-")


def tmp(name):
    return os.path.join(TMP, name)


def needles(p):
    return [(s[0], s[1]) for s in p.stitches if s[2] & COMMAND_MASK in (STITCH, SEW_TO, NEEDLE_AT)]


def demo():
'''
POST = '''

try:
    ok = demo()
except BaseException as e:
    print("demo raised %s: %s" % (type(e).__name__, e))
    ok = False
finally:
    shutil.rmtree(TMP, ignore_errors=True)
print("property holds" if ok else "property broken")
sys.exit(0 if ok else 1)
'''


def run(cmd, cwd=None, env=None, timeout=1000):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf8", "replace")


def copy_repo(tag):
    d = tempfile.mkdtemp(prefix="bw-%s-" % tag, dir="/dev/shm")
    t = os.path.join(d, "repo")
    rc, out = run(["git", "clone", "-q", REPO, t])
    assert rc == 0, out
    return d, t


def tests(t):
    w = tempfile.mkdtemp(prefix="bt-", dir="/dev/shm")
    env = dict(os.environ, HOME="/root", LANG="C.UTF-8", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONPATH="/opt/vp/lib",
               PYTEST_DISABLE_PLUGIN_AUTOLOAD="1", PYTHONPYCACHEPREFIX=w + "/pyc")
    os.mkdir(w + "/cwd")
    try:
        rc, out = run(["/opt/venv/bin/python", "-m", "pytest", "-q", "--rootdir=" + t, "-p", "no:cacheprovider", "-p", "pytest_timeout", "-p", "vp_seed",
                       "--timeout=300", "-o", "junit_family=xunit2", t + "/test"], cwd=w + "/cwd", env=env)
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return rc, out


def demo(d, t):
    env = {k: v for k, v in os.environ.items() if k not in ("VERIF_SEED", "VERIF_TIER")}
    x = tempfile.mkdtemp(prefix="bd-", dir="/dev/shm")
    try:
        for n in os.listdir(d):
            if not n.endswith((".diff", ".patch")) and n != "meta.json":
                shutil.copy(os.path.join(d, n), x)
        return run(["bash", os.path.join(x, "demo.sh")], cwd=t, env=env, timeout=300)
    finally:
        shutil.rmtree(x, ignore_errors=True)


def specs(fn):
    out = []

    def bug(bid, prop, needs, breaks, edits, demo):
        out.append(dict(ID=bid, PROPERTY=prop, NEEDS=needs, BREAKS=breaks, EDITS=edits, DEMO=demo))
    exec(compile(open(fn).read(), fn, "exec"), {"bug": bug})
    return out


def make(ns):
    bid = ns["ID"]
    d, t = copy_repo(bid)
    try:
        for fn, old, new in ns["EDITS"]:
            p = os.path.join(t, fn if "/" in fn else "pyembroidery/" + fn)
            s = open(p, newline="").read()
            crlf = "\r\n" in s
            s = s.replace("\r\n", "\n")
            assert s.count(old) == 1, "%s: %d matches in %s for %r" % (bid, s.count(old), fn, old)
            s = s.replace(old, new)
            if crlf:
                s = s.replace("\n", "\r\n")
            open(p, "w", newline="").write(s)
        rc, diff = run(["git", "diff", "--no-color", "--no-ext-diff"], cwd=t)
        raw = subprocess.run(["git", "diff", "--no-color", "--no-ext-diff"], cwd=t, stdout=subprocess.PIPE).stdout
        # some removed or changed line must be the original repository's
        base = run(["git", "rev-list", "--max-parents=0", "HEAD"], cwd=t)[1].strip()
        orig = 0
        fn = None
        for ln in diff.split("\n"):
            if ln.startswith("--- a/"):
                fn = ln[6:].strip()
                blame = run(["git", "blame", "-l", "HEAD", "--", fn], cwd=t)[1].split("\n")
            m = re.match(r"@@ -(\d+)", ln)
            if m:
                n = int(m.group(1))
                continue
            if fn and ln.startswith("-") and not ln.startswith("---"):
                if blame[n - 1].lstrip("^").startswith(base[:39]):
                    orig += 1
                n += 1
            elif fn and ln.startswith(" "):
                n += 1
        out = os.path.join(V, "seeded", bid)
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "wb").write(raw)
        open(os.path.join(out, "demo.sh"), "w").write('#!/bin/bash\nexec python3 -B "$(dirname "$0")/demo.py"\n')
        body = "\n".join("    " + ln if ln.strip() else "" for ln in ns["DEMO"].strip("\n").split("\n"))
        open(os.path.join(out, "demo.py"), "w").write(PRE + body + POST)
        json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        r0, o0 = demo(out, REPO)
        r1, o1 = demo(out, t)
        rc, to = tests(t)
        d2, t2 = copy_repo(bid)
        ra, oa = run(["git", "apply", "--check", os.path.join(out, "patch.diff")], cwd=t2)
        shutil.rmtree(d2)
        ok = r0 == 0 and r1 != 0 and rc == 0 and ra == 0 and orig > 0
        print("%s %s: demo clean %d, patched %d; tests rc %d %s; apply %d; original lines %d" % (
            "GOOD" if ok else "BAD ", bid, r0, r1, rc, to.strip().split("\n")[-1][:60], ra, orig))
        if not ok:
            if r0:
                print("  clean:", o0[-600:])
            if not r1:
                print("  patched:", o1[-300:])
            if rc:
                print("  tests:", "\n".join(x for x in to.split("\n") if x.startswith("FAILED") or x.startswith("E  "))[:800])
            shutil.rmtree(out)
        else:
            print("   patched demo says:", o1.strip().split("\n")[0][:150])
        return ok
    finally:
        shutil.rmtree(d, ignore_errors=True)


def attempt(bid, props):
    sd = os.path.join(V, "seeded", bid)
    meta = json.load(open(os.path.join(sd, "meta.json")))
    d, t = copy_repo(bid)
    res = {}
    try:
        rc, o = run(["git", "apply", os.path.join(sd, "patch.diff")], cwd=t)
        assert rc == 0, o
        for p in props or [meta["property"]]:
            env = dict(os.environ, VERIF_REPO=t, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick", SIM_REPLAYS=d + "/rep",
                       SIM_SHRINK_S=os.environ.get("SIM_SHRINK_S", "4"), VERIF_EVIDENCE=d + "/ev")
            t0 = time.time()
            rc, o = run([os.path.join(V, "check"), p], cwd=V, env=env)
            res[p] = rc
            line = [x for x in o.split("\n") if x.startswith("violation:")]
            print("%-22s %s %s rc %d %.0fs %s" % (bid, p, "CAUGHT" if rc == 1 and "VIOLATION property=" + p in o else "MISSED" if rc == 0 else "ERROR",
                                                 rc, time.time() - t0, (line[0] if line else o.strip().split("\n")[-1])[:220]))
            sys.stdout.flush()
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return res


if __name__ == "__main__":
    if sys.argv[1] == "make":
        only = sys.argv[3:]
        from concurrent.futures import ThreadPoolExecutor
        todo = [s for s in specs(sys.argv[2]) if not only or s["ID"] in only]
        with ThreadPoolExecutor(6) as ex:
            bad = [r for r in ex.map(make, todo) if not r]
        sys.exit(1 if bad else 0)
    elif sys.argv[1] == "try":
        attempt(sys.argv[2], sys.argv[3:])
