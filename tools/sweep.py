"""Development aid: run all cases of a property and list every signature with its count."""
import os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
os.chdir(HERE)
os.environ["SIM_STOP_AFTER"] = "100000000"
from sim import runner
import time
prop, seed = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 1
mod = runner.load_prop(prop)
n = int(sys.argv[3]) if len(sys.argv) > 3 else mod.CASES["quick"]
t = time.time()
res = runner.run_shards(prop, seed, "quick", n, 3000, 8)
sig, first = {}, {}
for a in res:
    for s, c in a["sigs"].items():
        sig[s] = sig.get(s, 0) + c
    for i, s, m, f in a["viol"]:
        if s not in first or first[s][0] > i:
            first[s] = (i, m, f)
    for e in a["errors"][:1]:
        print("ERROR", e[0], e[1])
for s in sorted(sig):
    print("%6d  %-40s first=%d  %s  %s" % (sig[s], s, first[s][0], first[s][1][:300], str(first[s][2])[:200] if first[s][2] else ""))
st = {}
for a in res:
    for k, v in a["stats"].items():
        st[k] = st.get(k, 0) + v
print({k: v for k, v in sorted(st.items())})
print("done", sum(a["done"] for a in res), "slow", sum(a["slow"] for a in res), "states", len(set(x for a in res for x in a["states"])), "wall %.1f" % (time.time() - t))
