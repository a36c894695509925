"""Minimise one case of a property: show.py PROP INDEX [SIG] [SEED]"""
import os, sys, json
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
os.chdir(HERE)
os.environ["SIM_REPLAYS"] = "/tmp/rep"
from sim import runner
prop, i = sys.argv[1], int(sys.argv[2])
seed = int(sys.argv[4]) if len(sys.argv) > 4 else 1
sig = sys.argv[3]
p = runner.minimise(prop, seed, "quick", i, sig, "", None)
r = json.load(open(p))
print(json.dumps(r["case"], indent=None, ensure_ascii=False)); print(r["message"], "confirmed", r["confirmed_in_fresh_process"], p)
