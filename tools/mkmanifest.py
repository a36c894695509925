"""Regenerates MANIFEST.json: a check for every property that has a module in sim/props."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
TECH = {
 "C01": "deterministic simulation with fault injection: seeded designs and save histories on a simulated disk, checked against a reference model",
 "C02": "deterministic simulation with fault injection: seeded thread lists on a simulated disk, checked against a reference model and independent palettes",
 "C03": "deterministic simulation with fault injection: seeded metadata on a simulated disk, checked against a reference model",
 "C04": "deterministic simulation with fault injection: seeded command sequences and default encodings on a simulated disk, checked for identity",
 "C05": "deterministic simulation with fault injection: exports to a simulated disk decoded by independent SVG/TXT/PNG decoders",
 "C06": "deterministic simulation with fault injection: files made by independent encoders, loaded through a faulty simulated disk",
 "C07": "deterministic simulation with fault injection: I/O errors, allocation failures and cancellation at seeded points, interleaved saves; source compared before and after",
 "C08": "deterministic simulation with fault injection: an error injected at every I/O call of a load, save or conversion in turn",
 "C09": "deterministic simulation with fault injection: simulated file table checked after an error at every I/O call",
 "C10": "deterministic simulation with fault injection: seeded corruption of stored files, loads bounded by executed steps and memory",
 "C11": "deterministic simulation with fault injection: seeded corruption of stored files, loaded designs checked as invariants",
 "C12": "deterministic simulation with fault injection: crash at every byte of a save, prefix check against the complete file",
 "C13": "deterministic simulation with fault injection: histories of loads into one design with damage and read errors, append-only invariant",
 "C14": "deterministic simulation with fault injection: rejected operations and failing sources, destination compared before and after",
 "C15": "deterministic simulation with fault injection: seeded line-level scheduling of concurrent tasks, compared with running alone",
 "C16": "deterministic simulation with fault injection: seeded histories of copy/combine/edit by scheduled workers, checked against a value-semantics model",
 "C17": "deterministic simulation with fault injection: histories with failures and cancellations, two hash seeds per run, bytes compared",
 "C18": "deterministic simulation with fault injection: simulated clock with jumps and skew",
 "C19": "deterministic simulation with fault injection: simulated random source with adversarial draws",
 "C20": "deterministic simulation with fault injection: simulated streams, buffer sizes and short transfers, bytes compared",
 "C24": "deterministic simulation with fault injection: seeded command programs, option sets and save histories on a faulty simulated disk, checked against a reference interpreter of the encoder commands",
 "C26": "deterministic simulation with fault injection: seeded editing histories with failing calls, injected interruptions and reloads through a faulty simulated disk, checked step by step against a by-value model",
 "C27": "deterministic simulation with fault injection: seeded designs and save histories on a simulated disk, bytes decoded and cross-checked by independent decoders",
 "C28": "deterministic simulation with fault injection: machine files made by independent encoders as other programs write them, loaded through a faulty simulated disk",
 "C29": "deterministic simulation with fault injection: exports to a faulty simulated disk parsed back and compared with a reference interpreter of the templates",
 "C21": "deterministic simulation with fault injection: conversion chains with failing and retried steps against a reference model",
}
NOTE = {
 "C08": "Per run, every single I/O call of the operation is failed in turn (bounded per run by a cap, sampled beyond it); designs and formats are sampled.",
 "C12": "Per run, every truncation point of small files and a seeded sample of larger ones is loaded; designs are sampled.",
}
DEFAULT = "Seeded search, not exhaustive: no violation in the runs explored. Trusts the reference model in sim/model.py and the simulator's seams; CPython's own io stack runs for real."
LEVEL = {}
NA = {
 "C22": "Matrix arithmetic is a pure function of its arguments: no schedule, clock, I/O, randomness or fault can change the outcome, so there is nothing for a simulator to control; plain property testing would decide it.",
 "C23": "Colour parsing is a pure function of its argument with no scheduling, time, I/O or fault dependence; simulation adds nothing over calling it.",
 "C25": "The search is a pure function of its arguments; its effect on files is covered by C02, the distance minimum itself has nothing to simulate.",
}
checks = []
for f in sorted(os.listdir(os.path.join(HERE, "sim", "props"))):
    if f[0] == "c" and f.endswith(".py"):
        p = f[:-3].upper()
        checks.append({"property": p, "quick_cmd": "./check " + p, "thorough_cmd": "./check %s --tier thorough" % p,
                       "evidence_file": "evidence/%s.json" % p, "technique": TECH[p], "level": LEVEL.get(p, "exploration"),
                       "level_note": NOTE.get(p, "") + (" " if p in NOTE else "") + DEFAULT})
have = [c["property"] for c in checks]
na = [{"property": k, "reason": v} for k, v in NA.items()]
with open(os.path.join(HERE, "properties.jsonl")) as fo:
    for line in fo:
        p = json.loads(line)["id"]
        if p not in have and p not in NA:
            na.append({"property": p, "reason": "Its check is not built yet; the technique applies."})
m = {"version": 1, "setup_cmd": "python3 -B -c 'import sys; sys.path.insert(0, \".\"); import sim.runner, sim.harness as H; H.load_library(); print(\"ok\")'",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: open(), io.open, datetime/time, random, os.urandom and thread scheduling are replaced from the harness before pyembroidery is imported from /repo's working tree."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fo:
    json.dump(m, fo, indent=1)
    fo.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
