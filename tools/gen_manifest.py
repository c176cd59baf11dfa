#!/usr/bin/env python3
"""Writes MANIFEST.json: every property of properties.jsonl with a module mc/cNN.py is claimed."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
TECH = "explicit enumeration of executions of the real code (stateless model checking, controlled random generator): "
T = {
 "C01": "all bit strings of a gene family against an arithmetic grid model",
 "C02": "all grid points and near-midpoints of a gene family, encode/decode against the grid model",
 "C03": "all random outcomes of filling small populations, exact distribution",
 "C04": "all random outcomes of small runs plus a configuration grid, domain monitor on every objective call",
 "C05": "all parents of small lengths x all random outcomes, exact set and distribution of children",
 "C06": "all small genotypes x all random outcomes of each mutation, exact set of results",
 "C07": "every coin value at every coin position, all coin combinations",
 "C08": "all random outcomes of tournaments, exact joint distribution of pairs",
 "C09": "exhaustive sweep of quantized random values and extremes, exact selection probabilities",
 "C10": "all random outcomes per objective block, exact distribution and share",
 "C11": "all small populations x numbers of children x random outcomes of the survivor step",
 "C12": "all score histories over a small alphabet through the bookkeeping, plus monitored runs",
 "C13": "all improvement histories x limits x algorithm classes",
 "C14": "all value tables, targets and mixes of scored/unscored individuals, call-log monitor",
 "C15": "all condition lists and violation vectors against the penalty model",
 "C16": "all condition lists and violation vectors over interval boundaries against the table model",
 "C17": "all small objective tables over one and two generations against dominance by definition",
 "C18": "all small objective tables and offspring through the FFGA survivor step, plus monitored runs",
 "C19": "all short histories of prior operations before a seeded run; state-repetition check of the generator",
 "C20": "option products: lock-step comparison of the three modes",
 "C21": "all interleavings of phases of two runs sharing operator objects, all short reuse histories",
 "C22": "fault injected at every objective call index (and pairs), retry compared with the fault-free run",
 "C23": "boundary alphabets of every option, accept/reject decided for every class",
 "C24": "all random outcomes of minimal runs and option products, reachability of completion",
 "C25": "all small score, Pareto-set and objective-answer histories, each printed report read back",
}
NOTE = ("Holds on every execution within the stated bounds (see evidence); trusted: CPython, the reference model in the "
        "check, and that the code draws randomness from module random only.")
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(HERE, "mc", p.lower() + ".py")):
        checks.append({"property": p, "quick_cmd": "bash run.sh %s --tier quick" % p,
                       "thorough_cmd": "bash run.sh %s --tier thorough" % p, "evidence_file": "evidence/%s.json" % p,
                       "technique": TECH + T[p], "level": "model_checking", "level_note": NOTE})
    else:
        na.append({"property": p, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the checks replace module random's functions before importing baumeva."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "open")
