#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation of the whole program with seeded scheduling and fault injection; oracle: "
O = {
 "P01": "the generated block tree, for every block of every API answer",
 "P02": "reports recomputed from the generated block tree and the reported leashes and connections",
 "P03": "per-peer history of sent blocks and, in model runs, an executable reference model of the linkage",
 "P04": "head history and an executable reference model of heads",
 "P05": "recorded reports before and after every crash; reference model restricted to prefixes of the write log after power loss",
 "P06": "bounded progress after faults stop: all honest peers connected and on their tips",
 "P07": "a monitor of every message on the wire against what the peer announced and answered",
 "P08": "a model of loading turns, timeouts and failure counts run along the wire history",
 "P09": "a model of dialing eligibility run along the connection history",
 "P10": "admission rules applied to every handshake, permanence of verdicts over the history",
 "P11": "the simulated network's own list of open established connections",
 "P12": "bounded simulated time from a signal to exit code 0 at random points, and state after the next start",
 "P13": "no crash, no unserved request, progress of honest peers while generated attacks run",
 "P14": "status codes and JSON validity of generated requests at random points",
 "P15": "a model of told, known and connected peers against peers messages and reports",
 "P16": "the history of announced scores",
 "P17": "interval bounds per peer on concurrent reads (positions sent before end, processed before start), monotonic, per-peer final state",
 "P18": "an executable model of the version cycle, per peer, over all offers",
 "P20": "bounds on the goroutines and open connections of the program after hundreds of sessions, against the simulated network's list of what is open",
 "P21": "the generated command line and environment faults say whether a start must come up (API, network server, introduction as configured) or end with an error",
 "P19": "truth of every answer under injected storage errors and full recovery afterwards",
}
checks = []
for l in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(l)["id"]
    checks.append({
        "property": p,
        "quick_cmd": "python3 check.py --property %s --tier quick" % p,
        "thorough_cmd": "python3 check.py --property %s --tier thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": T + O[p],
        "level": "exploration",
        "level_note": "Seeded search over schedules, workloads and fault sequences of the real program under a simulated scheduler, clock, network and disk; "
                      "each violation replays exactly from its file. Sampling: a clean batch is evidence, not proof. Trusts the simulator's fault model and oracles.",
    })
json.dump({
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "hooks": {"guard": "faketime",
              "enable": "tools/simbuild.py builds /repo's working tree with 'go build -tags faketime -overlay': patched copies of Go runtime/std files and of "
                        "goleveldb's file storage and one boot file come from /verif; /repo itself carries no hooks",
              "source_commits": []},
    "checks": checks,
    "not_applicable": [],
    "notes": "See DESIGN.md. Repairs of genuine defects are 'fix:' commits in /repo, listed in known_findings.txt.",
}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
