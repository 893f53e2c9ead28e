#!/usr/bin/env python3
"""Decide one property of the fork detector by deterministic simulation.

check.py --property P01 --tier quick|thorough     explore seeds, judge, report
check.py --replay FILE                            reproduce a reported violation
check.py --setup                                  build once, check determinism

Exit 0: the property held in every run. Exit 1: it was violated; a line
"VIOLATION property=<id> replay=<path>" names the replay file. Anything else is
an error of the check itself.
"""
import argparse
import collections
import concurrent.futures as cf
import copy
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import simbuild  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
RUN_LIMIT = 120.0  # wall-clock seconds after which a run is given up: an error, never a violation
KNOWN = os.path.join(ROOT, "known_findings.txt")
BUILD = os.path.join(ROOT, "build")

QUICK = dict(seconds=90, runs=6000)
THOROUGH = dict(seconds=1500, runs=150000)


class CheckError(Exception):
    pass


# ---------------------------------------------------------------- running


class Runner:
    def __init__(self, binary):
        self.tmp = tempfile.mkdtemp(prefix="vpsim-")
        self.binary = os.path.join(self.tmp, "simfd")  # of its own: another check may build meanwhile
        shutil.copy2(binary, self.binary)
        self.n = 0
        self.lock = threading.Lock()
        self.stop = False

    def close(self):
        self.stop = True
        shutil.rmtree(self.tmp, ignore_errors=True)

    def run(self, prop=None, seed=None, spec=None, full=False, trace=False):
        """One simulated execution. Returns a dict: either the run's own report
        or {"rc":..., "err":...} when the program died or was cut off."""
        with self.lock:
            self.n += 1
            n = self.n
        d = os.path.join(self.tmp, "%07d" % n)
        os.makedirs(d)
        out = os.path.join(d, "out")
        env = {"PATH": "/usr/bin:/bin", "SIM_STATE": os.path.join(d, "state"), "SIM_DB": d, "SIM_OUT": out}
        if spec is not None:
            sp = os.path.join(d, "ask")
            with open(sp, "w") as f:
                json.dump(spec, f)
            env["SIM_SPEC"] = sp
        else:
            env["SIM_PROP"], env["SIM_SEED"] = prop, str(seed)
        if full:
            env["SIM_FULL"] = "1"
        if trace:
            env["SIM_TRACE"] = "1"
        res = {}
        try:
            r = subprocess.run([self.binary], env=env, cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                               stderr=subprocess.PIPE, timeout=RUN_LIMIT)
            rc, err = r.returncode, r.stderr.decode(errors="replace")
        except subprocess.TimeoutExpired as x:
            rc, err = "hang", (x.stderr or b"").decode(errors="replace")
        if rc == 0 and os.path.exists(out):
            with open(out) as f:
                res = json.load(f)
            if trace:
                res["err"] = err
        else:
            res = {"err": err}
            try:
                with open(os.path.join(d, "state.spec")) as f:
                    res["spec"] = json.load(f)
            except (OSError, ValueError):
                pass
        res["rc"] = rc
        shutil.rmtree(d, ignore_errors=True)
        return res


FRAME = re.compile(r"^([\w./*()\-\[\]]+)\(.*\)$|^([\w./*()\-\[\]]+)\(\.\.\.\)$")


def crash_class(err):
    """Classify the end of a run that did not report: (kind, message, ours)."""
    lines = err.split("\n")
    head = next((l for l in lines if l.startswith(("panic:", "fatal error:", "SIM-"))), None)
    if head is None:
        return None
    if head.startswith("SIM-CUTOFF"):
        return "livelock", "the program was still busy after 40 million scheduling steps", False
    if head.startswith("SIM-"):
        return None
    first = ""
    seen = False
    for l in lines:
        if l.startswith("goroutine ") and "[running" in l:
            seen = True
            continue
        if not seen or l.startswith("\t") or not l.strip():
            continue
        if l.startswith(("panic(", "runtime.", "created by", "internal/runtime", "[signal", "runtime/")):
            if l.startswith("created by"):
                break
            continue
        first = l.split("(0x")[0].split("({")[0].split("(...")[0]
        break
    if first.startswith("verif.local/sim"):
        return None
    return "crash", "%s at %s" % (head[:160], first[:120]), False


def outcome(res, prop):
    """The violations of prop in one run's result, or an error text."""
    if res["rc"] == 0 and "hash" in res:
        own, other = [], []
        for v in res.get("violations") or []:
            (own if prop in v["props"] else other).append(v)
        return own, other, None
    c = crash_class(res.get("err", "")) if res["rc"] in (2, 4) else None
    if c:
        return [{"props": [prop], "kind": c[0], "msg": c[1], "t": 0, "incarnation": 0}], [], None
    return [], [], "run ended with %s: %s" % (res["rc"], res.get("err", "")[-600:])


def run_hash(res):
    if res["rc"] == 0:
        return "%s/%s" % (res["hash"], res["sched_hash"])
    c = crash_class(res.get("err", ""))
    return "rc%s/%s" % (res["rc"], c and c[1])


# ---------------------------------------------------------------- known findings


def known_findings(prop):
    out = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                m = re.match(r"finding: property=(\S+) kind=(\S+) match=/(.*)/ (.*)$", line)
                if m and m.group(1) == prop:
                    out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out


# ---------------------------------------------------------------- minimising


class Minimiser:
    """Shrinks the specification of a failing run while a violation of the same
    kind persists."""

    def __init__(self, runner, pool, prop, kind, spec, budget):
        self.runner, self.pool, self.prop, self.kind = runner, pool, prop, kind
        self.spec = spec
        self.until = time.time() + budget
        self.tries = 0

    def fails(self, spec):
        if time.time() > self.until:
            return False
        self.tries += 1
        own, _, _ = outcome(self.runner.run(spec=spec), self.prop)
        return any(v["kind"] == self.kind for v in own)

    def attempt(self, cands):
        """Runs candidates together; adopts the first (in order) that still fails."""
        if not cands or time.time() > self.until:
            return False
        for c, ok in zip(cands, list(self.pool.map(self.fails, cands))):
            if ok:
                self.spec = c
                return True
        return False

    def with_(self, **kw):
        s = copy.deepcopy(self.spec)
        s.update(kw)
        return s

    def shrink_list(self, key, ok=lambda x: True):
        n = len(self.spec.get(key) or [])
        size = max(1, n // 2)
        while size >= 1 and time.time() < self.until:
            l = self.spec.get(key) or []
            cands = []
            for i in range(0, len(l), size):
                cut = [x for x in l[i:i + size] if not ok(x)]
                if len(cut) < len(l[i:i + size]):
                    cands.append(self.with_(**{key: l[:i] + cut + l[i + size:]}))
            if not self.attempt(cands):
                size //= 2
            elif size > len(self.spec[key]):
                size = max(1, len(self.spec[key]) // 2)

    def go(self):
        sched = lambda **kw: self.with_(sched=dict(self.spec["sched"], **kw))
        self.attempt([sched(FreezeProb=0, FreezeMax=0, YieldAlloc=0, YieldSync=0, Mode=0)])
        self.attempt([sched(FreezeProb=0, FreezeMax=0), sched(YieldAlloc=0), sched(Mode=0)])
        self.attempt([sched(YieldSync=0), sched(YieldAlloc=0)])
        self.attempt([self.with_(knobs=[0, 0, 0])])
        self.spec["ops"] = self.spec.get("ops") or []
        self.shrink_list("ops")
        if len(self.spec.get("starts") or []) > 1:
            self.shrink_list("starts")
        # Silence hosts that do not matter (their indices stay, operations refer to them).
        hosts = self.spec.get("hosts") or []
        for i in range(len(hosts)):
            h = self.spec["hosts"][i]
            if h.get("evil"):
                continue
            if h.get("up") or h.get("listen") or h.get("inbound"):
                hs = copy.deepcopy(self.spec["hosts"])
                hs[i].update(up=False, listen=False, inbound=0, late=True)
                self.attempt([self.with_(hosts=hs, ops=[o for o in self.spec["ops"] if o.get("host", 0) != i or o["op"] in (
                    "kill", "power", "crashop", "term", "clock", "disk", "diskheal", "diskslow", "listenerr", "api", "apix", "poll")])])
        for i in range(len(hosts)):
            h = self.spec["hosts"][i]
            c = []
            for k, z in (("gossip", None), ("lat", 1), ("jit", 0), ("chop", 0), ("push", False)):
                if h.get(k) not in (None, z, 0, False):
                    hs = copy.deepcopy(self.spec["hosts"])
                    hs[i][k] = z
                    c.append(self.with_(hosts=hs))
            self.attempt(c)
        self.shrink_list("ops")
        args = dict(self.spec.get("args") or {})
        self.attempt([self.with_(args={k: v for k, v in args.items() if k != a}) for a in args])
        if self.spec["ops"] and "chaosend" in self.spec:
            last = max(o.get("t", 0) for o in self.spec["ops"])
            for end in (last + 100, last + 5000, last + 40000):
                if end < self.spec["chaosend"] and self.attempt([self.with_(chaosend=end)]):
                    break
        return self.spec


# ---------------------------------------------------------------- evidence

REAL = ["main.run/forkdetector.go (flags, wiring, shutdown order)", "listener.go", "respawn.go", "connection_manager.go", "distributor.go",
        "service.go", "parameters.go", "api/* (chi router, HTTP server over the simulated network)", "chains/* (storage, linkage, heads, leashes)",
        "peers/* (registry, storage, version negotiation)", "loading/* (loader, peer loader, queue)", "version/*",
        "gowaves p2p/conn, p2p/peer, incoming/outgoing, proto", "goleveldb (journal, memdb, tables, compaction) above its file storage interface",
        "Go runtime scheduler data structures, channels, timers, select, sync, net/http, context, errgroup"]
STUB = ["choice of the next goroutine and preemption points (seeded)", "clock and timers' time source (simulated)",
        "TCP (net.Dialer/net.ListenConfig): simulated streams with latency, chopping, resets, partitions",
        "file system below goleveldb: simulated files with power loss, torn tails, I/O errors, slow disk",
        "random sources (seeded)", "OS signals (delivered by the simulator)", "the Waves peers (simulated nodes serving a generated block tree)",
        "process end and restart (re-execution with only durable state kept)"]

RULES = {
    "": "one case = one simulated run generated from a seed: block tree, peers, workload, fault sequence, scheduler policy; "
        "non-trivial = the run completed all its demands, at least one peer session or API history was judged and at least one fault "
        "or scheduling perturbation fired; distinct = different hash of the sequence of scheduling decisions and clock values",
}


def nontrivial(res):
    act = sum(res.get("faults", {}).values()) > 0 or res.get("reorders", 0) > 0 or res.get("yields", 0) > 0
    return res["rc"] == 0 and res.get("events", 0) > 20 and act


# ---------------------------------------------------------------- main


def build(prop):
    out = os.path.join(BUILD, "out-" + prop)
    try:
        b, dt = simbuild.build(out, REPO)
    except simbuild.PatchError as e:
        raise CheckError("build: %s" % e)
    return b, dt


def make_replay(runner, pool, prop, v, spec, budget):
    """Minimises, confirms and writes the replay file. Returns (path, violation)."""
    m = Minimiser(runner, pool, prop, v["kind"], copy.deepcopy(spec), budget)
    if not m.fails(spec):
        raise CheckError("a violation (%s: %s) did not reproduce from its specification: the simulator is not deterministic" % (v["kind"], v["msg"]))
    n0 = len(spec.get("ops") or [])
    try:
        small = m.go()
    except Exception as e:  # the finding stands without a smaller replay file
        print("note: minimisation stopped: %r" % e)
        small = m.spec
    a = runner.run(spec=small, full=True)
    b = runner.run(spec=small, full=True)
    own, _, _ = outcome(a, prop)
    own = [x for x in own if x["kind"] == v["kind"]]
    if not own or run_hash(a) != run_hash(b):
        # Minimisation must never lose the finding: fall back to the full run.
        small = spec
        a = runner.run(spec=small, full=True)
        b = runner.run(spec=small, full=True)
        own = [x for x in outcome(a, prop)[0] if x["kind"] == v["kind"]]
        if not own or run_hash(a) != run_hash(b):
            raise CheckError("a violation (%s) does not replay exactly" % v["kind"])
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%d.json" % (prop, v["kind"], small["seed"]))
    with open(path, "w") as f:
        json.dump({"property": prop, "kind": v["kind"], "message": own[0]["msg"], "sim_time_ms": own[0]["t"], "seed": small["seed"],
                   "hash": run_hash(a), "minimiser": {"runs": m.tries, "ops_before": n0, "ops_after": len(small.get("ops") or [])},
                   "violations": a.get("violations") or own, "faults": a.get("faults"), "spec": small,
                   "trace": (a.get("trace") or a.get("err", "").split("\n"))[-400:],
                   "replay": "python3 /verif/check.py --replay " + path}, f, indent=1)
    return path, own[0]


def explore(prop, tier, seed, seconds, runs, first=None):
    t0 = time.time()
    binary, tb = build(prop)
    runner = Runner(binary)
    known = known_findings(prop)
    stats = dict(runs=0, sim_ms=0, picks=0, yields=0, reorders=0, inc=0, events=0)
    faults, probes, other = collections.Counter(), collections.Counter(), collections.Counter()
    scheds, hashes, hit, samples, errors = set(), set(), [], [], []
    knownhits = {}
    base = seed * 1000000
    start = time.time()
    stop = threading.Event()
    workers = max(2, os.cpu_count() or 2)

    def one(i):
        if stop.is_set() or time.time() - start > seconds:
            return None
        return base + i, runner.run(prop=prop, seed=base + i)

    pool = cf.ThreadPoolExecutor(workers)
    try:
        todo = iter(range(first or 0, (first or 0) + runs))
        pending = collections.deque()
        done = False
        found = None
        while True:
            while not done and len(pending) < workers * 3:
                try:
                    pending.append(pool.submit(one, next(todo)))
                except StopIteration:
                    done = True
            if not pending:
                break
            r = pending.popleft().result()
            if r is None:
                done = True
                continue
            s, res = r
            own, oth, err = outcome(res, prop)
            stats["runs"] += 1
            if err:
                errors.append("seed %d: %s" % (s, err))
                if len(errors) > 5:
                    stop.set()
                    done = True
                continue
            if res["rc"] == 0:
                for k, j in (("sim_ms", "sim_ms"), ("picks", "picks"), ("yields", "yields"), ("reorders", "reorders"), ("inc", "incarnations"), ("events", "events")):
                    stats[k] += res.get(j, 0)
                faults.update(res.get("faults") or {})
                probes.update(res.get("probes") or {})
                if nontrivial(res):
                    scheds.add(res["sched_hash"])
                hashes.add(res["hash"])
                if len(samples) < 5 and nontrivial(res):
                    samples.append({"seed": s, "scenario": res.get("scenario"), "sim_s": res["sim_ms"] // 1000, "incarnations": res["incarnations"],
                                    "picks": res["picks"], "faults": res.get("faults"), "hash": res["hash"]})
            for v in oth:
                other["%s:%s" % (",".join(v["props"]), v["kind"])] += 1
            for v in own:
                kf = next((k for k in known if k[0] == v["kind"] and k[1].search(v["msg"])), None)
                if kf:
                    knownhits[kf[2]] = knownhits.get(kf[2], 0) + 1
                elif found is None:
                    found = (s, v, res.get("spec"))
            if found and not done:
                stop.set()
                done = True
        explored = time.time() - start
        path = None
        if found:
            s, v, spec = found
            if spec is None:
                raise CheckError("seed %d: violation without a specification" % s)
            path, v = make_replay(runner, pool, prop, v, spec, 60 if tier == "quick" else 240)
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": stats["runs"], "distinct_nontrivial": len(scheds), "rule": RULES.get(prop, RULES[""]), "samples": samples,
                "distinct_interleavings": len(scheds), "distinct_histories": len(hashes),
                "interleaving_measure": "64-bit hash over every scheduling decision (goroutine, simulated clock) of the run",
                "seeds": "%d..%d" % (base, base + max(0, stats["runs"] - 1)),
                "runs_per_hour": round(stats["runs"] / max(explored, 0.001) * 3600), "seeds_per_hour": round(stats["runs"] / max(explored, 0.001) * 3600),
                "simulated_hours": round(stats["sim_ms"] / 3.6e6, 2), "scheduling_decisions": stats["picks"], "preemptions": stats["yields"],
                "non_fifo_choices": stats["reorders"], "process_incarnations": stats["inc"], "judged_events": stats["events"],
                "faults_injected": dict(sorted(faults.items())), "probes": dict(sorted(probes.items())),
                "violations_of_other_properties": dict(other), "known_findings_hit": knownhits,
                "real_components": REAL, "stubbed_components": STUB,
                "build_s": round(tb, 1), "explore_s": round(explored, 1), "workers": workers,
            },
            "assumptions": ["sampling, not enumeration: a clean batch is evidence, not proof",
                            "peers, network and disk behave as the simulator's fault model allows (DESIGN.md)",
                            "the overlay of the Go runtime and of goleveldb's file storage changes scheduling, time and I/O only"],
            "wall_s": round(time.time() - t0, 1), "violations": 1 if found else 0,
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        p = os.path.join(ROOT, "evidence", prop + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)
        print("%s %s: %d runs, %d distinct interleavings, %.1f simulated hours, %d faults, %.0f s"
              % (prop, tier, stats["runs"], len(scheds), stats["sim_ms"] / 3.6e6, sum(faults.values()), time.time() - t0))
        for k, c in other.most_common(5):
            print("note: %d runs broke another property: %s" % (c, k))
        if found:
            print("%s: %s (seed %d, %.1f s into the run)" % (v["kind"], v["msg"], found[0], v["t"] / 1000))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        if errors:
            raise CheckError("; ".join(errors[:3]))
        if stats["runs"] == 0:
            raise CheckError("nothing was explored")
        return 0
    finally:
        stop.set()
        pool.shutdown(wait=True)
        runner.close()


def replay(path, trace):
    with open(path) as f:
        r = json.load(f)
    binary, _ = build(r["property"])
    runner = Runner(binary)
    try:
        res = runner.run(spec=r["spec"], full=True, trace=trace)
    finally:
        runner.close()
    own, _, err = outcome(res, r["property"])
    if trace:
        print(res.get("err", ""))
    if err:
        raise CheckError(err)
    same = [v for v in own if v["kind"] == r["kind"]]
    print("hash %s, recorded %s: %s" % (run_hash(res), r["hash"], "identical" if run_hash(res) == r["hash"] else "different"))
    if same:
        print("%s: %s" % (same[0]["kind"], same[0]["msg"]))
        print("VIOLATION property=%s replay=%s" % (r["property"], path))
        return 1
    print("the violation does not occur")
    return 0


def setup():
    binary, dt = build("setup")
    print("built in %.1f s" % dt)
    runner = Runner(binary)
    try:
        for prop in ("P01", "P05", "P13", "P17"):
            a, b = runner.run(prop=prop, seed=1), runner.run(prop=prop, seed=1)
            if run_hash(a) != run_hash(b):
                raise CheckError("%s seed 1 is not deterministic" % prop)
    finally:
        runner.close()
    shutil.rmtree(os.path.join(BUILD, "out-setup"), ignore_errors=True)
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--runs", type=int)
    ap.add_argument("--first", type=int, default=0)
    ap.add_argument("--replay")
    ap.add_argument("--trace", action="store_true")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    try:
        if a.setup:
            return setup()
        if a.replay:
            return replay(a.replay, a.trace)
        lim = THOROUGH if a.tier == "thorough" else QUICK
        seed = int(os.environ.get("VERIF_SEED", "1"))
        return explore(a.property, a.tier, seed, a.seconds or lim["seconds"], a.runs or lim["runs"], a.first)
    except CheckError as e:
        print("CHECK-ERROR: %s" % e, file=sys.stderr)
        print("CHECK-ERROR: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
