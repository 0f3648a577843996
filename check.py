#!/usr/bin/env python3
"""Runs the simulation check of one property.

usage: check.py PROPERTY quick|thorough      (VERIF_SEED seeds every choice)
       check.py replay FILE                  re-executes a replay file, prints its trace and outcome
Exit 0: held on everything explored.  Exit 1: VIOLATION line.  Exit 2: the check itself could not answer.
"""
import fcntl, json, os, re, subprocess, sys, time
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
import build as builder
from checks import CHECKS

WORKERS = min(8, os.cpu_count() or 8)

def exe(variant): return os.path.join(VERIF, "build", variant, "odcsim")

def do_build(variant):
    os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
    with open(os.path.join(VERIF, "build", "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if builder.build(variant):
            print("the simulator does not build from /repo's working tree")
            sys.exit(2)

class Server:
    """One odcsim serve process: executes runs by seed or by tape."""
    def __init__(self, variant, prop, tier):
        env = dict(os.environ, SIM_TIER=tier, SIM_VERBOSE="1")
        self.p = subprocess.Popen([exe(variant), "serve", prop], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=env, text=True, errors="replace")
    def ask(self, line):
        self.p.stdin.write(line)
        self.p.stdin.flush()
        while True:
            out = self.p.stdout.readline()
            if not out: return {"status": 3, "class": "harness", "message": "server ended", "hash": "", "tapes": [[], [], []], "trace": ""}
            if out.startswith("{\"prop\""):
                try: return json.loads(out)
                except ValueError: pass
    def seed(self, scn, seed): return self.ask("%s %d\n" % (scn, seed))
    def tapes(self, scn, t):
        return self.ask("%s -\n%s\n" % (scn, "\n".join("%d %s" % (len(x), " ".join(map(str, x))) for x in t)))
    def close(self):
        try: self.p.stdin.close()
        except OSError: pass
        try: self.p.wait(20)
        except subprocess.TimeoutExpired: self.p.kill()

def minimise(variant, prop, tier, scn, first, budget):
    """Delta debugging over the choice tapes: shorter tapes and smaller choices that still give the same violation class."""
    srv = Server(variant, prop, tier)
    best, cls = [list(t) for t in first["tapes"]], first["class"]
    res = first
    end = time.time() + budget
    def attempt(t):
        nonlocal best, res
        if time.time() > end: return False
        r = srv.tapes(scn, t)
        if r["status"] == 2 and r["class"] == cls:
            best = [list(x) for x in r["tapes"]] if sum(map(len, r["tapes"])) <= sum(map(len, t)) else [list(x) for x in t]
            res = r
            return True
        return False
    changed = True
    while changed and time.time() < end:
        changed = False
        for k in range(3):
            lo = 0                                  # truncation
            while len(best[k]) > lo and time.time() < end:
                cut = (lo + len(best[k])) // 2
                t = [list(x) for x in best]; t[k] = t[k][:cut]
                if attempt(t): changed = True
                else: lo = cut + 1
            size = max(1, len(best[k]) // 2)
            while size >= 1 and time.time() < end:
                i = 0
                while i < len(best[k]) and time.time() < end:
                    t = [list(x) for x in best]; del t[k][i:i + size]
                    if attempt(t): changed = True; continue
                    if any(best[k][i:i + size]):
                        t = [list(x) for x in best]; t[k][i:i + size] = [0] * len(t[k][i:i + size])
                        if attempt(t): changed = True
                    i += size
                if size == 1: break
                size = max(1, size // 2)
        for k in range(3):
            for i in range(len(best[k])):
                while i < len(best[k]) and best[k][i] > 1 and time.time() < end:
                    t = [list(x) for x in best]; t[k][i] //= 2
                    if not attempt(t): break
                    changed = True
    srv.close()
    return best, res

def replay_file(path, quiet=False):
    d = json.load(open(path))
    srv = Server(d["variant"], d["property"], d.get("tier", "quick"))
    r = srv.tapes(d["scenario"], d["tapes"])
    srv.close()
    return d, r

def load_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p): return []
    return [f for f in json.load(open(p)) if f.get("property") == prop and f.get("kind") == "finding"]

def matches(f, v):
    return f["scenario"] == v["scenario"] and f["class"] == v["class"] and re.search(f["message"], v["message"]) is not None

def main():
    if sys.argv[1] == "replay":
        d = json.load(open(sys.argv[2]))
        do_build(d["variant"])
        d, r = replay_file(sys.argv[2])
        print(r["trace"])
        same = r["status"] == 2 and r["class"] == d["class"] and r["hash"] == d["hash"]
        print("%s: %s" % (r["class"], r["message"]))
        print("reproduced exactly" if same else "NOT the recorded outcome")
        sys.exit(1 if r["status"] == 2 else 0)
    prop, tier = sys.argv[1], sys.argv[2]
    cfg = CHECKS[prop]
    variants = cfg["variant"] if isinstance(cfg["variant"], list) else [cfg["variant"]]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    for v in variants: do_build(v)
    tb = time.time() - t0
    secs = cfg.get("secs", {}).get(tier, 50 if tier == "quick" else 780)
    first = (seed & 0xffffff) * 10_000_000
    env = dict(os.environ, SIM_TIER=tier)
    scnvar = {}              # a scenario belongs to one variant of the build
    procs = [subprocess.Popen([exe(variants[w % len(variants)]), "batch", prop, str(first + w), str(WORKERS), "100000000", str(secs), "25"],
                              stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, text=True, errors="replace") for w in range(WORKERS)]
    found, harness, nondet_lines, sums = [], [], [], []
    for w, p in enumerate(procs):
        out, _ = p.communicate()
        ok = False
        for line in out.splitlines():
            try: d = json.loads(line)
            except ValueError: continue
            if "summary" in d:
                sums.append(d); ok = True
                for k in d["scenarios"]: scnvar[k] = variants[w % len(variants)]
            elif "nondet" in d: nondet_lines.append(d)
            elif d.get("status") == 2: found.append(d)
            elif d.get("status") == 3: harness.append(d)
        if not ok: harness.append({"class": "harness", "message": "worker ended with %s" % p.returncode})
    tr = time.time() - t0 - tb
    runs = sum(s["runs"] for s in sums)
    counters, perscn, states = {}, {}, set()
    for s in sums:
        for k, v in s["counters"].items(): counters[k] = counters.get(k, 0) + v
        for k, v in s["scenarios"].items(): perscn[k] = perscn.get(k, 0) + v
        states.update(s["states"])
    # ---- known findings: each is re-executed from its committed replay file
    exit_code = 0
    known = load_findings(prop)
    lines = []
    for f in known:
        d, r = replay_file(os.path.join(VERIF, f["replay"]))
        if r["status"] == 2 and matches(f, r):
            lines.append("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    # ---- new violations: confirm twice in fresh processes, minimise, write and re-run the replay file
    groups = {}
    for v in sorted(found, key=lambda v: v["seed"]):
        if any(matches(f, v) for f in known): continue
        groups.setdefault((v["scenario"], v["class"]), []).append(v)
    reported, unconfirmed = 0, []
    for (scn, cls), vs in sorted(groups.items(), key=lambda kv: -len(kv[1])):
        if reported >= 3: break
        variant = scnvar.get(scn, variants[0])
        hit = None
        for v in vs[:6]:
            rs = []
            for _ in range(2):
                srv = Server(variant, prop, tier); rs.append(srv.seed(scn, v["seed"])); srv.close()
            if all(r["status"] == 2 and r["class"] == cls for r in rs): hit = (v, rs[0]); break
        if not hit:
            unconfirmed.append(vs[0]); continue
        v, r = hit
        tapes, small = minimise(variant, prop, tier, scn, r, 20 if tier == "quick" else 120)
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-%s-%s-%d.json" % (prop, scn, re.sub(r"[^A-Za-z0-9]+", "-", cls), v["seed"]))
        rec = {"property": prop, "scenario": scn, "variant": variant, "tier": tier, "seed": v["seed"], "class": cls, "tapes": tapes}
        srv = Server(variant, prop, tier); fin = srv.tapes(scn, tapes); srv.close()
        if not (fin["status"] == 2 and fin["class"] == cls):      # the minimised form did not hold up: keep the original tapes
            rec["tapes"] = r["tapes"]
            srv = Server(variant, prop, tier); fin = srv.tapes(scn, r["tapes"]); srv.close()
        rec.update({"message": fin["message"], "hash": fin["hash"], "trace": fin["trace"].splitlines()[:400]})
        if any(matches(f, dict(fin, scenario=scn)) for f in known) : continue
        with open(path, "w") as fo: json.dump(rec, fo, indent=1)
        print("violation of %s in scenario %s, seed %d: %s: %s" % (prop, scn, v["seed"], cls, fin["message"][:600]))
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        exit_code = 1
        reported += 1
    for l in lines: print(l)
    if exit_code == 0 and unconfirmed:
        print("unconfirmed: %s" % json.dumps(unconfirmed[0])[:500]); exit_code = 2
    if exit_code == 0 and harness:
        print("harness: %s" % json.dumps(harness[0])[:500]); exit_code = 2
    if nondet_lines: print("warning: %d of %d re-executed runs differed: %s" % (len(nondet_lines), sum(s["rechecked"] for s in sums), json.dumps(nondet_lines[:3])))
    # ---- evidence
    samples = []
    for s in perscn:
        srv = Server(scnvar.get(s, variants[0]), prop, tier)
        for k in range(400):
            sd = first + k
            r = srv.seed(s, sd) if k < 1 else None
            if r is None: break
            samples.append({"scenario": s, "seed": sd, "outcome": "held" if r["status"] == 1 else r["class"], "hash": r["hash"],
                            "choices": [len(t) for t in r["tapes"]], "trace": r["trace"].splitlines()[:40]})
        srv.close()
        if len(samples) >= 4: break
    simtime = sum(s["simtime"] for s in sums)
    faults = {k: v for k, v in counters.items()}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"),
          "coverage": {"evaluations": runs, "distinct_nontrivial": len(states), "rule": cfg["rule"], "samples": samples,
                       "runs_by_scenario": perscn, "faults_and_probes": faults,
                       "simulated_seconds": round(simtime, 6), "runs_per_hour": int(runs / tr * 3600) if tr > 0 else 0,
                       "seeds": "%d..%d" % (first, first + runs), "choices_drawn": [sum(s["draws"][t] for s in sums) for t in range(3)],
                       "longest_run_steps": max([s["maxsteps"] for s in sums] or [0]),
                       "re_executed_for_determinism": sum(s["rechecked"] for s in sums), "differed": len(nondet_lines),
                       "real_components": cfg.get("real", "odc library and tools compiled from /repo; eckit and eckit_sql as installed"),
                       "stubbed_components": cfg.get("stub", "disk, descriptors and clock below /sim (in-memory, per-call faults); data handles and callbacks where the scenario supplies them; " + " and ".join({"sched": "threads (cooperative seeded scheduler)", "asan": "allocator (counted, fillable, failing)"}[v] for v in variants)),
                       "variant": variants, "build_s": round(tb, 1)},
          "assumptions": cfg.get("assumptions", []) + ["sampling: a behaviour no sampled run meets is not decided"],
          "wall_s": round(time.time() - t0, 1), "violations": reported}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fo: json.dump(ev, fo, indent=1)
    print("%s %s: %d runs, %d distinct states, %.0f s, exit %d" % (prop, tier, runs, len(states), time.time() - t0, exit_code))
    sys.exit(exit_code)

main()
