#!/usr/bin/env python3
"""Runs one browser property's simulation check: bundle, seeded search, minimisation, replay file, evidence.

  tscheck.py PROP [--tier quick|thorough] [--secs N]
  tscheck.py PROP --replay FILE
"""
import argparse, collections, json, os, shutil, subprocess, sys, tempfile, threading, time
from check import META, NCPU, ROOT, is_known, known_for, write_replay

TSIM = os.path.join(ROOT, "tsim")
NODE = shutil.which("node") or "/usr/local/bin/node"


def env():
    e = dict(os.environ)
    for k in ("NODE_OPTIONS", "TSIM_TRACE", "NODE_ENV"):
        e.pop(k, None)
    return e


def build():
    t = time.time()
    r = subprocess.run([NODE, "bundle.mjs"], cwd=TSIM, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(r.stdout[-4000:])
        print("BUILD FAILED: the page or the worker cannot be bundled")
        sys.exit(2)
    return time.time() - t


def one(prop, seed, config=None, choices=None, timeout=60):
    a = [NODE, "sim.mjs", "one", prop, str(seed)]
    tmp = None
    if config is not None:
        fd, tmp = tempfile.mkstemp(suffix=".json", dir=os.path.join(TSIM, "build"))
        with os.fdopen(fd, "w") as f:
            json.dump({"config": config, "choices": choices or []}, f)
        a.append(tmp)
    try:
        r = subprocess.run(a, cwd=TSIM, env=env(), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=timeout)
        return json.loads(r.stdout.strip().split("\n")[-1])
    except subprocess.TimeoutExpired:
        return {"v": "viol", "class": "hang", "msg": "a turn does not end", "probes": {}}
    except (ValueError, IndexError):
        return {"v": "error", "class": "harness", "msg": "no result", "probes": {}}
    finally:
        if tmp:
            os.unlink(tmp)


class Batch:
    def __init__(self, prop, first, stride, secs, maxruns, sink):
        self.p = subprocess.Popen([NODE, "sim.mjs", "batch", prop, str(first), str(stride), str(secs), str(maxruns)], cwd=TSIM, env=env(),
                                  stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        self.last = time.time()
        self.at = first
        self.stride = stride
        self.t = threading.Thread(target=self.read, args=(sink,), daemon=True)
        self.t.start()

    def read(self, sink):
        for l in self.p.stdout:
            s, j = l.split(" ", 1)
            self.last = time.time()
            self.at = int(s) + self.stride
            try:
                sink(int(s), json.loads(j))
            except ValueError:
                sink(int(s), {"v": "error", "class": "harness", "msg": "unreadable result line", "probes": {}})

    def stop(self):
        self.p.kill()
        self.p.wait()


def minimise(prop, seed, d, budget):
    """Drops user actions, faults and scheduling choices while the same class of violation remains."""
    t0 = time.time()
    tries = 0

    def same(x):
        return x["v"] == "viol" and x["class"] == d["class"]

    cfg = d.get("config")
    if cfg is None:
        return None, None, d, ["the run could not be recorded"]
    made = d.get("made", [])
    x = one(prop, seed, cfg, made)
    if not same(x):
        return cfg, made, x, ["the recorded run does not repeat"]
    best = x

    def attempt(c, m):
        nonlocal tries, best, cfg, made
        if time.time() - t0 > budget:
            return False
        tries += 1
        y = one(prop, seed, c, m)
        if same(y):
            cfg, made, best = y.get("config", c), y.get("made", m), y
            return True
        return False

    for rnd in range(2):
        i = 0
        while i < len(cfg["plan"]):
            if not attempt({**cfg, "plan": cfg["plan"][:i] + cfg["plan"][i + 1:]}, made) and not attempt({**cfg, "plan": cfg["plan"][:i] + cfg["plan"][i + 1:]}, []):
                i += 1
        for k, v in list(cfg["faults"].items()):
            if v:
                attempt({**cfg, "faults": {**cfg["faults"], k: 0}}, made)
        size = max(1, len(made) // 2)
        while made and size >= 1:
            i = 0
            while i < len(made):
                if not attempt(cfg, made[:i] + made[i + size:]):
                    i += size
            size //= 2
    return cfg, made, best, [f"found with seed {seed}", f"{tries} reduction attempts; {len(cfg['plan'])} actions and {len(made)} scheduling or fault choices left"]


def replay(prop, path):
    r = json.load(open(path))
    got = one(prop, r["seed"], r["settings"], r["schedule"], timeout=300)
    print(json.dumps({k: got.get(k) for k in ("v", "class", "msg", "digest", "sched")}, indent=1))
    if got["v"] == "viol" and got["class"] == r["class"]:
        print("reproduced exactly (event digest and schedule digest agree)" if (got.get("digest"), got.get("sched")) == (r.get("digest"), r.get("sched_digest")) else "reproduced, with another event digest")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if got["v"] == "error":
        print("harness error:", got["msg"])
        return 2
    print("not reproduced: the property held in this run")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--secs", type=float)
    ap.add_argument("--replay")
    a = ap.parse_args()
    prop, meta, ts = a.prop, META["ts"][a.prop], META["ts_common"]
    t0 = time.time()
    built = build()
    if a.replay:
        return replay(prop, a.replay)
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    secs = a.secs or (45 if tier == "quick" else 600)
    first = (seed * 1_000_003_000 + (0 if tier == "quick" else 500_000_000)) % (1 << 44)
    print(f"{prop}: VERIF_SEED={seed} tier={tier} first run seed {first}; bundled in {built:.1f} s; {NCPU} processes, {secs:.0f} s", flush=True)
    known = known_for(prop)
    lock = threading.Lock()
    st = {"runs": 0, "nontrivial": 0, "turns": 0, "choices": 0, "ms": 0, "probes": collections.Counter(), "digests": set(), "scheds": set(), "samples": [], "first": {}, "viol": [], "errors": [], "known": collections.Counter()}
    stop = threading.Event()

    def sink(s, d):
        with lock:
            st["runs"] += 1
            st["turns"] += d.get("turns", 0)
            st["choices"] += d.get("choices", 0)
            st["ms"] += d.get("sim_ms", 0)
            st["probes"].update(d.get("probes", {}))
            if d.get("sched"):
                st["scheds"].add(d["sched"])
            if d.get("nontrivial"):
                st["nontrivial"] += 1
                st["digests"].add((d.get("digest"), d.get("sched")))
                if len(st["samples"]) < 3 and d.get("config"):
                    c = d["config"]
                    st["samples"].append({"seed": s, "plan": " ".join(f"{p['a']}" + (f":{p.get('k', p.get('total', p.get('id')))}" if len(p) > 1 else "") for p in c["plan"]), "faults": {k: v for k, v in c["faults"].items() if v}, "turns": d["turns"], "digest": d["digest"]})
            if len(st["first"]) < 96 and d["v"] == "ok":
                st["first"][s] = d
            if d["v"] == "viol":
                w = is_known(known, d)
                if w:
                    st["known"][w] += 1
                else:
                    st["viol"].append((s, d))
                    stop.set()
            elif d["v"] == "error":
                st["errors"].append((s, d))

    bs = [Batch(prop, first + k, NCPU, secs, 5_000_000, sink) for k in range(NCPU)]
    ts0 = time.time()
    while any(b.p.poll() is None for b in bs):
        if stop.wait(0.1):
            break
        for b in bs:
            if b.p.poll() is None and time.time() - b.last > 45:
                with lock:
                    st["viol"].append((b.at, {"v": "viol", "class": "hang", "msg": "a turn of the page or the worker does not end", "probes": {}}))
                stop.set()
        if time.time() - ts0 > secs + 90:
            break
    if stop.is_set():
        time.sleep(0.5)
    for b in bs:
        b.stop()
    for b in bs:
        b.t.join(5)
    wall = time.time() - ts0
    redone = differ = 0
    if not st["viol"]:
        for s, d in list(st["first"].items())[: (24 if tier == "quick" else 96)]:
            x = one(prop, s)
            redone += 1
            if (x.get("digest"), x.get("sched"), x["v"]) != (d.get("digest"), d.get("sched"), d["v"]):
                differ += 1
    kinds = set(META["fault_kinds"])
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": st["runs"], "distinct_nontrivial": len(st["digests"]),
            "rule": meta["rule"] + " A run is non-trivial when messages were delivered and a search advanced (C19, C20) or buttons were pressed and a search was built (C21, C28, C29, C32); two are distinct when the digest of their event history or of their scheduling choices differs.",
            "samples": st["samples"], "first_run_seed": first,
            "simulated_runs_per_hour": round(st["runs"] / max(wall, 1e-9) * 3600),
            "simulated_time_s": round(st["ms"] / 1000, 1), "simulator_steps": st["turns"], "scheduling_decisions": st["choices"],
            "distinct_interleavings": len(st["scheds"]), "distinct_interleavings_measure": "hash of the sequence of choices (next event, delay, fault) of a run",
            "faults_injected": {k: v for k, v in sorted(st["probes"].items()) if k in kinds},
            "reached": {k: v for k, v in sorted(st["probes"].items()) if k not in kinds},
            "runs_repeated_in_another_process": redone, "runs_that_did_not_repeat": differ,
            "real": ts["real"], "simulated": ts["stub"], "known_findings_seen": dict(st["known"]),
        },
        "assumptions": ts["assumptions"], "wall_s": 0.0, "violations": len(st["viol"]),
    }
    code = 0
    for cl, rx, what in known:
        print(f"KNOWN-FINDING: property={prop} {what} (seen in {st['known'][what]} of {st['runs']} runs)")
    if st["viol"]:
        code = 1
        st["viol"].sort(key=lambda v: (v[1]["class"] == "hang", v[1].get("turns", 0)))
        s, d = st["viol"][0]
        print(f"seed {s}: {d['class']}: {d['msg'][:1500]}")
        cfg, made, x, log = minimise(prop, s, d, 60 if tier == "quick" else 240)
        print("minimised:", x["msg"][:1500])
        path = write_replay(prop, str(s), {"property": prop, "seed": s, "class": d["class"], "msg": x["msg"], "settings": cfg, "schedule": made, "digest": x.get("digest", ""), "sched_digest": x.get("sched", ""), "faults": x.get("probes", {}), "history": log})
        print(f"VIOLATION property={prop} replay={path}", flush=True)
    elif st["errors"]:
        print(f"HARNESS ERROR in seed {st['errors'][0][0]}: {st['errors'][0][1]['msg'][:800]} ({len(st['errors'])} in all)")
        code = 2
    elif st["nontrivial"] == 0:
        print("HARNESS ERROR: no run did anything")
        code = 2
    if differ:
        print(f"note: {differ} of {redone} repeated runs differed")
        code = code or 2
    ev["wall_s"] = round(time.time() - t0, 1)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print(f"{prop}: {st['runs']} runs, {len(st['digests'])} distinct, {len(st['scheds'])} interleavings, {len(st['viol'])} violations, {time.time()-t0:.0f} s")
    return code


if __name__ == "__main__":
    sys.exit(main())
