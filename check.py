#!/usr/bin/env python3
"""Runs one property's simulation check: build, seeded search, minimisation, replay file, evidence.

  check.py PROP [--tier quick|thorough] [--secs N] [--first SEED]
  check.py PROP --replay FILE
"""
import argparse, collections, json, os, re, shutil, signal, subprocess, sys, threading, time

ROOT = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(ROOT, "sim")
REPO = os.environ.get("SR_REPO", "/repo")
FEATURE = None
UNIT = ("C13", "C15", "C16", "C26", "C27", "C30", "C31")
PHASES = ("C33",)
EXE = os.path.join(SIM, "target", "release", "sr_sim")
KNOWN = os.path.join(ROOT, "known-findings.txt")
NCPU = max(1, os.cpu_count() or 1)

META = json.load(open(os.path.join(ROOT, "checks.json")))


def env():
    e = dict(os.environ)
    e["HOME"] = e.get("HOME") or "/root"
    e["PATH"] = e.get("PATH", "") + ":/usr/local/bin:/root/.cargo/bin"
    e["RUSTUP_TOOLCHAIN"] = "nightly-2025-12-19"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "CARGO_INCREMENTAL"):
        e.pop(k, None)
    for k in list(e):
        if k.startswith("SYMBOLIC_") or k.startswith("RAYON_") or k.startswith("SR_SIM") or k.startswith("CARGO_PROFILE"):
            e.pop(k)
    return e


def use(feature):
    """Some properties need a build with more of the repository linked in; it has a directory of its own."""
    global FEATURE, EXE
    FEATURE = feature
    EXE = os.path.join(SIM, "target", *([feature] if feature else []), "release", "sr_sim")


def build(prop=None):
    global EXE
    shutil.copyfile(os.path.join(REPO, "Cargo.lock"), os.path.join(SIM, "Cargo.lock"))
    t = time.time()
    more = ["--features", FEATURE, "--target-dir", os.path.join(SIM, "target", FEATURE)] if FEATURE else []
    r = subprocess.run(["cargo", "build", "--release", "--offline"] + more, cwd=SIM, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    # an inner interface may have changed: most properties only need others, or the public ones
    for inner in (["unit"], []):
        if not r.returncode or not prop or prop in PHASES or (prop in UNIT and not inner):
            break
        d = os.path.join(SIM, "target", "-".join(["basic"] + inner + ([FEATURE] if FEATURE else [])))
        more = ["--no-default-features", "--target-dir", d]
        if inner or FEATURE:
            more += ["--features", ",".join(inner + ([FEATURE] if FEATURE else []))]
        r2 = subprocess.run(["cargo", "build", "--release", "--offline"] + more, cwd=SIM, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if not r2.returncode:
            EXE = os.path.join(d, "release", "sr_sim")
            print("built without the parts that call some of the building blocks directly")
            return time.time() - t
    if r.returncode:
        print(r.stdout[-6000:])
        print("BUILD FAILED: the simulator does not build against the tree in", REPO)
        sys.exit(2)
    return time.time() - t


def kv(d):
    return [f"{k}={v}" for k, v in d.items()]


def one(prop, seed, over, sched=None, timeout=60, cpulimit=None):
    a = [EXE, "one", prop, str(seed)] + kv(over)
    tmp = None
    if sched is not None:
        tmp = os.path.join(SIM, "target", f"sched.{os.getpid()}.{threading.get_ident()}")
        with open(tmp, "w") as f:
            f.write(",".join(f"{k}:{c}" for k, c in sched))
        a.append("sched=" + tmp)
    if cpulimit:
        a.append(f"cpulimit={cpulimit}")
    p = subprocess.Popen(a, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env())
    try:
        out, _ = p.communicate(timeout=timeout)
        return line_of(p.returncode, out)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return {"v": "viol", "class": "hang", "msg": "no end within the time limit", "probes": {}}
    finally:
        if tmp and os.path.exists(tmp):
            os.unlink(tmp)


def line_of(rc, out):
    lines = out.strip().split("\n")
    if rc == 0 and lines and lines[-1].startswith("{"):
        return json.loads(lines[-1])
    sig = -rc if rc < 0 else 0
    cl = "hang" if sig == 24 else "crash" if sig in (4, 6, 7, 8, 11) else "harness"
    return {"v": "error" if cl == "harness" else "viol", "class": cl, "msg": f"process ended by signal {sig}, status {rc}", "probes": {}}


class Batch:
    """One sr_sim batch process; its result lines are collected by a thread."""

    def __init__(self, prop, first, stride, secs, cpu, maxruns, over, sink):
        a = [EXE, "batch", prop, str(first), str(stride), str(secs), str(cpu), str(maxruns)] + kv(over)
        self.p = subprocess.Popen(a, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env(), start_new_session=True)
        self.t = threading.Thread(target=self.read, args=(sink,), daemon=True)
        self.t.start()

    def read(self, sink):
        for l in self.p.stdout:
            s, j = l.split(" ", 1)
            try:
                sink(int(s), json.loads(j))
            except ValueError:
                sink(int(s), {"v": "error", "class": "harness", "msg": "unreadable result line", "probes": {}})

    def stop(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass


def known_for(prop):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) class=(\S+) match=/(.*)/ (.*)$", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out


def is_known(known, d):
    for cl, rx, what in known:
        if cl == d["class"] and rx.search(d["msg"]):
            return what
    return None


# Simplest values first; a key is moved to the first value with which the same failure remains.
SIMPLE = {
    "threads": [1, 2, 3], "threads2": [2], "pops": [1, 2, 3], "pops2": [1, 2], "popsize": [2, 3, 5], "iters": [1, 2, 3],
    "ncycles": [1, 2, 5], "rows": [1, 2, 5, 12], "feats": [1, 2], "maxsize": [5, 7, 10, 15], "preempt": [0], "strategy": [0], "searches": [2],
    "holes": [0], "f32": [0], "d3": [0], "tick": [100], "clock0": [0], "hashseed": [0], "heapskew": [0], "maxdepth": [30], "opstyle": [0], "loss": [0],
    "optprob": [0, 1], "repeat": [1], "batchsize": [1, 2, 3], "tourn": [2, 3], "ccols": [80], "optiters": [1, 2], "names": [0],
}


def minimise(prop, seed, d, budget):
    """Shrinks configuration and schedule of a failing run while the same class of violation remains."""
    t0 = time.time()
    tries = 0
    hang = d["class"] in ("hang",)
    lim = 6 if hang else None
    over, sched = {}, None
    best = d
    log = [f"found with seed {seed}"]

    def left():
        return budget - (time.time() - t0)

    def same(x):
        return x["v"] == "viol" and x["class"] == d["class"]

    vals = dict(p.split("=") for p in d.get("sample", "").split())
    for k in vals:
        vals[k] = int(vals[k])
    # a second search of the run has the same settings with a letter in front
    base = {k: k[1:] if k[0] in "bcd" and k[1:] in vals else k for k in vals}
    keys = [k for k in SIMPLE if k in vals] + sorted(k for k in vals if k not in SIMPLE)
    for rnd in range(2):
        for k in keys:
            if left() < 0:
                break
            cur = over.get(k, vals[k])
            for v in SIMPLE.get(base[k], [0]):
                if v == cur:
                    break
                if base[k] in SIMPLE and base[k] not in ("tick", "maxdepth") and v > cur:
                    break
                x = one(prop, seed, {**over, k: v}, cpulimit=lim)
                tries += 1
                if same(x):
                    over[k] = v
                    best = x
                    break
    # schedule: drop recorded decisions (a dropped one becomes the default: keep running)
    if best.get("rec"):
        sched = [tuple(map(int, p.split(":"))) for p in best["rec"].split(",")]
        x = one(prop, seed, over, sched)
        tries += 1
        if not same(x):
            log.append("the recorded schedule could not be shortened")
            sched = None
        else:
            best = x
            n = 2
            while sched and left() > 0:
                size = max(1, len(sched) // n)
                done = True
                for i in range(0, len(sched), size):
                    if left() < 0:
                        break
                    cand = sched[:i] + sched[i + size:]
                    x = one(prop, seed, over, cand)
                    tries += 1
                    if same(x):
                        sched, best, n, done = cand, x, max(2, n - 1), False
                        break
                if done:
                    if size == 1:
                        break
                    n = min(len(sched), n * 2)
    # every remaining override keeps its meaning when written out in full
    x = one(prop, seed, over, sched)
    if not same(x):
        over, sched = {}, None
        x = one(prop, seed, over)
    log.append(f"{tries} reduction attempts, {len(over)} settings simplified, " + (f"{len(sched)} scheduling decisions left" if sched is not None else "schedule decided by the seed"))
    return over, sched, x, log


def write_replay(prop, name, body):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{name}.json")
    with open(path, "w") as f:
        json.dump(body, f, indent=1)
        f.write("\n")
    return path


def replay(prop, path):
    r = json.load(open(path))
    sched = [tuple(x) for x in r["schedule"]] if r.get("schedule") is not None else None
    if "compare" in r:
        a = one(prop, r["seed"], {**r["settings"], **r["compare"][0]}, timeout=300)
        b = one(prop, r["seed"], {**r["settings"], **r["compare"][1]}, timeout=300)
        bad = a.get("result") != b.get("result")
        print(f"results {a.get('result')} and {b.get('result')}")
        got = {"v": "viol" if bad else "ok", "class": r["class"] if bad else "", "msg": r["msg"], "digest": ""}
    else:
        got = one(prop, r["seed"], r["settings"], sched, timeout=300)
    print(json.dumps({k: got.get(k) for k in ("v", "class", "msg", "digest", "sched")}, indent=1))
    if got["v"] == "viol" and got["class"] == r["class"]:
        same = (got.get("digest") or "") == (r.get("digest") or "") and (got.get("sched") or "") == (r.get("sched_digest") or "")
        print("reproduced exactly (event digest and schedule digest agree)" if same else "reproduced, with another event digest")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if got["v"] == "error":
        print("harness error:", got["msg"])
        return 2
    print("not reproduced: the property held in this run")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--secs", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--max", type=int)
    ap.add_argument("--keep-going", action="store_true")
    a = ap.parse_args()
    prop, meta = a.prop, META["sim"][a.prop]
    t0 = time.time()
    use(meta.get("feature"))
    built = build(prop)
    if a.replay:
        return replay(prop, a.replay)
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    secs = a.secs or (45 if tier == "quick" else 600)
    maxruns = a.max or (400_000 if tier == "quick" else 20_000_000)
    first = (seed * 1_000_003_000_000 + (0 if tier == "quick" else 500_000_000_000)) % (1 << 62)
    print(f"{prop}: VERIF_SEED={seed} tier={tier} first run seed {first}; built in {built:.1f} s; {NCPU} workers, {secs:.0f} s", flush=True)

    known = known_for(prop)
    lock = threading.Lock()
    st = {
        "runs": 0, "nontrivial": 0, "steps": 0, "decisions": 0, "switches": 0, "sim_ns": 0, "inner": 0,
        "probes": collections.Counter(), "digests": set(), "scheds": set(), "results": {}, "samples": [], "first": {},
        "viol": [], "errors": [], "known": collections.Counter(), "threads": collections.Counter(),
    }
    stop = threading.Event()

    def sink(side):
        def f(s, d):
            with lock:
                st["runs"] += 1
                st["inner"] += d.get("runs", 1)
                if d.get("nontrivial"):
                    st["nontrivial"] += 1
                    st["digests"].add((d.get("digest"), d.get("sched")))
                    if len(st["samples"]) < 3 or (d.get("steps") and not st["samples"][-1]["steps"]):
                        del st["samples"][2:]
                        st["samples"].append({"seed": s, "settings": d.get("sample", "").strip(), "steps": d.get("steps"), "scheduling_decisions": d.get("decisions"), "digest": d.get("digest"), "probes": d.get("probes")})
                if d.get("decisions"):
                    st["scheds"].add(d.get("sched"))
                for k in ("steps", "decisions", "switches", "sim_ns"):
                    st[k] += d.get(k, 0)
                st["threads"][d.get("threads", 0)] += 1
                st["probes"].update({k: v for k, v in d.get("probes", {}).items()})
                if len(st["first"]) < 96 and d["v"] == "ok" and side is None:
                    st["first"][s] = d
                if side is not None and d["v"] == "ok":
                    o = st["results"].pop(s, None)
                    if o is None:
                        st["results"][s] = d.get("result")
                    elif o != d.get("result"):
                        st["viol"].append((s, {"v": "viol", "class": "environment", "msg": "the same search gives another result in another process with other hash seeds, clock and heap addresses", "digest": "", "probes": {}, "sides": True}))
                        stop.set()
                if d["v"] == "viol":
                    w = is_known(known, d)
                    if w:
                        st["known"][w] += 1
                    else:
                        st["viol"].append((s, d))
                        if not a.keep_going:
                            stop.set()
                elif d["v"] == "error":
                    st["errors"].append((s, d))
        return f

    bs = []
    if meta.get("two_sided") and NCPU > 1:
        half = max(1, NCPU // 2)
        A, B = {}, {"hashseed": 77_777, "clock0": 909_090_909, "heapskew": 61, "tick": 333}
        for k in range(half):
            bs.append(Batch(prop, first + k, half, secs, k, maxruns // half // 2, A, sink("a")))
            bs.append(Batch(prop, first + k, half, secs, half + k, maxruns // half // 2, B, sink("b")))
    else:
        for k in range(NCPU):
            bs.append(Batch(prop, first + k, NCPU, secs, k, maxruns // NCPU, {}, sink(None)))
    ts = time.time()
    while any(b.p.poll() is None for b in bs):
        if stop.wait(0.1):
            break
        if time.time() - ts > secs + 60:
            break
    if stop.is_set():
        time.sleep(1.0)
    for b in bs:
        b.stop()
    for b in bs:
        b.t.join(5)
    sim_wall = time.time() - ts

    # determinism: repeat some of this run's seeds in other processes on other processors
    redone = differ = 0
    if not st["viol"]:
        for s, d in list(st["first"].items())[: (24 if tier == "quick" else 96)]:
            x = one(prop, s, {"cpu": (redone + 1) % NCPU})
            redone += 1
            if (x.get("digest"), x.get("sched"), x.get("steps"), x["v"]) != (d.get("digest"), d.get("sched"), d.get("steps"), d["v"]):
                differ += 1

    faults = {k: v for k, v in sorted(st["probes"].items()) if k in META["fault_kinds"]}
    reach = {k: v for k, v in sorted(st["probes"].items()) if k not in META["fault_kinds"]}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": st["runs"],
            "distinct_nontrivial": len(st["digests"]),
            "rule": meta["rule"] + " A run is non-trivial when the search or operation sequence it is about really ran (its own loss or operator evaluations were seen); two are distinct when the digest of their observable results or of their scheduling decisions differs.",
            "samples": st["samples"],
            "first_run_seed": first,
            "simulated_runs_per_hour": round(st["runs"] / max(sim_wall, 1e-9) * 3600),
            "simulated_time_s": round(st["sim_ns"] / 1e9, 3),
            "simulator_steps": st["steps"],
            "scheduling_decisions": st["decisions"],
            "thread_switches": st["switches"],
            "distinct_interleavings": len(st["scheds"]),
            "distinct_interleavings_measure": "hash of the sequence of (decision index, chosen thread) of a run; runs without a decision are not counted",
            "threads_per_run": {str(k): v for k, v in sorted(st["threads"].items())},
            "faults_injected": faults,
            "reached": reach,
            "runs_repeated_in_another_process": redone,
            "runs_that_did_not_repeat": differ,
            "real": META["real"],
            "simulated": META["stub"] + meta.get("stub", []),
            "known_findings_seen": dict(st["known"]),
        },
        "assumptions": META["assumptions"] + meta.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1),
        "violations": len(st["viol"]),
    }
    code = 0
    for cl, rx, what in known:
        print(f"KNOWN-FINDING: property={prop} {what} (seen in {st['known'][what]} of {st['runs']} runs)")
    if st["viol"]:
        code = 1
        # the cheapest failure to look at: prefer those with a recorded schedule that is short
        st["viol"].sort(key=lambda v: (v[1]["class"] in ("hang",), v[1].get("steps", 0)))
        s, d = st["viol"][0]
        print(f"seed {s}: {d['class']}: {d['msg'][:1500]}")
        body = {"property": prop, "seed": s, "class": d["class"]}
        if d.get("sides"):
            body.update({"settings": {}, "schedule": None, "compare": [{}, {"hashseed": 77_777, "clock0": 909_090_909, "heapskew": 61, "tick": 333}], "msg": d["msg"], "digest": ""})
        else:
            over, sched, x, log = minimise(prop, s, d, 60 if tier == "quick" else 240)
            body.update({"settings": over, "schedule": sched, "msg": x["msg"], "digest": x.get("digest", ""), "sched_digest": x.get("sched", ""), "all_settings": x.get("sample", ""), "faults": x.get("probes", {}), "history": log})
            print("minimised:", x["msg"][:1500])
        path = write_replay(prop, str(s), body)
        print(f"VIOLATION property={prop} replay={path}", flush=True)
    elif st["errors"]:
        s, d = st["errors"][0]
        print(f"HARNESS ERROR in seed {s}: {d['msg'][:800]} ({len(st['errors'])} in all)")
        code = 2
    elif st["nontrivial"] == 0:
        print("HARNESS ERROR: no run did anything")
        code = 2
    if differ:
        print(f"note: {differ} of {redone} repeated runs differed")
        if not code:
            code = 2
    ev["wall_s"] = round(time.time() - t0, 1)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print(f"{prop}: {st['runs']} runs, {len(st['digests'])} distinct, {len(st['scheds'])} interleavings, {len(st['viol'])} violations, {time.time()-t0:.0f} s")
    return code


if __name__ == "__main__":
    sys.exit(main())
