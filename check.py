#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--secs N] : decide one property by seeded simulation.

Exit 0: held on every simulated run. Exit 1: `VIOLATION property=<id> replay=<path>`.
Exit 2: the check itself failed (build error, non-determinism, vacuous search).
check.py --replay FILE : rebuild from the current tree and re-execute a replay file with its trace.
"""
import argparse, glob, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time
import simbuild

VERIF = simbuild.VERIF
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
WORKERS = 8
QUICK_SECS = 24
THOROUGH_SECS = 600
STUBS = ["kernel: TCP sockets, pipes, eventfd, timerfd, epoll/poll/select (sim/net.cpp)",
         "pthreads, clocks, sleeps (sim/thread.cpp)", "stdio files and directories (sim/file.cpp)", "heap allocator (sim/mem.cpp)",
         "name resolution"]


def known_findings(prop):
    out = []
    if not os.path.exists(KNOWN):
        return out
    for line in open(KNOWN):
        line = line.strip()
        m = re.match(r"known: property=(\S+) scenario=(\S+) class=(\S+) match=/(.*)/ :: (.*)$", line)
        if m and m.group(1) == prop:
            out.append({"scenario": m.group(2), "class": m.group(3), "re": re.compile(m.group(4)), "what": m.group(5), "seen": 0})
    return out


def parse_raw(path):
    d = {"choices": 0}
    with open(path, errors="replace") as f:
        for line in f:
            line = line.rstrip("\n")
            k, _, v = line.partition(" ")
            if k in ("prop", "scenario", "seed", "mode", "class", "hash", "msg", "pcs", "points", "simtime_us"):
                d[k] = v
            if k == "choices":
                d["choices"] = int(v)
                break
    return d


def symbolise(exe, pcs):
    a = pcs.split()
    if not a:
        return ""
    r = subprocess.run(["addr2line", "-Cfse", exe] + a, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    l = r.stdout.decode(errors="replace").splitlines()
    return " < ".join("%s (%s)" % (re.sub(r"\(.*", "", l[i]), l[i + 1]) for i in range(0, len(l) - 1, 2))


def run_driver(exe, args, timeout=None):
    return subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd="/")


def merge(outdir):
    tot = {"faults": {}, "probes": {}, "scenarios": {}, "samples": [], "harness_msg": ""}
    for f in sorted(glob.glob(os.path.join(outdir, "stats-*.json"))):
        s = json.load(open(f))
        for k, v in s.items():
            if isinstance(v, dict):
                for n, (a, b) in v.items():
                    x = tot[k].setdefault(n, [0, 0])
                    x[0] += a
                    x[1] += b
            elif isinstance(v, list):
                tot[k] += v
            elif k == "harness_msg":
                tot[k] = tot[k] or v
            elif k == "max_sim_ns":
                tot[k] = max(tot.get(k, 0), v)
            else:
                tot[k] = tot.get(k, 0) + v
    seen = set()
    for f in glob.glob(os.path.join(outdir, "sched-*.bin")):
        b = open(f, "rb").read()
        seen.update(struct.unpack("<%dQ" % (len(b) // 8), b))
    tot["distinct_sched"] = len(seen)
    return tot


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--secs", type=float)
    ap.add_argument("--scenario")
    ap.add_argument("--workers", type=int, default=WORKERS)
    ap.add_argument("--replay")
    ap.add_argument("--config", choices=sorted(simbuild.CONFIGS), help="build configuration (default: the one of this platform; thorough also runs the others that apply)")
    ap.add_argument("--evidence", default=os.path.join(VERIF, "evidence"))
    a = ap.parse_args()
    t0 = time.time()
    if a.replay:
        d = parse_raw(a.replay)
        m = re.search(r"^config: (\w+)$", open(a.replay, errors="replace").read(), re.M)
        exe = simbuild.build(d["prop"], simbuild.CONFIGS[m.group(1) if m else "linux"])
        r = run_driver(exe, ["replay", os.path.abspath(a.replay), "--trace"])
        sys.stdout.write(r.stdout.decode(errors="replace"))
        m = re.search(r"^pcs (.+)$", r.stdout.decode(errors="replace"), re.M)
        if m:
            print("stack: " + symbolise(exe, m.group(1)))
        return r.returncode
    prop = a.prop
    secs = a.secs if a.secs else (THOROUGH_SECS if a.tier == "thorough" else QUICK_SECS)
    # thorough: a share of the time goes to the other build configuration, whose fallback code is never run here otherwise
    other = None
    if a.tier == "thorough" and not a.config and not a.scenario:
        other, other_secs = "portable", secs * 0.15
        secs -= other_secs
    try:
        exe = simbuild.build(prop, simbuild.CONFIGS[a.config or "linux"])
    except simbuild.BuildError as e:
        print("BUILD ERROR: %s" % e)
        return 2
    tb = time.time()
    known = known_findings(prop)
    outdir = tempfile.mkdtemp(prefix="sim-%s-" % prop, dir=os.path.join(simbuild.BUILD))
    replaydir = os.path.join(a.evidence, "replays")
    os.makedirs(replaydir, exist_ok=True)
    procs = []
    extra = ["--scenario", a.scenario] if a.scenario else []
    rc, verdict = 0, None
    try:
        for w in range(a.workers):
            procs.append(subprocess.Popen([exe, "run", "--prop", prop, "--seed", str(a.seed), "--first", str(w), "--stride", str(a.workers),
                                           "--secs", str(secs), "--out", outdir] + extra, cwd="/", stdout=subprocess.DEVNULL))
        handled, unknown, hit = set(), [], None
        while True:
            alive = [p for p in procs if p.poll() is None]
            for f in sorted(glob.glob(os.path.join(outdir, "viol-*.raw"))):
                if f in handled:
                    continue
                handled.add(f)
                d = parse_raw(f)
                d["file"] = f
                d["stack"] = symbolise(exe, d.get("pcs", ""))
                k = None
                for e in known:
                    if e["scenario"] in ("*", d["scenario"]) and e["class"] == d["class"] and e["re"].search(d["msg"] + " | " + d["stack"]):
                        k = e
                if k:
                    k["seen"] += 1
                else:
                    unknown.append(d)
            if unknown and hit is None:
                hit = time.time()
            if hit and time.time() - hit > 1.0:
                for p in alive:
                    p.terminate()
            if not alive:
                break
            time.sleep(0.1)
        for p in procs:
            p.wait()
        st = merge(outdir)
        if unknown:
            # one report per (class, scenario); the ones with the fewest choices first
            groups = {}
            for d in sorted(unknown, key=lambda d: d["choices"]):
                groups.setdefault((d["class"], d["scenario"]), d)
            n = 0
            failed_gate = []
            for (cls, scen), d in sorted(groups.items(), key=lambda x: x[1]["choices"])[:3]:
                out = os.path.join(replaydir, "%s-%s-%s.replay" % (prop, re.sub(r"\W+", "_", cls), d["seed"]))
                r = run_driver(exe, ["shrink", d["file"], out, "--secs", "15" if a.tier == "quick" else "60"], timeout=300)
                if r.returncode:
                    failed_gate.append("shrink of %s/%s: %s" % (scen, cls, r.stderr.decode(errors="replace").strip()))
                    continue
                r2 = run_driver(exe, ["replay", out], timeout=120)
                if r2.returncode != 1:
                    failed_gate.append("fresh-process replay of %s/%s: %s" % (scen, cls, r2.stdout.decode(errors="replace")[-200:]))
                    continue
                e = parse_raw(out)
                stack = symbolise(exe, e.get("pcs", ""))
                with open(out, "a") as fo:
                    fo.write("stack: %s\n" % stack)
                    if a.config and a.config != "linux":
                        fo.write("config: %s\n" % a.config)
                print("  scenario=%s class=%s (%s choices after minimisation)\n  %s\n  at %s" % (scen, cls, e["choices"], e["msg"], stack[:600]))
                print("VIOLATION property=%s replay=%s" % (prop, out))
                n += 1
                rc = 1
            if n == 0:
                print("CHECK ERROR: a violation was found but did not pass the reproduction gate: %s" % "; ".join(failed_gate))
                rc = 2
        elif st.get("mismatches"):
            print("CHECK ERROR: non-deterministic run: %s" % st["harness_msg"])
            rc = 2
        elif st.get("harness_errors"):
            print("CHECK ERROR: harness error: %s" % st["harness_msg"])
            rc = 2
        elif not st.get("nontrivial") and not any(k["seen"] for k in known):
            print("CHECK ERROR: vacuous search, no run exercised the property")
            rc = 2
        elif any(p.returncode not in (0,) for p in procs):
            print("CHECK ERROR: worker exit codes %s" % [p.returncode for p in procs])
            rc = 2
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        extra_cov = {}
        if other and rc == 0:
            r = subprocess.run([sys.executable, os.path.abspath(__file__), prop, "--tier", "thorough", "--seed", str(a.seed), "--secs", str(other_secs),
                                "--workers", str(a.workers), "--config", other, "--evidence", a.evidence], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            o = r.stdout.decode(errors="replace")
            print("".join("  [%s] %s\n" % (other, l) if not re.match("VIOLATION|KNOWN-FINDING", l) else l + "\n" if l.startswith("V") else "" for l in o.splitlines()), end="")
            rc = r.returncode
            try:
                c = json.load(open(os.path.join(a.evidence, "config-" + other, prop + ".json")))["coverage"]
                extra_cov["configuration_" + other] = {k: c[k] for k in ("evaluations", "runs_nontrivial", "distinct_nontrivial", "simulated_seconds", "faults_injected", "scenarios")}
            except (OSError, KeyError, ValueError):
                pass
        wall = time.time() - t0
        sw = max(0.001, st.get("wall_s", 0) / max(1, a.workers))
        samples = []
        for ix, h, sc in st["samples"][:3]:
            r = run_driver(exe, ["one", "--prop", prop, "--seed", str(a.seed), "--first", str(ix), "--trace"] + extra, timeout=60)
            t = r.stdout.decode(errors="replace").splitlines()
            samples.append({"scenario": sc, "seed": a.seed, "index": ix, "history_hash": h, "trace_head": t[:12], "result": next((l for l in t if l.startswith("scenario ")), "")})
        ev = {
            "property": prop, "tier": a.tier, "seed": a.seed, "level": "exploration",
            "coverage": {
                "evaluations": st.get("runs", 0),
                "distinct_nontrivial": st.get("distinct_sched", 0),
                "rule": "One evaluation is one complete simulated execution (fresh process image) of a scenario whose workload, schedule, delays and faults derive "
                        "from one seed. It is non-trivial if the scenario reached the situation the property speaks about (its own marker); distinct counts different "
                        "interleavings: the hash of the sequence (thread switched to, its step count) over the whole run.",
                "samples": samples,
                "runs_nontrivial": st.get("nontrivial", 0),
                "runs_per_hour": int(st.get("runs", 0) / sw * 3600),
                "seeds_per_hour": int(st.get("runs", 0) / sw * 3600),
                "simulated_seconds": round(st.get("sim_ns", 0) / 1e9, 3),
                "longest_run_simulated_seconds": round(st.get("max_sim_ns", 0) / 1e9, 3),
                "scheduling_points": st.get("points", 0), "context_switches": st.get("switches", 0), "recorded_events": st.get("events", 0),
                "faults_injected": {k: {"times": v[0], "runs": v[1]} for k, v in sorted(st["faults"].items())},
                "reach_probes": {k: {"times": v[0], "runs": v[1]} for k, v in sorted(st["probes"].items())},
                "scenarios": {k: {"runs": v[0], "nontrivial": v[1]} for k, v in sorted(st["scenarios"].items())},
                "determinism_reruns": st.get("reruns", 0), "determinism_mismatches": st.get("mismatches", 0), "harness_errors": st.get("harness_errors", 0),
                "violating_runs": st.get("violations", 0),
                "real_components": "every library source under /repo/source built for this platform, unmodified, compiled from the current tree",
                "stubbed_components": STUBS,
            },
            "assumptions": ["sequentially consistent interleavings; memory-ordering weaknesses are visible only through the happens-before publication check",
                            "x86-64 Linux build configuration of the library (epoll back end unless the scenario says otherwise)",
                            "the simulated kernel follows Linux semantics for the calls the library makes"],
            "wall_s": round(wall, 2), "violations": 1 if rc == 1 else 0,
        }
        ev["coverage"].update(extra_cov)
        evdir = os.path.join(a.evidence, "config-" + a.config) if a.config and a.config != "linux" else a.evidence
        os.makedirs(evdir, exist_ok=True)
        p = os.path.join(evdir, prop + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.rename(p + ".tmp", p)
        print("%s %s: %d runs (%d non-trivial, %d distinct interleavings), %.0f simulated s, %d re-runs compared, build %.1fs, total %.1fs -> exit %d" % (
            prop, a.tier, st.get("runs", 0), st.get("nontrivial", 0), st.get("distinct_sched", 0), st.get("sim_ns", 0) / 1e9, st.get("reruns", 0), tb - t0, wall, rc))
    finally:
        for p in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(outdir, ignore_errors=True)
    return rc


if __name__ == "__main__":
    sys.exit(main())
