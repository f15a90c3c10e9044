#!/usr/bin/env python3
"""run.py CNN            run the check of property CNN (tier from VERIF_TIER, default quick)
   run.py --replay FILE  re-run the failing case of a replay artefact
Builds the harness from /repo's working tree, explores, replays a failure in a fresh process, reports."""
import json, os, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, ROOT)
import registry

BASE = ["g++", "-std=c++14", "-w", "-include", "cstdint", "-include", "cstring", "-DCATCH_CONFIG_NO_POSIX_SIGNALS", "-D_GLIBCXX_ASSERTIONS",
        f"-I{REPO}/include", f"-I{REPO}/ext", f"-I{ROOT}/lib"]
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0",
           LC_ALL="C")

CORE = ["-DVERIF_CORE"]
CORE_NOTE = "an internal helper that the full harness calls directly is gone or has another signature; it was exercised through its callers only"
NOTES = []

def build(pid, work):
    cfg = registry.CHECKS[pid]
    exe = os.path.join(work, pid.lower())
    if "build" in cfg:
        ok, text = cfg["build"](ROOT, REPO, work, BASE)
        if not ok:
            ok, text2 = cfg["build"](ROOT, REPO, work, BASE + CORE)
            NOTES.append(CORE_NOTE)
        if not ok:
            print(text[-4000:], file=sys.stderr)
            print(f"harness for {pid} does not build against {REPO}", file=sys.stderr)
            sys.exit(2)
        return [os.path.join(work, "check")]
    src = os.path.join(ROOT, "checks", pid.lower() + ".cpp")
    cmd = BASE + cfg.get("flags", ["-O2"]) + [src, "-o", exe] + cfg.get("libs", [])
    for extra in ([], CORE):   # helpers that are not part of the documented interface are left out if they no longer exist
        r = subprocess.run(cmd + extra, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0:
            if extra: NOTES.append(CORE_NOTE)
            return [exe]
    print(r.stdout[-4000:], file=sys.stderr)
    print(f"harness for {pid} does not build against {REPO}", file=sys.stderr)
    sys.exit(2)

def run_replay(cmd, fam, idx, limit, hist=(), chunk=0):
    try:
        extra = ["--history", str(chunk), ",".join(map(str, hist))] if hist else []
        r = subprocess.run(cmd + ["--tier", os.environ.get("VERIF_TIER", "quick"), "--replay", fam, str(idx)] + extra, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=limit, env=ENV)
    except subprocess.TimeoutExpired:
        return False, f"no result within {limit} s"
    if r.returncode == 0:
        return True, r.stdout
    if r.returncode == 3:
        return None, r.stderr
    return False, (r.stdout + (f"\nprocess ended with status {r.returncode}\n" if r.returncode != 10 else "") + r.stderr[-3000:])

def main():
    if sys.argv[1] == "--replay":
        a = json.load(open(sys.argv[2]))
        os.environ["VERIF_TIER"] = a["tier"]
        work = tempfile.mkdtemp(prefix="vmc-")
        try:
            held, text = run_replay(build(a["property"], work), a["family"], a["index"], 600, a.get("history", ()), a.get("chunk", 0))
        finally:
            shutil.rmtree(work, ignore_errors=True)
        print("held" if held else "FAILED"); print(text)
        sys.exit(0 if held else 1)
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
        os.environ["VERIF_TIER"] = tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = registry.CHECKS[pid]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="vmc-")
    try:
        cmd = build(pid, work)
        t_build = time.time() - t0
        res = os.path.join(work, "res.json")
        r = subprocess.run(cmd + ["--tier", tier, "--out", res], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=ENV)
        if r.returncode not in (0, 10):
            print(r.stdout[-2000:], r.stderr[-4000:], file=sys.stderr)
            print(f"exploration of {pid} ended with {r.returncode}", file=sys.stderr)
            sys.exit(2)
        d = json.load(open(res))
        confirmed, replay_path, text = False, None, ""
        if d["violation"]:
            held, text = run_replay(cmd, d["family"], d["index"], 120)
            if held is True and (d["violation"] == 3 or "signal 9 " in d["message"]):
                # a busy machine, not the code: explore again with a longer limit
                r = subprocess.run(cmd + ["--tier", tier, "--out", res, "--hang", "150"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=ENV)
                if r.returncode in (0, 10):
                    d = json.load(open(res))
                    if d["violation"]:
                        held, text = run_replay(cmd, d["family"], d["index"], 200)
        if d["violation"]:
            hist, how = [], "alone"
            if held is True and d["history"]:
                # the failure may need the calls that were made before it: repeat the worker's chunk, then all of its chunks
                for hist in ([d["history"][-1]], d["history"]):
                    held, text2 = run_replay(cmd, d["family"], d["index"], 600, hist, d["chunk"])
                    if held is False:
                        text, how = text2, f"after the {'cases of its chunk' if len(hist) == 1 else str(len(hist)) + ' chunks of cases'} evaluated before it (the case alone holds: the result depends on earlier calls)"
                        break
            if held is True and d["violation"] != 3:
                # last resort: a result that depends on memory left behind; the whole exploration has to fail again at the same case family
                r = subprocess.run(cmd + ["--tier", tier, "--out", res], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=ENV)
                d2 = json.load(open(res)) if r.returncode == 10 else None
                if d2 and d2["family"] == d["family"]:
                    held, how, hist = False, f"in a second exploration of the whole space (case {d2['index']}: {d2['message']}); the case alone holds: the result depends on earlier calls or uninitialised memory", d2["history"]
                    text = d2["message"]
            if held is False:
                confirmed = True
            else:
                print(f"case {d['family']}#{d['index']} failed in the exploration ({d['message']}) but not when replayed alone", file=sys.stderr)
                print(text, file=sys.stderr)
                sys.exit(2)
            os.makedirs(os.path.join(ROOT, "evidence", "replay"), exist_ok=True)
            replay_path = os.path.join(ROOT, "evidence", "replay", pid + ".json")
            json.dump(dict(property=pid, tier=tier, family=d["family"], index=d["index"], message=d["message"], reproduced=how, detail=text.strip(), history=hist if how != "alone" else [], chunk=d["chunk"],
                           rerun=f"python3 {ROOT}/run.py --replay {replay_path}"), open(replay_path, "w"), indent=1)
        fams = d["families"]
        cov = dict(
            states=sum(f["cases"] for f in fams),
            transitions=sum(f["calls"] for f in fams),
            traces_validated_against_impl=sum(f["cases"] - f["skipped"] for f in fams),
            comparisons=sum(f["comparisons"] for f in fams),
            skipped_by_precondition=sum(f["skipped"] for f in fams),
            distinct_outcomes=sum(f["distinct_outcomes"] for f in fams),
            exhaustive=not d["violation"],
            meaning=cfg.get("meaning", "states = distinct cases of the bounded spaces listed under families, every one evaluated on the code compiled from /repo; transitions = calls of the code under test; traces_validated_against_impl = cases whose real result was compared with the reference model (cases minus those outside the precondition); distinct_outcomes = distinct result fingerprints observed (hash buckets, a lower bound)"),
            families=[dict(name=f["name"], what=f["what"], cases=f["cases"], calls=f["calls"], comparisons=f["comparisons"], skipped=f["skipped"], inner=f["aux"],
                           distinct_outcomes=f["distinct_outcomes"], worst_error_over_tolerance=f["worst_error_over_tolerance"], wall_s=f["wall_s"]) for f in fams],
            samples=[f["name"] + " " + s for f in fams for s in f["samples"]][:24] or [d.get("message", "")],
        )
        ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov,
                  assumptions=cfg.get("assumptions", []) + registry.COMMON_ASSUMPTIONS + NOTES,
                  wall_s=round(time.time() - t0, 3), violations=1 if confirmed else 0)
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)
        print(f"{pid} {tier}: {cov['states']} cases, {cov['transitions']} calls, {cov['comparisons']} comparisons, "
              f"{cov['distinct_outcomes']} distinct outcomes, worst error/tolerance {max([f['worst_error_over_tolerance'] for f in fams] or [0]):.3g}, "
              f"build {t_build:.1f} s, total {time.time()-t0:.1f} s")
        if os.environ.get("VERIF_VERBOSE"):
            print(f"   peak memory of a worker {d.get('peak_gb', 0)} GB")
            for f in fams:
                print(f"   {f['name']:28s} cases {f['cases']:>12} skipped {f['skipped']:>10} distinct {f['distinct_outcomes']:>8} worst {f['worst_error_over_tolerance']:.3g} wall {f['wall_s']:.2f}")
        if confirmed:
            print(f"{d['family']}#{d['index']}: {d['message']}")
            print(text.strip()[:2500])
            print(f"VIOLATION property={pid} replay={replay_path}")
            sys.exit(1)
        sys.exit(0)
    finally:
        shutil.rmtree(work, ignore_errors=True)

main()
