#!/usr/bin/env python3
"""run_check.py ID [--replay FILE]: decides one property on /repo's working tree (see DESIGN.md).

Exit 0: held on everything observed.  Exit 1: VIOLATION line.  Exit 2: inconclusive / harness error.
"""
import glob
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "lib"))
PY = os.environ.get("VERIF_PY", "/opt/venv/bin/python")


def env_for(spec, scratch):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("OMPI_", "PMIX_", "PRTE_")) and "ALLOW" not in k:
            del e[k]
    e.update(JAX_PLATFORMS="cpu", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
             OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
             OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
             OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_mpi_yield_when_idle="1",
             OMPI_MCA_btl="self,vader,tcp", OMPI_MCA_orte_tmpdir_base=scratch, TMPDIR=scratch,
             OMPI_MCA_ess_singleton_isolated="1",   # a process that is not under mpirun needs no daemon
             PRTE_MCA_prte_silence_shared_fs="1", TF_CPP_MIN_LOG_LEVEL="2",
             XLA_FLAGS="--xla_force_host_platform_device_count=%d --xla_cpu_multi_thread_eigen=false --xla_backend_optimization_level=0 --xla_llvm_disable_expensive_passes=true" % spec.get("dev", 1))
    e.pop("PYTHONPATH", None)
    e.pop("DISPLAY", None)
    return e


def load(f):
    try:
        return json.load(open(f))
    except ValueError:        # a heartbeat cut off by the death of its process
        return None


def run_shards(prop, module, shards, seed, tier, outdir, scratch, only=None, limit=800.):
    """Runs the shards with at most ~8 busy processes; returns {shard: (rc, stderr tail)}"""
    slots = threading.Semaphore(int(os.environ.get("VERIF_SLOTS", "11")))
    lock = threading.Lock()
    res = {}
    procs = set()
    t_end = time.time() + limit

    def launch(i, spec, cmd, attempt):
        # every launch has its own session directory: Open MPI's start-up is not safe against concurrent mkdir
        own = os.path.join(scratch, "s%d.%d" % (i, attempt))
        os.mkdir(own)
        ef = os.path.join(outdir, "s%d.err" % i)
        with open(ef, "w") as err:
            p = subprocess.Popen(cmd, cwd=own, env=env_for(spec, own), stdout=err, stderr=err,
                                 stdin=subprocess.DEVNULL, start_new_session=True)
            procs.add(p)
            try:
                rc = p.wait(timeout=max(1., t_end - time.time()))
            except subprocess.TimeoutExpired:
                rc = "timeout"
                os.killpg(p.pid, signal.SIGTERM)
                try:
                    p.wait(10)
                except subprocess.TimeoutExpired:
                    pass
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
        return rc, open(ef, errors="replace").read()[-6000:]

    def one(i, spec):
        w = min(8, max(spec.get("ranks", 1), spec.get("weight", 1)))
        with lock:                # take all slots of a shard atomically
            for _ in range(w):
                slots.acquire()
        try:
            arg = json.dumps({"prop": prop, "module": module, "shard": i, "spec": spec, "seed": seed,
                              "tier": tier, "outdir": outdir, "only": only})
            cmd = [PY, "-W", "ignore", os.path.join(HERE, "lib", "worker.py"), arg]
            if spec.get("ranks", 1) > 1:
                cmd = ["mpirun", "--oversubscribe", "--bind-to", "none", "-n", str(spec["ranks"])] + cmd
            deaths = []
            for attempt in range(5):
                for f in glob.glob(os.path.join(outdir, "s%d_r*" % i)):
                    os.unlink(f)
                rc, tail = launch(i, spec, cmd, attempt)
                files = glob.glob(os.path.join(outdir, "s%d_r*.json" % i))
                # a rank that aborts the others leaves its result
                if rc == "timeout" or len(files) == spec.get("ranks", 1) or any(r["violations"] or r["errors"] for r in map(load, files)):
                    break
                at = [c["case"] for c in map(load, sorted(glob.glob(os.path.join(outdir, "s%d_r*.hb" % i)))) if c]
                if at:                            # died in the middle of a case
                    deaths.append({"exit": rc, "case": at[0], "stderr": tail[-1500:]})
                    if len(deaths) == 3:
                        break
                # else: never got to a case (MPI or interpreter start-up); start it again
                time.sleep(1 + attempt)
            res[i] = (rc, tail, deaths)
        finally:
            for _ in range(w):
                slots.release()

    order = sorted(range(len(shards)), key=lambda i: -shards[i].get("cost", 1))
    ths = []
    for i in order:
        t = threading.Thread(target=one, args=(i, shards[i]))
        t.start()
        ths.append(t)
        time.sleep(0.01)
    for t in ths:
        t.join()
    return res


def hangs(shards, rcs, outdir, patience=450.):
    """MPI shards that were killed at the time limit although none of their ranks had finished a case for a long time"""
    out = []
    for i, s in enumerate(shards):
        if s.get("ranks", 1) < 2 or rcs.get(i, (0,))[0] != "timeout":
            continue
        hb = [(os.path.getmtime(f), json.load(open(f))) for f in glob.glob(os.path.join(outdir, "s%d_r*.hb" % i))]
        if len(hb) == s["ranks"] and time.time() - max(h[0] for h in hb) > patience:
            out.append({"what": "the MPI processes hang: no case finished for %d s" % (time.time() - max(h[0] for h in hb)), "shard": i, "spec": s, "rank": 0,
                        "case": hb[0][1]["case"], "witness": {"case of each rank": [h[1]["case"] for h in hb]}})
    return out


def deaths(shards, rcs):
    """Shards whose process dies (crash, MPI abort) at the same case every time it is started; a kill -9 is not one of them"""
    out = []
    for i, s in enumerate(shards):
        d = rcs.get(i, (0, "", []))[2]
        if len(d) >= 3 and len({json.dumps(x["case"], sort_keys=True, default=str) for x in d}) == 1 and all(x["exit"] not in (-9, 137) for x in d):
            out.append({"what": "the process dies in the library, exit %s, each of %d times it was started" % (d[0]["exit"], len(d)), "shard": i, "spec": s, "rank": 0,
                        "case": d[0]["case"], "witness": {"stderr": d[0]["stderr"]}})
    return out


def main():
    prop = sys.argv[1]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    module = prop.lower()
    only = None
    replay = None
    if "--replay" in sys.argv:
        replay = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        seed, tier = replay["seed"], replay["tier"]
    mod = importlib.import_module("checks." + module)
    shards = mod.SHARDS(tier)
    for i, s in enumerate(shards):
        s.setdefault("key", "%s-%d" % (s["fn"], i))
    if replay:
        v = replay["violation"]
        shards = [v["spec"]]
        if v["case"]:
            only = [v["case"]["name"], v["case"]["index"]]
    base = os.environ.get("VERIF_SCRATCH") or None
    scratch = tempfile.mkdtemp(prefix="vf_%s_" % prop, dir=base)
    outdir = os.path.join(scratch, "out")
    os.mkdir(outdir)
    limit = float(os.environ.get("VERIF_LIMIT", "700" if tier == "quick" else "7200"))
    try:
        rcs = run_shards(prop, module, shards, seed, tier, outdir, scratch, only, limit)
        stuck = hangs(shards, rcs, outdir) + deaths(shards, rcs)
        results = [json.load(open(f)) for f in sorted(glob.glob(os.path.join(outdir, "s*_r*.json")))]
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    viol, errors, samples, sigs, known, counters = [], [], [], set(), {}, {}
    evaluations = checks = 0
    seen = set()
    for r in results:
        seen.add((r["shard"], r["rank"]))
        viol += r["violations"]
        errors += ["shard %d rank %d: %s" % (r["shard"], r["rank"], e) for e in r["errors"]]
        sigs |= {"%s@%s" % (s, r["spec"].get("lay", "")) for s in r["sigs"]}
        checks += r["checks"]
        for k, n in r["counters"].items():
            counters[k] = counters.get(k, 0) + n
        if r["rank"] == 0:
            evaluations += r["evaluations"]
            if r["samples"] and len(samples) < 12:
                samples.append({"shard": r["spec"], **r["samples"][-1]})
        for k, n in r["known"].items():
            known[k] = known.get(k, 0) + n
    viol += stuck
    for i, s in enumerate(shards):
        for rk in range(s.get("ranks", 1)):
            if (i, rk) not in seen:
                errors.append("shard %d rank %d left no result (exit %s): %s" % (i, rk, rcs.get(i, ("?", ""))[0], rcs.get(i, ("", "?"))[1][-1500:]))
                break
    required = getattr(mod, "REQUIRED", {})
    if not replay:
        for k, n in required.items():
            if counters.get(k, 0) < n:
                errors.append("monitor %r observed %d events, needs %d" % (k, counters.get(k, 0), n))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": evaluations, "distinct_nontrivial": len(sigs), "rule": mod.RULE,
                       "samples": samples, "oracle_comparisons": checks, "observed": counters,
                       "shards": [{"layout": s, "exit": rcs.get(i, ("?",))[0],
                                   "wall_s": round(max([r["wall_s"] for r in results if r["shard"] == i] + [0.]), 1)} for i, s in enumerate(shards)],
                       "inconclusive": [e[:500] for e in errors]},
          "assumptions": getattr(mod, "ASSUMPTIONS", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if not replay:
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    kfs = {}
    kp = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(kp):
        kfs = {d["id"]: d for d in map(json.loads, filter(str.strip, open(kp))) if d.get("status") == "known"}
    for k in sorted(known):
        print("KNOWN-FINDING: property=%s %s" % (prop, kfs.get(k, {}).get("what", k)))
    print("%s: %d cases, %d distinct non-trivial, %d oracle comparisons, %d shards, %.1f s" %
          (prop, evaluations, len(sigs), checks, len(shards), time.time() - t0))
    print("   shard seconds: " + " ".join(str(x["wall_s"]) for x in ev["coverage"]["shards"]))
    print("   observed: " + ", ".join("%s=%d" % kv for kv in sorted(counters.items())))
    if viol:
        rd = os.path.join(HERE, "replays")
        os.makedirs(rd, exist_ok=True)
        for n, v in enumerate(viol[:6]):
            print("  - %s  [shard %s rank %s case %s]" % (v["what"], v["spec"], v["rank"], v["case"]))
            for k, x in list(v["witness"].items())[:8]:
                print("      %s = %s" % (k, str(x)[:500]))
        path = os.path.join(rd, "%s-seed%d-%s.json" % (prop, seed, tier))
        json.dump({"property": prop, "seed": seed, "tier": tier, "violation": viol[0], "all": viol}, open(path, "w"), indent=1, default=str)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    if errors or checks == 0 or (not sigs and not replay):
        print("INCONCLUSIVE property=%s" % prop)
        for e in errors[:5]:
            print("  * " + e[-3000:])
        sys.exit(2)
    print("HELD property=%s (on everything observed)" % prop)
    sys.exit(0)


if __name__ == "__main__":
    main()
