#!/usr/bin/env python3
"""Driver: compiles the harnesses of one property against /repo's working tree, explores their bounded spaces on all
cores, replays and reports violations, and rewrites the evidence file.

  mc.py C01                 run the check (tier from VERIF_TIER, default quick)
  mc.py C01 --tier thorough
  mc.py C01 --replay FILE   re-execute one recorded violation
  mc.py C01 --only NAME     restrict to harnesses whose name contains NAME (development)
"""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile, threading, time, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("MC_REPO", "/repo")
INC = os.path.join(REPO, "include")
sys.path.insert(0, HERE)
import props

CPUS = os.cpu_count() or 8
BASEFLAGS = ["-I" + INC, "-I" + HERE, "-w", "-DCPPSORT_DISABLE_DEPRECATION_WARNINGS", "-DCPPSORT_ENABLE_ASSERTIONS",
             "-D_GLIBCXX_ASSERTIONS", "-pthread", "-fmax-errors=3"]
HARD_LIMIT = {"quick": 840, "thorough": 4 * 3600}

def compile_one(h, out):
    src = os.path.join(out, h.name + ".cpp")
    exe = os.path.join(out, h.name)
    with open(src, "w") as f: f.write(h.source())
    cmd = [h.cxx, *BASEFLAGS, "-std=" + h.std, *h.flags, src, "-o", exe]
    for attempt in (0, 1):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode == 0: return exe, None
        # a compiler killed by the environment is retried and is never a verdict
        killed = r.returncode < 0 or "Killed" in r.stdout or "internal compiler error" in r.stdout or "No space left" in r.stdout
        if not killed: break
    if killed: raise RuntimeError("compiler failed: " + r.stdout[-2000:])
    return None, " ".join(cmd) + "\n" + r.stdout

def load_known(prop):
    path = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3)))
    return out

def main():
    a = sys.argv[1:]
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = only = None; verbose = False; list_only = False
    i = 1
    while i < len(a):
        if a[i] == "--tier": tier = a[i + 1]; i += 1
        elif a[i] == "--replay": replay = a[i + 1]; i += 1
        elif a[i] == "--only": only = a[i + 1]; i += 1
        elif a[i] == "-v": verbose = True
        elif a[i] == "--list": list_only = True
        i += 1
    if tier not in ("quick", "thorough"): tier = "quick"
    P = props.get(prop)
    t0 = time.time()
    known = load_known(prop)
    hs = P.harnesses(tier)
    names = [h.name for h in hs]
    assert len(set(names)) == len(names), "duplicate harness names"
    if only: hs = [h for h in hs if only in h.name]
    rep = None
    if replay:
        rep = json.load(open(replay)); tier = rep["tier"]
        hs = [h for h in P.harnesses(tier) if h.name == rep["harness"]]
    build = tempfile.mkdtemp(prefix="mc-%s-" % prop)
    violations, results, jobtimes = [], [], {}
    procs = set(); lock = threading.Lock(); stop = threading.Event()
    env = dict(os.environ)
    env.setdefault("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=1")
    env.setdefault("UBSAN_OPTIONS", "halt_on_error=1:abort_on_error=1:print_stacktrace=0")

    def run_exe(h, exe, args):
        cmd = [exe, "--tier", tier, *args]
        for k, _ in known: cmd += ["--known", k]
        if stop.is_set(): return None
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=env, start_new_session=True)
        with lock: procs.add(p)
        try: out, err = p.communicate()
        finally:
            with lock: procs.discard(p)
        if stop.is_set() and p.returncode not in (0, 1): return None
        try: d = json.loads(out.strip().splitlines()[-1])
        except Exception: raise RuntimeError("harness %s: no result (rc %s): %s" % (h.name, p.returncode, (out + err)[-3000:]))
        d["stderr"] = err[-4000:]
        return d

    def kill_all():
        stop.set()
        with lock:
            for p in list(procs):
                try: os.killpg(p.pid, 9)
                except Exception: pass

    def record(h, d, args):
        v = d["violation"]
        v = dict(v, harness=h.name, property=prop, tier=tier, stderr=d.get("stderr", ""))
        with lock: violations.append(v)
        if not replay: kill_all()

    def do_run(h, exe, args):
        d = run_exe(h, exe, args)
        if d is None: return
        with lock: results.append((h, d))
        if "violation" in d: record(h, d, args)

    errors = []
    hard = threading.Timer(HARD_LIMIT[tier], lambda: (truncated.append(1), kill_all())); truncated = []
    hard.daemon = True; hard.start()
    try:
        with cf.ThreadPoolExecutor(CPUS) as pool:
            futs = {}
            hs.sort(key=lambda h: -h.weight)
            # run tasks take precedence over further compilations only in FIFO order; both share the same slots
            def comp(h):
                if stop.is_set(): return h, None, None
                exe, err = compile_one(h, build)
                return h, exe, err
            pending = {pool.submit(comp, h) for h in hs}
            while pending:
                done, pending = cf.wait(pending, return_when=cf.FIRST_COMPLETED)
                for f in done:
                    try: r = f.result()
                    except Exception as e:
                        if not stop.is_set(): errors.append(str(e)); kill_all()
                        continue
                    if r is None: continue
                    h, exe, err = r
                    if err is not None:
                        v = {"kind": 4, "job": -1, "index": -1, "from": -1, "step": 1, "jobname": "compile", "harness": h.name, "property": prop,
                             "tier": tier, "message": "documented use of the library no longer compiles: " + err[:6000], "stderr": ""}
                        with lock: violations.append(v)
                        if not replay: kill_all()
                        continue
                    if exe is None: continue
                    if rep:
                        spec = "%d:%d:%d:%d" % (rep["job"], rep["index"], rep["from"], rep["step"])
                        pending.add(pool.submit(do_run, h, exe, ["--replay", spec]))
                        continue
                    if list_only: print(subprocess.run([exe, "--list", "--tier", tier], capture_output=True, text=True).stdout); continue
                    for s in range(h.shards):
                        pending.add(pool.submit(do_run, h, exe, ["--shard", "%d/%d" % (s, h.shards)]))
    finally:
        hard.cancel()
        shutil.rmtree(build, ignore_errors=True)
    wall = time.time() - t0
    if errors and not violations:
        print("mc: ERROR", errors[0]); sys.exit(2)
    tot = lambda k: sum(d[k] for _, d in results)
    extra = {}
    for _, d in results:
        for k, v in d["extra"].items(): extra[k] = extra.get(k, 0) + v
    if verbose:
        jt = {}
        for h, d in results:
            for n, s, t in d["jobs"]:
                k = (h.name, n); jt.setdefault(k, [s, 0.0]); jt[k][1] += t
        for k, v in sorted(jt.items(), key=lambda x: -x[1][1])[:60]: print("%8.2fs %10d %s %s" % (v[1], v[0], *k))
        ht = {}
        for h, d in results: ht[h.name] = ht.get(h.name, 0) + d["seconds"]
        for k, v in sorted(ht.items(), key=lambda x: -x[1])[:25]: print("  %8.2fs %s" % (v, k))
    if rep:
        if violations:
            print("reproduced: " + violations[0]["message"]); print(violations[0]["stderr"][-1500:])
            print("VIOLATION property=%s replay=%s" % (prop, replay)); sys.exit(1)
        print("not reproduced"); sys.exit(0)
    if not list_only and not only or violations:
        samples = []
        for h, d in results:
            for s in d["samples"][:1]:
                if len(samples) < 12: samples.append(h.name + ": " + s)
        cov = {"harnesses": len(hs), "exhaustive": not truncated and not violations, "samples": samples}
        if P.level == "model_checking":
            cov["states"] = extra.get("states", 0) or tot("steps")
            cov["transitions"] = extra.get("transitions", 0) or tot("steps")
            cov["traces_validated_against_impl"] = extra.get("traces", 0) or tot("evals")
            cov["evaluations"] = tot("evals")
        else:
            cov["evaluations"] = tot("evals")
            cov["distinct_nontrivial"] = tot("nontrivial")
            cov["callbacks_observed"] = tot("steps")
        cov["distinct_behaviours_lower_bound"] = tot("distinct")
        cov["rule"] = P.rule
        if truncated: cov["truncated"] = "hard time limit reached; harnesses completed: %d of %d" % (len(set(h.name for h, _ in results)), len(hs))
        for k, v in extra.items():
            if k not in ("states", "transitions", "traces"): cov[k] = v
        ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": P.level,
              "coverage": cov, "assumptions": P.assumptions, "wall_s": round(wall, 2), "violations": len(violations)}
        if not os.environ.get("MC_NO_EVIDENCE"):
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print("%s %s: %d harnesses, %d executions, %d non-trivial, %d callbacks, >=%d distinct behaviours, %.1fs%s" % (
        prop, tier, len(hs), tot("evals"), tot("nontrivial"), tot("steps"), tot("distinct"), wall, " TRUNCATED" if truncated else ""))
    for k, v in sorted(extra.items()): print("   %s: %d" % (k, v))
    for k, text in known:
        if sum(d["known"].get(k, 0) for _, d in results): print("KNOWN-FINDING: property=%s %s [%s]" % (prop, text, k))
    if violations:
        v = violations[0]
        rd = os.environ.get("MC_REPLAY_DIR") or os.path.join(VERIF, "replays"); os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s-%s.json" % (prop, hashlib.sha1((v["harness"] + v["jobname"] + str(v["index"])).encode()).hexdigest()[:10]))
        v["replay_cmd"] = "python3 %s/mc.py %s --replay %s" % (HERE, prop, path)
        with open(path, "w") as f: json.dump(v, f, indent=1)
        print("harness %s job %s case %d: %s" % (v["harness"], v["jobname"], v["index"], v["message"]))
        if v["stderr"]: print(v["stderr"][-1500:])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    sys.exit(0)

main()
