#!/usr/bin/env python3
"""Driver: python3 check.py <PROPERTY> [quick|thorough] [--case group:idx] [--seed N]

Rebuilds what the property needs from /repo's working tree with sanitizers on, runs the monitored workload in a
scratch directory (sharded over the cores), merges what the monitors observed, writes evidence/<id>.json.
exit 0: property held on everything explored; exit 1 + VIOLATION line: broken; exit 2: no verdict (cannot build)."""
import fcntl, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS, CONFIGS
REPO = os.environ.get("SLIDE_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
NPROC = max(1, min(8, os.cpu_count() or 1))

def log(*a): print(*a, flush=True)

def build(cfg, exes):
    c = CONFIGS[cfg]
    bdir = os.path.join(BUILD, cfg)
    os.makedirs(bdir, exist_ok=True)
    lock = open(os.path.join(BUILD, cfg + ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    t0 = time.time()
    env = dict(os.environ, CCACHE_DISABLE="1", LC_ALL="C")
    stamp = os.path.join(bdir, "flags")
    same = os.path.exists(stamp) and open(stamp).read() == repr(c)
    if not same or not os.path.exists(os.path.join(bdir, "build.ninja")):
        with open(stamp, "w") as f: f.write(repr(c))
        r = subprocess.run(["cmake", "-S", os.path.join(HERE, "harness"), "-B", bdir, "-G", "Ninja",
             "-DSLIDE_REPO=" + REPO, "-DCMAKE_BUILD_TYPE=None", "-DCMAKE_CXX_COMPILER=" + c.get("cxx", "g++"),
             "-DCMAKE_CXX_FLAGS=" + c["flags"], "-DCMAKE_EXE_LINKER_FLAGS=" + c.get("ld", "")],
             stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
        if r.returncode:
            log(r.stdout[-6000:]); return False, 0
    r = subprocess.run(["ninja", "-C", bdir] + exes, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    if r.returncode:
        log(r.stdout[-8000:]); return False, 0
    return True, time.time() - t0

SAN_ENV = {
 "ASAN_OPTIONS": "abort_on_error=0:exitcode=77:detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1:handle_abort=1",
 "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77",
 "TSAN_OPTIONS": "halt_on_error=1:exitcode=77:second_deadlock_stack=1",
 "LC_ALL": "C"}

def run_shard(exe, prop, tier, seed, shard, nshard, scratch, case, tmo, extra_env, mode):
    sd = os.path.join(scratch, f"{mode}_s{shard}")
    rd = os.path.join(sd, "a", "b")      # the library looks for ../../data and writes ../../results
    os.makedirs(rd); os.makedirs(os.path.join(sd, "results"))
    os.symlink(os.path.join(scratch, "data"), os.path.join(sd, "data"))
    out = os.path.join(sd, "out.json"); prog = os.path.join(sd, "progress")
    cmd = [exe, "--prop", prop, "--seed", str(seed), "--shard", f"{shard}/{nshard}", "--out", out, "--progress", prog]
    if tier == "thorough": cmd.append("--thorough")
    if case: cmd += ["--case", case]
    env = {**os.environ, **SAN_ENV, **extra_env}
    t0 = time.time()
    res = {"shard": shard, "mode": mode, "rc": None, "timeout": False}
    with open(os.path.join(sd, "stdout"), "wb") as so, open(os.path.join(sd, "stderr"), "wb") as se:
        p = subprocess.Popen(cmd, cwd=rd, stdout=so, stderr=se, env=env, start_new_session=True)
        try: res["rc"] = p.wait(timeout=tmo)
        except subprocess.TimeoutExpired:
            res["timeout"] = True
            os.killpg(p.pid, signal.SIGKILL); p.wait(); res["rc"] = -9
    res["wall"] = time.time() - t0
    try: res["data"] = json.load(open(out))
    except Exception: res["data"] = None
    try: res["progress"] = open(prog).read().strip()
    except Exception: res["progress"] = ""
    def tail(n, k=200000):
        with open(os.path.join(sd, n), "rb") as f:
            f.seek(0, 2); sz = f.tell(); f.seek(max(0, sz - k)); return f.read().decode("utf8", "replace")
    res["stderr"] = tail("stderr"); res["stdout"] = tail("stdout", 4000)
    return res

def crash_summary(err):
    m = re.search(r"(runtime error: .*|ERROR: AddressSanitizer: .*|WARNING: ThreadSanitizer: .*|ERROR: LeakSanitizer: .*|.*Assertion .*failed.*|terminate called.*)", err)
    head = m.group(1) if m else "abnormal termination"
    fr = re.findall(r"#\d+ (?:0x[0-9a-f]+ in )?([^\n]*?/src/[^\n]*)", err)
    fr = [re.sub(r"0x[0-9a-f]+", "", f).strip() for f in fr][:3]
    return (head + " @ " + " <- ".join(fr))[:700]

def main():
    args = sys.argv[1:]
    if args[0] == "--setup":
        for t in ("cmake", "ninja", "g++"):
            if not shutil.which(t): log("missing tool " + t); return 1
        log("setup ok: each check builds what it needs from " + REPO); return 0
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1")); case = None
    i = 1
    while i < len(args):
        if args[i] in ("quick", "thorough"): tier = args[i]
        elif args[i] == "--case": case = args[i+1]; i += 1
        elif args[i] == "--seed": seed = int(args[i+1]); i += 1
        i += 1
    P = PROPS[prop]
    t0 = time.time()
    evp = os.path.join(HERE, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(evp), exist_ok=True)
    if os.path.exists(evp): os.unlink(evp)
    runs = [r for r in P["runs"] if tier == "thorough" or not r.get("thorough_only")]
    cfgs = {}
    for r in runs: cfgs.setdefault(r.get("cfg", "asan"), set()).add(r["exe"])
    bt = 0
    for cfg, exes in cfgs.items():
        ok, w = build(cfg, sorted(exes)); bt += w
        if not ok:
            log(f"NO-VERDICT property={prop}: the code under test does not build with the {cfg} instrumentation"); return 2
    scratch = tempfile.mkdtemp(prefix=f"slide_verif_{prop}_")
    try:
        shutil.copytree(os.path.join(REPO, "data"), os.path.join(scratch, "data"))
        results = []
        for r in runs:
            mult = P.get("mult", 1) * (1 if tier == "quick" else 4 if P.get("mult", 1) > 1 else 1)
            cfg = r.get("cfg", "asan"); exe = os.path.join(BUILD, cfg, r["exe"])
            n = 1 if case else r.get("shards", NPROC)
            tmo = r.get("timeout", 150 if tier == "quick" else 3000)
            with ThreadPoolExecutor(n) as ex:
                fs = [ex.submit(run_shard, exe, r.get("prop", prop), tier, seed, s, n, scratch, case, tmo, {"VH_MULT": str(mult), **r.get("env", {})}, r.get("name", r.get("prop", prop) + "-" + cfg)) for s in range(n)]
                results += [f.result() for f in fs]
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    # merge
    counters, distinct, samples, viols = {}, {}, [], []
    cases = checks = inconcl = 0
    if os.environ.get("VH_SLOW"):
        for r in results:
            if r["data"]: log(f"  shard {r['mode']} {r['shard']}: {r['wall']:.1f}s slowest {r['data'].get('slowest')} s {r['data'].get('slowest_case')}")
    for r in results:
        d = r["data"]
        if d and d.get("complete") and r["rc"] == 0:
            cases += d["cases"]; checks += d["checks"]; inconcl += d["inconclusive"]
            for k, v in d["counters"].items(): counters[k] = counters.get(k, 0) + v
            for k, v in d["distinct"].items(): distinct.setdefault(k, set()).update(v)
            samples += d["samples"]
            for v in d["violations"]: viols.append(dict(v, mode=r["mode"]))
        else:
            key = "hang" if r["timeout"] else "crash"
            det = f"case {r['progress']} exceeded {r['wall']:.0f}s" if r["timeout"] else crash_summary(r["stderr"])
            g, _, ix = r["progress"].rpartition(":")
            viols.append({"key": key, "group": g, "idx": int(ix or -1) if ix.strip().lstrip('-').isdigit() else -1, "count": 1, "detail": f"{det} [rc={r['rc']}]", "mode": r["mode"], "stderr": r["stderr"][-6000:]})
    if not case and not any(v["key"] in ("crash", "hang") for v in viols):
        for need in P.get("need", []):
            tot = counters.get(need, len(distinct.get(need, ())))
            if tot == 0: viols.append({"key": "nothing-observed", "group": need, "idx": -1, "count": 1, "detail": f"the workload never produced a '{need}' event", "mode": ""})
    known = [k for k in json.load(open(os.path.join(HERE, "known_findings.json")))["findings"] if k.get("status") == "known" and k["property"] == prop]
    hit, new = {}, []
    for v in viols:
        for k in known:
            if re.fullmatch(k["key"], v["key"]) and re.fullmatch(k.get("group", ".*"), v["group"]) and re.search(k.get("detail", ""), v["detail"]):
                hit[k["id"]] = k; break
        else: new.append(v)
    for k in known: log(f"KNOWN-FINDING: property={prop} {k['what']}" + ("" if k["id"] in hit else " (not exercised this run)"))
    nd = len(distinct.get("nontrivial-case", ()))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": cases, "distinct_nontrivial": min(nd, cases), "rule": P["rule"] + " A case is non-trivial when at least one monitor compared something in it; distinct means the sequence of observed values differs.",
             "monitor_comparisons": checks, "inconclusive_cases": inconcl, "events": dict(sorted(counters.items())),
             "distinct_observed": {k: len(v) for k, v in sorted(distinct.items())},
             "samples": samples[:12], "instrumentation": sorted(cfgs), "shards": len(results), "build_s": round(bt, 1)},
          "assumptions": P.get("assumptions", []) + ["inputs are generated pseudo-randomly from the seed; absence of a violation covers only the executions listed"],
          "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    if not case: json.dump(ev, open(evp, "w"), indent=1)
    if new:
        rp = os.path.join(HERE, "replays"); os.makedirs(rp, exist_ok=True)
        path = os.path.join(rp, f"{prop}.json")
        json.dump([{**v, "replay": f"python3 {HERE}/check.py {prop} {tier} --seed {seed} --case {v['group']}:{v['idx']}"} for v in new], open(path, "w"), indent=1)
        for v in new[:12]: log(f"  [{v['mode']}] {v['key']} at {v['group']}:{v['idx']} x{v['count']}: {v['detail'][:400]}")
        log(f"VIOLATION property={prop} replay={path}")
        return 1
    log(f"OK property={prop} tier={tier} cases={cases} distinct={nd} comparisons={checks} build={bt:.1f}s total={time.time()-t0:.1f}s")
    return 0

if __name__ == "__main__":
    sys.exit(main())
