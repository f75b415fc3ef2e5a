#!/usr/bin/env python3
"""Driver of the solver-based checks.

  check.py ID [--tier quick|thorough]   decide one property on /repo's working tree
  check.py --build                      build everything
  check.py --replay FILE                run a recorded counterexample against the real code

Exit 0: the property holds within the stated bounds. Exit 1 (and a VIOLATION line): a counterexample was
found by the solver and reproduces when run natively. Exit 2: no answer (limits, build failure, ..)."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(HERE, "build")
SYMX = os.path.join(BUILD, "engine/release/symx")
LL = os.path.join(BUILD, "harness/release/deps/harness.ll")
REPLAY = os.path.join(BUILD, "replay/release/replay")
NPROC = max(1, min(8, os.cpu_count() or 1))


def env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    e["CARGO_INCREMENTAL"] = "0"
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_TARGET_DIR"):
        e.pop(k, None)
    return e


def tree_hash():
    """Content of everything in /repo the build can depend on."""
    h = hashlib.sha256()
    for base, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git"))
        for f in sorted(files):
            p = os.path.join(base, f)
            if f.endswith((".rs", ".toml", ".lock", ".md")) and os.path.isfile(p):
                h.update(p.encode() + b"\0")
                h.update(open(p, "rb").read())
    return h.hexdigest()


def cargo(name, cmd, log):
    d = os.path.join(HERE, name)
    e = env()
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, name)
    with open(os.path.join(BUILD, log), "w") as f:
        r = subprocess.run(cmd, cwd=d, env=e, stdout=f, stderr=subprocess.STDOUT)
    return r.returncode == 0


def build():
    t = time.time()
    os.makedirs(BUILD, exist_ok=True)
    stamp = os.path.join(BUILD, "tree.sha256")
    th = tree_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old and old != th:
        # never trust file times when the code under test has changed
        for n in ("harness", "replay"):
            e = env()
            e["CARGO_TARGET_DIR"] = os.path.join(BUILD, n)
            subprocess.run(
                ["cargo", "clean", "--release", "--offline", "-p", "commit_verify", "-p", "commit_encoding_derive",
                 "-p", "single_use_seals", "-p", "client_side_validation", "-p", "harness"],
                cwd=os.path.join(HERE, n), env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    if os.path.exists(stamp):
        os.remove(stamp)
    steps = [
        ("engine", ["cargo", "build", "--release", "--offline", "-q"], "engine.log"),
        ("harness", ["cargo", "rustc", "--release", "--offline", "--lib", "--crate-type", "cdylib", "--",
                     "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"], "harness.log"),
        ("replay", ["cargo", "build", "--release", "--offline"], "replay.log"),
    ]
    with cf.ThreadPoolExecutor(3) as ex:
        ok = list(ex.map(lambda s: cargo(*s), steps))
    for s, o in zip(steps, ok):
        if not o:
            print(open(os.path.join(BUILD, s[2])).read()[-4000:], file=sys.stderr)
            print(f"build of {s[0]} failed", file=sys.stderr)
            return None
    for f in (SYMX, LL, REPLAY):
        if not os.path.exists(f):
            print(f"{f} was not produced", file=sys.stderr)
            return None
    with open(stamp, "w") as f:
        f.write(th)
    return time.time() - t


def native(harness, args, inputs, timeout=120):
    """Runs the harness natively, against the real dependencies."""
    try:
        r = subprocess.run([REPLAY, harness, ",".join(map(str, args))], input="\n".join(inputs) + ("\n" if inputs else ""),
                           capture_output=True, text=True, timeout=timeout, cwd=BUILD)
    except subprocess.TimeoutExpired:
        return {"result": "timeout", "id": "", "loc": "", "covers": [], "observes": []}
    try:
        return json.loads(r.stdout.strip().splitlines()[-1])
    except (IndexError, ValueError):
        kind = "abort" if r.returncode < 0 else "error"
        return {"result": kind, "id": f"exit {r.returncode} {r.stderr[-300:]}", "loc": "", "covers": [], "observes": []}


RUNNING = set()


def symx(job, tier, seed, budget):
    t = time.time()
    opts = dict(job.get("opts", {}))
    limit = min(job.get("time", 300 if tier == "quick" else 3000), budget)
    cmd = [SYMX, "--ll", LL, "--harness", job["h"], "--args", ",".join(map(str, job["a"])),
           "--timeout-ms", str(opts.get("timeout_ms", 60000)), "--traces", str(opts.get("traces", 3)),
           "--seed", str(seed), "--max-time", str(limit), "--prefix", REPO]
    if "max_paths" in opts:
        cmd += ["--max-paths", str(opts["max_paths"])]
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=BUILD)
    RUNNING.add(p)
    try:
        out, err = p.communicate(timeout=limit + 60)
        d = json.loads(out.strip().splitlines()[-1])
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        d = {"status": "error", "error": "time limit"}
    except (IndexError, ValueError):
        d = {"status": "error", "error": f"engine ended with {p.returncode}: {err[-500:]}"}
    finally:
        RUNNING.discard(p)
    d["job"] = job
    d["job_s"] = time.time() - t
    return d


def confirm(d):
    """Replays the counterexamples of a job; yields the first which reproduces per violated assertion."""
    job = d["job"]
    groups = {}
    for v in d.get("violations", []):
        groups.setdefault((v["kind"], v["id"], v["loc"]), []).append(v)
    out = []
    for key, vs in groups.items():
        vs.sort(key=lambda v: not v["validated"])
        res = None
        for v in vs:
            n = native(job["h"], job["a"], v["inputs"])
            if n["result"] in ("check", "panic", "abort"):
                res = (v, n)
                break
            last = (v, n)
        out.append((key, res, None if res else last))
    return out


def findings():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p)).get("findings", []) if os.path.exists(p) else []


def known(pid, job, v, n):
    for f in findings():
        if f["property"] != pid:
            continue
        m = f["match"]
        if "harness" in m and not re.search(m["harness"], job["h"]):
            continue
        if "id" in m and not re.search(m["id"], n["id"]):
            continue
        if "result" in m and m["result"] != n["result"]:
            continue
        if "cover" in m and m["cover"] not in n["covers"]:
            continue
        if "function" in m and not any(re.search(m["function"], s) for s in v["stack"]):
            continue
        return f
    return None


def run(pid, tier, seed):
    sys.path.insert(0, HERE)
    import jobs
    t0 = time.time()
    prop = jobs.PROPS[pid]
    bt = build()
    if bt is None:
        return 2
    work = list(prop["quick"] if tier == "quick" else prop.get("thorough") or prop["quick"])
    # long jobs first
    work.sort(key=lambda j: -j.get("cost", 1))
    total = 780 if tier == "quick" else 14000
    results = []
    confirmed = []
    knowns = {}
    errors = []
    traces = 0
    deadline = t0 + total
    stop = False
    with cf.ThreadPoolExecutor(NPROC) as ex:
        futs = [ex.submit(lambda j=j: None if stop else symx(j, tier, seed, max(5, deadline - time.time()))) for j in work]
        for f in cf.as_completed(futs):
            d = f.result()
            if d is None or (stop and d["status"] == "error"):
                continue
            results.append(d)
            job = d["job"]
            for key, res, last in confirm(d):
                if res is None:
                    errors.append(f"{job['h']}({job['a']}): counterexample to '{key[1]}' at {key[2]} does not reproduce natively: "
                                  f"{last[1]['result']} {last[1]['id']}")
                    continue
                v, n = res
                k = known(pid, job, v, n)
                if k:
                    knowns[k["what"]] = knowns.get(k["what"], 0) + 1
                    continue
                confirmed.append((job, v, n))
                if not stop:
                    # a counterexample settles it: the rest isn't needed
                    stop = True
                    for p in list(RUNNING):
                        p.kill()
            if d["status"] == "error":
                errors.append(f"{job['h']}({job['a']}): {d['error']}")
                continue
            missing = [c for c in job.get("covers", ["end"]) if not d["covers"].get(c)]
            if missing and d["status"] == "ok":
                errors.append(f"{job['h']}({job['a']}): vacuous, never reached: {missing}")
            for t in d.get("traces", []):
                n = native(job["h"], job["a"], t["inputs"])
                if n["result"] != "ok" or n["covers"] != t["covers"] or n["observes"] != t["observes"]:
                    errors.append(f"{job['h']}({job['a']}): native run of an explored path differs: {n['result']} {n['id']}")
                    save(pid, job, {"inputs": t["inputs"], "id": "trace", "kind": "trace", "loc": ""}, n, len(errors) + 1000)
                else:
                    traces += 1
    code = 0
    for what, c in sorted(knowns.items()):
        print(f"KNOWN-FINDING: property={pid} {what}")
    for i, (job, v, n) in enumerate(confirmed):
        p = save(pid, job, v, n, i)
        print(f"VIOLATION property={pid} replay={p}")
        print(f"  {job['h']}({','.join(map(str, job['a']))}): {n['result']}: {n['id']} {n['loc']}")
        code = 1
    if code == 0 and errors:
        for e in errors[:20]:
            print("no answer: " + e, file=sys.stderr)
        code = 2
    evidence(pid, prop, tier, seed, results, traces, len(confirmed), knowns, errors, bt, time.time() - t0)
    n = sum(r.get("paths_ok", 0) for r in results)
    print(f"{pid}: {len(results)} jobs, {n} paths, {sum(r.get('checks', 0) for r in results)} assertions, "
          f"{sum(r.get('queries', 0) for r in results)} queries, {traces} traces replayed, build {bt:.0f} s, total {time.time() - t0:.0f} s, exit {code}")
    return code


def save(pid, job, v, n, i):
    d = os.path.join(BUILD, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{pid}-{i}.json")
    with open(p, "w") as f:
        json.dump({"property": pid, "harness": job["h"], "args": job["a"], "inputs": v["inputs"], "engine": {
            k: v.get(k) for k in ("kind", "id", "loc", "stack")}, "native": n}, f, indent=1)
    return p


def evidence(pid, prop, tier, seed, results, traces, nviol, knowns, errors, bt, wall):
    fns = {}
    for r in results:
        for k, v in r.get("functions", {}).items():
            fns[k] = max(fns.get(k, 0), v)
    s = lambda k: sum(r.get(k, 0) for r in results)
    samples = []
    for r in results:
        for t in r.get("traces", [])[:1]:
            ins = t["inputs"]
            samples.append({"harness": r["job"]["h"], "args": r["job"]["a"], "inputs": [x if len(x) < 200 else x[:200] + ".." for x in ins][:40],
                            "reached": t["covers"][:12]})
    cov = {
        "states": s("paths_ok") + s("paths_assume") + s("paths_panic"),
        "transitions": s("forks"),
        "traces_validated_against_impl": traces,
        "samples": samples[:6],
        "instructions_executed_symbolically": s("steps"),
        "assertions_decided": s("checks"),
        "assertions_decided_by_term_simplification": s("checks_trivial"),
        "assertions_sent_to_solver": s("checks_solver"),
        "solver_queries_discharged": s("queries"),
        "solver_query_cache_hits": s("query_cache_hits"),
        "solver_time_s": round(s("solver_s"), 3),
        "terms": s("terms"),
        "functions_encoded": fns,
        "bounds": prop["bounds"] if tier == "quick" or not prop.get("bounds_thorough") else prop["bounds_thorough"],
        "outside_bounds": prop.get("outside", "anything larger than the bounds"),
        "jobs": [{"harness": r["job"]["h"], "args": r["job"]["a"], "status": r["status"], "paths": r.get("paths_ok", 0),
                  "assertions": r.get("checks", 0), "queries": r.get("queries", 0), "solver_s": r.get("solver_s", 0),
                  "wall_s": round(r["job_s"], 2), "reached": r.get("covers", {})} for r in results],
        "known_findings": sorted(knowns),
        "errors": errors[:20],
        "build_s": round(bt, 1),
    }
    import jobs
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": jobs.ASSUMPTIONS + prop.get("assumptions", []), "wall_s": round(wall, 2), "violations": nviol}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def main():
    a = sys.argv[1:]
    if a[:1] == ["--build"]:
        return 0 if build() is not None else 2
    if a[:1] == ["--replay"]:
        d = json.load(open(a[1]))
        if build() is None:
            return 2
        n = native(d["harness"], d["args"], d["inputs"])
        print(json.dumps(n))
        return 1 if n["result"] in ("check", "panic", "abort") else 0
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i + 1]
        del a[i:i + 2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    return run(a[0], tier, seed)


if __name__ == "__main__":
    sys.exit(main())
