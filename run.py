#!/usr/bin/env python3
"""Runs one check: builds the harness against /repo, runs its workers, merges the evidence.

usage: run.py PROPERTY [--secs S] [--workers N]      (VERIF_SEED and VERIF_TIER from the environment)
Exit 0: held. Exit 1: violation (a VIOLATION line was printed). Exit 2: the check failed to decide.
"""
import json, os, subprocess, sys, time, struct, signal, shutil, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

TARGET = os.environ.get("VH_TARGET", os.path.join(HERE, "target"))
HARNESS = os.path.join(HERE, "harness")


def sh(cmd, env=None, cwd=HARNESS, timeout=850):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, timeout=timeout)


def build():
    r = sh(["cargo", "build", "--release", "--offline", "--target-dir", TARGET])
    if r.returncode != 0:
        print(r.stdout[-6000:])
        print("ERROR: the harness does not build against /repo")
        sys.exit(2)
    return os.path.join(TARGET, "release", "vh")


def known_findings():
    p = os.path.join(HERE, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#"):
                out.append(l)
    return out


def main():
    prop = sys.argv[1]
    args = sys.argv[2:]
    opt = {args[i].lstrip("-"): args[i + 1] for i in range(0, len(args) - 1, 2)}
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    c = CHECKS[prop]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix=f"vh-{prop}-")
    try:
        code = run(prop, c, seed, tier, opt, t0, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def run(prop, c, seed, tier, opt, t0, work):
    results, extra_cov, problems = [], {}, []
    violation = None
    if c.get("workers"):
        exe = build()
        jobs = []
        n = 0
        for w in c["workers"]:
            secs = float(opt.get("secs", w["secs"][0 if tier == "quick" else 1]))
            for _ in range(int(opt.get("workers", w["n"]))):
                jobs.append((w, secs, n))
                n += 1
        # Concurrent processes, at most `par` at a time.
        par = int(opt.get("par", c.get("par", 8)))
        pending, running = list(jobs), []
        while pending or running:
            while pending and len(running) < par:
                w, secs, i = pending.pop(0)
                out = os.path.join(work, f"w{i}.json")
                scratch = os.path.join(work, f"s{i}")
                os.mkdir(scratch)
                cmd = [exe, prop, "--seed", str(seed * 1000003 + i), "--worker", str(i), "--secs", str(secs),
                       "--tier", tier, "--out", out, "--mode", w.get("mode", "")] + w.get("args", [])
                env = dict(os.environ)
                env.update(w.get("env", {}))
                env["TMPDIR"] = scratch
                log = open(os.path.join(work, f"w{i}.log"), "w")
                p = subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, cwd=scratch, env=env,
                                     start_new_session=True)
                running.append((p, cmd, out, log, time.time() + secs + w.get("grace", 160), i))
            time.sleep(0.02)
            for j in list(running):
                p, cmd, out, log, deadline, i = j
                rc = p.poll()
                if rc is None and time.time() > deadline:
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    p.wait()
                    rc = "timeout"
                if rc is None:
                    continue
                running.remove(j)
                log.close()
                text = open(os.path.join(work, f"w{i}.log"), errors="replace").read()
                res = None
                if os.path.exists(out):
                    try:
                        res = json.load(open(out))
                    except Exception as e:
                        problems.append(f"worker {i}: unreadable result: {e}")
                if res is not None:
                    results.append((res, out))
                if rc == 1 and res and res["verdict"] == "violation":
                    violation = violation or (res["message"], res["detail"], cmd, text)
                elif isinstance(rc, int) and rc < 0 and -rc in (4, 5, 6, 7, 8, 11):
                    violation = violation or (f"the process died of signal {-rc}", text[-20000:], cmd, text)
                elif rc != 0:
                    problems.append(f"worker {i}: exit {rc}: {text[:1500]}")
                if violation:
                    for q in list(running):
                        try:
                            os.killpg(q[0].pid, signal.SIGKILL)
                        except ProcessLookupError:
                            pass
                        q[0].wait()
                    pending, running = [], []
                    break
    violation_before_extra = bool(violation)
    if c.get("extra") and not violation:
        import extra
        ev, bad, prob = getattr(extra, c["extra"])(prop, seed, tier, work, TARGET, HARNESS)
        extra_counters = ev.pop("counters", {})
        extra_cov.update(ev)
        if bad:
            violation = bad
        problems += prob

    evals = sum(r["evaluations"] for r, _ in results)
    counters, maxima, samples, inconcl, distinct = {}, {}, [], [], set()
    for r, out in results:
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
        for k, v in r["maxima"].items():
            maxima[k] = max(maxima.get(k, v), v)
        samples += [s[:1500] for s in r["samples"]]
        inconcl += r["inconclusive"]
        h = out[:-5] + ".hashes"
        if os.path.exists(h):
            b = open(h, "rb").read()
            distinct.update(struct.unpack(f"<{len(b)//8}Q", b))
    if c.get("extra") and not violation_before_extra:
        counters.update(extra_counters)
    evals += extra_cov.pop("evaluations", 0)
    ndistinct = len(distinct) + extra_cov.pop("distinct_nontrivial", 0)
    samples = (samples[:: max(1, len(samples) // 5)][:5] + extra_cov.pop("samples", []))
    cov = {"evaluations": evals, "distinct_nontrivial": ndistinct, "rule": c["rule"], "samples": samples or ["none"],
           "counters": counters, "maxima": maxima, "inconclusive": inconcl[:20], "processes": len(results)}
    cov.update(extra_cov)
    evidence = {"property": prop, "tier": tier, "seed": seed, "level": c["level"], "coverage": cov,
                "assumptions": c.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
                "violations": 1 if violation else 0}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for l in known_findings():
        if l.startswith("known:") and f"property={prop} " in l:
            print("KNOWN-FINDING: " + l[len("known:"):].strip())
    if violation:
        msg, detail, cmd, text = violation
        d = os.path.join(HERE, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{prop}-{tier}-{seed}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "message": msg, "detail": detail, "command": cmd, "seed": seed,
                       "tier": tier, "log_tail": text[-20000:]}, f, indent=1)
        print(msg)
        print(detail[:2500])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if problems:
        for p in problems[:3]:
            print("PROBLEM:", p)
        print(f"ERROR: {prop} could not be decided")
        return 2
    if evals == 0:
        print(f"ERROR: {prop}: nothing was observed")
        return 2
    print(f"{prop}: held on {evals} cases ({ndistinct} distinct and non-trivial), {len(inconcl)} inconclusive, "
          f"{time.time()-t0:.1f} s")
    return 0


main()
