"""Sanitizer and Miri runs (C14)."""
import json, os, re, shutil, signal, subprocess, time

HERE = os.path.dirname(os.path.abspath(__file__))
TRIPLE = "x86_64-unknown-linux-gnu"
SAN_OPTS = {
    "thread": {"TSAN_OPTIONS": "halt_on_error=1 exitcode=66 history_size=4"},
    "address": {"ASAN_OPTIONS": "detect_leaks=0 exitcode=66 detect_stack_use_after_return=1 strict_string_checks=1"},
}


def cargo(args, env, cwd, log, timeout):
    e = dict(os.environ)
    e.update(env)
    with open(log, "w") as f:
        p = subprocess.Popen(["cargo", "+nightly"] + args, cwd=cwd, env=e, stdout=f, stderr=subprocess.STDOUT,
                             start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = "timeout"
    return rc, open(log, errors="replace").read()


def sanitizer(kind, props, secs, seed, tier, work, target, harness, ev):
    tdir = target + "-" + kind
    rc, text = cargo(["build", "--release", "--offline", "-Zbuild-std", "--target", TRIPLE, "--target-dir", tdir],
                     {"RUSTFLAGS": f"-Zsanitizer={kind} --cfg vh_san -Cforce-frame-pointers=yes"}, harness,
                     os.path.join(work, f"{kind}-build.log"), 400)
    if rc != 0:
        return None, [f"{kind} sanitizer build failed: {text[-3000:]}"]
    exe = os.path.join(tdir, TRIPLE, "release", "vh")
    jobs = [(p, i) for i, p in enumerate(props)]
    running, problems, bad = [], [], None
    total = 0
    while jobs or running:
        while jobs and len(running) < 8:
            p, i = jobs.pop(0)
            out = os.path.join(work, f"{kind}-{i}.json")
            scratch = os.path.join(work, f"{kind}-s{i}")
            os.mkdir(scratch)
            cmd = [exe, p[0], "--seed", str(seed * 7919 + i), "--worker", str(i), "--secs", str(secs), "--tier", tier,
                   "--out", out, "--mode", p[1]]
            env = dict(os.environ)
            env.update(SAN_OPTS[kind])
            env["TMPDIR"] = scratch
            log = os.path.join(work, f"{kind}-{i}.log")
            f = open(log, "w")
            q = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, cwd=scratch, env=env, start_new_session=True)
            running.append((q, cmd, out, log, time.time() + secs + 200, p))
        time.sleep(0.05)
        for j in list(running):
            q, cmd, out, log, deadline, p = j
            rc = q.poll()
            if rc is None and time.time() > deadline:
                os.killpg(q.pid, signal.SIGKILL)
                q.wait()
                rc = "timeout"
            if rc is None:
                continue
            running.remove(j)
            text = open(log, errors="replace").read()
            res = None
            if os.path.exists(out):
                try:
                    res = json.load(open(out))
                except ValueError:
                    pass
            if res:
                total += res["evaluations"]
                ev["counters"][f"{kind}_{p[0]}_episodes"] = ev["counters"].get(f"{kind}_{p[0]}_episodes", 0) + res["evaluations"]
            report = re.search(r"(WARNING: ThreadSanitizer|ERROR: AddressSanitizer|ThreadSanitizer:DEADLYSIGNAL|AddressSanitizer:DEADLYSIGNAL)", text)
            if report:
                s = text[report.start():]
                bad = bad or (f"{kind} sanitizer report during workload {p[0]}: " + " ".join(s.split())[:160], s[:6000], cmd, text[:30000])
            elif isinstance(rc, int) and rc < 0 and -rc in (4, 5, 6, 7, 8, 11):
                bad = bad or (f"the process died of signal {-rc} during workload {p[0]}", text[-6000:], cmd, text)
            elif rc == 1 and res and res["verdict"] == "violation" and (
                    res["message"].startswith("stalled") or "deadlock" in res["message"] or "no progress" in res["message"]):
                bad = bad or (f"workload {p[0]}: " + res["message"], res["detail"], cmd, text)
            elif rc == 1 and res and res["verdict"] == "violation":
                # Another property's business.
                ev["counters"]["functional_violations_left_to_other_checks"] = ev["counters"].get("functional_violations_left_to_other_checks", 0) + 1
            elif rc != 0:
                problems.append(f"{kind} {p}: exit {rc}: {text[:1500]}")
            if bad:
                for x in running:
                    try:
                        os.killpg(x[0].pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    x[0].wait()
                jobs, running = [], []
    ev["evaluations"] += total
    ev["distinct_nontrivial"] += total
    return bad, problems


def miri(runs, seed, work, target, ev):
    """runs: list of (number of seeds, extra flags, time limit)."""
    tdir = target + "-miri"
    cwd = os.path.join(HERE, "harness-miri")
    ids = set()
    for n, (count, flags, limit) in enumerate(runs):
        base = (seed * 100003 + n * 20011) % 2_000_000_000
        env = {"MIRIFLAGS": f"-Zmiri-ignore-leaks -Zmiri-many-seeds={base}..{base + count} {flags}", "RUSTFLAGS": ""}
        rc, text = cargo(["miri", "run", "--offline", "--target-dir", tdir], env, cwd, os.path.join(work, f"miri{n}.log"), limit)
        oks = re.findall(r"^VM-OK (\w+) threads=(\d+) focus=(\d+) ops=(\d+) fired=(\d+)", text, re.M)
        for o in oks:
            ids.add(o[0])
            c = ev["counters"]
            c["miri_operations"] = c.get("miri_operations", 0) + int(o[3])
            c["miri_events_fired"] = c.get("miri_events_fired", 0) + int(o[4])
            c[f"miri_programs_focus{o[2]}"] = c.get(f"miri_programs_focus{o[2]}", 0) + 1
        ev["evaluations"] += len(oks)
        ev["distinct_nontrivial"] += len(oks)
        if oks and len(ev["samples"]) < 6:
            ev["samples"].append(f"miri program {oks[-1]} with {flags}")
        if rc == 0 or (rc == "timeout" and oks):
            continue
        m = re.search(r"(VM-VIOLATION.*|VM-PANIC.*|error: Undefined Behavior.*|error: .*deadlock.*|error: .*data race.*|error: abnormal termination.*)", text)
        fs = re.search(r"FAILING SEED: (\d+)", text)
        if m:
            s = "\n".join(l for l in text[m.start():].splitlines() if not l.startswith("Trying seed") and not l.startswith("VM-OK"))
            e2 = f"cd {cwd} && MIRIFLAGS='-Zmiri-ignore-leaks -Zmiri-seed={fs.group(1) if fs else base} {flags}' cargo +nightly miri run --offline --target-dir {tdir}"
            return ("Miri: " + m.group(1)[:300], s[:6000], [e2], text[-30000:]), []
        return None, [f"miri run failed (exit {rc}): {text[-3000:]}"]
    return None, []


def c14(prop, seed, tier, work, target, harness):
    ev = {"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "counters": {}}
    quick = tier == "quick"
    problems = []
    if quick:
        runs = [(160, "-Zmiri-preemption-rate=0.05", 200), (60, "-Zmiri-preemption-rate=0.2 -Zmiri-tree-borrows", 120)]
        tprops = [("C01", ""), ("C02", ""), ("C04", ""), ("C05", ""), ("C06", ""), ("C07", ""), ("C11", ""), ("C12", ""),
                  ("C13", ""), ("C16", ""), ("C17", ""), ("C08", ""), ("C03", ""), ("C10", ""), ("C15", ""), ("C09", "")]
        aprops = [("C05", ""), ("C11", ""), ("C12", ""), ("C13", ""), ("C02", ""), ("C09", ""), ("C10", ""), ("C08", "")]
        tsecs, asecs = 15, 15
    else:
        runs = [(1200, "-Zmiri-preemption-rate=0.05", 900), (800, "-Zmiri-preemption-rate=0.01", 700),
                (800, "-Zmiri-preemption-rate=0.2", 700), (500, "-Zmiri-preemption-rate=0.05 -Zmiri-tree-borrows", 500)]
        tprops = [(f"C{i:02}", "") for i in (1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 3)]
        aprops = [(f"C{i:02}", "") for i in (5, 11, 12, 13, 2, 9, 10, 8)]
        tsecs, asecs = 240, 200
    steps = [lambda: miri(runs, seed, work, target, ev),
             lambda: sanitizer("thread", tprops, tsecs, seed, tier, work, target, harness, ev),
             lambda: sanitizer("address", aprops, asecs, seed, tier, work, target, harness, ev)]
    for s in steps:
        bad, prob = s()
        problems += prob
        if bad:
            return ev, bad, problems
    return ev, None, problems
