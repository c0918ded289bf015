#!/usr/bin/env python3
"""check.py ID: decide one property on the current tree of /repo.

Environment: VERIF_SEED (default 1), VERIF_TIER (quick|thorough).
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: no answer.
  check.py --setup            build once (warms the build cache)
  check.py --replay FILE      run one saved case again
"""
import json, os, re, resource, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(VERIF, "harness")
REPO = os.environ.get("VERIF_REPO", "/repo")   # only ever overridden by hand
CONF = json.load(open(os.path.join(VERIF, "bin", "checks.json")))


def goenv():
    e = dict(os.environ)
    e.update({
        "PATH": "/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        "HOME": os.environ.get("HOME", "/root"),
        "GOPATH": "/root/go", "GOMODCACHE": "/root/go/pkg/mod",
        "GOTOOLCHAIN": "local", "GOFLAGS": "-mod=mod", "GOPROXY": "off",
        "GO111MODULE": "on", "GOSUMDB": "off", "GONOSUMDB": "*", "GOWORK": "off",
    })
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    for k in list(e):
        if k.startswith("RAPID_") or k.startswith("VERIF_"):
            del e[k]
    return e


def build(scratch, race=False, fuzz=False):
    """Build the harness against REPO; returns the test binary or exits 2
    (with the race detector or for the fuzzer: None if it is not to be had)."""
    out = os.path.join(scratch, "race.test" if race else "fuzz.test" if fuzz else "checks.test")
    # A private copy of go.mod keeps the committed one as it is.
    mod = os.path.join(scratch, "go.mod")
    text = open(os.path.join(HARNESS, "go.mod")).read()
    text = text.replace("=> /repo", "=> " + REPO)
    open(mod, "w").write(text)
    shutil.copy(os.path.join(HARNESS, "go.sum"), os.path.join(scratch, "go.sum"))
    p = subprocess.run(["go", "test", "-c", "-vet=off"] + (["-race"] if race else []) + (["-fuzz=FuzzCase"] if fuzz else []) +
                       ["-modfile", mod, "-o", out, "./checks"],
                       cwd=HARNESS, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 and (race or fuzz):
        return None
    if p.returncode != 0:
        print(p.stdout)
        print("ERROR: the harness does not build against %s" % REPO)
        sys.exit(2)
    return out


def known_for(pid):
    ids, texts = [], {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                ids.append(m.group(2))
                texts[m.group(2)] = m.group(3)
    return ids, texts


def limits():
    # An allocation gone wild ends this process, not the sandbox.
    gb = 1 << 30
    resource.setrlimit(resource.RLIMIT_AS, (10 * gb, 10 * gb))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def race_limits():
    # The race detector reserves address space without end.
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_shard(binary, pid, seed, checks, outdir, known, isolate=False, tier="quick", race=False):
    os.makedirs(outdir, exist_ok=True)
    env = goenv()
    env.update({"VERIF_OUT": outdir, "VERIF_KNOWN": ",".join(known), "VERIF_TIER": tier,
                "GOMAXPROCS": "2", "GOTRACEBACK": "all", "GOMEMLIMIT": "3GiB", "TMPDIR": outdir})
    if isolate:
        env["VERIF_ISOLATE"] = "1"
    if race:
        # The case at work is written down first; the first race ends the run.
        env.update({"VERIF_RACE": "1", "GORACE": "halt_on_error=1 exitcode=66", "GOMAXPROCS": "4"})
    log = open(os.path.join(outdir, "log"), "w")
    return subprocess.Popen(
        [binary, "-test.run", "^Test%s$" % pid, "-test.timeout", "3h", "-test.v",
         "-rapid.seed=%d" % seed, "-rapid.checks=%d" % checks, "-rapid.nofailfile", "-rapid.shrinktime=15s"],
        cwd=outdir, env=env, stdout=log, stderr=subprocess.STDOUT, preexec_fn=race_limits if race else limits)


def replay(binary, pid, case, outdir, known=(), race=False):
    os.makedirs(outdir, exist_ok=True)
    env = goenv()
    env.update({"VERIF_REPLAY": os.path.abspath(case), "VERIF_OUT": outdir, "GOTRACEBACK": "all",
                "VERIF_KNOWN": ",".join(known), "TMPDIR": outdir})
    p = subprocess.run([binary, "-test.run", "^Test%s$" % pid, "-test.timeout", "3h", "-test.v"],
                       cwd=outdir, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       errors="replace", preexec_fn=race_limits if race else limits)
    return p.returncode, p.stdout


def read(path, n=None):
    try:
        with open(path, errors="replace") as f:
            s = f.read()
        return s if n is None else s[-n:]
    except OSError:
        return ""


def violation(pid, src, seed, tag):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    dst = os.path.join(d, "%s-seed%d-%s.json" % (pid, seed, tag))
    shutil.copy(src, dst)
    try:
        print(json.load(open(dst)).get("error", "")[:3000])
    except ValueError:
        pass
    return dst


def fuzz(pid, seconds, scratch, binary, known):
    """Coverage-guided fuzzing of one property. Returns (evidence, the failing
    case or None); a failure counts if the case fails again by itself."""
    fb = build(scratch, fuzz=True)
    if fb is None:
        return {"seconds": 0}, None
    out = os.path.join(scratch, "fuzz")
    os.makedirs(out)
    env = goenv()
    env.update({"VERIF_FUZZ": pid, "VERIF_OUT": out, "VERIF_KNOWN": ",".join(known), "VERIF_TIER": "thorough",
                "TMPDIR": out, "GOMEMLIMIT": "2GiB"})
    done = {"seconds": seconds, "executions": 0, "inputs_with_new_coverage": 0, "failures_not_confirmed": 0}
    end = time.time() + seconds
    for attempt in range(5):
        left = int(end - time.time())
        if left < 5:
            break
        for f in (os.path.join(out, "failure.json"), os.path.join(out, "testdata")):
            shutil.rmtree(f, ignore_errors=True) if os.path.isdir(f) else os.path.exists(f) and os.remove(f)
        p = subprocess.Popen([fb, "-test.run", "^$", "-test.fuzz", "^FuzzCase$", "-test.fuzztime", "%ds" % left,
                              "-test.fuzzminimizetime", "10x", "-test.fuzzcachedir", os.path.join(out, "cache"),
                              "-test.parallel", "6"], cwd=out, env=env, stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT, text=True, errors="replace", preexec_fn=limits)
        try:
            text, _ = p.communicate(timeout=left + 300)
        except subprocess.TimeoutExpired:
            p.kill()
            text, _ = p.communicate()
        n = re.findall(r"execs: (\d+) .*new interesting: (\d+)", text)
        if n:
            done["executions"] += int(n[-1][0])
            done["inputs_with_new_coverage"] += int(n[-1][1])
        if p.returncode == 0:
            break
        case = os.path.join(out, "failure.json")
        if not os.path.exists(case):
            # the process ended: make a case of the input it left
            subprocess.run([fb, "-test.run", "^FuzzCase$/^[0-9a-f]{16}$"], cwd=out, env=dict(env, VERIF_CONVERT="1"),
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if os.path.exists(case):
            kept = os.path.join(scratch, "fuzzed-%d.json" % attempt)
            shutil.copy(case, kept)
            rc, _ = replay(binary, pid, kept, os.path.join(out, "again"), known)
            if rc != 0:
                return done, kept
        done["failures_not_confirmed"] += 1
    return done, None


def main():
    if sys.argv[1:2] == ["--setup"]:
        with tempfile.TemporaryDirectory(prefix="verif-setup-") as scratch:
            build(scratch)
        print("harness builds")
        return 0
    if sys.argv[1:2] == ["--replay"]:
        case = sys.argv[2]
        doc = json.load(open(case))
        pid, race = doc["property"], doc.get("race", False)
        with tempfile.TemporaryDirectory(prefix="verif-replay-") as scratch:
            for _ in range(20 if race else 1):   # a race shows with some schedules only
                rc, out = replay(build(scratch, race), pid, case, os.path.join(scratch, "r"), known_for(pid)[0], race)
                if rc:
                    break
        print(out[:6000])
        return 1 if rc else 0

    pid = sys.argv[1]
    conf = CONF[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    start = time.time()
    shards = int(conf.get("shards", 4))
    checks = int(conf[tier])
    known, known_text = known_for(pid)
    limit = 780 if tier == "quick" else 4 * 3600

    with tempfile.TemporaryDirectory(prefix="verif-%s-" % pid) as scratch:
        binary = build(scratch)
        procs = []
        for i in range(shards):
            # rapid takes 0 as "random": keep every seed positive
            s = ((seed * 1000003 + i * 7919) & 0x7FFFFFFFFFFF) + 1
            out = os.path.join(scratch, "shard%d" % i)
            procs.append((i, s, out, run_shard(binary, pid, s, checks, out, known, tier=tier)))
        timed_out = False
        racers = []
        if conf.get("race"):
            rb = build(scratch, race=True)
            if rb is not None:
                for i in range(2):
                    s = ((seed * 1000003 + 500009 + i * 7919) & 0x7FFFFFFFFFFF) + 1
                    out = os.path.join(scratch, "race%d" % i)
                    n = int(conf["race"]) * (1 if tier == "quick" else 20)
                    racers.append((i, s, out, run_shard(rb, pid, s, n, out, known, tier=tier, race=True)))
        for i, s, out, p in procs + racers:
            try:
                p.wait(max(1, limit - (time.time() - start)))
            except subprocess.TimeoutExpired:
                timed_out = True
                p.kill()
                p.wait()

        replays, errors = [], []
        for i, s, out, p in procs:
            log = read(os.path.join(out, "log"))
            fail = os.path.join(out, "failure.json")
            if p.returncode == 0 and "--- PASS: Test%s" % pid in log:
                continue
            if p.returncode == 1 and os.path.exists(fail) and "VERIF-VIOLATED" in log:
                replays.append(violation(pid, fail, seed, "s%d" % i))
                continue
            hang = os.path.join(out, "hang.json")
            if p.returncode == 77 and os.path.exists(hang):
                rc, text = replay(binary, pid, hang, os.path.join(out, "again"), known)
                if rc != 0:
                    replays.append(violation(pid, hang, seed, "s%d-hang" % i))
                    continue
                errors.append("shard %d: a case exceeded its CPU time once but not again" % i)
                continue
            if timed_out and p.returncode is not None and p.returncode < 0:
                errors.append("shard %d did not finish in time" % i)
                continue
            if p.returncode == 1 and "[rapid]" in log and "VERIF-VIOLATED" not in log:
                errors.append("shard %d: generator trouble\n%s" % (i, log[-3000:]))
                continue
            if replays:
                continue
            # The process crashed (panic in another goroutine, out of memory):
            # run the same cases again, each in a process of its own.
            print("shard %d ended with %s; running its cases isolated" % (i, p.returncode))
            iso = os.path.join(scratch, "iso%d" % i)
            q = run_shard(binary, pid, s, checks, iso, known, isolate=True, tier=tier)
            try:
                q.wait(max(60, limit - (time.time() - start)))
            except subprocess.TimeoutExpired:
                q.kill()
                q.wait()
            if os.path.exists(os.path.join(iso, "failure.json")):
                replays.append(violation(pid, os.path.join(iso, "failure.json"), seed, "s%d-crash" % i))
            else:
                errors.append("shard %d crashed and did not crash again\n%s" % (i, log[-4000:]))

        raced = 0
        for i, s, out, p in racers:
            log = read(os.path.join(out, "log"))
            fail = os.path.join(out, "failure.json")
            current = os.path.join(out, "current.json")
            try:
                raced += json.load(open(os.path.join(out, "stats.json")))["evaluations"]
            except (OSError, ValueError):
                pass
            if p.returncode == 0 and "--- PASS: Test%s" % pid in log:
                continue
            if p.returncode == 1 and os.path.exists(fail) and "VERIF-VIOLATED" in log:
                replays.append(violation(pid, fail, seed, "r%d" % i))
            elif p.returncode == 66 and "WARNING: DATA RACE" in log and os.path.exists(current):
                text = log[log.index("WARNING: DATA RACE"):][:6000]
                if "github.com/32bitkid/mpeg/" not in text:
                    errors.append("race shard %d: a race outside of the code under test\n%s" % (i, text))
                    continue
                doc = json.load(open(current))
                doc.update({"error": text, "race": True})
                json.dump(doc, open(current, "w"), indent=1)
                replays.append(violation(pid, current, seed, "r%d-race" % i))
            elif p.returncode == 1 and "[rapid]" in log:
                errors.append("race shard %d: generator trouble\n%s" % (i, log[-3000:]))
            elif not replays:
                # no answer from this shard; the others decide
                print("race shard %d ended with %s" % (i, p.returncode))

        fuzzed = None
        if tier == "thorough" and conf.get("fuzz") and not replays and not errors:
            fuzzed, case = fuzz(pid, int(os.environ.get("VERIF_FUZZTIME", conf["fuzz"])), scratch, binary, known)
            if case:
                replays.append(violation(pid, case, seed, "fuzz"))

        # evidence
        stats = []
        for i, s, out, p in procs:
            try:
                stats.append(json.load(open(os.path.join(out, "stats.json"))))
            except (OSError, ValueError):
                pass
        keys, classes, samples, seen_known, extra = set(), {}, [], {}, {}
        for st in stats:
            keys.update(st["keys"] or [])
            for k, v in (st["classes"] or {}).items():
                classes[k] = classes.get(k, 0) + v
            samples += st["samples"] or []
            seen_known.update(st["known"] or {})
            for k, v in (st["extra"] or {}).items():
                extra.setdefault(k, []).append(v)
        evidence = {
            "property": pid, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": sum(st["evaluations"] for st in stats),
                "distinct_nontrivial": len(keys),
                "rule": stats[0]["rule"] if stats else "no run finished",
                "samples": samples[:5],
                "classes": dict(sorted(classes.items())),
                "shards": shards,
            },
            "assumptions": conf.get("assumptions", []),
            "wall_s": round(time.time() - start, 2),
            "violations": len(replays),
        }
        if extra:
            evidence["coverage"]["measured"] = extra
        if conf.get("race"):
            evidence["coverage"]["cases_under_race_detector"] = raced
        if fuzzed:
            evidence["coverage"]["coverage_guided"] = fuzzed
        if seen_known:
            evidence["coverage"]["known_findings_observed"] = seen_known
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)

    for k in known:
        if k in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (pid, known_text[k]))
    c = evidence["coverage"]
    print("%s: %d cases, %d distinct non-trivial, %.1f s" % (pid, c["evaluations"], c["distinct_nontrivial"], evidence["wall_s"]))
    if replays:
        print("VIOLATION property=%s replay=%s" % (pid, replays[0]))
        return 1
    if errors:
        print("\n".join(errors))
        print("ERROR: no answer for %s" % pid)
        return 2
    if c["distinct_nontrivial"] < int(conf.get("min_nontrivial", 2)):
        print("ERROR: too few non-trivial cases for %s" % pid)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
