#!/usr/bin/env python3
"""Decides one property with generated-input checks.

usage: check.py ID [quick|thorough]        run the check of property ID
       check.py ID --replay FILE           re-run a single failing case
       check.py --setup                    warm the build caches

Exit 0: the property held on everything generated. Exit 1: it's violated, and a
VIOLATION line says where the reproduction is. Exit 2: no answer (the harness or
the build failed).
"""
import glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
REPO = "/repo"
TRC = "github.com/peterbourgon/trc"

# Properties about schedules are (also) checked with the race detector on.
# (race, list of case-count percentages) per run; others run once, without.
MODES = {
    "C04": ["plain", "race"],
    "C13": ["plain", "race"],
    "C15": ["plain", "race"],
    "C18": ["plain", "race"],
    "C20": ["plain", "race"],
    "C21": ["plain", "race"],
    "C30": ["plain", "race"],
    "C31": ["plain", "race"],
    "C32": ["plain", "race"],
}

# Processes per run. Each explores the full number of cases, with its own seed.
SHARDS = {"quick": 4, "thorough": 8}

# Seconds, over all runs. No new cases are generated after the budget is used up.
BUDGET = {"quick": 300, "thorough": 640}
TIMEOUT = 800

ASSUMPTIONS = [
    "Sampling: holds for the generated cases, not a proof for all.",
    "The reference models in harness/*_test.go state the intended behaviour.",
    "Schedules are those the Go scheduler produced in this run (plus the race detector's happens-before analysis where coverage.runs has a race run).",
]


def env():
    e = dict(os.environ)
    e.update(GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOSUMDB="off", GOWORK="off")
    e.pop("GORACE", None)
    return e


def build(out, race, errors):
    cmd = ["go", "test", "-c", "-vet=off", "-o", out] + (["-race"] if race else []) + ["."]
    p = subprocess.run(cmd, cwd=HARNESS, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        errors.append("build failed:\n" + p.stdout)
        return False
    return True


def tidy_sums():
    """go may rewrite go.sum/go.mod of the harness when building with -mod=mod."""
    return {f: open(os.path.join(HARNESS, f)).read() for f in ("go.mod", "go.sum")}


def restore_sums(saved):
    for f, content in saved.items():
        p = os.path.join(HARNESS, f)
        if open(p).read() != content:
            open(p, "w").write(content)


def stuck_in_trc(log):
    """Is the goroutine of the check itself stuck in trc code, as opposed to slow,
    or waiting for something else?"""
    for g in log.split("\n\n"):
        m = re.search(r"^goroutine \d+ (?:gp=\S+ m=\S+ (?:mp=\S+ )?)?\[([^\]]*)\]:", g, re.M)
        if not m or TRC not in g or "pgregory.net/rapid" not in g:
            continue
        state = m.group(1)
        minutes = re.search(r"(\d+) minutes", state)
        if minutes and int(minutes.group(1)) >= 3:
            return True
        if state.startswith(("running", "runnable")) and "verifharness" in g:
            return True
    return False


def classify(rc, log, timed_out):
    """Returns ok, violation or error."""
    if rc == 0 and not timed_out:
        return "ok"
    if "HARNESS-ERROR" in log:
        return "error"
    if timed_out:
        return "error"
    if "panic: test timed out" in log:
        return "violation" if stuck_in_trc(log) else "error"
    if "WARNING: DATA RACE" in log:
        for r in log.split("WARNING: DATA RACE")[1:]:
            if TRC in r.split("==================")[0]:
                return "violation"
        return "error"
    if re.search(r"^\s*--- FAIL: ", log, re.M):
        return "violation"
    if re.search(r"^(panic: |fatal error: )", log, re.M):
        return "violation" if TRC in log else "error"
    return "error"


def kill(proc):
    try:
        os.killpg(proc.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass


def merge_stats(into, st):
    into["rule"] = st["rule"]
    for k in ("evaluations", "nontrivial"):
        into[k] = into.get(k, 0) + st[k]
    into.setdefault("seen", set()).update(st.get("seen") or [])
    into["distinct_nontrivial"] = len(into["seen"])
    for k, n in st.get("labels", {}).items():
        into.setdefault("labels", {})[k] = into.get("labels", {}).get(k, 0) + n
    if len(into.setdefault("samples", [])) < 3:
        into["samples"] += st.get("samples", [])[:2]


def known_findings(prop):
    res = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding: property=%s " % prop):
                res.append(line.strip()[len("finding: "):])
    return res


def main():
    args = sys.argv[1:]
    if args == ["--setup"]:
        saved = tidy_sums()
        ok = True
        with tempfile.TemporaryDirectory(prefix="verif-") as tmp:
            for race in (False, True):
                errors = []
                if not build(os.path.join(tmp, "x.test"), race, errors):
                    print("\n".join(errors)); ok = False
            subprocess.run(["go", "build", "-o", os.path.join(tmp, "trc"), "./cmd/trc"], cwd=REPO, env={**env(), "GOFLAGS": "-mod=readonly"})
        restore_sums(saved)
        return 0 if ok else 2

    prop = args[0]
    replay = None
    tier = "quick"
    if len(args) > 1 and args[1] == "--replay":
        replay = os.path.abspath(args[2])
    elif len(args) > 1:
        tier = args[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    rapid_seed = seed if seed != 0 else 0x5eed  # 0 means random to rapid
    begin = time.time()
    saved = tidy_sums()
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    runs, log_all, stats, verdict, failing = [], "", {}, "ok", None
    try:
        for mode in MODES.get(prop, ["plain"]):
            race = mode == "race"
            errors = []
            binary = os.path.join(tmp, mode + ".test")
            t0 = time.time()
            if not build(binary, race, errors):
                print(errors[0])
                verdict = "error"
                break
            t1 = time.time()
            timeout = TIMEOUT // len(MODES.get(prop, ["plain"]))
            budget = BUDGET[tier] // len(MODES.get(prop, ["plain"]))
            cmd = [binary, "-test.run", "^Test%s$" % prop, "-rapid.shrinktime=10s", "-test.timeout=%ds" % timeout]
            if replay:
                sub = open(replay).read().split("\n", 1)[0].strip()
                m = re.match(r"# SUBTEST (\S+)", sub)
                cmd[2] = "^" + (m.group(1).replace("/", "$/^") if m else "Test" + prop) + "$"
                body = os.path.join(tmp, "replay.fail")
                open(body, "w").write(open(replay).read().split("\n", 1)[1] if m else open(replay).read())
                cmd.append("-rapid.failfile=" + body)
            # Several processes explore with different seeds.
            shards = []
            for i in range(1 if replay else SHARDS[tier]):
                cwd = os.path.join(tmp, "cwd-%s-%d" % (mode, i))
                os.mkdir(cwd)
                sh = {"cwd": cwd, "stats": cwd + ".json", "log": cwd + ".log", "cmd": cmd + ["-rapid.seed=%d" % (rapid_seed + 1000003 * i)], "rc": None, "killed": False}
                e = env()
                e.update(VERIF_STATS=sh["stats"], VERIF_TIER=tier, VERIF_BUDGET=str(budget), VERIF_MODE=mode, VERIF_DIR=VERIF, VERIF_REPO=REPO, TMPDIR=cwd, GOTRACEBACK="all",
                         GORACE="halt_on_error=0 history_size=2")
                e.pop("TRC_ASSETS_DIR", None)
                sh["proc"] = subprocess.Popen(sh["cmd"], cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=open(sh["log"], "wb"), stderr=subprocess.STDOUT, start_new_session=True)
                shards.append(sh)
            deadline = t1 + timeout + 20
            failed_at = None
            while True:
                pending = [sh for sh in shards if sh["rc"] is None]
                for sh in pending:
                    sh["rc"] = sh["proc"].poll()
                    if sh["rc"] not in (None, 0) and failed_at is None:
                        failed_at = time.time()
                if not pending:
                    break
                # When one has failed, the others don't matter.
                if time.time() > deadline or (failed_at and time.time() > failed_at + 5):
                    for sh in pending:
                        if sh["rc"] is None:
                            sh["killed"] = True
                            kill(sh["proc"])
                            sh["rc"] = sh["proc"].wait()
                time.sleep(0.02)
            for sh in shards:
                kill(sh["proc"])  # anything it left running
            verdicts = []
            for i, sh in enumerate(shards):
                log = open(sh["log"], "rb").read().decode("utf-8", "replace")
                sv = classify(sh["rc"], log, sh["killed"])
                if sh["killed"] and failed_at:
                    sv = "stopped"
                verdicts.append(sv)
                runs.append({"mode": mode, "shard": i, "exit": sh["rc"], "verdict": sv, "build_s": round(t1 - t0, 1), "run_s": round(time.time() - t1, 1)})
                if sv not in ("ok", "stopped"):
                    log_all = "==== %s: %s\n%s\n" % (mode, " ".join(sh["cmd"]), log) + (log_all if sv == "error" else "")
                if os.path.exists(sh["stats"]):
                    for name, st in json.load(open(sh["stats"])).items():
                        merge_stats(stats.setdefault(name + (" [race]" if race else ""), {}), st)
                if os.environ.get("VERIF_TIMING"):
                    print(log)
                if sv == "violation":
                    failing = sh
                    break
            v = "violation" if "violation" in verdicts else "error" if "error" in verdicts else "ok"
            if v != "ok":
                verdict = v
                break
        if verdict == "ok" and not replay and sum(s["nontrivial"] for s in stats.values()) == 0:
            verdict = "error"
            log_all += "\nno non-trivial case was generated\n"
        path = None
        if verdict == "violation":
            rdir = os.path.join(VERIF, "replays")
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, "%s-%s-seed%d.log" % (prop, tier, seed))
            fails = sorted(glob.glob(os.path.join(failing["cwd"], "testdata", "rapid", "**", "*.fail"), recursive=True))
            open(path, "w").write(log_all)
            if fails and not replay:
                sub = os.path.basename(os.path.dirname(fails[0])).replace("_", "/", 1)
                rp = path[:-len(".log")] + ".fail"
                m = re.search(r"^\s+--- FAIL: (Test%s/\S+)" % prop, log_all, re.M)
                open(rp, "w").write("# SUBTEST %s\n" % (m.group(1) if m else sub) + open(fails[0]).read())
                path = rp
        if not replay:
            samples = []
            for name in sorted(stats):
                for s in stats[name].get("samples", [])[:2]:
                    samples.append({"check": name, "case": s})
            evidence = {
                "property": prop, "tier": tier, "seed": seed, "level": "exploration",
                "coverage": {
                    "evaluations": sum(s["evaluations"] for s in stats.values()),
                    "distinct_nontrivial": sum(s["distinct_nontrivial"] for s in stats.values()),
                    "rule": " | ".join("%s: %s" % (n, stats[n]["rule"]) for n in sorted(stats)),
                    "samples": samples,
                    "checks": {n: {k: stats[n][k] for k in ("evaluations", "nontrivial", "distinct_nontrivial", "labels") if k in stats[n]} for n in sorted(stats)},
                    "runs": runs,
                },
                "assumptions": ASSUMPTIONS,
                "wall_s": round(time.time() - begin, 2),
                "violations": 1 if verdict == "violation" else 0,
            }
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
                json.dump(evidence, f, indent=1, ensure_ascii=True)
                f.write("\n")
        for kf in known_findings(prop):
            print("KNOWN-FINDING: " + kf)
        if verdict == "ok":
            print("ok property=%s tier=%s cases=%d nontrivial=%d (%.1fs)" % (prop, tier, sum(s["evaluations"] for s in stats.values()), sum(s["distinct_nontrivial"] for s in stats.values()), time.time() - begin))
            return 0
        print(log_all[:20000])
        if verdict == "violation":
            print("VIOLATION property=%s replay=%s" % (prop, path or replay))
            return 1
        print("NO ANSWER property=%s" % prop)
        return 2
    finally:
        restore_sums(saved)
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
