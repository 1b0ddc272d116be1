#!/usr/bin/env python3
"""Run one property's check against /repo's working tree.

usage: run.py ID [quick|thorough]      run the check of property ID
       run.py --replay FILE            run one saved case again
       run.py --setup                  warm the build cache
Environment: VERIF_SEED (default 1), VERIF_TIER (default quick), and for
development PROPS_SUB (only this sub-check), PROPS_MULT (scale case counts),
PROPS_SHARDS.
"""
import json, os, shutil, subprocess, sys, tempfile, time, array, signal

ROOT = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(ROOT, "harness")
REPO = "/repo"
GO = "/opt/veriftools/go1.27.3/bin/go"
# Properties all of whose sub-checks (RACE), none of whose (PLAIN) or some of
# whose (the rest) run in workers built with the race detector.
RACE = {"C19"}
PLAIN = {"C18"}
RACE_SUBS = {"together", "shared"}
LEVEL = {"C13": "fault_enumeration"}
BUDGET = {"quick": 60.0, "thorough": 600.0}
ASSUME = [
    "Go 1.27.3's compiler, runtime and testing/synctest are correct",
    "the reference encoder, decoder and models in /verif/harness/props are correct",
]
AMF = "github.com/WatchBeam/amf0 is replaced by a stand-in (harness/amf0), as the module is not available here"


def env(tmp):
    e = dict(os.environ)
    e.update(PATH="/opt/veriftools/go1.27.3/bin:" + e.get("PATH", "/usr/bin:/bin"),
             GOTOOLCHAIN="local", GOPROXY="off", GO111MODULE="on", GOWORK="off", GOFLAGS="",
             GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build", HOME="/root",
             GOSUMDB="off", CGO_ENABLED="1", TMPDIR=tmp)
    return e


def build(tmp, race):
    ov = os.path.join(tmp, "overlay.json")
    with open(ov, "w") as f:
        json.dump({"Replace": {REPO + "/go.mod": os.path.join(HARNESS, "repo.mod")}}, f)
    out = os.path.join(tmp, "props-race.test" if race else "props.test")
    cmd = [GO, "test", "-c", "-vet=off", "-o", out, "-overlay", ov]
    if race:
        cmd.append("-race")
    cmd.append("./props")
    r = subprocess.run(cmd, cwd=HARNESS, env=env(tmp), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print("BUILD FAILED\n" + r.stdout)
        sys.exit(2)
    return out


def known_findings(pid):
    with open(os.path.join(ROOT, "known-findings.json")) as f:
        return {k["id"]: k for k in json.load(f)["known"] if pid in k["properties"]}


def main():
    if sys.argv[1:2] == ["--replay"]:
        with open(sys.argv[2]) as f:
            saved = json.load(f)
        pid = saved["property"]
        tmp = tempfile.mkdtemp(prefix="props-")
        try:
            b = build(tmp, pid in RACE or saved["sub"] in RACE_SUBS)
            e = env(tmp)
            e.update(PROPS_MODE="replay", PROPS_ID=pid, PROPS_FILE=os.path.abspath(sys.argv[2]),
                     GORACE="halt_on_error=1 exitcode=66")
            r = subprocess.run([b, "-test.run=^TestMode$", "-test.timeout=0"], cwd=tmp, env=e)
            return r.returncode
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    if sys.argv[1:2] == ["--setup"]:
        tmp = tempfile.mkdtemp(prefix="props-")
        try:
            build(tmp, False)
            build(tmp, True)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        return 0
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1")
    tmp = tempfile.mkdtemp(prefix="props-")
    procs = []

    def onterm(*_):
        for p in procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(tmp, ignore_errors=True)
        os._exit(4)
    signal.signal(signal.SIGTERM, onterm)
    signal.signal(signal.SIGINT, onterm)
    try:
        return check(pid, tier, seed, tmp, procs)
    finally:
        for p in procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(tmp, ignore_errors=True)


def check(pid, tier, seed, tmp, procs):
    t0 = time.time()
    shards = int(os.environ.get("PROPS_SHARDS", "6"))
    # Binary, how many processes share its cases, and the number of this one.
    jobs = []
    if pid not in RACE:
        jobs += [(build(tmp, False), shards, i) for i in range(shards)]
    if pid not in PLAIN:
        n = shards if pid in RACE else 2
        jobs += [(build(tmp, True), n, i) for i in range(n)]
    built = time.time() - t0
    e = env(tmp)
    e.update(PROPS_MODE="explore", PROPS_ID=pid, PROPS_TIER=tier, PROPS_SEED=str(seed),
             PROPS_BUDGET=str(BUDGET[tier]),
             GORACE="halt_on_error=1 exitcode=66")
    outs = []
    for i, (binary, of, shard) in enumerate(jobs):
        d = os.path.join(tmp, "s%d" % i)
        os.mkdir(d)
        out = os.path.join(d, "out.json")
        se = dict(e, PROPS_SHARD=str(shard), PROPS_SHARDS=str(of), PROPS_OUT=out,
                  PROPS_RACE="1" if binary.endswith("-race.test") else "", GOMAXPROCS=str([2, 1, 4, 2, 1, 3, 2, 8][i % 8]))
        log = open(os.path.join(d, "log"), "w")
        procs.append(subprocess.Popen([binary, "-test.run=^TestMode$", "-test.timeout=0"], cwd=d, env=se,
                                      stdin=subprocess.DEVNULL, stdout=log, stderr=log, start_new_session=True))
        outs.append(out)
    trouble = []
    for i, p in enumerate(procs):
        rc = p.wait()
        if rc != 0 or not os.path.exists(outs[i]):
            with open(os.path.join(tmp, "s%d" % i, "log")) as f:
                trouble.append("shard %d ended with %s\n%s" % (i, rc, f.read()[-3000:]))
    res = []
    hashes = set()
    for o in outs:
        if os.path.exists(o):
            with open(o) as f:
                res.append(json.load(f))
            a = array.array("Q")
            with open(o + ".hashes", "rb") as f:
                a.frombytes(f.read())
            hashes.update(a)
    evals, classes, samples, known = {}, {}, [], {}
    failures = []
    rule, enums = "", []
    for r in res:
        for k, v in r["evals"].items():
            evals[k] = evals.get(k, 0) + v
        for k, v in r["classes"].items():
            classes[k] = classes.get(k, 0) + v
        for s in r["samples"] or []:
            samples.append(s)
        known.update({k: v for k, v in r["known"].items() if k not in known})
        if r.get("failure"):
            failures.append(r["failure"])
        if r.get("harness"):
            trouble.append(r["harness"])
        rule = r["rule"]
        enums += r.get("enum_subs") or []
    # A varied choice of samples: at most three per sub-check.
    pick, per = [], {}
    for s in samples:
        if per.setdefault(s["check"], 0) < 3:
            per[s["check"]] += 1
            pick.append(s)
    listed = known_findings(pid)
    for k, where in sorted(known.items()):
        if k in listed:
            print("KNOWN-FINDING: property=%s %s" % (pid, listed[k]["what"]))
        else:
            failures.append({"property": pid, "sub": where.split()[0], "kind": "unlisted finding " + k,
                             "detail": where, "case": None})
    failures.sort(key=lambda f: len(json.dumps(f["case"])))
    assume = list(ASSUME)
    if pid in ("C06", "C07", "C09", "C14", "C15", "C16", "C17", "C18", "C19", "C20"):
        assume.append(AMF)
    ev = {
        "property": pid, "tier": tier, "seed": int(seed), "level": LEVEL.get(pid, "exploration"),
        "coverage": {
            "evaluations": sum(evals.values()),
            "distinct_nontrivial": len(hashes),
            "rule": rule,
            "samples": pick,
            "evaluations_per_check": evals,
            "fixed_case_lists": sorted(set(enums)),
            "classes": dict(sorted(classes.items())),
            "known_findings_observed": sorted(known),
            "shards": len(jobs),
            "build_s": round(built, 1),
        },
        "assumptions": assume,
        "wall_s": round(time.time() - t0, 1),
        "violations": len(failures),
    }
    if not os.environ.get("PROPS_SUB"):
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
    print("%s %s: %d cases, %d distinct non-trivial, %.1fs (build %.1fs)" % (
        pid, tier, sum(evals.values()), len(hashes), time.time() - t0, built))
    if failures:
        f = failures[0]
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        path = os.path.join(ROOT, "replays", "%s-%s.json" % (pid, f["sub"]))
        with open(path, "w") as fh:
            json.dump(f, fh, indent=1)
        print("%s/%s: %s: %s" % (pid, f["sub"], f["kind"], f["detail"]))
        print("case: " + json.dumps(f["case"])[:3000])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if trouble:
        print("NO VERDICT: the check itself failed")
        for t in trouble[:3]:
            print(t)
        return 3
    if not sum(evals.values()):
        print("NO VERDICT: nothing was evaluated")
        return 3
    return 0


if __name__ == "__main__":
    sys.exit(main())
