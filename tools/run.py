#!/usr/bin/env python3
"""Builds a harness against /repo's working tree, runs one property in parallel
shards, writes evidence/<ID>.json and reports violations.

exit 0: held on everything explored; 1: VIOLATION line printed; anything else: no answer.
"""
import glob, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(VERIF, "harness")
GO_DIR = "/opt/veriftools/go1.25.14/bin"

sys.path.insert(0, os.path.join(VERIF, "tools"))
from plan import PLAN  # id -> dict(pkg, race, needs_cli, ...)

# Output of a dying Go process that shows misbehaviour of the code under test.
CRASH = [
    ("WARNING: DATA RACE", "data race"),
    ("fatal error: concurrent map", "concurrent map access"),
    ("fatal error: all goroutines are asleep", "deadlock"),
    ("fatal error: sync: ", "misuse of a lock"),
    ("goroutine stack exceeds", "stack overflow"),
    ("fatal error: stack overflow", "stack overflow"),
]
MEMCRASH = [
    ("fatal error: runtime: out of memory", "memory exhausted"),
    ("fatal error: runtime: cannot allocate memory", "memory exhausted"),
    ("runtime: cannot allocate memory", "memory exhausted"),
    ("fatal error: out of memory", "memory exhausted"),
]


def goenv():
    e = dict(os.environ)
    if os.path.isdir(GO_DIR):
        e["PATH"] = GO_DIR + ":" + e.get("PATH", "/usr/bin:/bin")
    e.update(HOME=e.get("HOME", "/root"), GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOFLAGS="-mod=readonly", CGO_ENABLED="1", GONOSUMDB="*", GOSUMDB="off")
    e.pop("GOARCH", None), e.pop("GOOS", None), e.pop("GODEBUG", None)
    return e


def fail(msg, code=3):
    print("CHECK-ERROR " + msg, flush=True)
    sys.exit(code)


def build(pkg, race, out, arch=None):
    cmd = ["go", "test", "-c", "-vet=off", "-o", out] + (["-race"] if race else []) + ["./" + pkg]
    env = goenv()
    if arch:
        env.update(GOARCH=arch, CGO_ENABLED="0")
    r = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-6000:])
        fail("building %s failed" % pkg)


def build_cli(out):
    r = subprocess.run(["go", "build", "-o", out, "github.com/leonelquinteros/gotext/cli/xgotext"], cwd=HARNESS, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-6000:])
        fail("building xgotext failed")


class Shard(threading.Thread):
    def __init__(self, cmd, env, cwd, log, limit, vmem):
        super().__init__()
        self.cmd, self.env, self.cwd, self.log, self.limit, self.vmem = cmd, env, cwd, log, limit, vmem
        self.rc, self.timeout = None, False

    def run(self):
        def pre():
            os.setsid()
            if self.vmem:
                resource.setrlimit(resource.RLIMIT_AS, (self.vmem, self.vmem))
        with open(self.log, "wb") as f:
            p = subprocess.Popen(self.cmd, env=self.env, cwd=self.cwd, stdout=f, stderr=subprocess.STDOUT, preexec_fn=pre)
            try:
                self.rc = p.wait(self.limit)
            except subprocess.TimeoutExpired:
                self.timeout = True
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                self.rc = p.wait()


def main():
    args = sys.argv[1:]
    if args == ["--setup"]:
        with tempfile.TemporaryDirectory(prefix="verif-setup-") as tmp:
            done = set()
            for spec in PLAN.values():
                k = (spec["pkg"], bool(spec.get("race")))
                if k not in done:
                    done.add(k)
                    build(k[0], k[1], os.path.join(tmp, "bin"))
            build_cli(os.path.join(tmp, "xgotext"))
        print("setup ok")
        return
    if not args or args[0] not in PLAN:
        fail("usage: check.sh ID [--replay FILE]")
    pid, spec = args[0], PLAN[args[0]]
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        sys.exit(check(pid, spec, tmp, args[2] if len(args) > 2 and args[1] == "--replay" else None))
    finally:
        subprocess.run(["chmod", "-R", "u+rwX", tmp], stderr=subprocess.DEVNULL)
        shutil.rmtree(tmp, ignore_errors=True)


def check(pid, spec, tmp, replay):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    out = os.path.join(tmp, "out")
    os.mkdir(out)
    binary = os.path.join(tmp, "harness.test")
    build(spec["pkg"], spec.get("race"), binary, spec.get("arch"))
    env = goenv()
    if spec.get("cli"):
        env["VERIF_XGOTEXT"] = os.path.join(tmp, "xgotext")
        build_cli(env["VERIF_XGOTEXT"])
    built = time.time() - t0

    scratch = os.path.join(tmp, "scratch")
    os.mkdir(scratch)
    run_re = "^Test%s(_|$)" % pid
    if spec.get("runs"):
        # the checks of other properties, with a share of their cases
        run_re = "^Test(%s)_" % "|".join(spec["runs"])
        env.update(VERIF_AS=pid, VERIF_CHECKS_PCT=str(spec["pct"]))
    tests = subprocess.run([binary, "-test.list", run_re], env=env, cwd=scratch, stdout=subprocess.PIPE, text=True).stdout.split()
    tests = [t for t in tests if t.startswith("Test")]
    if not tests:
        fail("no tests for " + pid)

    shards = 1 if replay else spec.get("shards", 4)
    if tier == "thorough" and not replay:
        shards = spec.get("shards_thorough", 8)
    limit = 850 - built
    env.update(VERIF_OUT=out, VERIF_SEED=str(seed), VERIF_TIER=tier, VERIF_SHARDS=str(shards), TMPDIR=scratch, GOTRACEBACK="all",
               GORACE="halt_on_error=1 exitcode=66 history_size=3", VERIF_BUDGET_S=str(int((480 if tier == "thorough" else 300) / len(tests))))
    # the library reads none of these, but the environment of a check should not matter
    for k in ("LANG", "LANGUAGE", "LC_ALL", "LC_MESSAGES"):
        env.pop(k, None)
    if not spec.get("procs_all"):
        env["GOMAXPROCS"] = str(spec.get("procs", 2))
    if replay:
        env["VERIF_REPLAY"] = os.path.abspath(replay)
    ths = []
    for s in range(shards):
        e = dict(env, VERIF_SHARD=str(s))
        sc = os.path.join(scratch, "s%d" % s)
        os.mkdir(sc)
        e["TMPDIR"] = sc
        log = os.path.join(out, "log-s%d.txt" % s)
        cmd = [binary, "-test.run", run_re, "-test.timeout", "0", "-test.failfast", "-test.parallel", "1"]
        if replay:
            cmd.append("-test.v")
        ths.append(Shard(cmd, e, sc, log, limit, spec.get("vmem")))
    for t in ths:
        t.start()
    for t in ths:
        t.join()

    if replay:
        print(open(ths[0].log, errors="replace").read()[-8000:])
        return ths[0].rc

    violations, errors = [], []
    for i, t in enumerate(ths):
        text = open(t.log, errors="replace").read()
        for line in re.findall(r"^BUDGET .*$", text, re.M):
            print("shard %d: %s" % (i, line))
        if t.rc == 0:
            continue
        files = [f for f in re.findall(r"^\s*REPLAY-FILE (\S+)\s*$", text, re.M) if os.path.exists(f)]
        if files:
            rf = json.load(open(files[-1]))
            violations.append((files[-1], rf["error"]))
            continue
        sig = next((m for k, m in CRASH + (MEMCRASH if spec.get("vmem") else []) if k in text), None)
        if sig is None and not t.timeout and re.search(r"^panic: ", text, re.M) and "leonelquinteros/gotext" in text:
            sig = "panic outside the calling goroutine"
        wals = glob.glob(os.path.join(out, "wal-*-s%d.json" % i))
        if sig and wals:
            rf = json.load(open(wals[0]))
            k = next((text.find(m) for m, _ in CRASH + MEMCRASH if m in text), text.find("panic: "))
            rf["error"] = sig + "\n" + text[k:k + 6000]
            path = os.path.join(out, "%s-crash-s%d.json" % (pid, i))
            json.dump(rf, open(path, "w"), indent=1)
            violations.append((path, sig + ": " + text[k:k + 1500]))
            continue
        errors.append("shard %d ended with %s%s:\n%s" % (i, t.rc, " (time limit)" if t.timeout else "", text[-3000:]))

    stats = [json.load(open(f)) for f in sorted(glob.glob(os.path.join(out, "stats-*.json")))]
    evaluations = sum(s["evaluations"] for s in stats)
    hashes, rules, labels, samples, per_test = set(), {}, {}, [], {}
    for s in stats:
        rules[s["test"]] = s["rule"]
        hashes.update((s["test"], h) for h in s["hashes"] or [])
        d = labels.setdefault(s["test"], {})
        for k, v in (s["labels"] or {}).items():
            d[k] = d.get(k, 0) + v
        p = per_test.setdefault(s["test"], {"evaluations": 0})
        p["evaluations"] += s["evaluations"]
    for t in sorted(rules):
        k = 0
        for s in stats:
            if s["test"] == t and s["samples"] and k < 3:
                samples.append({"test": t, "case": s["samples"][0]})
                k += 1
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": len(hashes),
            "rule": " | ".join("%s: %s" % (t, r) for t, r in sorted(rules.items())),
            "samples": samples or ["no case finished"], "per_test": per_test, "classes": labels, "shards": shards,
            "build_s": round(built, 1),
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1), "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=True)
        f.write("\n")

    if violations:
        # the smallest reproduction first
        violations.sort(key=lambda v: os.path.getsize(v[0]))
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        dst = os.path.join(rdir, "%s-seed%d-%s" % (pid, seed, os.path.basename(violations[0][0]).split("-", 1)[1]))
        shutil.copy(violations[0][0], dst)
        print(violations[0][1][:4000])
        print("VIOLATION property=%s replay=%s" % (pid, dst), flush=True)
        return 1
    if errors:
        print("\n".join(errors))
        fail("no answer for " + pid)
    missing = [t for t in tests if t not in rules or per_test[t]["evaluations"] == 0]
    if missing:
        fail("tests without evaluations: %s" % missing)
    print("OK property=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs" % (pid, evaluations, len(hashes), time.time() - t0))
    return 0


if __name__ == "__main__":
    main()
