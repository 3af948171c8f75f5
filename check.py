#!/usr/bin/env python3
"""check.py ID [--replay FILE]: decide one property of /repo's working tree.

Builds the tools and the harness from /repo as it is, runs the generated-input
search in shards, confirms every failure in a fresh process, and writes
evidence/<ID>.json.  Environment: VERIF_SEED, VERIF_TIER (quick, thorough).
Exit status: 0 held, 1 violated (with a VIOLATION line), 3 trouble of the check.
"""
import hashlib, json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
CLI = ["cat", "cksum", "cmp", "cut", "diff", "head", "kill", "locale", "test", "tsort", "ed"]

# property: list of (harness program, tools it runs, cases per shard: quick, thorough)
PLAN = {
    "C01": [("cli", ["cat"], 3000, 20000)],
    "C02": [("cli", ["cksum"], 1000, 6000)],
    "C03": [("cli", ["cmp"], 5000, 40000)],
    "C04": [("cli", ["head"], 5000, 40000)],
    "C05": [("cli", ["diff"], 5000, 40000)],
    "C06": [("libdiff", [], 25000, 1000000)],
    "C07": [("cli", ["tsort"], 4000, 30000), ("libtsort", [], 60000, 400000)],
    "C08": [("cli", ["tsort"], 4000, 30000), ("libtsort", [], 60000, 400000)],
    "C09": [("cli", ["test"], 10000, 80000)],
    "C10": [("cli", ["test"], 6000, 40000)],
    "C11": [("cli", ["kill"], 2000, 10000)],
    "C12": [("cli", ["locale"], 8000, 60000)],
    "C13": [("libflag", [], 300000, 1500000)],
    "C14": [("libregex", [], 450000, 4000000)],
    "C15": [("libregex", [], 300000, 3000000)],
    "C16": [("libtxt", [], 120000, 1500000)],
    "C17": [("cli", ["ed"], 4000, 30000)],
    "C18": [("cli", ["ed"], 4000, 30000)],
    "C19": [("cli", ["ed"], 4000, 30000)],
    "C20": [("cli", ["ed"], 2000, 12000)],
    "C21": [("liblocale", [], 5000, 40000)],
    "C22": [("liblocale", [], 5000, 40000)],
    "C23": [("libera", [], 300000, 1500000)],
    "C24": [("cli", ["cat", "cksum", "head"], 3000, 25000)],
    "C25": [("cli", CLI, 6000, 50000)],
    "C26": [("cli", ["cat", "cksum", "cmp", "diff", "head", "tsort", "locale"], 1000, 8000)],
    "C27": [("cli", ["cat", "cksum", "cmp", "diff", "head", "tsort", "ed"], 2000, 15000)],
    "C28": [("cli", CLI, 3000, 20000)],
    "C29": [("cli", ["cat", "cksum", "cmp", "diff", "head", "tsort", "test"], 2000, 15000)],
    "C30": [("libed", [], 4000, 40000)],
    "C32": [("libconc", [], 900, 10000)],
    "C31": [("cli", ["cat", "cksum", "cmp", "cut", "diff", "head", "locale", "tsort"], 3000, 20000)],
}
LEVEL = {"C20": "fault_enumeration", "C24": "fault_enumeration", "C26": "fault_enumeration"}
SHARDS = 8
RACE = ("libconc",)  # built with the race detector
RACE_EXIT = 66
OVERLAY = {"liblocale": {"/repo/pkg/locale/zz_verif.go": "overlay/zz_verif_locale.go"}}
ASSUME = ["the Go toolchain, the kernel and the file system behave as documented",
          "rapid draws cases from the generators described in DESIGN.md; what they cannot produce is not covered"]


def trouble(msg):
    print("check.py: " + msg, file=sys.stderr)
    sys.exit(3)


def goenv():
    e = dict(os.environ)
    e.update(GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOSUMDB="off", GOWORK="off", CGO_ENABLED="0")
    e.pop("GOOS", None)
    e.pop("GOARCH", None)
    return e


def gobuild(args, cwd):
    env = goenv()
    if "-race" in args:
        env["CGO_ENABLED"] = "1"
    for attempt in (1, 2):
        r = subprocess.run(["go", "build", "-trimpath", "-buildvcs=false"] + args, cwd=cwd, env=env, capture_output=True, text=True)
        if r.returncode == 0:
            return None
    return r.stdout + r.stderr


class Build:
    def __init__(self, tmp):
        self.tmp = tmp
        self.bin = os.path.join(tmp, "bin")
        os.mkdir(self.bin)
        # the repository is built through a copy of its go.mod, so that nothing there can change
        self.mod = os.path.join(tmp, "mod")
        os.mkdir(self.mod)
        for f in ("go.mod", "go.sum"):
            if os.path.exists(os.path.join(REPO, f)):
                shutil.copy(os.path.join(REPO, f), os.path.join(self.mod, f))
        self.harness = os.path.join(tmp, "harness")
        shutil.copytree(os.path.join(VERIF, "harness"), self.harness)

    def tool(self, name):
        err = gobuild(["-modfile=" + os.path.join(self.mod, "go.mod"), "-o", os.path.join(self.bin, name), "./cmd/" + name], REPO)
        if err:
            trouble("cannot build cmd/%s:\n%s" % (name, err))

    def main(self, name):
        args = ["-o", os.path.join(self.bin, "h-" + name)]
        if name in OVERLAY:
            ov = os.path.join(self.tmp, name + ".overlay.json")
            with open(ov, "w") as f:
                json.dump({"Replace": {k: os.path.join(self.harness, v) for k, v in OVERLAY[name].items()}}, f)
            args += ["-overlay", ov]
        if name in RACE:
            args = ["-race"] + args
        err = gobuild(args + ["./" + name], self.harness)
        if err:
            trouble("cannot build the harness %s:\n%s" % (name, err))

    def target(self):
        r = subprocess.run(["gcc", "-O1", "-o", os.path.join(self.bin, "target"), os.path.join(self.harness, "target.c")], capture_output=True, text=True)
        if r.returncode:
            trouble("cannot build target: " + r.stderr)

    def all(self, prop):
        for main, tools, _, _ in PLAN[prop]:
            self.main(main)
            for t in tools:
                self.tool(t)
        if prop == "C11":
            self.target()


def seed_of(seed, prop, main, shard):
    h = hashlib.sha256(("%d/%s/%s/%d" % (seed, prop, main, shard)).encode()).digest()
    return (int.from_bytes(h[:8], "big") >> 2) | 1


def shard_cmd(b, prop, main, shard, tier, extra):
    d = os.path.join(b.tmp, "r-%s-%s" % (main, shard))
    s = os.path.join(b.tmp, "s-%s-%s" % (main, shard))
    for x in (d, s):
        os.makedirs(x, exist_ok=True)
    os.chmod(s, 0o755)
    uid = 40000 + (shard if isinstance(shard, int) else 90)
    return d, [os.path.join(b.bin, "h-" + main), "-prop", prop, "-dir", d, "-bin", b.bin, "-scratch", s,
               "-uid", str(uid), "-tier", tier, "-known", ",".join(k.split("id=")[1].split()[0] for k in known(prop))] + extra


def clean_env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("LC_", "VERIF_")) and k not in ("LANG", "GODEBUG", "GOTRACEBACK", "GOMEMLIMIT")}
    e["GOMAXPROCS"] = "2"
    e["GORACE"] = "halt_on_error=1 exitcode=%d" % RACE_EXIT
    return e


def replay(b, prop, main, path, tier, times, hang, tag):
    """True if the case in the file fails in a fresh process."""
    _, cmd = shard_cmd(b, prop, main, "replay" + tag, tier, ["-replay", path, "-times", str(times), "-hang", "%ds" % hang])
    try:
        r = subprocess.run(cmd, env=clean_env(), capture_output=True, text=True, errors="replace", timeout=hang * 2 + 120)
    except subprocess.TimeoutExpired:
        return False, "the replay did not end"
    out = (r.stdout + r.stderr)[-3000:]
    if r.returncode in (1, 4, RACE_EXIT):
        return True, out
    if r.returncode == 2 or r.returncode < 0:  # the harness itself died of the library
        return ("panic" in out or "fatal error" in out), out
    return False, out


def known(prop):
    out = []
    try:
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            if l.startswith("finding: property=%s " % prop):
                out.append(l[len("finding: "):].strip())
    except FileNotFoundError:
        pass
    return out


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in PLAN:
        trouble("usage: check.py ID [--replay FILE]")
    prop = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    start = time.time()
    os.umask(0o022)
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    os.chmod(tmp, 0o755)
    try:
        b = Build(tmp)
        b.all(prop)
        if len(sys.argv) > 3 and sys.argv[2] == "--replay":
            rf = json.load(open(sys.argv[3]))
            ok, out = replay(b, prop, rf.get("main", PLAN[prop][0][0]), os.path.abspath(sys.argv[3]), tier, 20, 60, "x")
            print(out)
            print("fails" if ok else "does not fail")
            return 1 if ok else 0
        return run(b, prop, seed, tier, start)
    finally:
        subprocess.run(["chmod", "-R", "u+rwX", tmp], capture_output=True)
        shutil.rmtree(tmp, ignore_errors=True)


def run(b, prop, seed, tier, start):
    built = time.time() - start
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    merged = {"evaluations": 0, "labels": {}, "counters": {}, "samples": [], "rules": []}
    hashes = set()
    fails = []
    plan = PLAN[prop]
    # the whole search, all programs together, stays below this
    cap = (420 if tier == "quick" else 6 * 3600) / len(plan)
    for main, _, quick, thorough in plan:
        n = max(1, int((quick if tier == "quick" else thorough) * scale))
        procs = []
        for i in range(SHARDS):
            d, cmd = shard_cmd(b, prop, main, i, tier, ["-seed", str(seed_of(seed, prop, main, i)), "-checks", str(n),
                               "-softcap", "%ds" % int(cap * (0.5 if tier == "quick" else 0.9))])
            log = open(os.path.join(d, "log"), "w")
            procs.append((i, d, subprocess.Popen(cmd, env=clean_env(), stdout=log, stderr=subprocess.STDOUT), log))
        deadline = time.time() + cap + 120
        for i, d, p, log in procs:
            try:
                rc = p.wait(max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = 4
            log.close()
            text = open(os.path.join(d, "log"), errors="replace").read()[-4000:]
            if os.path.exists(os.path.join(d, "stats.json")):
                s = json.load(open(os.path.join(d, "stats.json")))
                merged["evaluations"] += s["evaluations"]
                hashes.update(main + h for h in s["hashes"])
                for k in ("labels", "counters"):
                    for l, c in (s[k] or {}).items():
                        merged[k][l] = merged[k].get(l, 0) + c
                if i < 3:
                    merged["samples"] += (s["samples"] or [])[:2]
                if s["rule"] not in merged["rules"]:
                    merged["rules"].append(s["rule"])
            if rc != 0:
                fails.append((main, i, d, rc, text))
        if any(f[3] == 1 for f in fails):
            break
    confirmed = None
    for main, i, d, rc, text in sorted(fails, key=lambda f: f[3] != 1)[:8]:
        print("shard %s/%d ended with status %d:\n%s" % (main, i, rc, text))
        if rc == 1:
            tries = [("fail.json", 5), ("first.json", 20), ("fail.json", 20)]
        else:
            tries = [("current.json", 3)]
        for name, times in tries:
            path = os.path.join(d, name)
            if not os.path.exists(path):
                continue
            hang = 60 if rc == 1 else 120
            ok, out = replay(b, prop, main, path, tier, times, hang, "%d" % i)
            if ok:
                confirmed = (main, path, out)
                break
        if confirmed:
            break
    status = 0
    if confirmed:
        main, path, out = confirmed
        rf = json.load(open(path))
        rf["main"] = main
        rf["message"] = rf.get("message") or out
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        name = "replays/%s-%s.json" % (prop, hashlib.sha256(json.dumps(rf["case"]).encode()).hexdigest()[:10])
        with open(os.path.join(VERIF, name), "w") as f:
            json.dump(rf, f, indent=1)
        print(out)
        print("VIOLATION property=%s replay=%s" % (prop, os.path.join(VERIF, name)))
        status = 1
    elif fails:
        print("the failures above could not be confirmed in a fresh process")
        status = 3
    for l in known(prop):
        print("KNOWN-FINDING: " + l)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": LEVEL.get(prop, "exploration"),
          "coverage": {"evaluations": merged["evaluations"], "distinct_nontrivial": len(hashes),
                       "rule": " | ".join(merged["rules"]), "samples": merged["samples"][:8],
                       "labels": dict(sorted(merged["labels"].items())), "counters": merged["counters"],
                       "shards": SHARDS, "harness_programs": [p[0] for p in plan], "build_s": round(built, 2)},
          "assumptions": ASSUME, "wall_s": round(time.time() - start, 2), "violations": 1 if status == 1 else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    print("%s: %d cases, %d distinct and non-trivial, %.1f s: %s" % (prop, merged["evaluations"], len(hashes), time.time() - start,
          {0: "held", 1: "VIOLATED", 3: "trouble"}[status]))
    return status


sys.exit(main())
