#!/usr/bin/env python3
"""check.py PROPERTY            run the check of one property (tier from VERIF_TIER, seed from VERIF_SEED)
   check.py replay FILE        replay a file written for a violation (exit 1 if it still fails)
   check.py determinism PROPERTY [COUNT]   run seeds twice under different partitions and compare the event hashes
   check.py build              build both simulators
Exit 0: held on everything explored. Exit 1: VIOLATION line printed. Anything else: the check itself failed."""
import array, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
VENV_PY = "/opt/vp/venv/bin/python"
WORKERS = int(os.environ.get("SIM_WORKERS", "8"))
sys.path.insert(0, HERE)
from catalogue import PROPS, REAL_DRIVER, STUB_DRIVER, REAL_LAB, STUB_LAB


class HarnessError(Exception):
    pass


def tree_hash(paths):
    h = hashlib.sha256()
    for top in paths:
        files = [top] if os.path.isfile(top) else sorted(os.path.join(d, f) for d, _, fs in os.walk(top) for f in fs if not f.endswith(".pyc"))
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()[:20]


def build(engine):
    """Build an engine from /repo's working tree; builds are cached by the content of everything they read."""
    if engine == "driver":
        key = tree_hash([f"{REPO}/src", f"{REPO}/include", f"{HERE}/sim/simscip", f"{HERE}/sim/driver", f"{HERE}/sim/build_driver.sh"])
        script, product = "build_driver.sh", "driver"
    else:
        key = tree_hash([f"{REPO}/src", f"{REPO}/include", f"{REPO}/pctsp/pypctsp.cpp", f"{HERE}/sim/simscip", f"{HERE}/sim/ext", f"{HERE}/sim/build_ext.sh"])
        script, product = "build_ext.sh", "libpypctsp.so"
    root = f"{HERE}/.build"
    out = f"{root}/{engine}-{key}"
    if not os.path.exists(f"{out}/{product}"):
        os.makedirs(root, exist_ok=True)
        old = sorted((p for p in os.listdir(root) if p.startswith(engine + "-")), key=lambda p: os.path.getmtime(f"{root}/{p}"))
        for p in old[:-6]:
            shutil.rmtree(f"{root}/{p}", ignore_errors=True)
        tmp = tempfile.mkdtemp(prefix="tmp-", dir=root)
        r = subprocess.run(["bash", f"{HERE}/sim/{script}", tmp, REPO], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 or not os.path.exists(f"{tmp}/{product}"):
            shutil.rmtree(tmp, ignore_errors=True)
            raise HarnessError(f"building the {engine} simulator failed:\n" + r.stdout[-4000:])
        shutil.rmtree(f"{tmp}/obj", ignore_errors=True)
        try:
            os.rename(tmp, out)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return out


def command(engine, built):
    if engine == "driver":
        return [f"{built}/driver"]
    return [VENV_PY, "-B", f"{HERE}/sim/lab/simlab.py", "--repo", REPO, "--ext", built]


def env_for(extra=None):
    e = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    e.update(PYTHONHASHSEED="0", TZ="UTC", LC_ALL="C.UTF-8", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")
    e.update(extra or {})
    return e


class Results:
    def __init__(self):
        self.viol, self.sites, self.stat, self.reach, self.mx, self.samples = [], {}, {}, {}, {}, []
        self.runs, self.simns, self.hashes, self.dump = 0, 0, set(), {}
        self.distinct = 0

    def read(self, path):
        done = False
        with open(path, errors="replace") as f:
            for line in f:
                w = line.rstrip("\n").split(" ")
                if w[0] == "violation":
                    self.viol.append((int(w[1]), w[3], " ".join(w[4:])))
                elif w[0] in ("site", "stat", "reach"):
                    d = {"site": self.sites, "stat": self.stat, "reach": self.reach}[w[0]]
                    d[w[1]] = d.get(w[1], 0) + int(w[2])
                elif w[0] == "max":
                    self.mx[w[1]] = max(self.mx.get(w[1], 0), int(w[2]))
                elif w[0] == "sample":
                    self.samples.append(" ".join(w[1:]))
                elif w[0] == "runs":
                    self.runs += int(w[1])
                elif w[0] == "distinct":
                    self.distinct += int(w[1])
                elif w[0] == "simns":
                    self.simns += int(w[1])
                elif w[0] == "run":
                    self.dump[int(w[1])] = (w[2], w[3])
                elif w[0] == "harness":
                    raise HarnessError("harness error at seed " + w[1] + ": " + " ".join(w[2:]))
                elif w[0] == "done":
                    done = True
        if not done:
            raise HarnessError(f"a worker ended early ({path})")
        if os.path.exists(path + ".hashes"):
            a = array.array("Q")
            with open(path + ".hashes", "rb") as f:
                a.frombytes(f.read())
            self.hashes.update(a)


def campaign(cmd, prop, seed, scratch, count, seconds, workers, dump=False, extra_env=None, offset=0):
    procs = []
    for i in range(workers):
        d = f"{scratch}/w{offset}_{i}"
        os.makedirs(d, exist_ok=True)
        args = cmd + ["campaign", "--prop", prop, "--seed", str(seed), "--from", str(i), "--step", str(workers), "--count", str(count),
                      "--seconds", str(seconds), "--scratch", f"{d}/s", "--out", f"{d}/out"]
        if dump:
            args += ["--dump", "1", "--all", "1"]
        with open(f"{d}/err", "w") as err:
            procs.append((subprocess.Popen(args, stdout=subprocess.DEVNULL, stderr=err, env=env_for(extra_env), cwd=d), d))
    res = Results()
    bad = None
    for p, d in procs:
        try:
            rc = p.wait(timeout=seconds + 240)
        except subprocess.TimeoutExpired:
            p.kill()
            rc = "timeout"
        if rc != 0 and bad is None:
            with open(f"{d}/err", errors="replace") as f:
                tail = f.read()[-2000:]
            out = ""
            if os.path.exists(f"{d}/out"):
                with open(f"{d}/out", errors="replace") as f:
                    out = f.read()[-2000:]
            bad = f"worker ended with {rc}: {tail} {out}"
    if bad:
        raise HarnessError(bad)
    for _, d in procs:
        res.read(f"{d}/out")
    return res


def klass(tag, msg):
    return tag + ":" + re.sub(r"[0-9.]+", "#", msg)[:60]


def run_once(cmd, args, scratch):
    r = subprocess.run(cmd + args + ["--scratch", scratch], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env_for(), timeout=300)
    h = [l for l in r.stdout.splitlines() if l.startswith("hash ")]
    v = [l[5:] for l in r.stdout.splitlines() if l.startswith("viol ")]
    return r.returncode, h[0] if h else "", v


def known_findings(prop):
    out = []
    path = f"{HERE}/known-findings.txt"
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith("{"):
                    k = json.loads(line)
                    if k.get("property") == prop and k.get("status") == "open":
                        out.append(k)
    return out


def check(pid):
    t0 = time.time()
    spec = PROPS[pid]
    prop = spec["tag"]
    engine = spec["engine"]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seconds, count = (spec.get("quick_s", 40), spec.get("quick_n", 60000)) if tier == "quick" else (spec.get("thorough_s", 600), 100000000)
    if "SIM_SECONDS" in os.environ:
        seconds = float(os.environ["SIM_SECONDS"])
    built = build(engine)
    cmd = command(engine, built)
    build_s = time.time() - t0
    scratch = tempfile.mkdtemp(prefix=f"sim-{prop}-")
    try:
        tc = time.time()
        res = campaign(cmd, prop, seed, scratch, count, seconds, WORKERS)
        camp_s = time.time() - tc
        # determinism of this very build, on a sample of this campaign's seeds: other partition, other processes
        det_n = 64 if engine == "driver" else 24
        repeat = "not run (violations found)" if res.viol else f"{det_n} seeds run under 3 and under 8 processes, event hashes equal"
        if not res.viol:
            a = campaign(cmd, prop, seed, scratch, det_n, 120, 3, dump=True, offset=1)
            b = campaign(cmd, prop, seed, scratch, det_n, 120, 8, dump=True, offset=2)
            diff = [s for s in a.dump if a.dump[s] != b.dump.get(s)]
            if len(a.dump) != det_n:
                raise HarnessError(f"only {len(a.dump)} of {det_n} seeds ran")
            if diff:      # the code under test depends on something outside the seed; a violation would still have to replay before it is reported
                repeat = f"{len(diff)} of {det_n} seeds gave another event hash in other processes: {diff[:5]}"
                print("note: " + repeat, file=sys.stderr)
        violations = []
        kf = known_findings(pid)
        hit = {}
        if res.viol:
            seen, errors = set(), []
            for s, tag, msg in sorted(res.viol):
                k = klass(tag, msg)
                if k in seen or len(seen) >= 3:
                    continue
                seen.add(k)
                match = [f for f in kf if re.search(f["match"], msg)]
                os.makedirs(f"{HERE}/replays", exist_ok=True)
                rep = f"{HERE}/replays/{pid}-{s}.case"
                if os.path.exists(rep):
                    os.remove(rep)
                r = subprocess.run(cmd + ["minimise", "--prop", prop, "--seed", str(s), "--seconds", "45", "--scratch", f"{scratch}/min{s}", "--out", rep],
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env_for(), timeout=400)
                if r.returncode != 0:
                    errors.append(f"seed {s} ({tag} {msg}): minimise ended with {r.returncode}: {r.stderr[-500:]}")
                    continue
                x = run_once(cmd, ["replay", "--file", rep], f"{scratch}/r1")
                y = run_once(cmd, ["replay", "--file", rep], f"{scratch}/r2")
                if x != y or x[0] != 1:
                    errors.append(f"seed {s} ({tag} {msg}): the minimised file does not replay: {x} {y}")
                    continue
                if match:
                    for f in match:
                        hit[f["what"]] = True
                    continue
                violations.append((s, rep, x[2][0] if x[2] else msg))
            if errors and not violations:      # fall back to the seeds themselves, unminimised
                for s, tag, msg in sorted(res.viol)[:3]:
                    if any(re.search(f["match"], msg) for f in kf):
                        continue
                    rep = f"{HERE}/replays/{pid}-{s}.case"
                    c = subprocess.run(cmd + ["case", "--prop", prop, "--seed", str(s), "--scratch", f"{scratch}/c"], stdout=subprocess.PIPE, text=True, env=env_for())
                    with open(rep, "w") as f:
                        f.write(f"# property {prop}\n# violation: {tag}: {msg}\n# not minimised\n" + c.stdout)
                    x = run_once(cmd, ["replay", "--file", rep], f"{scratch}/r1")
                    y = run_once(cmd, ["replay", "--file", rep], f"{scratch}/r2")
                    if x == y and x[0] == 1:
                        violations.append((s, rep, x[2][0] if x[2] else msg))
                        break
            for e in errors:
                print("unreproducible: " + e, file=sys.stderr)
            if errors and not violations:
                raise HarnessError("a violation was seen but did not reproduce")
        for f in kf:
            print(f"KNOWN-FINDING: property={pid} {f['what']}")
        det = {"runs_per_hour": int(res.runs / max(camp_s, 1e-9) * 3600), "seeds_per_hour": int(res.runs / max(camp_s, 1e-9) * 3600), "simulated_seconds": round(res.simns / 1e9, 3),
               "faults_injected": {k[6:]: v for k, v in sorted(res.stat.items()) if k.startswith("fault_") and v},
               "schedule_decisions": dict(sorted(res.sites.items())),
               "rare_condition_probes": dict(sorted(res.reach.items())), "counters": {k: v for k, v in sorted(res.stat.items()) if not k.startswith("fault_")}, "maxima": res.mx,
               "repeatability": repeat,
               "components_real": REAL_DRIVER if engine == "driver" else REAL_LAB, "components_simulated": STUB_DRIVER if engine == "driver" else STUB_LAB}
        ev = {"property": pid, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
              "coverage": {"evaluations": res.runs, "distinct_nontrivial": len(res.hashes), "rule": spec["rule"] + " Distinct: different event hash (every scheduler and fault decision taken plus the observed results).",
                           "samples": sorted(res.samples)[:4] or ["none"], **det},
              "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "build_s": round(build_s, 2), "violations": len(violations)}
        os.makedirs(f"{HERE}/evidence", exist_ok=True)
        with open(f"{HERE}/evidence/{pid}.json", "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        print(f"{pid} {prop}: {res.runs} runs in {camp_s:.1f} s (build {build_s:.1f} s), {len(res.hashes)} distinct non-trivial, {res.simns / 1e9:.1f} s simulated, {sum(det['faults_injected'].values())} faults injected")
        if violations:
            for s, rep, msg in violations:
                print(f"seed {s}: {msg}")
                print(f"VIOLATION property={pid} replay={rep}")
            return 1
        missing = [p for p in spec.get("probes", []) if not res.reach.get(p) and not res.stat.get(p)]
        if missing and res.runs > 2000:
            print("note: probes at zero: " + ", ".join(missing), file=sys.stderr)
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def determinism(prop, count):
    engine, prop = PROPS[prop]["engine"], PROPS[prop]["tag"]
    cmd = command(engine, build(engine))
    scratch = tempfile.mkdtemp(prefix=f"det-{prop}-")
    try:
        a = campaign(cmd, prop, 11, scratch, count, 3000, 8, dump=True, offset=1)
        b = campaign(cmd, prop, 11, scratch, count, 3000, 5, dump=True, offset=2, extra_env={"PYTHONHASHSEED": "123"})
        diff = [s for s in a.dump if a.dump[s] != b.dump.get(s)]
        print(f"{prop}: {len(a.dump)} seeds compared, {len(diff)} differ {diff[:5]}")
        return 1 if diff else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main(argv):
    try:
        if argv and argv[0] == "replay":
            with open(argv[1]) as f:
                m = re.search(r"^# property (\S+)", f.read(), re.M)
            engine = next(p["engine"] for p in PROPS.values() if p["tag"] == m.group(1))
            scratch = tempfile.mkdtemp(prefix="replay-")
            try:
                rc, h, v = run_once(command(engine, build(engine)), ["replay", "--file", os.path.abspath(argv[1])], f"{scratch}/s")
            finally:
                shutil.rmtree(scratch, ignore_errors=True)
            print(h)
            for x in v:
                print(x)
            return rc
        if argv and argv[0] == "determinism":
            return determinism(argv[1], int(argv[2]) if len(argv) > 2 else 2000)
        if argv and argv[0] == "build":
            for e in sorted({p["engine"] for p in PROPS.values()}):
                print(e, build(e))
            return 0
        return check(argv[0])
    except HarnessError as e:
        print(f"check failed: {e}", file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
