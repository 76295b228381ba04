"""simlab.py --repo REPO --ext BUILT  campaign|case|run|replay|minimise ...
Runs seeded executions of the experiment lab. The parent process imports the real code once; every run is a forked child of it."""
import argparse, array, gc, json, os, re, resource, select, shutil, signal, struct, sys, time
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
CPU_S, WALL_S = 25, 200
CRASH_TAGS = {"vial-isolation", "result-truthful", "batch-coverage", "single-run", "missing-resume", "schedule-independence", "result-durability", "readers-survive", "csv-export"}


class Harness(Exception):
    pass


def execute(case, root, want_dec=False):
    """Fork a child that runs the case; returns its report."""
    import scenario
    shutil.rmtree(root, ignore_errors=True); r, wfd = os.pipe(); pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r); resource.setrlimit(resource.RLIMIT_CPU, (CPU_S, CPU_S + 5)); resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            w = scenario.run_case(case, root)
            rep = {"viol": w.viol, "stats": w.stats, "sites": w.dec.sites, "reach": sorted(w.reach), "hash": w.h.hexdigest(), "non": bool(scenario.nontrivial(case["prop"], w)), "simns": w.now_ns - w.t0,
                   "steps": w.steps, "ndec": len(w.dec.out), "tasks": len(w.all_tasks)}
            if want_dec: rep["dec"] = w.dec.out; rep["trace"] = w.trace
            out = json.dumps(rep).encode()
        except BaseException:
            import traceback
            out = json.dumps({"harness": traceback.format_exc()[-3000:]}).encode(); code = 3
        try:
            import simos
            wr = simos._real["write"]
            while out: out = out[wr(wfd, out):]
        finally:
            os._exit(code)
    os.close(wfd); buf = b""; end = time.time() + WALL_S; hung = False
    while True:
        rl, _, _ = select.select([r], [], [], max(0, end - time.time()))
        if not rl:
            hung = True; os.kill(pid, signal.SIGKILL); break
        b = os.read(r, 1 << 16)
        if not b: break
        buf += b
    os.close(r); _, st = os.waitpid(pid, 0); shutil.rmtree(root, ignore_errors=True)
    if hung: raise Harness("the run hangs without using the processor")
    if os.WIFSIGNALED(st):
        sig = os.WTERMSIG(st); tag = case["prop"]; rep = {"viol": [], "stats": {"crashed_runs": 1}, "sites": {}, "reach": [], "hash": f"{sig:016x}", "non": False, "simns": 0, "steps": 0, "ndec": 0, "tasks": 0, "dec": [], "trace": []}
        if sig in (signal.SIGXCPU, signal.SIGKILL): rep["viol"] = [[tag, f"the run does not end: {CPU_S} s of processor time used"]]
        elif tag in CRASH_TAGS: rep["viol"] = [[tag, f"a pctsp process was ended by signal {signal.Signals(sig).name} inside native code"]]
        return rep
    try: rep = json.loads(buf)
    except ValueError: raise Harness(f"a run ended with {st} and no report: {buf[-300:]!r}")
    if "harness" in rep: raise Harness(rep["harness"])
    return rep


def klass(v): return v[0] + ":" + re.sub(r"[0-9.]+|'[^']*'|\[[^\]]*\]|\([^)]*\)", "#", v[1])[:45]


def own(case, rep):
    """The violations of the property under check, first ones first."""
    return [v for v in rep["viol"] if v[0] == case["prop"]]


def gen(prop, seed):
    import scenario
    return scenario.gen(prop, seed)


def campaign(a):
    out = open(a.out, "w"); tot = {"site": {}, "stat": {}, "reach": {}}; mx = {}; hashes = set(); samples = []; runs = simns = nviol = 0; t0 = time.time(); i = a.start; other = {}
    while i < a.count and time.time() - t0 < a.seconds:
        seed = a.seed * 1000003 + i; case = gen(a.prop, seed)
        try: rep = execute(case, os.path.join(a.scratch, f"r{i}"))
        except Harness as e:
            out.write(f"harness {seed} {str(e).strip()[-1500:]!r}\n"); out.close(); return 3
        runs += 1; simns += rep["simns"]; i += a.step; ov = own(case, rep)
        for k, n in rep["sites"].items(): tot["site"][k] = tot["site"].get(k, 0) + n
        for k, n in rep["stats"].items(): tot["stat"][k] = tot["stat"].get(k, 0) + n
        for k in rep["reach"]: tot["reach"][k] = tot["reach"].get(k, 0) + 1
        for k in ("steps", "ndec", "tasks"): mx[k] = max(mx.get(k, 0), rep[k])
        if rep["non"]: hashes.add(int(rep["hash"], 16))
        if len(samples) < 4 and rep["non"]: samples.append(f"seed {seed}: {len(case['vials'])} vials, {rep['tasks']} processes, {rep['steps']} steps, faults " + (", ".join(f"{k[6:]} {n}" for k, n in sorted(rep["stats"].items()) if k.startswith("fault_")) or "none"))
        if a.dump: out.write(f"run {seed} {rep['hash']} {len(ov)}\n")
        for v in rep["viol"]:
            if v[0] != a.prop: other[klass(v)] = (seed, v)
        if ov:
            nviol += 1; out.write(f"violation {seed} {len(ov)} {ov[0][0]} {ov[0][1]}\n".replace("\r", " ")); out.flush()
            if nviol >= 5 and not a.all: break
    for kind, d in tot.items():
        for k, n in sorted(d.items()): out.write(f"{kind} {k} {n}\n")
    for k, n in sorted(mx.items()): out.write(f"max {k} {n}\n")
    for s in samples: out.write(f"sample {s}\n")
    for k, (s, v) in sorted(other.items()): out.write(f"other {s} {v[0]} {v[1]}\n")
    out.write(f"runs {runs}\ndistinct {len(hashes)}\nsimns {simns}\nwall {time.time() - t0:.2f}\ndone\n"); out.close()
    with open(a.out + ".hashes", "wb") as f: array.array("Q", sorted(hashes)).tofile(f)
    return 0


def load_case(path):
    with open(path) as f: lines = f.read().split("\n")
    body = "\n".join(l for l in lines if not l.startswith("#") and not l.startswith("prop ")); return json.loads(body)


def get(a): return load_case(a.file) if a.file else gen(a.prop, a.seed)


def dump_case(case): return f"prop {case['prop']}\n" + json.dumps(case, separators=(",", ":")) + "\n"


def minimise(a):
    case = get(a); n = [0]; end = time.time() + a.seconds

    def run(c):
        n[0] += 1; return execute(c, os.path.join(a.scratch, "m"), True)
    r1 = run(case); v = own(case, r1)
    if not v: print("does not fail"); return 4
    r2 = run(case)
    if r2["hash"] != r1["hash"] or r2["viol"] != r1["viol"]: print("not repeatable"); return 3
    want = klass(v[0]); cur, rep = case, r1

    def fails(c):
        if time.time() > end: return None
        try: r = run(c)
        except Harness: return None
        return r if any(klass(x) == want for x in own(c, r)) else None
    # smaller cases, decisions drawn afresh from the seed
    import copy
    changed = "dec" not in case or case.get("dec") is None
    while changed and time.time() < end - a.seconds / 2:
        changed = False; cands = []
        for k in range(len(cur["vials"])):
            if len(cur["vials"]) > 1:
                c = copy.deepcopy(cur); del c["vials"][k]; c["batch"] = min(c["batch"], len(c["vials"]) + 1); cands.append(c)
        for k, z in (("readers", []), ("dup", False), ("kills", 0), ("ios", 0), ("natives", 0), ("powers", 0), ("disk", None), ("rerun", False), ("wave", 1), ("concurrent", False), ("plant", False), ("nsetup", 1)):
            if cur.get(k) not in (None, z): c = copy.deepcopy(cur); c[k] = z; cands.append(c)
        for k in list(cur["faults"]):
            if cur["faults"][k]: c = copy.deepcopy(cur); c["faults"][k] = 0; cands.append(c)
        for c in cands:
            for s in range(1 if c["faults"].get("switch") == 0 and not c["kills"] else 3):
                d = dict(c, dec_seed=cur.get("dec_seed", cur["seed"]) + s)
                r = fails(d)
                if r: cur, rep, changed = d, r, True; break
            if changed: break
    dec = list(rep.get("dec") or []); c = dict(cur, dec=dec); r = fails(c)
    if r:
        cur, rep = c, r; lo = len(dec)
        while lo > 0 and dec[lo - 1] == 0: lo -= 1
        dec = dec[:lo]; size = max(1, len(dec) // 2)
        while size >= 1 and time.time() < end:
            i = 0; hit = False
            while i < len(dec) and time.time() < end:
                if any(dec[i:i + size]):
                    t = dec[:i] + [0] * min(size, len(dec) - i) + dec[i + size:]
                    while t and t[-1] == 0: t.pop()
                    r = fails(dict(cur, dec=t))
                    if r: dec, rep, hit = t, r, True
                i += size
            if size == 1 and not hit: break
            size = size // 2 if size > 1 else (1 if hit else 0)
        cur = dict(cur, dec=dec)
    rep = run(cur); v = own(cur, rep)
    if not v: print("lost while minimising"); return 3
    first = next((x for x in v if klass(x) == want), v[0])
    with open(a.out, "w") as f:
        f.write(f"# property {cur['prop']}\n# violation: {first[0]}: {first[1]}\n# found with seed {case['seed']}; minimised in {n[0]} runs to {sum(1 for x in cur.get('dec') or [] if x)} non-default decisions, {len(cur['vials'])} vials\n")
        f.write("# last events before the violation:\n")
        tr = rep.get("trace", []); k = next((i for i, x in enumerate(tr) if x.startswith("VIOLATION")), len(tr))
        for x in tr[max(0, k - 60): k + 1]: f.write("#   " + x.replace("\n", " ")[:200] + "\n")
        f.write(dump_case(cur))
    return 0


def main():
    p = argparse.ArgumentParser(); p.add_argument("--repo"); p.add_argument("--ext"); p.add_argument("mode"); p.add_argument("--prop"); p.add_argument("--seed", type=int, default=1); p.add_argument("--from", dest="start", type=int, default=0)
    p.add_argument("--step", type=int, default=1); p.add_argument("--count", type=int, default=10); p.add_argument("--seconds", type=float, default=60); p.add_argument("--scratch"); p.add_argument("--out"); p.add_argument("--dump", type=int, default=0)
    p.add_argument("--all", type=int, default=0); p.add_argument("--file"); p.add_argument("--trace", type=int, default=0); a = p.parse_args()
    if a.mode == "case":
        print(dump_case(gen(a.prop, a.seed)), end=""); return 0
    import scenario
    scenario.load(a.repo, os.path.join(a.ext, "libpypctsp.so")); a.scratch = os.path.abspath(a.scratch); os.makedirs(a.scratch, exist_ok=True); gc.collect(); gc.freeze()
    try:
        if a.mode == "campaign": return campaign(a)
        if a.mode == "minimise": return minimise(a)
        case = get(a)
        try: rep = execute(case, os.path.join(a.scratch, "r"), bool(a.trace))
        except Harness as e:
            print("harness", e, file=sys.stderr); return 3
        print("hash", rep["hash"])
        for v in own(case, rep): print("viol", v[0] + ": " + v[1])
        for v in rep["viol"]:
            if v[0] != case["prop"]: print("other", v[0] + ": " + v[1])
        if a.trace:
            for x in rep["trace"]: print("  ", x)
            print(json.dumps({k: rep[k] for k in ("stats", "reach", "steps", "ndec", "simns", "non")}))
        return 1 if own(case, rep) else 0
    finally:
        shutil.rmtree(a.scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
