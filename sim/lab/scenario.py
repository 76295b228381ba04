"""What one simulated run of the experiment lab does, and what it checks.

A case is a dictionary drawn from a seed. run_case() builds a scratch lab with small synthetic OPLib and London air-quality
instances, then drives the real pctsp command line through the simulated machine room of simos.py."""
import ctypes, json, math, os, random, re, subprocess, sys, types
from pathlib import Path
from uuid import UUID
import simos
from simos import SimKilled, Stuck, World, Dec

ext = None          # ctypes handle of libpypctsp.so
ext_heap = None     # the simulated heap
real_ext = None     # the extension module itself
CTX = None          # context of the current run
CMD = None

T0 = 1_700_000_000 * 10**9
FAULTFREE = {"switch": 300}


# ------------------------------------------------------------------ seams put in before pctsp is imported
class Model:
    """pyscipopt.Model over the simulated SCIP."""
    STATUS = {0: "unknown", 1: "userinterrupt", 2: "nodelimit", 5: "timelimit", 6: "memlimit", 11: "optimal", 12: "infeasible", 13: "unbounded"}

    def __init__(self, problemName="model", defaultPlugins=True, sourceModel=None, origcopy=False, globalcopy=True, enablepricing=False, createscip=True, threadsafe=False):
        self.problemName = problemName; self._p = ext.sim_model_new(problemName.encode())

    def to_ptr(self, give_ownership):
        f = ctypes.pythonapi.PyCapsule_New; f.restype = ctypes.py_object; f.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_void_p]
        return f(self._p, b"scip", None)

    def getStatus(self): return STATUS_NAMES.get(ext.sim_model_status(self._p), "unknown")
    def freeProb(self): ext.sim_model_freeprob(self._p)
    def hideOutput(self, quiet=True): pass
    def setIntParam(self, *a): pass
    def setRealParam(self, *a): pass
    def setBoolParam(self, *a): pass
    def setLogfile(self, *a): pass


STATUS_NAMES = {}


def _wrap(name, fn):
    def g(*a, **k):
        c = CTX
        if c is None or c.w.current is None:
            return fn(*a, **k)
        w = c.w; solve = name == "solve_pctsp_bind"; w.point("native", name)
        if c.case["prop"] == "run-as-recorded": c.calls.setdefault(w.current.name, []).append((name, dict(zip(SIGS.get(name, []), map(plain, a)))))
        ext_heap.heap_salt((c.case["heap"] * 1000003 + w.current.pid) if c.case["heap"] else 0); ext_heap.heap_window(1)
        try:
            r = _native(c, w, name, fn, solve, a, k)
        finally:
            ext_heap.heap_window(0)
        w.point("native-end", name); return r
    return g


SIGS = {}


def plain(x):
    return dict(x) if isinstance(x, dict) else list(x) if isinstance(x, (list, tuple)) else x


def signatures(text):
    """Names of the parameters of every native entry point, from its definition."""
    out = {}
    for b, fn in re.findall(r'm\.def\(\s*"(\w+)"\s*,\s*&(\w+)', text):
        m = re.search(r"\b" + fn + r"\(([^{;]*)\)\s*\{", text)
        if not m: continue
        names, depth, cur = [], 0, ""
        for ch in m.group(1) + ",":
            depth += (ch in "<(") - (ch in ">)")
            if ch == "," and depth == 0:
                ids = re.findall(r"\w+", cur.split("=")[0]); names.append(ids[-1] if ids else "?"); cur = ""
            else: cur += ch
        out[b] = names
    return out


def _native(c, w, name, fn, solve, a, k):
        if w.native_left > 0 and w.dec.chance(w.f.get("native", 0), "native_error"):
            # the native code fails: out of memory, or an error of the solver, before or after its work
            kind = w.dec.choose(4, "native_how"); w.native_left -= 1; w.count("fault_native_error"); w.hits.append((w.current.name, "native", c.base + "/" + name)); w.ev("native_error", name, kind)
            if kind & 1: _native1(c, w, name, fn, solve, a, k)
            raise (MemoryError("std::bad_alloc") if kind < 2 else RuntimeError("SCIP ERROR: RETCODE::NOMEMORY"))
        return _native1(c, w, name, fn, solve, a, k)


def _native1(c, w, name, fn, solve, a, k):
        if not solve:
            r = fn(*a, **k); w.now_ns += 3_000_000; return r
        if os.environ.get("SIM_DUMP"): w.ev("solve-args", *a[1:])
        m = a[0]; vid = m.problemName; seed = (c.case["solver_seed"] * 1000003 + int(re.sub(r"\W", "", vid)[:8] or "0", 16)) & (2**63 - 1) if re.fullmatch(r"[0-9a-f-]{36}", vid) else c.case["solver_seed"]
        knobs = c.case.get("knobs", []); arr = (ctypes.c_int * max(1, len(knobs)))(*knobs); now0 = w.now_ns; skew = w.skew[w.current.node]
        if w.kills_left > 0 and w.current.killable and w.dec.chance(w.f.get("kill_solve", 0), "kill_in_solver"):
            at = 1 + w.dec.choose(400, "kill_at"); w.kills_left -= 1; pid = os.fork()
            if pid == 0:                    # what a kill in mid-solve leaves behind
                try:
                    ext.sim_begin(seed, now0 + skew, arr, len(knobs)); ext.sim_set_lp_cost(c.case["lp_cost_ns"]); ext.sim_kill_at(at); fn(*a, **k)
                finally:
                    os._exit(0)
            os.waitpid(pid, 0); w.count("fault_kill_in_solver"); w.mutated(None); w.current.dead = True; raise SimKilled()
        ext.sim_begin(seed, now0 + skew, arr, len(knobs)); ext.sim_set_lp_cost(c.case["lp_cost_ns"])
        try:
            r = fn(*a, **k)
        finally:
            w.now_ns += max(0, ext.sim_elapsed()); w.count("solves"); w.count("lps", ext.sim_stat(0)); w.count("fault_solver_limit", ext.sim_stat(4) + ext.sim_stat(3))
        st = STATUS_NAMES.get(ext.sim_model_status(m._p), "?"); c.status.setdefault(vid, []).append(st); c.span[vid] = (now0 + skew, w.now_ns + skew); w.ev("solved", vid, st, hex(ext.sim_hash())); w.reach.add("status_" + st)
        if c.slow_ns: w.now_ns += c.slow_ns     # the solve used up its time limit
        return r


def load(repo, so):
    """Import the real pctsp over the seams; done once per worker."""
    global ext, ext_heap, real_ext, CMD
    sys.dont_write_bytecode = True; sys.path.insert(0, repo)
    import importlib.util, warnings
    warnings.simplefilter("ignore")
    ext_heap = ctypes.CDLL(os.path.join(os.path.dirname(so), "libsimheap.so"), mode=ctypes.RTLD_GLOBAL); ext_heap.heap_salt.argtypes = [ctypes.c_ulonglong]
    if not ext_heap.heap_init(): raise SystemExit("the simulated heap is not available")
    ext = ctypes.CDLL(so); ext.sim_model_new.restype = ctypes.c_void_p; ext.sim_model_new.argtypes = [ctypes.c_char_p]
    for f, a, r in (("sim_begin", [ctypes.c_ulonglong, ctypes.c_longlong, ctypes.POINTER(ctypes.c_int), ctypes.c_int], None), ("sim_set_lp_cost", [ctypes.c_longlong], None), ("sim_kill_at", [ctypes.c_long], None),
                    ("sim_elapsed", [], ctypes.c_longlong), ("sim_hash", [], ctypes.c_ulonglong), ("sim_stat", [ctypes.c_int], ctypes.c_long), ("sim_model_status", [ctypes.c_void_p], ctypes.c_int), ("sim_model_freeprob", [ctypes.c_void_p], None)):
        getattr(ext, f).argtypes = a; getattr(ext, f).restype = r
    spec = importlib.util.spec_from_file_location("libpypctsp", so); real_ext = importlib.util.module_from_spec(spec); spec.loader.exec_module(real_ext)
    with open(os.path.join(repo, "pctsp", "pypctsp.cpp")) as f: SIGS.update(signatures(re.sub(r"//[^\n]*|/\*.*?\*/", "", f.read(), flags=re.S)))
    proxy = types.ModuleType("pctsp.libpypctsp")
    for n in dir(real_ext):
        if not n.startswith("__"):
            setattr(proxy, n, _wrap(n, getattr(real_ext, n)))
    ps = types.ModuleType("pyscipopt"); ps.Model = Model; sub = types.ModuleType("pyscipopt.scip"); sub.Model = Model; ps.scip = sub
    sys.modules["pyscipopt"] = ps; sys.modules["pyscipopt.scip"] = sub; sys.modules["pctsp.libpypctsp"] = proxy
    import pctsp
    if not os.path.realpath(pctsp.__file__).startswith(os.path.realpath(repo) + os.sep):
        raise SystemExit("pctsp was not imported from " + repo)
    import pctsp.apps, pctsp.lab, pctsp.apps.main_app, pctsp.apps.csv_app, pctsp.apps.utils_app, pctsp.compare.params
    import datetime as dtm, typer, logging, pandas, networkx, yaml, zipfile, tempfile, shutil, tspwplib  # noqa

    class SimDatetime(dtm.datetime):
        @classmethod
        def now(cls, tz=None):
            n = CTX.w.clock() if CTX else 0
            if CTX: CTX.w.point("clock", "", False)
            b = dtm.datetime(1970, 1, 1, tzinfo=dtm.timezone.utc) + dtm.timedelta(microseconds=n // 1000)
            if tz: return b.astimezone(tz)
            return b.replace(tzinfo=None) + dtm.timedelta(minutes=CTX.case.get("tz", 0) if CTX else 0)      # the machine's local time
        @classmethod
        def utcnow(cls): return cls.now(dtm.timezone.utc).replace(tzinfo=None)
        @classmethod
        def today(cls): return cls.now()
    dmod = types.ModuleType("datetime"); dmod.__dict__.update(dtm.__dict__); dmod.datetime = SimDatetime
    for name, m in list(sys.modules.items()):
        if name == "pctsp" or name.startswith("pctsp."):
            for k, v in list(vars(m).items()):
                if v is dtm.datetime: setattr(m, k, SimDatetime)
                elif v is dtm: setattr(m, k, dmod)
    CMD = typer.main.get_command(pctsp.apps.main_app.app)
    logging.raiseExceptions = False
    # warm everything that is imported lazily, so that runs only touch the simulated files
    pandas.DataFrame([{"a": 1}]).to_csv(os.devnull); yaml.safe_load("a: 1")


# ------------------------------------------------------------------ instances
LAQ = ["laqtinyA", "laqkxA", "laqbbA", "laqidA", "laqwsA"]
OPL = ["st70", "eil51", "rat195", "eil76", "pr152"]


def gen_inst(r, dataset):
    n = r.randint(4, 6) if r.random() < 0.8 else r.choice([7, 7, 8, 9]) if dataset == "londonaq" else 7
    if dataset == "londonaq":
        lab = sorted(r.sample(range(0, 60), n)) if r.random() < 0.6 else list(range(n)); r.shuffle(lab); E = {}
        k = r.randint(3, n)          # a ring through the root, chords, pendant parts
        for i in range(k):
            E[(i, (i + 1) % k)] = 0
        for v in range(k, n):
            for u in r.sample(range(v), r.randint(1, 2)):
                E[(u, v)] = 0
        shape = r.choice(["any", "any", "root_cut", "chain", "apart"])
        if shape == "root_cut" and n >= 5:      # two rings that share only the root: the root is a cut vertex
            k = r.randint(3, n - 2); E = {}
            for ring in ([0] + list(range(1, k)), [0] + list(range(k, n))):
                E.update({(ring[i], ring[(i + 1) % len(ring)]): 0 for i in range(len(ring))})
        elif shape == "chain" and n >= 5:       # a path of length two or more that leads nowhere
            k = r.randint(3, n - 2); E = {(i, (i + 1) % k): 0 for i in range(k)}; E.update({(v - 1 if v > k else r.randrange(k), v): 0 for v in range(k, n)})
        elif shape == "apart" and n >= 5:       # a part that the root cannot reach
            k = r.randint(3, n - 2); E = {(i, (i + 1) % k): 0 for i in range(k)}; E.update({(v, v + 1): 0 for v in range(k, n - 1)})
        side = [(0 < v) + (v >= k) for v in range(n)]; poor = r.random() < .25
        for _ in range(r.randint(0, n)):
            u, v = sorted(r.sample(range(n), 2))
            if shape != "any" and n >= 5 and (v >= k or r.random() < .5) and not (shape == "root_cut" and side[u] == side[v]): continue
            if (u, v) not in E and (v, u) not in E:
                E[(u, v)] = 0
        return {"n": n, "labels": lab, "edges": [[lab[u], lab[v], r.randint(1, 12)] for u, v in E], "prize": {str(lab[i]): (r.choice([0, 0, r.randint(1, 9)]) if poor else r.randint(1, 9)) if i or r.random() < .5 else 0 for i in range(n)}, "root": lab[0]}
    poor = r.random() < .2
    return {"n": n, "xy": [[r.randint(0, 20), r.randint(0, 20)] for _ in range(n)], "score": {g: [0] + [r.choice([0, r.randint(1, 9)]) if poor else r.randint(1, 9) for _ in range(n - 1)] for g in GENS}}


def write_inst(w, base, dataset, name, inst, gens):
    if dataset == "londonaq":
        adj, wt, dem = {}, {}, {}
        for u, v, c in inst["edges"]:
            adj.setdefault(u, []).append(v); wt.setdefault(u, []).append([v, c])
        import networkx as nx
        from tspwplib.problem import PrizeCollectingTSP
        G = nx.Graph(); G.add_nodes_from(inst["labels"]); G.add_weighted_edges_from(map(tuple, inst["edges"]))
        for v in inst["labels"]:
            G.nodes[v]["demand"] = inst["prize"][str(v)]; G.nodes[v]["is_depot"] = v == inst["root"]
        d = os.path.join(base, "londonaq_data", name); os.makedirs(d, exist_ok=True)
        PrizeCollectingTSP.from_networkx(name, "sim", "PCTSP", G).to_yaml(Path(d) / f"{name}.yaml")
        with open(os.path.join(d, f"{name}.yaml"), "a") as f:
            f.write("capacity: null\ndisplay_data: null\n")
        return
    n = inst["n"]
    for g in gens:
        d = os.path.join(base, "oplib", "instances", g); os.makedirs(d, exist_ok=True)
        t = f"NAME : {name}\nCOMMENT : sim\nTYPE : OP\nDIMENSION : {n}\nCOST_LIMIT : 100\nEDGE_WEIGHT_TYPE : EUC_2D\nNODE_COORD_SECTION\n"
        t += "".join(f"{i+1} {x} {y}\n" for i, (x, y) in enumerate(inst["xy"])) + "NODE_SCORE_SECTION\n" + "".join(f"{i+1} {s}\n" for i, s in enumerate(inst["score"][g])) + "DEPOT_SECTION\n1\n-1\nEOF\n"
        with open(os.path.join(d, f"{name}-{g}-50.oplib"), "w") as f:
            f.write(t)


def ref_graph(c, dc):
    """The graph a vial is about, built from the instance alone."""
    import networkx as nx, tspwplib
    name = dc.graph_name.value; inst = c.case["insts"][name]; st = random.getstate()
    G = nx.Graph()
    if c.ds == "londonaq":
        for u, v, cost in inst["edges"]:
            G.add_edge(u, v, cost=cost)
        nx.set_node_attributes(G, {v: inst["prize"][str(v)] for v in G}, "prize"); root = inst["root"]
    else:
        n = inst["n"]
        for i in range(1, n + 1):
            for j in range(i, n + 1):
                (a, b), (x, y) = inst["xy"][i - 1], inst["xy"][j - 1]; G.add_edge(i, j, cost=math.ceil(math.hypot(a - x, b - y)))
        for i in range(1, n + 1):
            G.nodes[i]["prize"] = inst["score"][dc.generation.value][i - 1]
        root = 1
        from tspwplib import ProfitsProblem, BaseTSP
        p = ProfitsProblem().load(os.path.join(c.base, "oplib", "instances", dc.generation.value, f"{name}-{dc.generation.value}-50.oplib"))
        H = BaseTSP.from_tsplib95(p).get_graph(); K = nx.Graph()      # same node and edge order as the library, so that the library's seeded sparsification agrees
        for u, v in H.edges():
            K.add_edge(u, v, cost=G[u][v]["cost"])
        for v in K:
            K.nodes[v]["prize"] = G.nodes[v]["prize"]
        G = K
    if dc.kappa:
        G = tspwplib.sparsify_uid(G, dc.kappa)
    cf = dc.cost_function.value
    if cf == "UNIFORM_RANDOM":
        nx.set_edge_attributes(G, tspwplib.uniform_random_cost(list(G.edges())), name="cost")
    elif cf == "MST":
        nx.set_edge_attributes(G, tspwplib.mst_cost(G, cost_attr="cost"), name="cost")
    elif cf == "SEMI_MST":
        nx.set_edge_attributes(G, tspwplib.semi_mst_cost(G, cost_attr="cost"), name="cost")
    random.setstate(st)
    return G, root


def best_tour(G, root, quota):
    """Cost of the cheapest simple cycle through the root with at least the quota, or None."""
    best = [None]; pr = {v: G.nodes[v]["prize"] for v in G}
    if root not in G:
        return None

    def rec(v, seen, cost, prize):
        if best[0] is not None and cost >= best[0]:
            return
        for u in G[v]:
            c2 = cost + G[v][u]["cost"]
            if u == root and len(seen) >= 3 and prize >= quota and (best[0] is None or c2 < best[0]):
                best[0] = c2
            if u not in seen:
                seen.add(u); rec(u, seen, c2, prize + pr[u]); seen.discard(u)
    rec(root, {root}, 0, pr[root]); return best[0]


def cycle_costs(c, v):
    """For every vertex on a cycle through the root, the cost of the cheapest such cycle."""
    G, root = c.graph(v); out = {}

    def rec(x, path, cost):
        for u in G[x]:
            c2 = cost + G[x][u]["cost"]
            if u == root and len(path) >= 3:
                for y in path:
                    if y not in out or c2 < out[y]: out[y] = c2
            if u not in path: rec(u, path + [u], c2)
    if root in G: rec(root, [root], 0)
    return out


def on_cycle(G, root):
    return best_tour(G, root, -10**9) is not None


# ------------------------------------------------------------------ cases
GENS = ["gen1", "gen2", "gen3"]
HEUR = ["bfs_extension_collapse", "bfs_path_extension_collapse", "suurballes_extension_collapse", "suurballes_heuristic", "suurballes_path_extension_collapse"]
TAGS = ["result-durability", "experiment-atomic", "readers-survive", "missing-resume", "batch-coverage", "slurm-script", "vial-isolation", "result-truthful", "schedule-independence", "csv-export", "archive-roundtrip", "single-run", "run-as-recorded", "experiment-design", "dataset-stats"]


def gen_vial(r, case, fail_ok):
    ds = case["dataset"]; names = list(case["insts"]); g = r.choice(names); inst = case["insts"][g]
    gn = r.choice(GENS); tot = sum(inst["prize"].values()) if ds == "londonaq" else sum(inst["score"][gn])
    alg = r.choice(HEUR + ["solve_pctsp"] * 4); v = {"graph": g, "alg": alg, "quota": max(1, r.randint(1, tot + 1) if r.random() < .9 else tot + 5), "gen": gn,
         "kappa": r.choice([None, None, 2, 3]) if ds == "tspwplib" else None, "cost": r.choice(["EUC_2D", "MST", "UNIFORM_RANDOM", "SEMI_MST"]) if ds == "tspwplib" else "EXPLICIT",
         "pre": [r.random() < .3, r.random() < .3, r.random() < .7], "fail": None}
    if alg == "solve_pctsp":
        v.update(heur=r.choice([None, None] + HEUR), dp=r.random() < .4, sp=r.random() < .4, depth=r.choice([-1, 0, 1]), strat=r.choice([0, 1, 2, 4]), dt=True, mf=r.random() < .7, tail=r.choice([-1, -1, 0, 3, 5]), thr=0.001, freq=r.choice([1, 1, 1, 0, 2, -1]), tl=r.choice([10.0, 600.5, 14400.0, 14400.0]))
        if v["mf"] and r.random() < .15: v["dt"] = False
        if r.random() < .2: v.update(depth=r.choice([2, 5, 10]), thr=r.choice([0.0, 0.01, 0.05]), tail=r.choice([1, 2, 10]))
    v.update(step=r.choice([None, 1, 2, 10]), depthlim=r.choice([None, 2, 3]), collapse=r.choice([None, False, True]))
    if fail_ok and r.random() < .3:
        v["fail"] = r.choice(["relaxation", "cutoff", "disjoint"])
    return v


def gen(prop, seed):
    r = random.Random(seed * 7919 + 13); ds = r.choice(["londonaq", "londonaq", "tspwplib"])
    if prop == "schedule-independence": ds = r.choice(["londonaq", "tspwplib"])
    case = {"prop": prop, "seed": seed, "dataset": ds, "solver_seed": r.randrange(2**31), "lp_cost_ns": r.choice([5_000_000, 200_000_000, 5_000_000]), "heap": r.choice([0, 0, r.randrange(1, 10**6)]), "tz": r.choice([0, 0, 60, -480, 330]), "knobs": [0, 0, 0, 0, -1, -1, -1, 0, 0, 0]}
    names = r.sample(LAQ if ds == "londonaq" else OPL, 1 if prop == "schedule-independence" and r.random() < .5 else r.randint(1, 2)); small = prop in ("archive-roundtrip", "experiment-atomic", "slurm-script", "batch-coverage")
    case["insts"] = {n: gen_inst(r, ds) for n in names}
    case["exp"] = r.choice(["compare_heuristics", "cost_cover", "tailing_off", "dryrun", "baseline"])
    nv = r.choice([1, 2, 3, 4, 5, 6, 8] if not small else [1, 2, 3, 4, 5, 7, 9, 12]); many = r.random() < (.1 if small else .04); nv = r.choice([14, 21, 30] if small else [11, 13]) if many else nv; fail_ok = prop in ("vial-isolation", "missing-resume", "readers-survive", "csv-export", "schedule-independence")
    case["vials"] = [gen_vial(r, case, fail_ok) for _ in range(nv)]
    if small:
        for v in case["vials"]:
            if v["alg"] == "solve_pctsp" and r.random() < .7:
                v.update(alg=r.choice(HEUR))
    case["batch"] = r.randint(1, nv + 1); case["wave"] = r.randint(1, 4); case["dup"] = r.random() < .3; case["readers"] = []
    case["setup"] = "api"; case["faults"] = {"switch": r.choice([0, 50, 300, 700])}; case["kills"] = case["ios"] = case["powers"] = 0; case["rounds"] = 1; case["disk"] = None
    def chaos(kill, io, power):
        f = case["faults"]
        if kill and r.random() < kill: case["kills"] = r.randint(1, 3); f["kill"] = r.choice([3, 10, 30]); f["kill_solve"] = r.choice([0, 50, 200])
        if io and r.random() < io: case["ios"] = r.randint(1, 4); f["io"] = r.choice([5, 20, 60]); f["short"] = r.choice([0, 100])
        if io and r.random() < io: case["natives"] = r.randint(1, 3); f["native"] = r.choice([30, 100, 300])
        if power and r.random() < power: case["powers"] = 1; f["power"] = r.choice([2, 6, 20])
        if r.random() < .15: case["disk"] = r.randint(0, 3000)
    if prop == "result-durability": chaos(.8, .4, .4); case["rerun"] = r.random() < .7; case["vials"] = case["vials"][:4]
    if prop == "experiment-atomic": chaos(.8, .4, .4); case["readers"] = r.sample(["nbatches", "nmissing", "missing", "slurm", "infeasible"], r.randint(1, 3)); case["setup"] = r.choice(["api", "cli"]); case["nsetup"] = r.randint(1, 3)
    if prop == "readers-survive": chaos(.6, .3, .2); case["plant"] = r.random() < .8; case["concurrent"] = r.random() < .5
    if prop == "csv-export": chaos(.5, .2, 0); case["plant"] = r.random() < .6
    if prop == "missing-resume": chaos(.9, .4, .3); case["nmiss"] = r.randint(1, 2); case["plant"] = r.random() < .35
    if prop == "vial-isolation": case["bad_file"] = r.random() < .25; (chaos(0, .5, 0) if r.random() < .4 else None)
    if prop == "schedule-independence": case["dup"] = r.random() < .6; (chaos(.4, .2, .1) if r.random() < .5 else None)
    if prop == "batch-coverage": case["readers"] = r.sample(["nmissing", "missing", "infeasible", "nbatches"], r.randint(0, 2)); case["missing_mode"] = r.random() < .3
    if prop == "slurm-script": case["tl"] = r.choice([1.0, 60.0, 1800.0, 3600.0, 5400.0, 7200.0, 14400.0, 86400.0, 200000.0]); case["batch"] = r.choice([1, 1, 2, 3, 5, 7, 12, 20]); case["labname"] = r.choice(["lab", "lab", "my lab", "lab(2)", "lab$1", "it's"]); case["dataname"] = r.choice(["data", "data", "data sets"]); case["ask"] = [r.choice([None, "gpu-short"]), r.choice([None, 500, 64000]), r.choice([None, 10, 40])]
    if prop == "archive-roundtrip": chaos(.5, .4, .0); case["plant"] = True; case["two"] = r.random() < .4; case["stale"] = r.random() < .4
    if prop == "single-run":
        case["cmd"] = r.choice(["lab", "tsplib" if ds == "tspwplib" else "londonaq"]); case["exp"] = "dryrun"; (chaos(.4, 0, .1) if r.random() < .4 else None)
        need = ("laqtinyA" if ds == "londonaq" else "st70")
        if need not in case["insts"]: case["insts"][need] = gen_inst(r, ds)
        case["one"] = gen_vial(r, case, False); case["alpha"] = r.choice([5, 25, 50, 75, 100]); case["opts"] = {"step": r.choice([1, 2, 10]), "depth": r.choice([2, 3, 20]), "collapse": r.random() < .5, "leaves": r.random() < .4, "tl": r.choice([14400.0, 600.5, 7200.0]), "bdepth": r.choice([0, 1, 10]), "gap": r.choice([0.01, 0.001]), "tail": r.choice([-1, 3, 5])}; case["onegraph"] = r.choice(list(case["insts"]))
    if prop in ("experiment-design", "dataset-stats"):
        few = lambda n, m: sorted(r.sample(range(n), min(n, r.randint(1, m)))); stats = prop == "dataset-stats"; case["vials"] = case["vials"][:1]; case["insts"] = {n: case["insts"][n] for n in [case["vials"][0]["graph"]]}; case["setup"] = "cli"
        case["lists"] = {"LONDONAQ_QUOTA_LIST": ["="] + r.sample(range(1, 6000), r.randint(1, 3)), "LONDONAQ_GRAPH_NAME_LIST": few(4, 3), "TSPLIB_ALPHA_LIST": ["="] + r.sample(range(1, 101), r.randint(1, 2)), "TSPLIB_COST_FUNCTIONS": few(2, 2), "TSPLIB_KAPPA_LIST": ["="] + r.sample([2, 3, 5, 10, 25], r.randint(1, 2)), "TSPLIB_GRAPH_NAME_LIST": few(9, 2 if not stats else 1)}; case["lose"] = r.random() < .25
        if not stats: case["setups"] = [r.choice(SUPPORTED[ds] if r.random() < .9 else ["londonaq_alpha", "simple_branch_cut", "cc_londonaq_alpha", "disjoint_tours_vs_heuristics"]) for _ in range(r.randint(1, 4))]; case["wave"] = r.randint(1, 3)
        (chaos(.5, .4, .2) if r.random() < .5 else None)
    if prop == "run-as-recorded": (chaos(.5, .3, .0) if r.random() < .25 else None)
    if prop == "result-truthful": case["knobs"][0] = r.choice([0, 0, 0, 3]); case["setup"] = "api"
    return case


class Ctx:
    pass


def build_vials(c):
    from pctsp.vial import AlgorithmName as A, DataConfig, ModelParams, Preprocessing, Vial
    out = []; ur = random.Random(c.case["seed"] ^ 0x77)
    for v in c.case["vials"]:
        inst = c.case["insts"][v["graph"]]
        dc = DataConfig(dataset=c.ds, cost_function=v["cost"], graph_name=v["graph"], quota=v["quota"], root=inst["root"] if c.ds == "londonaq" else 1, alpha=None if c.ds == "londonaq" else 50, generation=None if c.ds == "londonaq" else v["gen"], kappa=v["kappa"], triangle=None if c.ds == "londonaq" else 0)
        kw = dict(step_size=v["step"], path_depth_limit=v["depthlim"], collapse_paths=v["collapse"])
        if v["alg"] == "solve_pctsp":
            kw.update(branching_max_depth=v["depth"], branching_strategy=v["strat"], cost_cover_disjoint_paths=v["dp"], cost_cover_shortest_path=v["sp"], heuristic=v["heur"], sec_disjoint_tour=v["dt"], sec_lp_gap_improvement_threshold=v["thr"], sec_maxflow_mincut=v["mf"], sec_max_tailing_off_iterations=v["tail"], sec_sepafreq=v["freq"], time_limit=v["tl"])
        mp = ModelParams(algorithm=v["alg"], is_exact=v["alg"] == "solve_pctsp", is_heuristic=v["alg"] != "solve_pctsp", is_relaxation=False, **kw); pre = v["pre"]
        pp = dict(remove_leaves=pre[0], remove_disconnected_components=pre[1], remove_one_connected_components=pre[2], shortest_path_cutoff=v["fail"] == "cutoff", disjoint_path_cutoff=v["fail"] == "disjoint")
        if v["fail"] == "relaxation":
            mp = ModelParams(algorithm="disjoint_tours_relaxation", is_exact=False, is_heuristic=False, is_relaxation=True)
        out.append(Vial(uuid=UUID(int=ur.getrandbits(128), version=4), data_config=dc, model_params=mp, preprocessing=Preprocessing(**pp)))
    return out


# ------------------------------------------------------------------ running commands
def cli(c, name, args, node=0, killable=True):
    def fn():
        return CMD.main(args=[str(a) for a in args], prog_name="pctsp", standalone_mode=False)
    t = c.w.spawn(name, fn, node); t.killable = killable; t.args = args; c.w.ev("spawn", name, *[str(a).replace(c.w.root, "") for a in args[1:]]); return t


def roots(c):
    return ["--londonaq-root", c.base + "/londonaq_data", "--oplib-root", c.base + "/oplib"]


def cmd_batch(c, i, args):
    return cli(c, f"job{i}", args, node=1 + i % 8)


def cmd(c, what, **k):
    e, d, L = c.exp, c.ds, ["--lab-dir", c.labdir]
    if what in ("missing", "nmissing", "infeasible"): return cli(c, what, [what, d, e] + L)
    if what == "nbatches": return cli(c, what, [what, d, e, c.case["batch"]] + L + roots(c))
    if what == "slurm": return cli(c, what, [what, d, e, k.get("batch", c.case["batch"])] + (["--overwrite"] if k.get("overwrite", True) else []) + [str(y) for x, o in zip(c.case.get("ask", []), ("--partition", "--mem-per-cpu", "--logging-level")) if x is not None for y in (o, x)] + [ "--time-limit", str(c.case.get("tl", 60.0))] + (["--only-missing-results"] if k.get("only_missing") else []) + L + roots(c))
    if what == "setup": return cli(c, what, [what, d, e] + L + roots(c))
    if what == "vial": return cli(c, what, [what, d, e, k["uuid"]] + L + roots(c))
    if what == "heuristics" or what == "branch-cut": return cli(c, "csv-" + what, ["csv", what, d, e] + L)
    if what == "csv-all": return cli(c, what, ["csv", "all"] + L)
    if what == "zip" or what == "unzip": return cli(c, what, ["utils", what, d] + k.get("names", [e]) + ["--lab-dir", k.get("dir", c.labdir)])
    raise KeyError(what)


def calm(c):
    c.w.f = {"switch": c.case["faults"].get("switch", 300)}; c.w.kills_left = c.w.io_left = c.w.power_left = c.w.native_left = 0; c.w.disk_free = None


def storm(c):
    c.w.f = dict(c.case["faults"]); c.w.kills_left, c.w.io_left, c.w.power_left, c.w.native_left = c.case["kills"], c.case["ios"], c.case["powers"], c.case.get("natives", 0); c.w.disk_free = c.case.get("disk")


def do(c, t):
    c.w.run([t]); return t


# ------------------------------------------------------------------ watching the files
def parse_result(data, uuid):
    """The result in a file, as the documentation describes it, or None."""
    try:
        d = json.loads(data)
        if not isinstance(d, dict) or UUID(str(d["vial_uuid"])) != uuid or not all(isinstance(d[k], int) for k in ("objective", "prize")):
            return None
        d["edges"] = [tuple(e) for e in d["edge_list"]]; d["start_time"], d["end_time"]
        return d
    except (ValueError, KeyError, TypeError):
        return None


def read(c, p):
    try:
        return c.w.raw_read(p)
    except OSError:
        return None


def exp_dir(c): return os.path.join(c.labdir, c.ds, c.exp)
def res_path(c, u): return os.path.join(exp_dir(c), str(u), f"{u}.json")


def watch(c):
    """Invariants checked after every change of the simulated disk."""
    from pctsp.vial import Experiment
    def check_exp(fn):
        p = os.path.join(exp_dir(c), fn); data = read(c, p)
        if data is None:
            if c.expseen.get(fn): c.w.violation("experiment-atomic", f"{fn} disappeared after it had been written"); c.expseen[fn] = None
            return
        if data == c.expseen.get(fn): return
        try:
            e = Experiment(**json.loads(data)); ok = e.name.value == c.exp
            if fn == "experiment.json" and c.exp_sizes: ok = ok and len(e.vials) in c.exp_sizes
            if fn == "experiment.json" and c.case["setup"] == "api" and c.case["prop"] != "single-run": ok = ok and any([v.uuid for v in e.vials] == ids for ids in c.offered)
        except Exception:
            ok = False
        if not ok: c.w.violation("experiment-atomic", f"{fn} holds {len(data)} bytes that are not a complete experiment" + (" (it was complete before)" if c.expseen.get(fn) else "")); return
        c.expseen[fn] = data; c.w.reach.add("exp_written")

    def check_res(u):
        data = read(c, res_path(c, u)); r = parse_result(data, u) if data is not None else None; old = c.good.get(u)
        if r is None:
            if old is not None:
                c.w.violation("result-durability", f"the finished result of vial {c.vnum.get(u, u)} was " + ("deleted" if data is None else f"replaced by {len(data)} unreadable bytes")); c.good.pop(u)
            elif data: c.w.reach.add("torn_result_seen")
            return
        if old != data:
            c.good[u] = data; who = c.w.current.name if c.w.current else ""; c.final.append((who, u, r)); c.marks.append((who, u, len(c.calls.get(who, [])))); c.w.reach.add("result_written")

    def on(path):
        if path is None:
            check_exp("experiment.json"); check_exp("missing_experiment.json")
            for u in c.uuids: check_res(u)
            return
        d, b = os.path.split(path)
        if d == exp_dir(c) and b in ("experiment.json", "missing_experiment.json"): check_exp(b)
        m = re.fullmatch(r"([0-9a-f-]{36})\.json", b)
        if m and d == os.path.join(exp_dir(c), m.group(1)): check_res(UUID(m.group(1)))
    c.w.on_mutate = on


def complete(c):
    return {u for u in c.uuids if parse_result(read(c, res_path(c, u)) or b"", u)}


# ------------------------------------------------------------------ oracles
def check_truth(c, v, r, tag="result-truthful", span=True):
    G, root = c.graph(v); q = v.data_config.quota; n = c.vnum.get(v.uuid, "?"); who = f"vial {n} ({v.model_params.algorithm.value})"; bad = lambda m: c.w.violation(tag, f"{who}: {m}")
    E = r["edges"]; cost = 0; verts = set()
    for a, b in E:
        if a == b or not G.has_edge(a, b): bad(f"edge ({a},{b}) of the stored tour is not an edge of the graph"); return
        cost += G[a][b]["cost"]; verts |= {a, b}
    prize = sum(G.nodes[x]["prize"] for x in verts)
    if r["objective"] != cost: bad(f"objective {r['objective']} but the stored edges cost {cost}")
    if r["prize"] != prize: bad(f"prize {r['prize']} but the stored edges visit prize {prize}")
    deg = {}
    for a, b in E: deg[a] = deg.get(a, 0) + 1; deg[b] = deg.get(b, 0) + 1
    simple = bool(E) and len(E) >= 3 and len(set(map(frozenset, E))) == len(E) == len(verts) and all(x == 2 for x in deg.values()) and root in verts
    if simple:
        cur = set(E[0]); ordered = all(set(E[i]) & set(E[(i + 1) % len(E)]) for i in range(len(E)))
        import networkx as nx
        simple = nx.is_connected(nx.Graph(E))
        if simple and not ordered: bad("the edges of the tour are not stored in tour order")
    if E and not simple: bad(f"the stored edges {E} are not a simple cycle through the root {root}")
    sts = c.status.get(str(v.uuid), []); st = sts[-1] if sts else None
    if v.model_params.algorithm.value == "solve_pctsp":
        opt = c.opt(v)
        if E and prize < q: bad(f"the exact solver's tour has prize {prize} below the quota {q}")
        if st == "optimal":
            c.w.reach.add("optimal_checked")
            if not E: bad("status optimal without a tour")
            elif opt is None or cost != opt: bad(f"status optimal with cost {cost}, but the cheapest tour costs {opt}")
        elif st == "infeasible":
            c.w.reach.add("infeasible_checked")
            if E or opt is not None: bad(f"status infeasible, but a tour of cost {opt} exists")
        if not E and opt is not None and st in ("optimal", "infeasible"): bad(f"no tour stored, but one of cost {opt} exists")
    elif E and prize >= q:
        c.w.reach.add("heuristic_feasible"); opt = c.opt(v)
        if opt is None or cost < opt: bad(f"a heuristic tour of cost {cost} beats the optimum {opt}")
    from datetime import datetime, timezone
    try:
        tt = [datetime.fromisoformat(str(r[k]).replace("Z", "+00:00")) for k in ("start_time", "end_time")]; tt = [t.replace(tzinfo=timezone.utc) if t.tzinfo is None else t for t in tt]; ns = [int(t.timestamp() * 1e6) * 1000 for t in tt]
    except ValueError:
        bad("timestamps do not parse"); return
    if span and not c.case["faults"].get("jump"):
        if ns[0] > ns[1]: bad("the result ends before it starts")
        sp = c.span.get(str(v.uuid))
        if sp and (ns[0] - 2_000_000 > sp[0] or ns[1] + 2_000_000 < sp[1]) and len(sts) == 1: bad(f"the recorded interval misses the solve by {max(ns[0] - sp[0], sp[1] - ns[1]) / 1e9:.3f} s")
        if ns[0] < c.w.t0 - 2_000_000 or ns[1] > c.w.now_ns + 2_000_000: bad("timestamps lie outside the simulated time of the run")


def expect_fail(c, v):
    """True: cannot succeed; False: must succeed; None: may do either."""
    i = c.vnum[v.uuid]; s = c.case["vials"][i]
    if s["fail"]: return True
    if c.bad == s["graph"]: return True
    G, root = c.graph(v)
    if root not in G or not on_cycle(G, root): return None
    if v.preprocessing.remove_one_connected_components: return False
    import networkx as nx
    return False if nx.is_biconnected(G) else None


def starting_tours(c):
    """For every exact vial with a starting heuristic, the tour that heuristic gives when it is run as a vial of its own (or None)."""
    from pctsp.lab import Lab
    from pctsp.vial import Experiment
    from pctsp.vial.model_params import ModelParams
    out = {}; calls = c.calls; c.calls = {}; sw = c.w.f; c.w.f = {"switch": 0}; st, sp = c.status, c.span; c.status, c.span = {}, {}
    base = os.path.join(c.w.root, "twin"); os.makedirs(base, exist_ok=True)
    for v in c.vials:
        m = v.model_params
        if m.algorithm.value != "solve_pctsp" or not m.heuristic: continue
        tw = v.model_copy(update={"model_params": ModelParams(algorithm=m.heuristic, is_exact=False, is_heuristic=True, is_relaxation=False, step_size=m.step_size, path_depth_limit=m.path_depth_limit, collapse_paths=m.collapse_paths)})
        def fn(tw=tw):
            return Lab(Path(base) / c.ds, londonaq_root=Path(c.base + "/londonaq_data"), oplib_root=Path(c.base + "/oplib")).run_experiment_from_vial_list(Experiment(name=c.exp, vials=[tw], timestamp="2023-01-01T00:00:00"), [tw])
        c.w.run([c.w.spawn(f"twin{c.vnum[v.uuid]}", fn)]); r = parse_result(read(c, os.path.join(base, c.ds, c.exp, str(v.uuid), f"{v.uuid}.json")) or b"", v.uuid)
        if r: out[v.uuid] = r
    c.calls, c.w.f, c.status, c.span = calls, sw, st, sp; return out


def reference(c, tag="vial-isolation"):
    """Each vial run alone, calmly, in a lab of its own."""
    from pctsp.lab import Lab
    from pctsp.vial import Experiment
    calm(c); out = {}; sw = c.w.f; c.w.f = {"switch": 0}; st, sp = c.status, c.span; c.status, c.span = {}, {}
    refdir = os.path.join(c.w.root, "ref"); os.makedirs(refdir, exist_ok=True)
    for v in c.vials:
        i = c.vnum[v.uuid]
        def fn(v=v):
            lab = Lab(Path(refdir) / c.ds, londonaq_root=Path(c.base + "/londonaq_data"), oplib_root=Path(c.base + "/oplib"))
            return lab.run_experiment_from_vial_list(Experiment(name=c.exp, vials=[v], timestamp="2023-01-01T00:00:00"), [v])
        t = c.w.spawn(f"ref{i}", fn); c.w.run([t]); p = os.path.join(refdir, c.ds, c.exp, str(v.uuid), f"{v.uuid}.json"); r = parse_result(read(c, p) or b"", v.uuid); out[v.uuid] = r
        if r and t.exc is None: check_truth(c, v, r)
        e = expect_fail(c, v)
        if e is False and r is None: c.w.violation("result-truthful", f"vial {i} ({v.model_params.algorithm.value}) has a valid instance but produced no result: " + tail(t))
        if e is True and r is not None: c.w.violation("vial-isolation", f"vial {i} cannot be run but has a result")
    c.w.f = sw; c.refstatus = c.status; c.status, c.span = st, sp; return out


def tail(t):
    cut = lambda m: m.replace(t.w.root, "")
    if t.exc is not None: return f"{type(t.exc).__name__}: {cut(str(t.exc))[:150]}"
    x = [l for l in t.err.getvalue().strip().splitlines() if l.strip()]; return (cut(x[-1])[:200] if x else "no message")


def agrees(c, u, ref, r):
    """Is r the result of running vial u? The exact solver may return any tour of the same cost, and stops with its bounds at a limit."""
    v = c.byid[u]
    if v.model_params.algorithm.value != "solve_pctsp": return same(ref, r)
    sts = c.status.get(str(u), []) + c.refstatus.get(str(u), [])
    if any(x not in ("optimal", "infeasible") for x in sts) or not sts: return True
    return ref["objective"] == r["objective"] and bool(ref["edges"]) == bool(r["edges"])


def same(a, b):
    return a["objective"] == b["objective"] and a["prize"] == b["prize"] and set(map(frozenset, a["edges"])) == set(map(frozenset, b["edges"]))


def slurm_jobs(c, only_missing=False):
    """Generate the job script with the real command and let bash say what each array task would run."""
    t = do(c, cmd(c, "slurm", only_missing=only_missing)); p = os.path.join(exp_dir(c), f"{c.exp}.slurm")
    if not t.ok: c.w.violation("slurm-script", "writing the job script failed: " + tail(t)); return None, None
    text = (read(c, p) or b"").decode(); m = re.search(r"^#SBATCH\s+--array=(\S+)", text, re.M); ids = []
    if not m: c.w.violation("slurm-script", "the job script has no array directive"); return None, text
    for part in m.group(1).split("%")[0].split(","):
        x = re.fullmatch(r"(\d+)(?:-(\d+))?(?::(\d+))?", part)
        if not x: c.w.violation("slurm-script", f"array range {m.group(1)!r} is not valid"); return None, text
        ids += list(range(int(x.group(1)), int(x.group(2) or x.group(1)) + 1, int(x.group(3) or 1)))
    sh = os.path.join(c.w.root, "job.sh"); c.w.raw_write(sh, text.encode()); jobs = []
    r = subprocess.run(["bash", "-c", 'srun() { printf "%s\\0" "$@"; }; pctsp() { printf "%s\\0" pctsp "$@"; }; for i in $IDS; do SLURM_ARRAY_TASK_ID=$i; . "$F"; printf "\\n\\0"; done'], env={"IDS": " ".join(map(str, ids)), "F": sh, "PATH": "/usr/bin:/bin"}, capture_output=True)
    for chunk in r.stdout.decode().split("\n\0")[:-1]:
        a = chunk.split("\0")[:-1]
        if "pctsp" not in a: c.w.violation("slurm-script", f"an array task runs {a[:4]} instead of pctsp"); return None, text
        jobs.append(a[a.index("pctsp") + 1:])
    if len(jobs) != len(ids): c.w.violation("slurm-script", "the job script does not run under bash: " + r.stderr.decode()[:150]); return None, text
    return jobs, text


def run_jobs(c, jobs, extra=(), wall=None):
    order = list(range(len(jobs))); out = []; extra = list(extra)
    while order:
        wave = []
        for _ in range(min(1 if wall else c.case["wave"], len(order))):
            i = order.pop(c.w.dec.choose(len(order), "job_order")); t = cmd_batch(c, i, jobs[i]); t.wall_ns = wall; wave.append(t)
        ts = list(wave)
        while extra and (c.w.dec.chance(500, "extra_now") or not order): ts.append(extra.pop(0)())
        c.w.run(ts); out += ts
    return out


# ------------------------------------------------------------------ flows
def setup_api(c):
    from pctsp.lab import Lab
    from pctsp.vial import Experiment
    def fn():
        Lab(Path(c.labdir) / c.ds).write_experiment_to_file(Experiment(name=c.exp, vials=c.vials, timestamp="2023-11-14T10:00:00"))
    t = c.w.spawn("setup", fn); t.killable = False; c.offered.append([v.uuid for v in c.vials]); c.w.run([t])
    if not t.ok: c.w.violation("experiment-atomic", "writing the experiment failed: " + tail(t))
    return t.ok


def plant_states(c):
    """Leave vial directories in states that a crash of this or an earlier version leaves."""
    import random as R
    d = c.w.dec; statef = "pctsp_summary_stats.yaml"
    for v in c.vials:
        p = os.path.join(exp_dir(c), str(v.uuid)); k = d.choose(6 if c.case["prop"] != "csv-export" else 8, "plant"); rp = res_path(c, v.uuid); data = read(c, rp)
        if k == 1 and data:
            c.good.pop(v.uuid, None); c.w.raw_write(rp, data[: d.choose(len(data), "plant_cut")]); c.w.count("fault_planted_torn_result"); c.w.reach.add("planted_torn")
        elif k == 2 and data:
            c.good.pop(v.uuid, None); simos._real["unlink"](rp); c.w.count("fault_planted_lost_result")
        elif k == 3:
            s = read(c, os.path.join(p, statef))
            if s: c.w.raw_write(os.path.join(p, statef), s[: d.choose(len(s), "plant_cut")]); c.w.count("fault_planted_torn_stats"); c.w.reach.add("planted_torn_stats")
        elif k == 4:
            s = os.path.join(p, statef)
            if read(c, s) is not None: simos._real["unlink"](s)
        elif k == 6 and data and parse_result(data, v.uuid):       # a result of another machine: it ran for days, or whole seconds
            x = json.loads(data); x["start_time"] = "2023-01-30T23:59:58" + ["", ".25"][d.choose(2, "plant_time")]; x["end_time"] = ["2023-01-30T23:59:59", "2023-02-01T05:00:00.5", "2023-03-02T00:00:01"][d.choose(3, "plant_time")]; c.w.raw_write(rp, json.dumps(x, indent=4).encode()); c.w.reach.add("planted_long")
        elif k == 7:
            s = read(c, os.path.join(p, statef))
            if s: c.w.raw_write(os.path.join(p, statef), re.sub(rb"(num_nodes|num_sec_maxflow_mincut): *\d+", [rb"\1: 0", rb"\1: 123456789"][d.choose(2, "plant_stats")], s)); c.w.reach.add("planted_big_stats")
        elif k == 5 and data:
            import shutil
            c.good.pop(v.uuid, None); shutil.rmtree(p); c.w.count("fault_planted_lost_dir")


def check_ack(c, tasks):
    """A batch that ended normally with no fault in the run has left a result for every vial that can be run."""
    pass


def readers(c, before=None, tag="readers-survive"):
    """Run every status command calmly and compare with the files."""
    done = complete(c); feas = {u for u in done if parse_result(read(c, res_path(c, u)), u)["prize"] >= c.byid[u].data_config.quota}
    t = do(c, cmd(c, "missing")); out = set(re.findall(r"^([0-9a-f-]{36})\b", t.out.getvalue(), re.M)); want = {str(u) for u in c.uuids if u not in done}
    if not t.ok: c.w.violation(tag, "missing failed: " + tail(t))
    elif out != want: c.w.violation(tag, f"missing lists {len(out)} vials, but {len(want)} have no complete result" if len(out) != len(want) else "missing lists the wrong vials")
    else:
        try:
            me = json.loads(read(c, os.path.join(exp_dir(c), "missing_experiment.json"))); ids = [v["uuid"] for v in me["vials"]]
            if ids != [str(u) for u in c.uuids if u not in done]: c.w.violation(tag, "the missing experiment does not hold exactly the missing vials in their order")
        except (ValueError, TypeError, KeyError): c.w.violation(tag, "missing left no readable missing experiment")
    t = do(c, cmd(c, "nmissing")); m = re.search(r"(\d+) out of (\d+)", t.out.getvalue())
    if not t.ok: c.w.violation(tag, "nmissing failed: " + tail(t))
    elif not m or (int(m.group(1)), int(m.group(2))) != (len(want), len(c.uuids)): c.w.violation(tag, f"nmissing says {t.out.getvalue().strip()!r}, but {len(want)} of {len(c.uuids)} are missing")
    t = do(c, cmd(c, "infeasible")); got = set(re.findall(r"[0-9a-f-]{36}", t.out.getvalue())); want2 = {str(u) for u in done - feas}
    if not t.ok: c.w.violation(tag, "infeasible failed: " + tail(t))
    elif got != want2: c.w.violation(tag, f"infeasible lists {len(got)} vials, but {len(want2)} results are below their quota")
    from pctsp.lab import Lab
    from pctsp.vial import Experiment
    def fn():
        return Lab(Path(c.labdir) / c.ds).read_results_from_file(Experiment(name=c.exp, vials=c.vials, timestamp="2023-11-14T10:00:00"))
    t = c.w.spawn("read", fn); c.w.run([t])
    if not t.ok: c.w.violation(tag, "reading the results failed: " + tail(t))
    elif [r.vial_uuid for r in t.value] != [u for u in c.uuids if u in done]: c.w.violation(tag, f"reading the results gives {len(t.value)} of {len(done)} complete results, or a wrong order")
    if done: c.w.reach.add("readers_some_done")
    if want: c.w.reach.add("readers_some_missing")
    if want2: c.w.reach.add("readers_some_infeasible")


def check_csv(c, tag="csv-export"):
    import csv, yaml
    done = complete(c); res = {u: parse_result(read(c, res_path(c, u)), u) for u in done}; path = os.path.join(exp_dir(c), f"{c.ds}_{c.exp}.csv"); stats = {}
    F = ["status", "lower_bound", "upper_bound", "num_cost_cover_disjoint_paths", "num_cost_cover_shortest_paths", "nconss_presolve_disjoint_paths", "nconss_presolve_shortest_paths", "num_cycle_cover", "num_nodes", "num_sec_disjoint_tour", "num_sec_maxflow_mincut"]
    for u in c.uuids:
        s = read(c, os.path.join(exp_dir(c), str(u), "pctsp_summary_stats.yaml"))
        try:
            d = yaml.full_load(s.decode()) if s else None
            if isinstance(d, dict) and all(d.get(f) is not None for f in F): stats[u] = {f: float(d[f]) for f in F}     # YAML 1.1 reads 1e+20 as a string
        except (yaml.YAMLError, ValueError, TypeError): pass
    from datetime import datetime
    for what in ("heuristics", "branch-cut"):
        t = do(c, cmd(c, what)); want = [u for u in c.uuids if u in done and (what == "heuristics" or u in stats)]
        if not t.ok: c.w.violation(tag, f"csv {what} failed with {len(done)} results and {len(stats)} statistics: " + tail(t)); continue
        try: rows = list(csv.DictReader((read(c, path) or b"").decode().splitlines()))
        except ValueError: rows = None
        if rows is None: c.w.violation(tag, "the table does not parse"); continue
        got = [r.get("uuid") for r in rows]
        if sorted(got) != sorted(map(str, want)): c.w.violation(tag, f"csv {what} has {len(rows)} rows for {len(want)} complete " + ("results" if what == "heuristics" else "results with statistics") + ("" if len(rows) != len(want) else ", of other vials")); continue
        for row in rows:
            u = UUID(row["uuid"]); r = res[u]; v = c.byid[u]; q = v.data_config.quota; feas = r["prize"] >= q; n = c.vnum[u]
            tm = [datetime.fromisoformat(str(r[k]).replace("Z", "")) for k in ("start_time", "end_time")]; num = lambda s: float(s) if s not in ("", None) else None
            exp = {"prize": r["prize"], "quota": q, "objective": r["objective"] if feas else None, "overshoot": r["prize"] - q if feas else None, "duration": (tm[1] - tm[0]).total_seconds(), "root": v.data_config.root}
            if what == "branch-cut": exp.update({k: stats[u][k] for k in F})
            for k, x in exp.items():
                try: y = num(row.get(k))
                except ValueError: y = row.get(k)
                if k == "duration" and isinstance(y, float) and abs(y - x) < 1e-5: continue
                if (x is None) != (y is None) or (x is not None and not (isinstance(y, float) and (abs(y - x) <= 1e-9 * max(1, abs(x)) or y == x))): c.w.violation(tag, f"csv {what}: {k} of vial {n} is {row.get(k)!r}, but {x!r} was recorded"); break
            if row.get("feasible") != str(feas): c.w.violation(tag, f"csv {what}: feasible of vial {n} is {row.get('feasible')!r}")
            if row.get("algorithm", "").split(".")[-1] != v.model_params.algorithm.value: c.w.violation(tag, f"csv {what}: algorithm of vial {n} is {row.get('algorithm')!r}")
            if row.get("graph_name", "").split(".")[-1] != v.data_config.graph_name.value: c.w.violation(tag, f"csv {what}: graph of vial {n} is {row.get('graph_name')!r}")
        if c.case["ios"] or c.case.get("disk") is not None or c.case["kills"]:      # under faults: a command that reports success has written the same table
            whole = read(c, path); storm(c); c.w.kills_left = 1 if c.case["kills"] else 0; c.w.io_left = 1 if c.case["ios"] else 0
            if c.case.get("disk") is not None: c.w.disk_free = c.case["disk"] % (len(whole) + 200)
            t = do(c, cmd(c, what)); calm(c)
            if t.ok and read(c, path) != whole: c.w.violation(tag, f"csv {what} reported success on a failing disk, but its table is not the one it writes otherwise")
            c.w.reach.add("csv_fault_" + ("ok" if t.ok else "reported"))
        if rows: c.w.reach.add("csv_rows_" + what)
        else: c.w.reach.add("csv_empty")
    # the export of all experiments
    n0 = len(c.w.viol); simos._real["unlink"](path) if read(c, path) is not None else None
    t = do(c, cmd(c, "csv-all"))
    if not t.ok: c.w.violation(tag, "csv all failed: " + tail(t))
    elif c.exp in ("cost_cover", "tailing_off", "compare_heuristics") and read(c, path) is None: c.w.violation(tag, "csv all skipped an experiment of the lab")


def flow(c):
    case, w, prop = c.case, c.w, c.case["prop"]; P = prop
    if P == "experiment-atomic": return flow_experiment(c)
    if P == "single-run": return flow_single(c)
    if P == "experiment-design": return flow_design(c)
    if P == "dataset-stats": return flow_dataset(c)
    c.expseen = {}; calm(c)
    if not setup_api(c): return
    c.exp_sizes = {len(c.vials)}
    if P == "slurm-script":
        jobs, text = slurm_jobs(c)
        if jobs is None: return
        p = os.path.join(exp_dir(c), f"{c.exp}.slurm"); data = read(c, p); t = do(c, cmd(c, "slurm", overwrite=False, batch=c.case["batch"] + 1)); n = len(c.vials)
        if t.ok or read(c, p) != data: w.violation("slurm-script", "an existing job script was " + ("reported as written" if read(c, p) == data else "replaced") + " although overwriting was not asked for")
        do(c, cmd(c, "missing")); t2 = do(c, cmd(c, "slurm", overwrite=False, only_missing=True)) if complete(c) != set(c.uuids) else t
        if t2.ok or read(c, p) != data: w.violation("slurm-script", "an existing job script was replaced by one for missing results although overwriting was not asked for")
        w.reach.add("kept_script")
        check_slurm(c, jobs, text)
        if w.viol: return
        simos._real["unlink"](p); t = do(c, cmd(c, "slurm", overwrite=False))
        if not t.ok or read(c, p) != data: w.violation("slurm-script", "without an existing job script another script is written: " + tail(t))
        b = c.case["batch"]; c.case["batch"] = b + 3; jobs, text = slurm_jobs(c); c.case["batch"] = b
        if jobs is not None and len(jobs) != math.ceil(n / (b + 3)): w.violation("slurm-script", "a job script for another batch size did not replace the existing one when asked to")
        return
    jobs, text = slurm_jobs(c); ref = None
    if jobs is None: return
    if case.get("bad_file"):
        g = sorted(case["insts"])[w.dec.choose(len(case["insts"]), "bad_graph")]
        if len(case["insts"]) > 1:
            c.bad = g; k = w.dec.choose(3, "bad_how")
            for base in [f"{c.base}/londonaq_data/{g}/{g}.yaml"] if c.ds == "londonaq" else [f"{c.base}/oplib/instances/{x}/{g}-{x}-50.oplib" for x in GENS]:
                data = w.raw_read(base)
                if k == 0: simos._real["unlink"](base)
                else: w.raw_write(base, data[: len(data) // 3] if k == 1 else b"")
            w.count("fault_bad_instance_file"); w.reach.add("bad_file")
    extra = []
    if case["dup"] and P in ("result-durability", "schedule-independence"):
        extra += [lambda i=i: cmd_batch(c, 100 + i, jobs[i]) for i in range(len(jobs))]
    if P == "result-durability" and case.get("rerun"):
        extra += [lambda v=v: cmd(c, "vial", uuid=str(v.uuid)) for v in c.vials[:2]]
    for rd in case["readers"]: extra.append(lambda rd=rd: cmd(c, rd))
    if P == "readers-survive" and case.get("concurrent"):
        extra += [lambda x=x: cmd(c, x) for x in ("nmissing", "missing", "infeasible")]
    storm(c); done0 = complete(c); nfin = len(c.final)
    ts = run_jobs(c, jobs, extra); faulted = any(k.startswith("fault_") and k not in ("fault_solver_limit", "fault_bad_instance_file") for k in w.stats); calm(c)
    # a job may only end by itself, or with a failure that was injected
    if P == "vial-isolation" or not faulted:
        for t in ts:
            if t.exc is not None and t.name.startswith("job") and not faulted: w.violation("vial-isolation", f"a batch was aborted by {tail(t)}")
    for t in ts:
        if P == "readers-survive" and not t.name.startswith("job") and t.exc is not None and not faulted: w.violation("readers-survive", f"{t.name} failed while a batch was running: {tail(t)}")
    if P in ("vial-isolation", "schedule-independence", "result-truthful", "missing-resume"): ref = reference(c)
    if P == "batch-coverage" and not faulted: check_coverage(c, jobs, ts)
    if P == "result-truthful":
        for u in complete(c): check_truth(c, c.byid[u], parse_result(read(c, res_path(c, u)), u))
    if P == "vial-isolation" and not faulted:
        for v in c.vials:
            r = parse_result(read(c, res_path(c, v.uuid)) or b"", v.uuid); n = c.vnum[v.uuid]
            if (r is None) != (ref[v.uuid] is None): w.violation("vial-isolation", f"vial {n} ({v.model_params.algorithm.value}) " + ("has no result in the batch although it runs alone" if r is None else "has a result in the batch although it fails alone"))
            if ref[v.uuid] is None: w.reach.add("failing_vial")
    if P == "vial-isolation" and faulted:     # an injected error costs at most the vial it hits
        lost = [v for v in c.vials if ref[v.uuid] is not None and v.uuid not in complete(c)]; hits = len(w.hits)
        # an error on the experiment file itself, or above the vials, may end the job that met it
        whole = [h for h in w.hits if not (re.search(r"[0-9a-f]{8}-[0-9a-f-]{27}", h[2]) or h[2].startswith(c.base + "/"))]
        if case["disk"] is None and not whole and len(lost) > hits: w.violation("vial-isolation", f"{hits} injected I/O errors on the files of single vials cost {len(lost)} results")
        w.reach.add("io_fault_in_batch") if hits else None
    if P == "schedule-independence":
        for who, u, r in c.final:
            if ref[u] is None: w.violation("schedule-independence", f"vial {c.vnum[u]} fails alone, but {who} stored a result for it")
            elif not agrees(c, u, ref[u], r): w.violation("schedule-independence", f"vial {c.vnum[u]} ({c.byid[u].model_params.algorithm.value}): {who} stored objective {r['objective']} prize {r['prize']} edges {r['edges']}; alone it gives {ref[u]['objective']} {ref[u]['prize']} {ref[u]['edges']}")
    if P == "missing-resume":
        if case.get("plant"): w.off += 1; plant_states(c); w.off -= 1
        flow_resume(c, ref)
    if P == "run-as-recorded": check_calls(c)
    if P == "batch-coverage" and case.get("missing_mode") and not faulted: pass
    if P in ("readers-survive", "csv-export", "archive-roundtrip") and case.get("plant"): w.off += 1; plant_states(c); w.off -= 1; c.good = {}
    if P == "readers-survive": readers(c)
    if P == "csv-export": check_csv(c)
    if P == "archive-roundtrip": flow_archive(c)


def check_coverage(c, jobs, ts):
    w, n, b = c.w, len(c.vials), c.case["batch"]; counts = {}
    for who, u, r in c.final: counts[u] = counts.get(u, 0) + 1
    per = {}
    for who, u, r in c.final: per.setdefault(who, []).append(u)
    for v in c.vials:
        e = expect_fail(c, v); k = counts.get(v.uuid, 0)
        if k > 1: w.violation("batch-coverage", f"vial {c.vnum[v.uuid]} of {n} was run {k} times by one array of batches of {b}")
        if k == 0 and e is False: w.violation("batch-coverage", f"vial {c.vnum[v.uuid]} of {n} was run by no batch of {b}")
    for who, us in per.items():
        if len(us) > b: w.violation("batch-coverage", f"one batch of size {b} ran {len(us)} vials")
    t = do(c, cmd(c, "nbatches")); out = t.out.getvalue().strip()
    if not t.ok or out != str(math.ceil(n / b)): w.violation("batch-coverage", f"nbatches answers {out or tail(t)!r} for {n} vials in batches of {b}")
    w.reach.add("several_batches" if len(jobs) > 1 else "one_batch")
    if n % b: w.reach.add("last_batch_partial")
    if c.case.get("missing_mode"):       # the same for the vials that are missing
        import random as R
        drop = [v for v in c.vials if w.dec.chance(600, "drop")]
        for v in drop:
            p = res_path(c, v.uuid); c.good.pop(v.uuid, None)
            if read(c, p) is not None: simos._real["unlink"](p)
        gone = [u for u in c.uuids if u not in complete(c)]
        if not gone: return
        t = do(c, cmd(c, "missing")); jobs, _ = slurm_jobs(c, True)
        if not t.ok or jobs is None: return
        k0 = len(c.final); run_jobs(c, jobs); ran = [u for _, u, _ in c.final[k0:]]
        for u in c.uuids:
            k = ran.count(u); e = expect_fail(c, c.byid[u]); m = u in gone
            if k > 1 or (k and not m): w.violation("batch-coverage", f"vial {c.vnum[u]} was run {k} times by the array for missing results" + ("" if m else " although it had a result"))
            if m and k == 0 and e is False: w.violation("batch-coverage", f"missing vial {c.vnum[u]} was run by no batch of the array for missing results")
        if len(jobs) != math.ceil(len(gone) / b): w.violation("batch-coverage", f"{len(jobs)} array tasks for {len(gone)} missing vials in batches of {b}")
        w.reach.add("missing_array")


def same_graph(c, v, a):
    """Is the graph handed to native code the vial's own, less what its preprocessing may remove?"""
    import networkx as nx
    G, root = c.graph(v)
    if not {"edge_list", "cost_dict", "prize_dict"} <= set(a): return None
    E = {frozenset(e) for e in a["edge_list"] if e[0] != e[1]}; full = {frozenset(e) for e in G.edges() if e[0] != e[1]}
    cost = {frozenset(k): x for k, x in a["cost_dict"].items()}
    if not E <= full: return "edges that are not in its graph"
    if any(cost.get(e) != G[tuple(e)[0]][tuple(e)[1]]["cost"] for e in E): return "edge costs of another graph or cost function"
    if any(a["prize_dict"].get(x) != G.nodes[x]["prize"] for e in E for x in e): return "prizes of another graph"
    H = nx.Graph(); H.add_edges_from(tuple(e) for e in full); keep = set()
    for comp in nx.biconnected_component_edges(H):
        comp = [frozenset(e) for e in comp]
        if len(comp) > 1 and any(root in e for e in comp): keep |= set(comp)
    if not keep <= E: return "a graph without edges that lie on cycles through its root"
    pre = v.preprocessing
    if not (pre.remove_leaves or pre.remove_disconnected_components or pre.remove_one_connected_components) and E != full: return "only a part of its graph although it asks for no preprocessing"
    return None


def check_calls(c):
    """Every native call made for a vial uses the data and options recorded in the vial."""
    w = c.w; done = complete(c); clean = len(done) == len(c.uuids); byid = {str(v.uuid): v for v in c.vials}
    def bad(v, m): w.violation("run-as-recorded", f"vial {c.vnum[v.uuid]} ({v.model_params.algorithm.value}) {m}")
    def options(v, a, want, what):
        for k, x in want.items():
            if k in a and a[k] != x: bad(v, f"was {what} with {k} {a[k]!r} instead of {x!r}"); return
    nsolve = {}; tours = starting_tours(c)
    for who, calls in c.calls.items():
        for name, a in calls:
            if name != "solve_pctsp_bind" or "name" not in a: continue
            v = byid.get(str(a["name"]))
            if v is None: w.violation("run-as-recorded", f"a solve was started under the unknown name {str(a['name'])[:40]!r}"); continue
            w.reach.add("solve_call_checked"); nsolve[v.uuid] = nsolve.get(v.uuid, 0) + 1; m = v.model_params; root = v.data_config.root; g = same_graph(c, v, a)
            if m.algorithm.value != "solve_pctsp": bad(v, "was given to the exact solver")
            if g: bad(v, "was solved with " + g)
            want = {"quota": v.data_config.quota, "root_vertex": root, "branching_max_depth": m.branching_max_depth, "branching_strategy": m.branching_strategy, "cost_cover_shortest_path": m.cost_cover_shortest_path, "sec_disjoint_tour": m.sec_disjoint_tour,
                    "sec_lp_gap_improvement_threshold": m.sec_lp_gap_improvement_threshold, "sec_maxflow_mincut": m.sec_maxflow_mincut, "sec_max_tailing_off_iterations": m.sec_max_tailing_off_iterations, "sec_sepafreq": m.sec_sepafreq, "time_limit": m.time_limit, "simple_rules_only": False, "cycle_cover": False}
            G = c.graph(v)[0]; loops = cycle_costs(c, v)
            if m.cost_cover_disjoint_paths and "disjoint_paths_map" in a and loops:
                D = a["disjoint_paths_map"]; w.reach.add("path_costs_checked")
                if not any(D.get(x) for x in loops) and any(loops.values()): bad(v, "asks for cost covers from disjoint paths but was solved without their costs")
                for x in D:
                    if x in loops and x != root and D[x] > loops[x]: bad(v, f"was given disjoint paths of cost {D[x]} for vertex {x}, but a cycle of cost {loops[x]} runs through it"); break
            if a.get("disjoint_paths_map") or not m.cost_cover_disjoint_paths: want["cost_cover_disjoint_paths"] = m.cost_cover_disjoint_paths
            options(v, a, want, "solved")
            if "solver_dir" in a and os.path.basename(str(a["solver_dir"])) != str(v.uuid): bad(v, "was solved in the directory of another vial")
            h = tours.get(v.uuid)
            if h and "heuristic_edges" in a and h["edges"] and h["prize"] >= v.data_config.quota:
                G = c.graph(v)[0]; E = [tuple(e) for e in a["heuristic_edges"]]; w.reach.add("starting_tour_checked")
                if not E: bad(v, f"asks for the starting heuristic {m.heuristic.value}, which finds a feasible tour, but was solved without it")
                elif sum(G[x][y]["cost"] for x, y in E if G.has_edge(x, y)) > h["objective"]: bad(v, f"was given a starting tour that costs more than the one {m.heuristic.value} finds")
            if a.get("heuristic_edges") and not m.heuristic: bad(v, "asks for no starting heuristic but was given a starting tour")
    if c.exp and clean and not any(k.startswith("fault_") and k != "fault_solver_limit" for k in w.stats):
        for u in c.uuids:
            k = nsolve.get(u, 0); e = int(c.byid[u].model_params.algorithm.value == "solve_pctsp")
            if c.calls and SIGS.get("solve_pctsp_bind") and k != e: bad(c.byid[u], f"was solved exactly {k} times instead of {e}")
        last = {}
        for who, u, k in c.marks:
            v = c.byid[u]; m = v.model_params; q = v.data_config.quota; alg = (m.heuristic or m.algorithm).value if m.algorithm.value == "solve_pctsp" and m.heuristic else m.algorithm.value
            win = [x for x in c.calls.get(who, [])[last.get(who, 0):k] if x[0] != "solve_pctsp_bind"]; last[who] = k
            if not win and alg not in ("solve_pctsp", "suurballes_heuristic") : continue
            for name, a in win:
                if alg == "solve_pctsp": bad(v, f"asks for no heuristic but {name} was run"); break
                if "path" in name and "path" not in alg: bad(v, f"asks for {alg} but {name} was run"); break
                if ("extension" in name or "collapse" in name) and "path" not in name and alg in ("bfs_path_extension_collapse", "suurballes_path_extension_collapse", "suurballes_heuristic"): bad(v, f"asks for {alg} but {name} was run"); break
                g = same_graph(c, v, a)
                if g: bad(v, f"ran {name} with " + g); break
                want = {"quota": q, "py_root": v.data_config.root, "root_vertex": v.data_config.root}
                if name == "path_extension_collapse_bind":
                    want.update(collapse_shortest_paths=bool(m.collapse_paths), step_size=m.step_size or 10)
                    if m.path_depth_limit: want["path_depth_limit"] = m.path_depth_limit
                    elif "path_depth_limit" in a and a["path_depth_limit"] < len({x for e in a["edge_list"] for x in e}): bad(v, f"sets no path depth limit but ran with {a['path_depth_limit']}")
                    w.reach.add("path_call_checked")
                options(v, a, want, "run by " + name)
    if c.calls: w.reach.add("calls_checked")


def flow_resume(c, ref):
    """After the faults: missing + one array over the missing vials must complete everything that can be completed."""
    w = c.w; k0 = len(c.final); done = complete(c); before = {u: read(c, res_path(c, u)) for u in done}
    need = [u for u in c.uuids if ref[u] is not None and u not in done]
    def listed(when):
        t = do(c, cmd(c, "missing"))
        if not t.ok: w.violation("missing-resume", f"missing failed {when}: " + tail(t)); return False
        try: ids = [str(v["uuid"]) for v in json.loads(read(c, os.path.join(exp_dir(c), "missing_experiment.json")))["vials"]]
        except (ValueError, TypeError, KeyError): w.violation("missing-resume", f"there is no readable missing experiment {when}"); return False
        have = complete(c); want = [str(u) for u in c.uuids if u not in have]
        if ids != want: w.violation("missing-resume", f"the missing experiment {when} holds {len(ids)} vials, but {len(want)} have no result" if len(ids) != len(want) else f"the missing experiment {when} holds other vials than those without a result"); return False
        return True
    if not listed("after the crash"): return
    if any(u not in done for u in c.uuids):
        jobs, _ = slurm_jobs(c, True)
        if jobs is None: w.violation("missing-resume", "no job script for the missing vials"); return
        for t in run_jobs(c, jobs):
            if t.exc is not None: w.violation("missing-resume", "a batch of missing vials ended with " + tail(t))
    for u in c.uuids:
        r = parse_result(read(c, res_path(c, u)) or b"", u); n = c.vnum[u]
        if ref[u] is not None and r is None: w.violation("missing-resume", f"vial {n} still has no result after a fault-free run of the missing vials")
        if u in before and read(c, res_path(c, u)) != before[u]: w.violation("missing-resume", f"vial {n} was run again although its result was complete")
        if r is not None and ref[u] is not None and not agrees(c, u, ref[u], r): w.violation("missing-resume", f"vial {n} ends with another result than in a run without faults")
    listed("at the end")
    if complete(c) == set(c.uuids): w.reach.add("all_complete_listed")
    t = do(c, cmd(c, "nmissing")); m = re.search(r"(\d+) out of (\d+)", t.out.getvalue()); left = sum(1 for u in c.uuids if u not in complete(c))
    if not t.ok or not m or int(m.group(1)) != left: w.violation("missing-resume", f"nmissing says {t.out.getvalue().strip()!r} at the end, but {left} results are missing")
    if need: w.reach.add("resumed")
    if before: w.reach.add("kept_results")


def check_slurm(c, jobs, text):
    w, n, b, tl = c.w, len(c.vials), c.case["batch"], c.case["tl"]; m = re.search(r"^#SBATCH\s+--time=(\S+)", text, re.M)
    if len(jobs) != math.ceil(n / b): w.violation("slurm-script", f"{len(jobs)} array tasks for {n} vials in batches of {b}")
    if not m: w.violation("slurm-script", "no wall time is requested"); return
    x = re.fullmatch(r"(?:(\d+)-)?(\d+):(\d+):(\d+)", m.group(1))
    if not x: w.violation("slurm-script", f"wall time {m.group(1)!r} is not valid"); return
    wall = int(x.group(1) or 0) * 86400 + int(x.group(2)) * 3600 + int(x.group(3)) * 60 + int(x.group(4)); two = 48 * 3600
    if wall > two: w.violation("slurm-script", f"the script asks for {wall / 3600:g} h of wall time, more than two days")
    if wall < min(b * tl, two): w.violation("slurm-script", f"the script asks for {wall / 3600:g} h of wall time, but a batch of {b} vials limited to {tl:g} s each may need {b * tl / 3600:g} h")
    w.reach.add("wall_capped" if b * tl >= two else "wall_fits"); ask = c.case.get("ask") or [None] * 3
    for x, o in zip(ask, ("partition", "mem-per-cpu")):
        got = re.search(rf"^#SBATCH\s+(?:--{o}{'|-p' if o == 'partition' else ''})(?:=|\s+)[\"']?([^\s\"']+)", text, re.M)
        if x is not None and (not got or got.group(1) not in (str(x), f"{x}M" if o == "mem-per-cpu" else str(x))): w.violation("slurm-script", f"{o} {x} was asked for, but the script asks for {got and got.group(1)}")
    # run the batches with solves that use up their time limit: Slurm kills a job at its wall time
    for i, j in enumerate(jobs):
        if j[0] != "batch" or j[1:3] != [c.ds, c.exp]: w.violation("slurm-script", f"array task {i} runs {j[:3]}"); return
        if ask[2] is not None and ("--logging-level", str(ask[2])) not in zip(j, j[1:]) and f"--logging-level={ask[2]}" not in j: w.violation("slurm-script", f"array task {i} does not use the logging level asked for"); return
    if b * tl <= two - 3600:
        slow = {v.uuid for v in c.vials}; c.slow_ns = int(tl * 1e9); ts = run_jobs(c, jobs, wall=wall * 10**9)
        for t in ts:
            if t.dead: w.violation("slurm-script", f"a batch of {b} vials limited to {tl:g} s each was killed at its wall time of {wall / 3600:g} h")
        got = complete(c)
        for v in c.vials:
            if expect_fail(c, v) is False and v.uuid not in got: w.violation("slurm-script", f"vial {c.vnum[v.uuid]} of {n} has no result after all array tasks ran"); break


def flow_experiment(c):
    from pctsp.lab import Lab
    from pctsp.vial import Experiment, Vial
    w, case = c.w, c.case; calm(c); c.expseen = {}; storm(c); sets = []; ur = random.Random(case["seed"]); cur = c.vials; first_done = False
    import pctsp.compare.params as pm
    small = {"LONDONAQ_QUOTA_LIST": [3, 5], "LONDONAQ_GRAPH_NAME_LIST": None, "TSPLIB_ALPHA_LIST": [50], "TSPLIB_KAPPA_LIST": [3], "TSPLIB_COST_FUNCTIONS": None, "TSPLIB_GRAPH_NAME_LIST": None}
    def api(vs):
        Lab(Path(c.labdir) / c.ds).write_experiment_to_file(Experiment(name=c.exp, vials=vs, timestamp="2023-11-14T10:00:00"))
    for k in range(case["nsetup"]):
        tasks = []
        if case["setup"] == "cli" and c.exp == "dryrun" and c.ready_dryrun:
            t = cmd(c, "setup"); c.exp_sizes.add(3); case["setup"] = "cli"
        else:
            vs = [v.model_copy(update={"uuid": UUID(int=ur.getrandbits(128), version=4)}) for v in c.vials[: ur.randint(1, len(c.vials))]] if k else c.vials
            c.offered.append([v.uuid for v in vs]); c.exp_sizes.add(len(vs)); t = w.spawn("setup", lambda vs=vs: api(vs))
        tasks.append(t)
        for rd in case["readers"]:
            tasks.append(cmd(c, rd))
        had = c.expseen.get("experiment.json") is not None; f0 = dict(w.stats); w.run(tasks)
        injected = {k2 for k2 in w.stats if k2.startswith("fault_") and w.stats[k2] != f0.get(k2, 0)}
        for t in tasks[1:]:
            if t.exc is not None and not injected:
                if isinstance(t.exc, FileNotFoundError) and not had: w.reach.add("reader_before_setup"); continue
                w.violation("experiment-atomic", f"{t.name} failed while the experiment was being written: {tail(t)}")
        if tasks[0].ok:
            w.reach.add("setup_done")
            if read(c, os.path.join(exp_dir(c), "experiment.json")) is None: w.violation("experiment-atomic", "setup succeeded but left no experiment")
            elif case["setup"] == "api":
                try: ids = [v["uuid"] for v in json.loads(read(c, os.path.join(exp_dir(c), "experiment.json")))["vials"]]
                except (ValueError, KeyError, TypeError): ids = None
                if ids is not None and ids != [str(x) for x in c.offered[-1]]: w.violation("experiment-atomic", "setup succeeded but another experiment is on disk")
        elif had: w.reach.add("setup_failed_over_old")
    calm(c); e = read(c, os.path.join(exp_dir(c), "experiment.json"))
    if e is not None:
        t = do(c, cmd(c, "nbatches"))
        if not t.ok: w.violation("experiment-atomic", "the experiment on disk cannot be used after the faults: " + tail(t))
        t = do(c, cmd(c, "missing"))
        if not t.ok: w.violation("experiment-atomic", "missing fails after the faults: " + tail(t))
        # what is read back is what was written
        def back():
            return Lab(Path(c.labdir) / c.ds).read_experiment_from_file(Experiment(name=c.exp, vials=[], timestamp="2023-11-14T10:00:00").name)
        t = w.spawn("back", back); w.run([t])
        if not t.ok: w.violation("experiment-atomic", "reading the experiment back failed: " + tail(t))
        elif case["setup"] == "api":
            byid = {v.uuid: v for v in c.vials}
            for v in t.value.vials:
                if v.uuid in byid and v != byid[v.uuid]: w.violation("experiment-atomic", "a vial read back differs from the vial that was written"); break


def flow_single(c):
    from pctsp.vial import Experiment
    w, case = c.w, c.case; calm(c); c.expseen = {}; storm(c); L = ["--lab-dir", c.labdir]; n0 = {}
    if case["cmd"] == "lab":
        c.exp = "dryrun"; t = cli(c, "lab", ["lab", c.ds, "dryrun"] + L + roots(c)); nv = 3
    else:
        c.exp = "onerun"; o = case["one"]; alg = o["alg"]; nv = 1; g = case["onegraph"]; inst = case["insts"][g]; x = case["opts"]; args = [case["cmd"], alg, "--graph-name", g] + L + ["--time-limit", x["tl"]] + (["--remove-leaves"] if x["leaves"] else []) + (["--no-cost-cover-disjoint-paths"] if not o.get("dp") else []) + (["--cost-cover-shortest-path"] if o.get("sp") else [])
        if case["cmd"] == "londonaq":
            q = o["quota"]; args += ["--quota", q, "--londonaq-root", c.base + "/londonaq_data"]
        else:
            q = int(case["alpha"] * sum(inst["score"][o["gen"]]) / 100.0); args += ["--alpha", case["alpha"], "--cost-function", o["cost"], "--oplib-root", c.base + "/oplib", "--generation", o["gen"]] + (["--kappa", o["kappa"]] if o["kappa"] else []) + (["--heuristic", o["heur"]] if o.get("heur") else []) + ["--step-size", x["step"], "--path-depth-limit", x["depth"], "--collapse-paths" if x["collapse"] else "--no-collapse-paths", "--branching-max-depth", x["bdepth"], "--sec-lp-gap-improvement-threshold", x["gap"], "--sec-max-tailing-off-iterations", x["tail"]]
        t = cli(c, case["cmd"], args)
    c.exp_sizes = {nv}; w.run([t]); faulted = any(k.startswith("fault_") and k not in ("fault_solver_limit",) for k in w.stats); calm(c)
    data = read(c, os.path.join(exp_dir(c), "experiment.json"))
    if t.exc is not None and not faulted: w.violation("single-run", f"the {t.name} command failed: {tail(t)}"); return
    if data is None:
        if t.ok: w.violation("single-run", f"the {t.name} command left no experiment")
        return
    try: e = Experiment(**json.loads(data))
    except Exception: w.violation("single-run", "the recorded experiment does not parse"); return
    c.vials = e.vials; c.uuids = [v.uuid for v in e.vials]; c.byid = {v.uuid: v for v in e.vials}; c.vnum = {u: i for i, u in enumerate(c.uuids)}
    if case["cmd"] != "lab":
        v = e.vials[0]; dc = v.data_config; inst = case["insts"][case["onegraph"]]
        want = {"quota": q, "graph": case["onegraph"], "alg": alg, "root": inst["root"] if c.ds == "londonaq" else 1}; got = {"quota": dc.quota, "graph": dc.graph_name.value, "alg": v.model_params.algorithm.value, "root": dc.root}
        if got != want: w.violation("single-run", f"asked for {want}, recorded {got}")
        if c.ds == "tspwplib" and (dc.kappa or None) != (o["kappa"] or None): w.violation("single-run", f"asked for kappa {o['kappa']}, recorded {dc.kappa}")
        if c.ds == "tspwplib" and (dc.alpha, dc.generation.value) != (case["alpha"], o["gen"]): w.violation("single-run", f"asked for alpha {case['alpha']} of {o['gen']}, recorded {dc.alpha} of {dc.generation.value}")
        if c.ds == "tspwplib" and dc.cost_function.value != o["cost"]: w.violation("single-run", f"asked for cost function {o['cost']}, recorded {dc.cost_function.value}")
        m = v.model_params; ask = {}; rec = m.model_dump(); heur = o.get("heur") if alg == "solve_pctsp" and c.ds == "tspwplib" else None
        if alg == "solve_pctsp":
            ask = {"time_limit": x["tl"], "cost_cover_disjoint_paths": bool(o.get("dp")), "cost_cover_shortest_path": bool(o.get("sp")), "is_exact": True, "is_heuristic": False}
            if c.ds == "tspwplib": ask.update(branching_max_depth=x["bdepth"], sec_lp_gap_improvement_threshold=x["gap"], sec_max_tailing_off_iterations=x["tail"], heuristic=heur)
        else: ask = {"is_exact": False, "is_heuristic": True}
        if c.ds == "tspwplib" and "path_extension" in (heur or alg): ask.update(step_size=x["step"], path_depth_limit=x["depth"], collapse_paths=x["collapse"])
        for k2, y in ask.items():
            z = rec.get(k2); z = getattr(z, "value", z)
            if z != y: w.violation("single-run", f"asked for {k2} {y}, recorded {z}")
        if v.preprocessing.remove_leaves != x["leaves"]: w.violation("single-run", f"asked for remove_leaves {x['leaves']}, recorded {v.preprocessing.remove_leaves}")
    if not t.ok: return
    got = []
    for v in e.vials:
        r = parse_result(read(c, res_path(c, v.uuid)) or b"", v.uuid); G, root = c.graph(v)
        if r is None:
            if root in G and on_cycle(G, root) and v.preprocessing.remove_one_connected_components and not faulted: w.violation("single-run", f"vial {c.vnum[v.uuid]} ({v.model_params.algorithm.value}) left no result: {tail(t)}")
            continue
        got.append(r); check_truth(c, v, r, "single-run"); w.reach.add("single_result")
    try: back = json.loads(read(c, os.path.join(exp_dir(c), "results.json")))
    except (ValueError, TypeError): w.violation("single-run", "the command succeeded but results.json does not parse"); return
    want = [{k: r[k] for k in ("vial_uuid", "objective", "prize", "start_time", "end_time", "edge_list")} for r in got]
    if not faulted and [{k: x.get(k) for k in ("vial_uuid", "objective", "prize", "start_time", "end_time", "edge_list")} for x in back] != want: w.violation("single-run", f"results.json holds {len(back)} results, the vial files {len(got)}" if len(back) != len(got) else "results.json differs from the vials' own results")


# ------------------------------------------------------------------ set-up of named experiments, tables of the data sets
LISTS = {"LONDONAQ_QUOTA_LIST": [1000, 2000, 3000, 4000, 5000], "LONDONAQ_GRAPH_NAME_LIST": ["laqbbA", "laqidA", "laqkxA", "laqwsA"], "TSPLIB_ALPHA_LIST": [5, 10, 25, 50, 75], "TSPLIB_COST_FUNCTIONS": ["EUC_2D", "MST"], "TSPLIB_KAPPA_LIST": [5, 10, 15, 20, 25],
         "TSPLIB_GRAPH_NAME_LIST": ["eil51", "st70", "rat195", "tsp225", "a280", "pr439", "rat575", "gr666", "pr1002"]}


def val(x): return getattr(x, "value", x)


def shorten_lists(c):
    """Give the lists that the experiments range over (pctsp.compare.params) this run's contents; return what they then hold."""
    import importlib
    try: pm = importlib.import_module("pctsp.compare.params")
    except ImportError: pm = None
    out = {}
    for name, keep in c.case["lists"].items():
        l = getattr(pm, name, None)
        if isinstance(l, list): l[:] = keep[1:] if keep[0] == "=" else [l[i % len(l)] for i in keep] if l else l
        out[name] = [val(x) for x in (l if l is not None else LISTS[name])]
    r = random.Random(c.case["seed"] ^ 0x51); names = out["LONDONAQ_GRAPH_NAME_LIST"] + ["laqtinyA"] if c.ds == "londonaq" else out["TSPLIB_GRAPH_NAME_LIST"] + sorted({g for e in c.case.get("setups", []) for g in FIXED.get(e, [])})
    for n in names:
        if n not in c.case["insts"]: c.case["insts"][n] = gen_inst(r, c.ds)
        write_inst(c.w, c.base, c.ds, n, c.case["insts"][n], GENS)
    return out


FIXED = {"dryrun": ["st70"], "simple_branch_cut": ["st70", "rat195", "pr152", "gr229"], "disjoint_tours_vs_heuristics": ["st70", "rat195", "a280"]}
DRY = [("bfs_extension_collapse",), ("suurballes_heuristic",), ("solve_pctsp",)]
COMPARED = {"baseline": [("solve_pctsp", "bfs_extension_collapse", False, False)], "cost_cover": [("solve_pctsp", False, False), ("solve_pctsp", True, False), ("solve_pctsp", False, True)], "compare_heuristics": [(h,) for h in HEUR], "dryrun": DRY, "simple_branch_cut": DRY,
            "disjoint_tours_vs_heuristics": [("disjoint_tours_relaxation",), ("bfs_extension_collapse",), ("suurballes_heuristic",)]}
COMPARED["cc_londonaq_alpha"] = COMPARED["cost_cover"]; COMPARED["londonaq_alpha"] = COMPARED["compare_heuristics"]
COMPARED["tailing_off"] = [("solve_pctsp", s, t) for s in (2, 4) for t in (-1, 5, 10)]
BY = {"baseline": ["algorithm", "heuristic", "cost_cover_disjoint_paths", "cost_cover_shortest_path"], "cost_cover": ["algorithm", "cost_cover_disjoint_paths", "cost_cover_shortest_path"], "cc_londonaq_alpha": ["algorithm", "cost_cover_disjoint_paths", "cost_cover_shortest_path"],
      "tailing_off": ["algorithm", "branching_strategy", "sec_max_tailing_off_iterations"]}
SUPPORTED = {"londonaq": ["baseline", "compare_heuristics", "cost_cover", "cc_londonaq_alpha", "dryrun", "londonaq_alpha", "tailing_off"], "tspwplib": ["baseline", "compare_heuristics", "cost_cover", "disjoint_tours_vs_heuristics", "dryrun", "simple_branch_cut", "tailing_off"]}


def design(c, exp, lists):
    """The data configurations of an experiment: (graph, generation, kappa, cost function, alpha, quota, root), each as often as it is to be recorded."""
    import itertools
    I = c.case["insts"]
    if c.ds == "londonaq":
        def tot(g): return sum(I[g]["prize"].values())
        if exp == "dryrun": return [("laqtinyA", None, None, "EXPLICIT", None, 200, I["laqtinyA"]["root"])]
        G = lists["LONDONAQ_GRAPH_NAME_LIST"]
        if exp in ("cc_londonaq_alpha", "londonaq_alpha"): return [(g, None, None, "EXPLICIT", a, a * tot(g) // 100, I[g]["root"]) for a in lists["TSPLIB_ALPHA_LIST"] for g in G]
        return [(g, None, None, "EXPLICIT", None, q, I[g]["root"]) for q in lists["LONDONAQ_QUOTA_LIST"] for g in G]
    A, K, N, F, W = lists["TSPLIB_ALPHA_LIST"], lists["TSPLIB_KAPPA_LIST"], lists["TSPLIB_GRAPH_NAME_LIST"], lists["TSPLIB_COST_FUNCTIONS"], GENS
    if exp == "tailing_off": A, K = [25, 75], [10, 20]
    if exp == "simple_branch_cut": A, K, N = [25, 50, 75], [None, 10, 20, 30], FIXED[exp]
    if exp == "disjoint_tours_vs_heuristics": A, K, N, F = [25, 50, 75], [5, 10, 15, 20], FIXED[exp], ["EUC_2D"]
    if exp == "dryrun": A, K, W, N, F = [50], [10], ["gen1"], ["st70"], ["EUC_2D"]
    return [(g, w, k, f, a, a * sum(I[g]["score"][w]) // 100, 1) for a, k, w, g, f in itertools.product(A, K, W, N, F)]


def check_design(c, exp, data, lists, seen):
    from collections import Counter
    bad = lambda m: c.w.violation("experiment-design", f"{exp} on {c.ds}: {m}")
    try:
        e = json.loads(data); vs = e["vials"]; rows = Counter(); ids = [v["uuid"] for v in vs]; rest, pre = set(), set(); by = BY.get(exp, ["algorithm"])
        if e["name"] != exp: bad(f"the record is named {e['name']}")
        for v in vs:
            d, m = v["data_config"], v["model_params"]; rows[tuple(d.get(k) for k in ("graph_name", "generation", "kappa", "cost_function", "alpha", "quota", "root")) + tuple(m.get(k) for k in by)] += 1
            if d["dataset"] != c.ds: bad(f"a vial of data set {d['dataset']}")
            a = m["algorithm"]; flags = (m["is_exact"], m["is_heuristic"], m["is_relaxation"])
            if flags != (a == "solve_pctsp", a in HEUR or a == "extension", a == "disjoint_tours_relaxation"): bad(f"{a} is recorded with exact, heuristic, relaxation = {flags}")
            if a == "solve_pctsp" and any(m.get(k) is None for k in ("branching_strategy", "branching_max_depth", "sec_disjoint_tour", "sec_lp_gap_improvement_threshold", "sec_maxflow_mincut", "sec_max_tailing_off_iterations", "sec_sepafreq", "time_limit", "cost_cover_disjoint_paths", "cost_cover_shortest_path")): bad("an exact vial lacks an option of the solver")
            if len(by) > 1: rest.add(json.dumps({k: x for k, x in m.items() if k not in by}, sort_keys=True))
            pre.add(json.dumps(v["preprocessing"], sort_keys=True))
    except (ValueError, KeyError, TypeError) as x:
        return bad(f"{len(data)} bytes that are not a complete experiment ({type(x).__name__})")
    want = Counter(d + a for d in design(c, exp, lists) for a in COMPARED[exp]); miss = sorted((want - rows).items(), key=str); more = sorted((rows - want).items(), key=str)
    if miss: bad(f"{sum(n for _, n in miss)} of {sum(want.values())} combinations are not recorded, such as {miss[0][0]}" + (f"; recorded instead {more[0][0]}" if more else ""))
    elif more: bad(f"{sum(n for _, n in more)} vials are recorded twice or not asked for, such as {more[0][0]}")
    if len(set(ids)) != len(ids): bad("two vials have the same identifier")
    for u in ids:
        if seen.setdefault(u, exp) != exp: bad(f"a vial has the identifier of a vial of {seen[u]}"); break
    if len(rest) > 1: bad("the variants differ in more than the settings that the experiment compares")
    if len(pre) > 1: bad("the vials differ in their preprocessing")
    c.w.reach.add("design_checked"); c.w.reach.add("design_" + exp)


def flow_design(c):
    """Named experiments are set up, also concurrently, again, under faults and with instance files that are missing."""
    w, case = c.w, c.case; lists = shorten_lists(c); storm(c); seen, had = {}, {}; at = 0
    path = lambda e: os.path.join(c.labdir, c.ds, e, "experiment.json")
    while at < len(case["setups"]):
        wave = list(dict.fromkeys(case["setups"][at: at + case["wave"]])); at += case["wave"]; gone = None
        if case["lose"] and at <= case["wave"]:
            files = sorted(os.path.join(d, f) for d, _, fs in os.walk(c.base) for f in fs); gone = files[w.dec.choose(len(files), "lost_instance")]; stash = w.raw_read(gone); simos._real["unlink"](gone); w.count("fault_lost_instance")
        f0 = dict(w.stats); tasks = [(e, cli(c, "setup", ["setup", c.ds, e, "--lab-dir", c.labdir] + roots(c), node=i)) for i, e in enumerate(wave)]; w.run([t for _, t in tasks])
        faulted = any(k.startswith("fault_") and w.stats[k] != f0.get(k, 0) for k in w.stats)
        if w.lost_power: had = {e: (x if read(c, path(e)) == x else read(c, path(e))) for e, x in had.items()}
        for e, t in tasks:
            data = read(c, path(e)); sup = e in SUPPORTED[c.ds]; needs = gone and any(needed(c, d, gone) for d in (design(c, e, lists) if sup else []))
            if not sup or needs:
                if t.ok: w.violation("experiment-design", f"set-up of {e} on {c.ds} succeeded although " + ("the data set does not support it" if not sup else "one of its instance files is missing"))
                elif data != had.get(e): w.violation("experiment-design", f"set-up of {e} failed but changed the recorded experiment")
                w.reach.add("refused"); continue
            if data is not None: check_design(c, e, data, lists, seen)
            if t.ok and data is None: w.violation("experiment-design", f"set-up of {e} succeeded but left no experiment")
            if t.exc is not None and not faulted: w.violation("experiment-design", f"set-up of {e} failed: {tail(t)}")
            had[e] = data
        if gone: w.raw_write(gone, stash)


def needed(c, d, path):
    g, w = d[0], d[1]; return os.path.basename(path) == (f"{g}.yaml" if c.ds == "londonaq" else f"{g}-{w}-50.oplib")


def cycle_prizes(G, root):
    """For every vertex on a cycle through the root: the cost of a cheapest such cycle and the smallest and largest prize of those."""
    out = {}; pr = {v: G.nodes[v]["prize"] for v in G}

    def rec(x, path, cost, prize):
        for u in G[x]:
            c2 = cost + G[x][u]["cost"]
            if u == root and len(path) >= 3:
                for y in path:
                    o = out.get(y)
                    if o is None or c2 < o[0]: out[y] = (c2, prize, prize)
                    elif c2 == o[0]: out[y] = (c2, min(o[1], prize), max(o[2], prize))
            if u not in path: rec(u, path + [u], c2, prize + pr[u])
    rec(root, [root], 0, pr[root]); return out


def flow_dataset(c):
    """The statistics of the data set are written, under faults, again without."""
    import csv as _csv, io as _io, itertools, types
    import networkx as nx, tspwplib
    w, case = c.w, c.case; lists = shorten_lists(c); N = types.SimpleNamespace; want = {}; sure = True
    keys = [(g,) for g in lists["LONDONAQ_GRAPH_NAME_LIST"]] if c.ds == "londonaq" else [(g, x, f, k) for g, x, f, k in itertools.product(lists["TSPLIB_GRAPH_NAME_LIST"], GENS, lists["TSPLIB_COST_FUNCTIONS"], lists["TSPLIB_KAPPA_LIST"])]
    for k in keys:
        g, x, f, kap = k if len(k) == 4 else (k[0], None, "EXPLICIT", None)
        if k in want: continue
        G, root = ref_graph(c, N(graph_name=N(value=g), generation=N(value=x), kappa=kap, cost_function=N(value=f))); cyc = cycle_prizes(G, root) if root in G else {}; S = set(cyc) | {root}; H = G.subgraph(S)
        if not cyc: sure = False; want[k] = None; continue
        def total(q): return sum(q.nodes[v]["prize"] for v in q)
        def cost(q): return sum(d["cost"] for _, _, d in q.edges(data=True))
        comps = sorted(map(len, nx.connected_components(G)), reverse=True); tie = len(comps) > 1 and comps[0] == comps[1]
        row = {"num_nodes": len(G), "num_edges": G.number_of_edges(), "total_cost": cost(G), "total_prize": total(G), "preprocessed_num_nodes": len(H), "preprocessed_num_edges": H.number_of_edges(), "preprocessed_total_cost": cost(H), "preprocessed_total_prize": total(H),
               "preprocessed_prize_ratio": total(H) / total(G) if total(G) else None, "max_disjoint_paths_cost": max(x[0] for x in cyc.values())}
        try:
            sure = sure and not tie; row["preprocessed_metricness"] = tspwplib.metricness(H); row["metricness"] = None if tie else tspwplib.metricness(G.subgraph(max(nx.connected_components(G), key=len)))
        except Exception: sure = False
        if not total(G): sure = False
        cyc.pop(root, None); row["_prize"] = (max(x[1] for x in cyc.values()), max(x[2] for x in cyc.values()), total(G)); want[k] = row
    out = os.path.join(c.base, "londonaq_data/londonaq_dataset.csv" if c.ds == "londonaq" else "oplib/tsplib_dataset.csv"); bad = lambda m: w.violation("dataset-stats", m)
    for rnd in range(2):
        (storm if rnd == 0 else calm)(c); gone = None
        if rnd == 0 and case["lose"]:
            files = sorted(os.path.join(d, f) for d, _, fs in os.walk(c.base) for f in fs); gone = files[w.dec.choose(len(files), "lost_instance")]; stash = w.raw_read(gone); simos._real["unlink"](gone); w.count("fault_lost_instance")
        f0 = dict(w.stats); t = do(c, cli(c, "dataset", ["dataset", "stats", c.ds] + roots(c))); faulted = any(k.startswith("fault_") and w.stats[k] != f0.get(k, 0) for k in w.stats); lost = gone and any(needed(c, (k[0], k[1] if len(k) > 1 else None), gone) for k in keys)
        if gone: w.raw_write(gone, stash)
        if not t.ok:
            if sure and not faulted and not lost: bad(f"the statistics of {c.ds} fail: {tail(t)}")
            continue
        if lost: bad("the statistics succeed although an instance file is missing"); continue
        data = read(c, out)
        if data is None: bad("the command succeeded but left no table"); continue
        try: rows = list(_csv.DictReader(_io.StringIO(data.decode())))
        except ValueError: bad("the command succeeded but its table cannot be read"); continue
        ks = [tuple([r.get("graph_name")] + ([r.get("generation"), r.get("cost_function"), int(r.get("kappa") or -1)] if c.ds == "tspwplib" else [])) for r in rows]
        if sorted(ks) != sorted(keys): bad(f"the table has {len(ks)} rows, the data set {len(keys)} instances" if len(ks) != len(keys) else "the rows of the table are not the instances of the data set"); continue
        for k, r in zip(ks, rows):
            q = want[k]
            if q is None: continue
            def num(n):
                try: return float(r[n])
                except (KeyError, TypeError, ValueError): return None
            for n, x in q.items():
                if n == "_prize":
                    lo, hi, t3 = x; b = num("biggest_disjoint_prize")
                    if b is None or not lo <= b <= hi: bad(f"biggest_disjoint_prize of {k[0]} is {b}, the cheapest disjoint paths collect {lo}" + (f" to {hi}" if hi != lo else ""))
                    elif t3 and (num("disjoint_prize_ratio") is None or abs(num("disjoint_prize_ratio") - b / t3) > 1e-9): bad(f"disjoint_prize_ratio of {k[0]} is {num('disjoint_prize_ratio')}, not {b}/{t3}")
                elif x is not None and (num(n) is None or abs(num(n) - x) > 1e-9 * max(1, abs(x))): bad(f"{n} of {k[0]} is {r.get(n)}, not {x}")
        w.reach.add("dataset_checked")


def tree(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f); out[os.path.relpath(p, root)] = simos.W.raw_read(p)
    return out


def flow_archive(c):
    w = c.w; src = exp_dir(c); w.off += 1; other = sorted({"tailing_off", "baseline"} - {c.exp})[0] if c.case.get("two") else None
    if other:       # a second experiment in the same lab
        import shutil
        d2 = os.path.join(c.labdir, c.ds, other); shutil.copytree(src, d2); f = os.path.join(d2, "experiment.json"); w.raw_write(f, w.raw_read(f).replace(c.exp.encode(), other.encode())); w.raw_write(os.path.join(d2, "notes.txt"), b"second")
    names = [c.exp] + ([other] if other else []); dirs = lambda lab: {n: os.path.join(lab, c.ds, n) for n in names}
    before = {n: tree(d) for n, d in dirs(c.labdir).items()}; w.off -= 1
    for attempt in range(2):
        if attempt == 0: storm(c)
        else: calm(c)
        f0 = dict(w.stats); t = do(c, cmd(c, "zip", names=names)); faults = {k for k in w.stats if k.startswith("fault_") and w.stats[k] != f0.get(k, 0)}
        w.off += 1; now = {n: tree(d) for n, d in dirs(c.labdir).items()}; w.off -= 1
        if now != before: w.violation("archive-roundtrip", "zip changed the experiment's own files"); return
        if not t.ok and not faults: w.violation("archive-roundtrip", "zip failed: " + tail(t)); return
        dest = os.path.join(w.root, f"lab{attempt}"); os.makedirs(os.path.join(dest, c.ds), exist_ok=True); zok = t.ok; k = 0
        for n in names:
            data = read(c, os.path.join(c.labdir, c.ds, n + ".zip"))
            if data is not None: w.raw_write(os.path.join(dest, c.ds, n + ".zip"), data); k += 1
        if not k: continue
        if c.case.get("stale") and zok:     # an older state of the experiment is already there
            w.off += 1
            for n in names:
                for p in before[n]:
                    how = w.dec.choose(3, "stale")
                    if how: os.makedirs(os.path.dirname(os.path.join(dest, c.ds, n, p)), exist_ok=True); w.raw_write(os.path.join(dest, c.ds, n, p), b"old" if how == 1 else before[n][p]); w.reach.add("restored_over_old")
            w.off -= 1
        calm(c); t = do(c, cmd(c, "unzip", dir=dest, names=names)); w.off += 1; got = {n: tree(d) for n, d in dirs(dest).items()}; w.off -= 1
        if zok and not t.ok: w.violation("archive-roundtrip", "unzip failed on an archive that zip reported complete: " + tail(t)); return
        for n in names:
            if t.ok and got[n] != before[n] and zok: w.violation("archive-roundtrip", f"the restored experiment {n} differs: {len(got[n])} of {len(before[n])} files, or other contents"); return
        if zok:     # the restored copy answers like the original
            keep = c.labdir; a = do(c, cmd(c, "nmissing")); c.labdir = dest; b = do(c, cmd(c, "nmissing")); c.labdir = keep
            if (a.ok, a.out.getvalue()) != (b.ok, b.out.getvalue()): w.violation("archive-roundtrip", "nmissing answers differently on the restored experiment"); return
        w.reach.add("restored" if zok else "torn_archive")
        if zok and other: w.reach.add("restored_two")


def nontrivial(prop, w):
    need = {"result-durability": "result_written", "experiment-atomic": "exp_written", "readers-survive": "result_written", "missing-resume": "result_written", "batch-coverage": "result_written", "slurm-script": "wall_fits", "vial-isolation": "result_written",
            "result-truthful": "result_written", "schedule-independence": "result_written", "csv-export": "result_written", "archive-roundtrip": "restored", "single-run": "single_result", "run-as-recorded": "calls_checked", "experiment-design": "design_checked", "dataset-stats": "dataset_checked"}[prop]
    return need in w.reach or (prop == "slurm-script" and "wall_capped" in w.reach)


def run_case(case, root):
    """One simulated run, in this (forked) process. Returns the world."""
    global CTX
    for i in range(0, 20): STATUS_NAMES.setdefault(i, str(i))
    STATUS_NAMES.update(SCIP_STATUS)
    import shutil
    os.makedirs(root, exist_ok=True); dec = Dec(case.get("dec_seed", case["seed"]) * 31 + 5, case.get("dec")); w = World(root, dec, case["seed"], T0); c = Ctx(); c.w, c.case = w, case; CTX = c
    c.ds, c.exp = case["dataset"], case["exp"]; c.base = w.root + "/" + case.get("dataname", "data"); c.labdir = w.root + "/" + case.get("labname", "lab"); os.makedirs(c.base); os.makedirs(c.labdir); os.makedirs(c.base + "/londonaq_data"); os.makedirs(c.base + "/oplib")
    c.status, c.span, c.good, c.final, c.offered, c.exp_sizes, c.expseen = {}, {}, {}, [], [], set(), {}; c.bad = None; c.slow_ns = None; c.refstatus = {}; c.calls = {}; c.marks = []
    for name, inst in case["insts"].items(): write_inst(w, c.base, c.ds, name, inst, GENS)
    c.ready_dryrun = ("laqtinyA" if c.ds == "londonaq" else "st70") in case["insts"]
    c.vials = build_vials(c); c.uuids = [v.uuid for v in c.vials]; c.byid = {v.uuid: v for v in c.vials}; c.vnum = {u: i for i, u in enumerate(c.uuids)}
    gc, oc = {}, {}

    def key(v): d = v.data_config; return (d.graph_name.value, d.generation and d.generation.value, d.kappa, d.cost_function.value)
    def graph(v):
        if key(v) not in gc: gc[key(v)] = ref_graph(c, v.data_config)
        return gc[key(v)]
    def opt(v):
        k = key(v) + (v.data_config.quota,)
        if k not in oc: oc[k] = best_tour(*graph(v), v.data_config.quota)
        return oc[k]
    c.graph, c.opt = graph, opt
    if c.ds == "tspwplib":
        for v in c.vials: graph(v)       # before any instance file is damaged
    dn = os.open(os.devnull, os.O_WRONLY); os.dup2(dn, 2); os.dup2(dn, 1)
    simos.install(w); watch(c)
    try:
        flow(c)
    except Stuck:
        w.violation(case["prop"], f"the run does not end: {w.steps} steps")
    except (LookupError, ValueError, TypeError, ArithmeticError, AssertionError) as e:
        if unreadable(e): w.violation(case["prop"], f"what the code left cannot be judged: {type(e).__name__} {str(e)[:80]!r}")
        else: raise
    return w


def unreadable(e):
    """An oracle tripped over a value the code under test left: the innermost frame is in this file, not in the simulator."""
    tb, last = e.__traceback__, None
    while tb: last, tb = tb.tb_frame.f_code.co_filename, tb.tb_next
    return not os.path.basename(last or "").startswith(("simos", "simlab"))


SCIP_STATUS = {0: "unknown", 1: "userinterrupt", 2: "nodelimit", 5: "timelimit", 6: "memlimit", 11: "optimal", 12: "infeasible", 13: "unbounded"}
