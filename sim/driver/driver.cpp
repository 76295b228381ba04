/* driver: runs the real pctsp C++ code (modelling, SEC and cycle-cover constraint handlers, cost-cover, node and
 * bounds event handlers, statistics files) on the simulated SCIP, one forked process per run.
 * A Case is a text file; together with the code it fixes every choice of the run. */
#include "../simscip/simscip.h"
#include "pctsp/algorithms.hh"
#include "pctsp/event_handlers.hh"
#include "pctsp/logger.hh"
#include <yaml-cpp/yaml.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/resource.h>
#include <poll.h>
#include <signal.h>
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>
#include <dlfcn.h>
#include <execinfo.h>
#include <fstream>
#include <algorithm>
#include <sstream>
#include <iostream>
#include <set>
#include <array>
#include <new>

/* ------------------------------------------------------------------ heap: fixed addresses, order chosen by the case */
static char* g_arena = nullptr; static const size_t ARENA = 64ull << 20; static const int NSUB = 8; static size_t g_off[NSUB]; static bool g_arena_on = false; static uint64_t g_arena_state = 1; static bool g_arena_mix = false;
static void arena_init() { g_arena = (char*)mmap((void*)0x600000000000ULL, ARENA * NSUB, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0); if (g_arena == MAP_FAILED) { fprintf(stderr, "arena unavailable\n"); _exit(3); } }
/* free lists per sub-arena and size, so that addresses are reused (and a stale pointer reads poison) but stay a function of the case */
struct Blk { uint32_t units, sub; uint64_t magic; }; static Blk* g_free[NSUB][513];
static void* arena_alloc(size_t n) {
    int k = 0; if (g_arena_mix) { g_arena_state += 0x9E3779B97F4A7C15ULL; uint64_t z = g_arena_state; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z ^= z >> 29; k = (int)(z % NSUB); }
    size_t u = (n + 15) / 16; if (!u) u = 1; if (u > 32) { size_t p = 64; while (p < u) p += p / 2; u = (p + 0); }
    if (u <= 512) for (int q = 0; q < NSUB; q++) { int j = (k + q) % NSUB; if (q && g_off[k] + (u + 1) * 16 <= ARENA) break; if (g_free[j][u]) { Blk* b = g_free[j][u]; g_free[j][u] = *(Blk**)(b + 1); return b + 1; } }
    size_t bytes = (u + 1) * 16;
    if (g_off[k] + bytes > ARENA) { for (k = 0; k < NSUB && g_off[k] + bytes > ARENA; k++); if (k == NSUB) { static const char m[] = "arena exhausted\n"; (void)!::write(2, m, sizeof m - 1); _exit(98); } }
    Blk* b = (Blk*)(g_arena + ARENA * k + g_off[k]); g_off[k] += bytes; b->units = (uint32_t)u; b->sub = k; b->magic = 0x5AFE5AFE5AFE5AFEULL; return b + 1;
}
static void arena_free(void* p) { Blk* b = (Blk*)p - 1; size_t u = b->units; memset(p, 0xDB, u * 16); if (u <= 512) { *(Blk**)p = g_free[b->sub][u]; g_free[b->sub][u] = b; } }
/* a failing allocation: the g_alloc_at-th one of the solve throws, once */
static long g_alloc_at = 0, g_alloc_count = 0; static int g_alloc_fired = 0;
void* operator new(size_t n) { if (g_arena_on) { if (g_alloc_at && ++g_alloc_count == g_alloc_at) { g_alloc_fired++; g_alloc_at = 0; throw std::bad_alloc(); } return arena_alloc(n); } void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { if (g_arena_on) return arena_alloc(n); return malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
void operator delete(void* p) noexcept { if (!p) return; if ((char*)p >= g_arena && (char*)p < g_arena + ARENA * NSUB) { arena_free(p); return; } free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { operator delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { operator delete(p); }

/* ------------------------------------------------------------------ clock */
namespace std { namespace chrono { inline namespace _V2 { system_clock::time_point system_clock::now() noexcept { if (simscip::cfg.clock_tick) { bool a = g_arena_on; g_arena_on = false; if (simscip::dec.chance(simscip::cfg.clock_tick, "clock_read")) simscip::advance((1 + 7 * simscip::dec.choose(3, "clock_by")) * 700000LL); g_arena_on = a; } return time_point(duration_cast<duration>(nanoseconds(simscip::sim_now_ns))); } } } }

/* ------------------------------------------------------------------ simulated disk faults on the solver directory */
struct IOFault { bool armed = false; std::string dir; int kind = 0; /*0 none 1 crash 2 ENOSPC 3 EIO 4 short writes 5 crash torn 6 open fails*/ int at = -1; int count = 0; int fired = 0; uint64_t rng = 1; long writes = 0, opens = 0, renames = 0, fsyncs = 0; } g_io;
static const char* IOK[] = {"none", "crash", "no_space", "io_error", "short_write", "crash_torn", "open_fails"};
static std::set<int>* g_iofds = nullptr; static std::set<FILE*>* g_files = nullptr;
template <class F> static F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
static uint64_t iornd() { g_io.rng += 0x9E3779B97F4A7C15ULL; uint64_t z = g_io.rng; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; return z ^ (z >> 27); }
static bool inDir(const char* p) { return g_io.armed && p && !strncmp(p, g_io.dir.c_str(), g_io.dir.size()); }
static bool ioHit() { int c = g_io.count++; return g_io.kind && (g_io.kind == 4 || c == g_io.at || ((g_io.kind == 2) && c >= g_io.at)); }
static void ioCrash() { _exit(99); }
static void track(int fd) { if (fd >= 0) { bool a = g_arena_on; g_arena_on = false; g_iofds->insert(fd); g_arena_on = a; } }
extern "C" FILE* fopen64(const char* p, const char* m);
static FILE* doFopen(const char* nm, const char* p, const char* m) {
    bool w = m && (strchr(m, 'w') || strchr(m, 'a') || strchr(m, '+'));
    if (inDir(p) && w) { g_io.opens++; if (ioHit()) { if (g_io.kind == 1 || g_io.kind == 5) { g_io.fired++; ioCrash(); } if (g_io.kind == 6 || g_io.kind == 2) { g_io.fired++; errno = g_io.kind == 2 ? ENOSPC : EACCES; return nullptr; } } }
    FILE* f = real<FILE* (*)(const char*, const char*)>(nm)(p, m);
    if (f && inDir(p)) { track(fileno(f)); bool a = g_arena_on; g_arena_on = false; g_files->insert(f); g_arena_on = a; }
    return f; }
extern "C" FILE* fopen(const char* p, const char* m) { return doFopen("fopen", p, m); }
extern "C" FILE* fopen64(const char* p, const char* m) { return doFopen("fopen64", p, m); }
extern "C" int fclose(FILE* f) { if (g_files) { bool a = g_arena_on; g_arena_on = false; if (g_files->erase(f)) g_iofds->erase(fileno(f)); g_arena_on = a; } return real<int (*)(FILE*)>("fclose")(f); }
static int doOpen(const char* nm, const char* p, int fl, mode_t mode) {
    bool w = fl & (O_WRONLY | O_RDWR | O_CREAT);
    if (inDir(p) && w) { g_io.opens++; if (ioHit()) { if (g_io.kind == 1 || g_io.kind == 5) { g_io.fired++; ioCrash(); } if (g_io.kind == 6 || g_io.kind == 2) { g_io.fired++; errno = g_io.kind == 2 ? ENOSPC : EACCES; return -1; } } }
    int fd = real<int (*)(const char*, int, ...)>(nm)(p, fl, mode); if (fd >= 0 && inDir(p)) track(fd); return fd; }
extern "C" int open(const char* p, int fl, ...) { va_list ap; va_start(ap, fl); mode_t m = va_arg(ap, mode_t); va_end(ap); return doOpen("open", p, fl, m); }
extern "C" int open64(const char* p, int fl, ...) { va_list ap; va_start(ap, fl); mode_t m = va_arg(ap, mode_t); va_end(ap); return doOpen("open64", p, fl, m); }
extern "C" int close(int fd) { if (g_iofds) { bool a = g_arena_on; g_arena_on = false; g_iofds->erase(fd); g_arena_on = a; } return real<int (*)(int)>("close")(fd); }
extern "C" ssize_t write(int fd, const void* b, size_t n) {
    auto rw = real<ssize_t (*)(int, const void*, size_t)>("write");
    if (g_io.armed && g_iofds->count(fd)) { g_io.writes++; if (ioHit()) { switch (g_io.kind) {
        case 1: g_io.fired++; ioCrash(); break;
        case 5: g_io.fired++; if (n) (void)!rw(fd, b, iornd() % n); ioCrash(); break;
        case 2: g_io.fired++; { size_t k = n ? iornd() % n : 0; if (k && g_io.fired == 1) return rw(fd, b, k); errno = ENOSPC; return -1; }
        case 3: g_io.fired++; errno = EIO; return -1;
        case 4: if (n > 1) { g_io.fired++; return rw(fd, b, 1 + iornd() % (n - 1)); } break; } } }
    return rw(fd, b, n); }
extern "C" ssize_t writev(int fd, const struct iovec* v, int c) {
    if (g_io.armed && g_iofds->count(fd)) { for (int i = 0; i < c; i++) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len); return 0; }
    return real<ssize_t (*)(int, const struct iovec*, int)>("writev")(fd, v, c); }
extern "C" int rename(const char* a, const char* b) { if (inDir(a) || inDir(b)) { g_io.renames++; if (ioHit()) { if (g_io.kind == 1) { g_io.fired++; ioCrash(); } if (g_io.kind == 3) { g_io.fired++; errno = EIO; return -1; } if (g_io.kind == 5) { g_io.fired++; real<int (*)(const char*, const char*)>("rename")(a, b); ioCrash(); } } } return real<int (*)(const char*, const char*)>("rename")(a, b); }
extern "C" int fsync(int fd) { if (g_io.armed && g_iofds->count(fd)) { g_io.fsyncs++; if (ioHit()) { if (g_io.kind == 1 || g_io.kind == 5) { g_io.fired++; ioCrash(); } if (g_io.kind == 3) { g_io.fired++; errno = EIO; return -1; } } } return real<int (*)(int)>("fsync")(fd); }

/* ------------------------------------------------------------------ cases */
using namespace simscip;
typedef std::vector<std::pair<PCTSPvertex, PCTSPvertex>> Pairs;
struct Rng { uint64_t s; explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ULL + 77) { u(); } uint64_t u() { s += 0x9E3779B97F4A7C15ULL; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); } int r(int n) { return n <= 0 ? 0 : (int)(u() % (uint64_t)n); } bool p(int permille) { return r(1000) < permille; } };
struct Inst {
    int n = 4, root = 0, quota = 1, overload = 3; std::vector<int> prize; std::vector<std::array<int, 3>> edges; std::vector<std::pair<int, int>> warm;
    int depth = -1, strategy = 1, cc_dp = 0, cc_sp = 0, cyc = 0, sec_dt = 1, sec_mf = 1, tail = -1, sepafreq = 1, simple = 1, keep_scip = 0, debuglog = 0; double thr = 0.01, tlimit = 14400; std::string name = "pctsp";
};
struct Case { std::string prop = "optimal-tour"; uint64_t seed = 1; int addr = 0; std::vector<Inst> insts; std::map<std::string, long> knobs; int io_kind = 0, io_at = -1, io_rng = 1, old_stats = 0; bool has_dec = false; std::vector<int> decs; int pool_seed = 1; };

static const char* KNOBS[] = {"lp_alt", "lp_mix", "skip_lp", "noise", "drop_cut", "age_cut", "stop_sepa", "heur", "heur_bad", "sepasol", "checkall", "recheck", "interrupt", "timejump", "lperror", "memlimit", "api_fail", "api_fail_budget", "api_fail_from", "warm_late", "enfo_resolve", "max_nodes", "max_rounds", "tz", "lp_cost_ns", "int_bound", "alloc_fail", "clock_tick"};
static void setKnobs(const std::map<std::string, long>& k) {
    cfg = Config();
    auto g = [&](const char* n, int& v) { auto it = k.find(n); if (it != k.end()) v = (int)it->second; };
    g("lp_alt", cfg.lp_alt); g("lp_mix", cfg.lp_mix); g("skip_lp", cfg.skip_lp); g("noise", cfg.noise); g("drop_cut", cfg.drop_cut); g("age_cut", cfg.age_cut); g("stop_sepa", cfg.stop_sepa); g("heur", cfg.heur); g("heur_bad", cfg.heur_bad); g("sepasol", cfg.sepasol); g("checkall", cfg.checkall); g("recheck", cfg.recheck); g("interrupt", cfg.interrupt); g("timejump", cfg.timejump); g("lperror", cfg.lperror); g("memlimit", cfg.memlimit); g("api_fail", cfg.api_fail); g("api_fail_budget", cfg.api_fail_budget); g("api_fail_from", cfg.api_fail_from); g("warm_late", cfg.warm_late); g("clock_tick", cfg.clock_tick); g("enfo_resolve", cfg.enfo_resolve); g("max_nodes", cfg.max_nodes); g("max_rounds", cfg.max_rounds);
    auto it = k.find("lp_cost_ns"); if (it != k.end()) cfg.lp_cost_ns = it->second; it = k.find("int_bound"); if (it != k.end()) cfg.int_bound = it->second != 0;
}
static void writeCase(std::ostream& o, const Case& c) {
    o << "prop " << c.prop << "\nseed " << c.seed << "\naddr " << c.addr << "\npool_seed " << c.pool_seed << "\nio " << c.io_kind << " " << c.io_at << " " << c.io_rng << " " << c.old_stats << "\n";
    for (auto& k : c.knobs) o << "knob " << k.first << " " << k.second << "\n";
    for (auto& i : c.insts) {
        o << "inst " << i.n << " " << i.root << " " << i.quota << " " << i.overload << "\nprizes"; for (int p : i.prize) o << " " << p; o << "\n";
        for (auto& e : i.edges) o << "edge " << e[0] << " " << e[1] << " " << e[2] << "\n";
        for (auto& w : i.warm) o << "warm " << w.first << " " << w.second << "\n";
        o << "params " << i.depth << " " << i.strategy << " " << i.cc_dp << " " << i.cc_sp << " " << i.cyc << " " << i.sec_dt << " " << i.sec_mf << " " << i.tail << " " << i.sepafreq << " " << i.simple << " " << i.keep_scip << " " << i.debuglog << " " << i.thr << " " << i.tlimit << "\n";
    }
    if (c.has_dec) { o << "decisions " << c.decs.size(); for (int d : c.decs) o << " " << d; o << "\n"; }
    o << "end\n"; }
static bool readCase(std::istream& in, Case& c) {
    c = Case(); c.insts.clear(); std::string line;
    while (std::getline(in, line)) {
        if (line.empty() || line[0] == '#') continue;
        std::istringstream s(line); std::string k; s >> k;
        if (k == "prop") s >> c.prop; else if (k == "seed") s >> c.seed; else if (k == "addr") s >> c.addr; else if (k == "pool_seed") s >> c.pool_seed;
        else if (k == "io") s >> c.io_kind >> c.io_at >> c.io_rng >> c.old_stats;
        else if (k == "knob") { std::string n; long v; s >> n >> v; c.knobs[n] = v; }
        else if (k == "inst") { Inst i; s >> i.n >> i.root >> i.quota >> i.overload; c.insts.push_back(i); }
        else if (c.insts.empty() && k != "decisions" && k != "end") return false;
        else if (k == "prizes") { int p; while (s >> p) c.insts.back().prize.push_back(p); }
        else if (k == "edge") { int a, b, w; s >> a >> b >> w; c.insts.back().edges.push_back({a, b, w}); }
        else if (k == "warm") { int a, b; s >> a >> b; c.insts.back().warm.push_back({a, b}); }
        else if (k == "params") { auto& i = c.insts.back(); s >> i.depth >> i.strategy >> i.cc_dp >> i.cc_sp >> i.cyc >> i.sec_dt >> i.sec_mf >> i.tail >> i.sepafreq >> i.simple >> i.keep_scip >> i.debuglog >> i.thr >> i.tlimit; }
        else if (k == "decisions") { size_t n; s >> n; c.has_dec = true; c.decs.clear(); int d; while (s >> d) c.decs.push_back(d); }
        else if (k == "end") return !c.insts.empty();
        else return false;
    }
    return !c.insts.empty(); }

/* ------------------------------------------------------------------ reference: every feasible tour by brute force */
struct Tour { std::vector<int> verts; std::vector<int> edges; long cost = 0, prize = 0; };
struct Ref {
    std::vector<Tour> cycles;   // every simple cycle through the root (each once)
    std::vector<Tour> other;    // simple cycles avoiding the root
    long best = -1; std::map<std::pair<int, int>, int> eidx;
    static std::pair<int, int> key(int a, int b) { return {std::min(a, b), std::max(a, b)}; }
    void build(const Inst& I) {
        cycles.clear(); other.clear(); best = -1; eidx.clear(); std::vector<std::vector<int>> adj(I.n);
        for (size_t i = 0; i < I.edges.size(); i++) { int a = I.edges[i][0], b = I.edges[i][1]; eidx[key(a, b)] = (int)i; adj[a].push_back(b); adj[b].push_back(a); }
        for (int s = 0; s < I.n; s++) { std::vector<int> path{s}; std::vector<char> used(I.n, 0); used[s] = 1; dfs(I, adj, s, path, used); }
        for (auto& t : cycles) if (t.prize >= I.quota && (best < 0 || t.cost < best)) best = t.cost; }
    void dfs(const Inst& I, std::vector<std::vector<int>>& adj, int s, std::vector<int>& path, std::vector<char>& used) {
        int v = path.back();
        for (int w : adj[v]) {
            if (w == s && path.size() >= 3 && path[1] < path.back()) {
                Tour t; t.verts = path; bool root = false; for (int x : path) { t.prize += I.prize[x]; if (x == I.root) root = true; }
                for (size_t i = 0; i < path.size(); i++) { int e = eidx[key(path[i], path[(i + 1) % path.size()])]; t.edges.push_back(e); t.cost += I.edges[e][2]; }
                (root ? cycles : other).push_back(t);
            } else if (w > s && !used[w]) { used[w] = 1; path.push_back(w); dfs(I, adj, s, path, used); path.pop_back(); used[w] = 0; }
        } } };
/* is a set of vertex pairs one simple cycle through the root? */
static bool tourOf(const Inst& I, const Ref& R, const Pairs& p, long* cost, long* prize, std::string* why) {
    std::map<int, std::vector<int>> adj; std::set<std::pair<int, int>> seen; *cost = *prize = 0;
    for (auto& e : p) { int a = (int)e.first, b = (int)e.second; auto k = Ref::key(a, b); auto it = R.eidx.find(k); if (it == R.eidx.end()) { *why = "edge not in the graph"; return false; } if (!seen.insert(k).second) { *why = "edge repeated"; return false; } *cost += I.edges[it->second][2]; adj[a].push_back(b); adj[b].push_back(a); }
    if (!adj.count(I.root)) { *why = "root not visited"; return false; }
    for (auto& a : adj) { if (a.second.size() != 2) { *why = "a vertex does not have degree 2"; return false; } *prize += I.prize[a.first]; }
    std::set<int> vis; std::vector<int> st{I.root}; while (!st.empty()) { int v = st.back(); st.pop_back(); if (!vis.insert(v).second) continue; for (int w : adj[v]) st.push_back(w); }
    if (vis.size() != adj.size()) { *why = "more than one cycle"; return false; }
    return true; }

/* ------------------------------------------------------------------ one run */
struct Violation { std::string tag, msg; };
struct RunOut { std::vector<Violation> viol; };
static std::vector<Violation>* g_viol = nullptr;
static void viol(const std::string& tag, const std::string& msg) { if (g_viol->size() < 8) g_viol->push_back({tag, msg}); }
struct NoArena { bool a; NoArena() : a(g_arena_on) { g_arena_on = false; } ~NoArena() { g_arena_on = a; } };

static double tolOf(const Inst& I);
struct Obs : Observer {
    const Inst* I = nullptr; const Ref* R = nullptr; SCIP* scip = nullptr; bool faulty = false; bool apifail = false; uint64_t pool_seed = 1; std::set<std::string> reach;
    std::vector<int> evar, vvar; int nvars = 0; bool mapped = false; std::vector<std::vector<double>> tx; // feasible tours as points
    std::vector<Tour> feas; double warmcost = 1e20; std::vector<std::pair<RowInfo, double>> early;
    long sec_added = 0, sec_created = 0, cyc_added = 0, cyc_calls = 0, cc_model = 0, cc_solving = 0, lpsolved = 0; std::map<long long, std::vector<double>> window; std::map<long long, std::pair<long, long>> pernode; std::map<long long, long long> parent; double best = 1e20; double lastlow = -1e20; long full = 0, enf_branch = 0, sepa_checked = 0, flow_checked = 0, rows_checked = 0, checks = 0, tail_checked = 0;
    std::vector<std::array<double, 3>> ref_bounds; std::set<int> excluded; bool solving = false; long branches = 0, rounds_checked = 0, cover_checked = 0; std::vector<long> back; bool branch_bad = false, round_bad = false, lp_bad = false;
    void reset() { evar.clear(); vvar.clear(); mapped = false; tx.clear(); feas.clear(); early.clear(); warmcost = 1e20; sec_added = sec_created = cyc_added = cyc_calls = cc_model = cc_solving = lpsolved = 0; window.clear(); pernode.clear(); parent.clear(); best = 1e20; lastlow = -1e20; excluded.clear(); solving = false; back.clear(); branch_bad = round_bad = lp_bad = false; ref_bounds.clear(); heuristic_pool.clear(); }
    std::vector<double> point(const std::vector<int>& edges, const std::vector<int>& verts) { std::vector<double> x(nvars, 0.0); for (int e : edges) x[evar[e]] = 1; for (int v : verts) x[vvar[v]] = 1; return x; }
    void map(SCIP* s) {
        mapped = false; auto* pd = dynamic_cast<ProbDataPCTSP*>(SCIPgetObjProbData(s)); if (!pd || !pd->getEdgeVariableMap() || !pd->getInputGraph()) return;
        auto& g = *pd->getInputGraph(); auto& m = *pd->getEdgeVariableMap(); nvars = num_orig_vars(s); evar.assign(I->edges.size(), -1); vvar.assign(I->n, -1);
        for (auto& kv : m) { int a = (int)boost::source(kv.first, g), b = (int)boost::target(kv.first, g); if (!kv.second) continue; int idx = orig_index(kv.second); if (idx < 0) continue; if (a == b) { if (a < I->n) vvar[a] = idx; } else { auto it = R->eidx.find(Ref::key(a, b)); if (it != R->eidx.end()) evar[it->second] = idx; } }
        for (int e : evar) if (e < 0) return; for (int v : vvar) if (v < 0) return;
        mapped = true; }
    void on_solve_start(SCIP* s) override {
        NoArena na; scip = s; map(s); if (!mapped) return;
        for (auto& t : R->cycles) if (t.prize >= I->quota) { feas.push_back(t); tx.push_back(point(t.edges, t.verts)); }
        if (!I->warm.empty()) { warmcost = 0; for (auto& w : I->warm) warmcost += I->edges[R->eidx.at(Ref::key(w.first, w.second))][2]; }
        for (auto& e : early) { checkRow(e.first, warmcost, true); exclude(e.first); }
        if (I->overload == 3 && (I->cc_sp || I->cc_dp)) costBack();
        /* candidate points for the simulated heuristics: tours, too-poor tours, two cycles at once, a cycle missing the root, a broken cycle */
        Rng r(pool_seed * 7919 + 13); auto& P = heuristic_pool; P.clear(); int bad = cfg.heur_bad;
        for (int k = 0; k < 24; k++) {
            if (!r.p(bad) && !tx.empty()) { P.push_back(tx[r.r((int)tx.size())]); continue; }
            int kind = r.r(4);
            if (kind == 0 && !R->cycles.empty()) { auto& t = R->cycles[r.r((int)R->cycles.size())]; P.push_back(point(t.edges, t.verts)); }
            else if (kind == 1 && !R->cycles.empty() && !R->other.empty()) { for (int q = 0; q < 20; q++) { auto& a = R->cycles[r.r((int)R->cycles.size())]; auto& b = R->other[r.r((int)R->other.size())]; bool dis = true; for (int v : a.verts) for (int w : b.verts) if (v == w) dis = false; if (dis) { auto x = point(a.edges, a.verts), y = point(b.edges, b.verts); for (int i = 0; i < nvars; i++) x[i] += y[i]; P.push_back(x); break; } } }
            else if (kind == 2 && !R->other.empty()) { auto& b = R->other[r.r((int)R->other.size())]; auto x = point(b.edges, b.verts); if (r.p(500)) x[vvar[I->root]] = 1; P.push_back(x); }
            else if (kind == 3 && !tx.empty()) { auto x = tx[r.r((int)tx.size())]; int q = r.r((int)I->edges.size()); x[evar[q]] = 1 - x[evar[q]]; P.push_back(x); }
        } }
    /* the cheapest way from the root to a vertex and back: twice the distance, or the length of a cycle through both when those were given */
    void costBack() {
        std::vector<double> d(I->n, 1e15); d[I->root] = 0; for (int k = 0; k < I->n; k++) for (auto& e : I->edges) { d[e[0]] = std::min(d[e[0]], d[e[1]] + e[2]); d[e[1]] = std::min(d[e[1]], d[e[0]] + e[2]); }
        back.assign(I->n, -1); for (int v = 0; v < I->n; v++) { double b = -1; if (I->cc_sp) b = d[v] >= 1e15 ? 1e15 : 2 * d[v]; if (I->cc_dp) { double c = 2000000000; for (auto& t : R->cycles) for (int w : t.verts) if (w == v) c = std::min(c, (double)t.cost); b = std::max(b, c); } back[v] = (long)b; } }
    void exclude(const RowInfo& r) {
        if (!mapped || r.local) return; double a = 0; int v = -1; for (auto& c : r.coefs) { if (c.second == 0) continue; if (c.first == vvar[I->root]) { a += c.second; continue; } int w = -1; for (int q = 0; q < I->n; q++) if (vvar[q] == c.first) w = q; if (w < 0 || (v >= 0 && v != w)) return; v = w; a += c.second; }
        if (v >= 0 && (a > r.rhs + 1e-6 || a < r.lhs - 1e-6)) excluded.insert(v); }
    void covered(double ub, const char* when) {
        if (back.empty() || apifail || ub >= 1e19) return; cover_checked++;
        for (int v = 0; v < I->n; v++) if (v != I->root && back[v] > ub + std::max(0.5, tolOf(*I))) { reach.insert("vertex_too_dear"); if (!excluded.count(v)) { viol("cost-cover-complete", std::string(when) + " a tour of cost " + std::to_string((long)std::llround(ub)) + " is known and vertex " + std::to_string(v) + " costs " + std::to_string(back[v]) + " there and back, but no inequality excludes it"); back.clear(); return; } } }
    void on_solving(SCIP* s) override { NoArena na; solving = true; if (warmcost > 0 && warmcost < 1e19) covered(warmcost, "when the search begins"); }
    void on_event(SCIP* s, SCIP_EVENTTYPE t, long long) override { NoArena na; if (solving && (t & SCIP_EVENTTYPE_BESTSOLFOUND)) covered(SCIPgetPrimalbound(s), "after the incumbent was found,"); }
    void on_lp(SCIP*, double t) override { NoArena na; if (I->overload != 3 || apifail || lp_bad || t < (double)(float)I->tlimit) return; lp_bad = true; viol("search-as-asked", "an LP is solved after " + std::to_string(t) + " s although the time limit is " + std::to_string(I->tlimit)); }
    void on_branch(SCIP*, int depth, const std::string& rule) override {
        NoArena na; if (I->overload != 3 || apifail || branch_bad || rule == "") return;
        std::string want = I->strategy == 0 || I->strategy == 4 ? "relpscost" : I->strategy == 1 ? "fullstrong" : I->strategy == 2 ? (I->depth == -1 || depth <= I->depth ? "fullstrong" : "relpscost") : "";
        if (want == "") return; branches++; if (I->strategy == 2 && I->depth >= 0 && depth > I->depth) reach.insert("below_strong_depth");
        if (rule != want) { branch_bad = true; viol("search-as-asked", "a node at depth " + std::to_string(depth) + " is branched by rule " + rule + ", strategy " + std::to_string(I->strategy) + " with depth limit " + std::to_string(I->depth) + " asks for " + want); } }
    void on_round(SCIP*, int depth, const std::vector<std::string>& called, bool cutoff) override {
        NoArena na; if (I->overload != 3 || apifail || round_bad) return; int f = I->sepafreq; bool want = f < 0 ? false : f == 0 ? depth == 0 : depth % f == 0, got = std::find(called.begin(), called.end(), SEC_CONSHDLR_NAME) != called.end();
        rounds_checked++; if (!want) reach.insert("round_without_sec"); if (got == want || (want && cutoff)) return;
        round_bad = true; viol("search-as-asked", std::string("subtour separation was ") + (got ? "" : "not ") + "asked at depth " + std::to_string(depth) + " with separation frequency " + std::to_string(f)); }
    void checkRow(const RowInfo& r, double ub, bool model) {
        if (!mapped || r.local) return; rows_checked++;
        for (size_t t = 0; t < tx.size(); t++) {
            double a = 0; for (auto& c : r.coefs) { if (c.first < 0 || c.first >= nvars) return; a += c.second * tx[t][c.first]; }
            if (a > r.rhs + 1e-6 || a < r.lhs - 1e-6) {
                double slack = std::max(0.5, tolOf(*I)); bool allowed = r.name != "" && (model ? feas[t].cost > ub + 0.5 : feas[t].cost > ub - slack);
                if (allowed) { reach.insert("row_cuts_dominated_tour"); continue; }
                std::ostringstream o; o << "row " << r.name.substr(0, 60) << " of " << r.hdlr << " cuts off the feasible tour"; for (int v : feas[t].verts) o << " " << v; o << " (cost " << feas[t].cost << ", incumbent " << (ub >= 1e20 ? -1 : (long)ub) << "): activity " << a << " not in [" << r.lhs << "," << r.rhs << "]"; viol("cuts-valid", o.str()); return; } } }
    void on_row(SCIP* s, const RowInfo& r) override {
        NoArena na;
        if (r.hdlr == "model") { if (r.name.rfind(COST_COVER_CONS_PREFIX, 0) == 0) cc_model++; early.push_back({r, 0}); return; }
        if (r.is_cons && r.name.rfind(COST_COVER_CONS_PREFIX, 0) == 0) cc_solving++;
        if (r.hdlr == SEC_CONSHDLR_NAME) { sec_added++; if (auto* nd = SCIPgetCurrentNode(s)) pernode[SCIPnodeGetNumber(nd)].first++; reach.insert("sec_row"); } if (r.hdlr == CYCLE_COVER_NAME) { cyc_added++; reach.insert("cycle_cover_row"); }
        if (r.is_cons) reach.insert("cost_cover_row");
        exclude(r); if (I->overload == 3 && !apifail) asked(r.hdlr, r.is_cons && r.name.rfind(COST_COVER_CONS_PREFIX, 0) == 0);
        checkRow(r, SCIPgetPrimalbound(s), false); }
    void asked(const std::string& h, bool cover) {
        if (h == SEC_CONSHDLR_NAME && !I->sec_dt && !I->sec_mf) viol("search-as-asked", "a subtour inequality was added with both separation methods off");
        if (h == CYCLE_COVER_NAME && !I->cyc) viol("search-as-asked", "a cycle-cover inequality was added with cycle covers off");
        if (cover && !I->cc_dp && !I->cc_sp) viol("search-as-asked", "a cost-cover inequality was added with cost covers off"); }
    void on_row_created(SCIP* s, const std::string&, const std::string& h) override { NoArena na; if (h == SEC_CONSHDLR_NAME) { sec_created++; if (auto* nd = SCIPgetCurrentNode(s)) pernode[SCIPnodeGetNumber(nd)].second++; } }
    /* 1: one simple cycle, 0: not, -1: not integral */
    int classify(const std::vector<double>& x, bool* root, long* prize) {
        if (!mapped) return -1; for (double v : x) if (std::fabs(v - std::floor(v + 0.5)) > 1e-6) return -1;
        std::map<int, std::vector<int>> adj; for (size_t e = 0; e < evar.size(); e++) if (x[evar[e]] > 0.5) { int a = I->edges[e][0], b = I->edges[e][1]; adj[a].push_back(b); adj[b].push_back(a); }
        if (adj.empty()) return 0; *prize = 0; for (auto& a : adj) { if (a.second.size() != 2) return 0; *prize += I->prize[a.first]; } *root = adj.count(I->root) > 0;
        std::set<int> vis; std::vector<int> st{adj.begin()->first}; while (!st.empty()) { int v = st.back(); st.pop_back(); if (!vis.insert(v).second) continue; for (int w : adj[v]) st.push_back(w); }
        return vis.size() == adj.size() ? 1 : 0; }
    /* within the feasibility tolerance of an integral point but not within epsilon: rejecting it is legitimate */
    static bool noisy(const std::vector<double>& x) { for (double v : x) if (std::fabs(v - std::floor(v + 0.5)) > 7e-10) return true; return false; }
    static std::string desc(const std::vector<double>& x) { std::string s; for (size_t i = 0; i < x.size(); i++) if (x[i] != 0) s += " x" + std::to_string(i) + "=" + std::to_string(x[i]).substr(0, 5); return s; }
    void on_check(SCIP*, const char* h, const std::vector<double>& x, SCIP_RESULT r) override {
        NoArena na; if (apifail) return; bool root; long pr; int c = classify(x, &root, &pr); if (c < 0) return; checks++;
        if (h == SEC_CONSHDLR_NAME) { reach.insert(c ? "check_cycle" : "check_notcycle"); if (c == 1 && r != SCIP_FEASIBLE && noisy(x)) return; if ((c == 1) != (r == SCIP_FEASIBLE)) viol("tour-check", std::string("scip_check answered ") + (r == SCIP_FEASIBLE ? "FEASIBLE" : "INFEASIBLE") + (c == 1 ? " for a single simple cycle" : " for a point that is not a single simple cycle") + desc(x)); }
        if (h == CYCLE_COVER_NAME && !noisy(x)) { long p; double v; rootComp(x, &p, &v); reach.insert(p < I->quota ? "cover_check_short" : "cover_check_enough"); cycle_checks++; if ((p < I->quota) != (r == SCIP_INFEASIBLE)) viol("cycle-cover-complete", "the cycle-cover check answered " + std::to_string((int)r) + " for a point whose root component collects " + std::to_string(p) + " of " + std::to_string(I->quota) + desc(x)); }
        if (h == CYCLE_COVER_NAME && c == 1 && root && pr >= I->quota && r != SCIP_FEASIBLE) viol("tour-check", "cycle cover check rejects a feasible tour" + desc(x)); }
    void before_enfo(SCIP*, const char*, const std::vector<double>&, bool) override {}
    void on_enfo(SCIP* s, const char* h, const std::vector<double>& x, bool lp, SCIP_RESULT r) override {
        NoArena na; if (apifail || h != SEC_CONSHDLR_NAME) return; bool root; long pr; int c = classify(x, &root, &pr);
        if (c >= 0) { checks++; if (c == 0 && r == SCIP_FEASIBLE) viol("tour-check", std::string("enforcement accepts a point that is not a single simple cycle") + desc(x)); if (c == 1 && r != SCIP_FEASIBLE && !noisy(x)) viol("tour-check", "enforcement rejects a single simple cycle" + desc(x)); }
        if (!lp) { reach.insert("enfops"); return; }
        if (c == 0 && r == SCIP_FEASIBLE) return;
        tailing(s, x, r, c); }
    /* per-node reference model of the tailing-off rule */
    void tailing(SCIP* s, const std::vector<double>& x, SCIP_RESULT r, int c) {
        if (r == SCIP_FEASIBLE) return;      // a simple-cycle support, nothing recorded
        int K = I->tail; auto* node = SCIPgetCurrentNode(s); long long id = SCIPnodeGetNumber(node);
        double gap = SCIPcomputeGap(1e-9, 1e20, SCIPgetPrimalbound(s), SCIPretransformObj(s, SCIPnodeGetLowerbound(node)));
        bool frac = false; for (double v : x) if (std::fabs(v - std::floor(v + 0.5)) > 1e-6) frac = true;
        bool tail = false, edge = false;
        if (K >= 1) { auto& w = window[id]; w.push_back(gap); if ((int)w.size() > K) w.erase(w.begin()); if ((int)w.size() == K && K >= 2) { full++; double imp = w.front() - w.back(); tail = imp < I->thr; edge = std::fabs(imp - I->thr) < 1e-7 && imp != 0 && std::fabs(imp) < 1e19; } }
        tail_checked++; if (edge) return;
        if (tail && frac) { reach.insert("tailing_branch"); if (r != SCIP_BRANCHED) viol("tailing-off", "node " + std::to_string(id) + " tails off over its last " + std::to_string(K) + " enforcements (fractional candidates exist) but enforcement answered " + std::to_string((int)r)); }
        else if (tail) { reach.insert("tailing_integral"); if (r != SCIP_INFEASIBLE && r != SCIP_CUTOFF && r != SCIP_SEPARATED && r != SCIP_CONSADDED && r != SCIP_REDUCEDDOM && r != SCIP_SOLVELP && r != SCIP_BRANCHED) viol("tailing-off", "node " + std::to_string(id) + " tails off on an integral LP solution and enforcement answered the invalid result " + std::to_string((int)r)); }
        else if (r == SCIP_BRANCHED) { std::ostringstream o; o << "enforcement branched at node " << id << " although it is not tailing off (window"; for (double g : window[id]) o << " " << g; o << ", size " << K << ", threshold " << I->thr << ")"; viol("tailing-off", o.str()); }
        if (r == SCIP_BRANCHED) enf_branch++; }
    /* the component of the root in the support: its prize and the violation of x(E(S)) <= y(S) - 1; returns the number of variables of that row */
    long cycle_checks = 0;
    int rootComp(const std::vector<double>& x, long* prize, double* viol_by) {
        std::vector<int> comp(I->n); for (int i = 0; i < I->n; i++) comp[i] = i; std::function<int(int)> f = [&](int v) { return comp[v] == v ? v : comp[v] = f(comp[v]); };
        for (size_t e = 0; e < evar.size(); e++) if (x[evar[e]] > 1e-9) comp[f(I->edges[e][0])] = f(I->edges[e][1]);
        long p = 0; double v = 1; int ne = 0; for (int u = 0; u < I->n; u++) if (f(u) == f(I->root)) { p += I->prize[u]; v -= x[vvar[u]]; ne++; }
        for (size_t e = 0; e < evar.size(); e++) if (f(I->edges[e][0]) == f(I->root) && f(I->edges[e][1]) == f(I->root)) { v += x[evar[e]]; ne++; }
        *prize = p; *viol_by = v; return ne; }
    /* with max-flow separation on, a vertex that is visited in full but has a cut of less than 2 towards the root, in the root's part of the support, is cut off */
    void flowCheck(const std::vector<double>& x, SCIP_RESULT r, int added) {
        int n = I->n; std::vector<std::vector<double>> cap(n, std::vector<double>(n, 0)); bool parts = false; std::vector<int> deg(n, 0);
        for (size_t e = 0; e < evar.size(); e++) if (x[evar[e]] > 1e-9) { int a = I->edges[e][0], b = I->edges[e][1]; cap[a][b] += x[evar[e]]; cap[b][a] += x[evar[e]]; deg[a]++; deg[b]++; }
        std::vector<char> reached(n, 0); std::vector<int> st{I->root}; reached[I->root] = 1; while (!st.empty()) { int v = st.back(); st.pop_back(); for (int w = 0; w < n; w++) if (!reached[w] && cap[v][w] > 0) { reached[w] = 1; st.push_back(w); } }
        for (int v = 0; v < n; v++) if (deg[v] && !reached[v]) parts = true;
        int worst = -1; double least = 2;
        for (int t = 0; t < n; t++) { if (t == I->root || !reached[t] || x[vvar[t]] < 1 - 1e-5) continue;
            auto c = cap; double f = 0; for (int it = 0; it < 200; it++) { std::vector<int> pr(n, -1), q{I->root}; pr[I->root] = I->root; for (size_t k = 0; k < q.size() && pr[t] < 0; k++) for (int w = 0; w < n; w++) if (pr[w] < 0 && c[q[k]][w] > 1e-9) { pr[w] = q[k]; q.push_back(w); } if (pr[t] < 0) break; double d = 1e9; for (int v = t; v != I->root; v = pr[v]) d = std::min(d, c[pr[v]][v]); for (int v = t; v != I->root; v = pr[v]) { c[pr[v]][v] -= d; c[v][pr[v]] += d; } f += d; }
            if (f < least) { least = f; worst = t; } }
        if (worst < 0 || least > 1.98) return; flow_checked++; reach.insert(parts ? "weak_cut_apart" : "weak_cut");
        if (added == 0 && r != SCIP_CUTOFF) viol("maxflow-complete", "vertex " + std::to_string(worst) + " is visited in full but only " + std::to_string(least) + " of 2 reaches it from the root, and separation added no row" + desc(x)); if (added > 0 && r != SCIP_SEPARATED && r != SCIP_CUTOFF && r != SCIP_CONSADDED && r != SCIP_NEWROUND) viol("maxflow-complete", "rows were added but separation did not report it (result " + std::to_string((int)r) + ")"); }
    void on_sepa(SCIP* s, const char* h, const std::vector<double>& x, bool lp, SCIP_RESULT r, int added, int created) override {
        NoArena na; if (apifail || !mapped) return;
        if (h == CYCLE_COVER_NAME) cyc_calls++;
        if (h == CYCLE_COVER_NAME && lp) {
            bool vague = false; for (double v : x) if (std::fabs(v - 1e-9) < 3e-10) vague = true;
            if (!vague) { long p; double vi; int ne = rootComp(x, &p, &vi); cycle_checks++;
                if (p < I->quota && vi / std::sqrt((double)ne) > 1e-3) { reach.insert("cycle_cover_needed"); if (p == I->quota - 1) reach.insert("cycle_cover_one_short"); if (added == 0 && r != SCIP_CUTOFF) viol("cycle-cover-complete", "the root's component collects " + std::to_string(p) + " of " + std::to_string(I->quota) + " and violates its cycle cover by " + std::to_string(vi) + " but no row was added" + desc(x)); if (added > 0 && r != SCIP_SEPARATED && r != SCIP_CUTOFF && r != SCIP_CONSADDED && r != SCIP_NEWROUND) viol("cycle-cover-complete", "a cycle cover was added but separation did not report it (result " + std::to_string((int)r) + ")"); }
                if (p >= I->quota) { reach.insert("cycle_cover_enough"); if (added > 0) viol("cycle-cover-complete", "the root's component collects " + std::to_string(p) + " of " + std::to_string(I->quota) + " and a cycle cover was added all the same" + desc(x)); } } }
        if (h != SEC_CONSHDLR_NAME) return;
        if (lp && I->sec_mf) flowCheck(x, r, added);
        if (!I->sec_dt) return;
        /* a positive component of the support that misses the root violates x(E(S)) <= y(S) - y_v by y_v for each of its vertices */
        std::vector<int> comp(I->n); for (int i = 0; i < I->n; i++) comp[i] = i; std::function<int(int)> f = [&](int v) { return comp[v] == v ? v : comp[v] = f(comp[v]); };
        for (size_t e = 0; e < evar.size(); e++) if (x[evar[e]] > 1e-9) comp[f(I->edges[e][0])] = f(I->edges[e][1]);
        double need = 0; for (int v = 0; v < I->n; v++) if (f(v) != f(I->root)) {
            std::vector<int> S; for (int w = 0; w < I->n; w++) if (f(w) == f(v)) S.push_back(w); if (S.size() < 2) continue;
            double xe = 0, ys = 0; int ne = 0; for (size_t e = 0; e < evar.size(); e++) { if (f(I->edges[e][0]) == f(v) && f(I->edges[e][1]) == f(v)) { xe += x[evar[e]]; ne++; } } for (int w : S) ys += x[vvar[w]];
            double vi = xe - ys + x[vvar[v]]; need = std::max(need, vi / std::sqrt((double)(ne + S.size()))); }
        if (need > 1e-3) { sepa_checked++; reach.insert(lp ? "detached_lp" : "detached_sol"); if (added == 0 && r != SCIP_CUTOFF) viol("separation-progress", "the LP support has a component that misses the root (violated subtour inequality of efficacy " + std::to_string(need) + ") but separation added no row" + desc(x)); if (added > 0 && r != SCIP_SEPARATED && r != SCIP_CUTOFF && r != SCIP_CONSADDED && r != SCIP_NEWROUND) viol("separation-progress", "rows were added but separation did not report it (result " + std::to_string((int)r) + ")"); } }
    void on_best(SCIP*, double obj, const std::vector<double>& x) override {
        NoArena na; best = obj; if (!mapped || apifail) return; bool root = false; long pr = 0; int c = classify(x, &root, &pr);
        bool selfok = true; if (c == 1) { std::vector<char> on(I->n, 0); for (size_t e = 0; e < evar.size(); e++) if (x[evar[e]] > 0.5) on[I->edges[e][0]] = on[I->edges[e][1]] = 1; for (int v = 0; v < I->n; v++) if ((x[vvar[v]] > 0.5) != (bool)on[v]) selfok = false; }
        if (c != 1 || !root || pr < I->quota || !selfok) viol("tour-check", std::string("a point that is not a feasible tour became the incumbent") + (c != 1 ? " (not one simple cycle)" : !root ? " (misses the root)" : pr < I->quota ? " (prize below the quota)" : " (vertex variables disagree)") + desc(x)); }
    void before_event(SCIP* s, SCIP_EVENTTYPE t, long long node) override { NoArena na; if (auto* nd = SCIPgetCurrentNode(s)) { auto* pa = SCIPnodeGetParent(nd); parent[SCIPnodeGetNumber(nd)] = pa ? SCIPnodeGetNumber(pa) : 1; } if (t & SCIP_EVENTTYPE_LPSOLVED) { ref_bounds.push_back({SCIPgetDualbound(s), SCIPgetPrimalbound(s), (double)node}); } }
    void contract(const std::string& m) override { NoArena na; if (!apifail) viol("*", "SCIP API misuse: " + m); reach.insert("contract"); }
};

static std::string g_scratch;
static std::string fmtPairs(const Pairs& p) { std::string s; for (auto& e : p) s += " " + std::to_string(e.first) + "-" + std::to_string(e.second); return s; }
static bool statusIsLimit(SCIP_STATUS st) { return st != SCIP_STATUS_OPTIMAL && st != SCIP_STATUS_INFEASIBLE && st != SCIP_STATUS_UNKNOWN && st != SCIP_STATUS_INFORUNBD && st != SCIP_STATUS_UNBOUNDED; }
static const char* STATKEYS[] = {"status", "lower_bound", "upper_bound", "num_cost_cover_disjoint_paths", "num_cost_cover_shortest_paths", "nconss_presolve_disjoint_paths", "nconss_presolve_shortest_paths", "num_cycle_cover", "num_nodes", "num_sec_disjoint_tour", "num_sec_maxflow_mincut"};
static std::string readFile(const std::string& p) { NoArena na; std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
static bool exists(const std::string& p) { struct stat st; return stat(p.c_str(), &st) == 0; }
/* "" if the text is a complete statistics record */
static std::string statsProblem(const std::string& text) {
    NoArena na;
    try { YAML::Node n = YAML::Load(text); if (!n.IsMap()) return "is not a mapping"; for (auto k : STATKEYS) { if (!n[k]) return std::string("lacks ") + k; n[k].as<double>(); } return ""; } catch (std::exception& e) { return std::string("does not parse: ") + e.what(); } }
static const char* OLD_STATS = "status: 11\nlower_bound: 1\nupper_bound: 2\nnum_cost_cover_disjoint_paths: 0\nnum_cost_cover_shortest_paths: 0\nnconss_presolve_disjoint_paths: 0\nnconss_presolve_shortest_paths: 0\nnum_cycle_cover: 0\nnum_nodes: 3\nnum_sec_disjoint_tour: 4\nnum_sec_maxflow_mincut: 5";

/* an incumbent may be off an integral point by the feasibility tolerance, and its objective by that times the costs */
static double tolOf(const Inst& I) { double t = 0; for (auto& e : I.edges) t += std::abs(e[2]); return 1e-4 + (cfg.noise ? 2e-6 * t : t > 1e5 ? 1e-8 * t : 0); }
static int openFds() { int n = 0; DIR* d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }

/* the exported tables, read back by their own header */
static std::vector<std::map<std::string, std::string>> readCsv(const std::string& text, std::string* err) {
    std::vector<std::map<std::string, std::string>> out; std::istringstream s(text); std::string line; std::vector<std::string> head; if (!std::getline(s, line)) { *err = "is empty"; return out; }
    auto split = [](const std::string& l) { std::vector<std::string> v; std::string c; for (char ch : l) if (ch == ',') { v.push_back(c); c.clear(); } else if (ch != '\r') c += ch; v.push_back(c); return v; };
    head = split(line); while (std::getline(s, line)) { auto v = split(line); if (v.size() != head.size()) { *err = "has a row of " + std::to_string(v.size()) + " fields under " + std::to_string(head.size()) + " columns"; return out; } std::map<std::string, std::string> m; for (size_t i = 0; i < v.size(); i++) m[head[i]] = v[i]; out.push_back(m); }
    return out; }
static bool nearTxt(const std::string& t, double x) { char* e; double v = strtod(t.c_str(), &e); return !t.empty() && !*e && (v == x || std::fabs(v - x) <= 2e-5 * std::max(1.0, std::fabs(x))); }
static bool stampMs(const std::string& t, long long* ms) { /* ISO 8601, UTC */
    struct tm tm; memset(&tm, 0, sizeof tm); const char* r = strptime(t.c_str(), "%Y-%m-%dT%H:%M:%S", &tm); if (!r) return false; double frac = 0; if (*r == '.') { char* e; frac = strtod(r, &e); r = e; } if (strcmp(r, "Z")) return false; *ms = (long long)timegm(&tm) * 1000 + (long long)std::llround(frac * 1000); return true; }
static void checkBoundsCsv(const std::string& text, const std::vector<Bounds>& v, Obs& ob) {
    std::string err; auto rows = readCsv(text, &err); if (err != "") { viol("trace-export", "the bounds table " + err); return; }
    if (rows.size() != v.size()) { viol("trace-export", "the bounds table has " + std::to_string(rows.size()) + " rows for " + std::to_string(v.size()) + " records"); return; }
    for (size_t i = 0; i < v.size(); i++) { auto& r = rows[i]; auto msOf = [](TimePointUTC t) { return (long long)std::chrono::duration_cast<std::chrono::milliseconds>(t.time_since_epoch()).count(); };
        for (auto c : {"start_timestamp", "end_timestamp"}) { long long want = msOf(c[0] == 's' ? v[i].start_timestamp : v[i].end_timestamp), got; if (!stampMs(r[c], &got)) { viol("trace-export", std::string(c) + " " + r[c] + " is not a UTC timestamp"); return; } if (got != want) { viol("trace-export", std::string(c) + " " + r[c] + " is " + std::to_string(got - want) + " ms from the recorded instant"); return; } if (want % 1000 < 100) ob.reach.insert("stamp_below_100ms"); }
        if (!nearTxt(r["lower_bound"], v[i].lower_bound) || !nearTxt(r["upper_bound"], v[i].upper_bound) || !nearTxt(r["node_id"], v[i].node_id)) { viol("trace-export", "a row of the bounds table does not hold the record's values"); return; } }
    if (!v.empty()) ob.reach.insert("bounds_exported"); }
static void checkNodeCsv(const std::string& text, const std::vector<NodeStats>& v) {
    std::string err; auto rows = readCsv(text, &err); if (err != "") { viol("trace-export", "the node table " + err); return; }
    std::vector<NodeStats> w; for (auto& n : v) w.push_back(n); if (rows.size() != w.size()) { viol("trace-export", "the node table has " + std::to_string(rows.size()) + " rows for " + std::to_string(w.size()) + " records"); return; }
    for (size_t i = 0; i < w.size(); i++) { auto& r = rows[i]; auto& n = w[i]; if (!nearTxt(r["lower_bound"], n.lower_bound) || !nearTxt(r["upper_bound"], n.upper_bound) || !nearTxt(r["node_id"], n.node_id) || !nearTxt(r["parent_id"], n.parent_id) || !nearTxt(r["num_sec_disjoint_tour"], n.num_sec_disjoint_tour) || !nearTxt(r["num_sec_maxflow_mincut"], n.num_sec_maxflow_mincut)) { viol("trace-export", "row " + std::to_string(i) + " of the node table does not hold the record's values under its headers"); return; } } }

static void runInst(const Case& C, size_t k, Obs& ob, uint64_t* hash) {
    const Inst& I = C.insts[k]; Ref R; std::string dir = g_scratch + "/solver";
    { NoArena na; R.build(I); ob.reset(); ob.I = &I; ob.R = &R; ob.pool_seed = C.pool_seed + k; }
    bool io = C.io_kind != 0; bool capped0 = stats.capped; bool faulty = cfg.interrupt || cfg.memlimit || cfg.lperror || cfg.api_fail || I.tlimit < 1e6 || cfg.timejump; ob.apifail = cfg.api_fail > 0; long allocat = 0; { NoArena na; auto it = C.knobs.find("alloc_fail"); if (it != C.knobs.end() && it->second > 0 && k + 1 == C.insts.size()) { allocat = it->second; ob.apifail = faulty = true; } }
    SCIP* scip = nullptr; SCIPcreate(&scip); obs = &ob;
    PCTSPgraph graph; Pairs result; bool threw = false; std::string what; std::vector<PCTSPedge> warm; SummaryStats sum{}; bool haveSum = false; bool fdcheck = I.overload == 3; int fds0 = openFds(), logs0 = simscip::open_logs;
    long fail0 = stats.api_fail;
    boost::log::core::get()->set_logging_enabled(I.debuglog != 0);
    g_alloc_count = 0; g_alloc_fired = 0; g_alloc_at = allocat;
    try {
        int quota = I.quota; PCTSPvertex root = I.root; std::string name = I.name;
        if (I.overload == 2) {
            Pairs el, he; std::map<std::pair<PCTSPvertex, PCTSPvertex>, CostNumberType> cd; std::map<PCTSPvertex, PrizeNumberType> pd;
            for (auto& e : I.edges) { el.push_back({(PCTSPvertex)e[0], (PCTSPvertex)e[1]}); cd[{(PCTSPvertex)e[0], (PCTSPvertex)e[1]}] = e[2]; } for (int v = 0; v < I.n; v++) pd[v] = I.prize[v]; for (auto& w : I.warm) he.push_back({(PCTSPvertex)w.first, (PCTSPvertex)w.second});
            result = solvePrizeCollectingTSP(scip, graph, el, he, cd, pd, quota, root, name);
        } else {
            for (auto& e : I.edges) boost::add_edge(e[0], e[1], graph);
            auto cost = boost::get(boost::edge_weight, graph); auto prize = boost::get(boost::vertex_distance, graph);
            for (auto& e : I.edges) cost[boost::edge(e[0], e[1], graph).first] = e[2]; for (int v = 0; v < I.n; v++) prize[v] = I.prize[v];
            for (auto& w : I.warm) warm.push_back(boost::edge(w.first, w.second, graph).first);
            if (I.overload == 1) result = solvePrizeCollectingTSP(scip, graph, warm, cost, prize, quota, root, name);
            else {
                std::vector<int> dp;
                if (I.cc_dp) { NoArena na; dp.assign(boost::num_vertices(graph), 2000000000); for (auto& t : R.cycles) for (int v : t.verts) dp[v] = std::min(dp[v], (int)t.cost); }
                g_io = IOFault(); g_io.dir = dir; g_io.armed = true; if (io && k + 1 == C.insts.size()) { g_io.kind = C.io_kind; g_io.at = C.io_at; g_io.rng = C.io_rng; }
                result = solvePrizeCollectingTSP(scip, graph, warm, cost, prize, quota, root, I.depth, (unsigned)I.strategy, I.cc_dp, I.cc_sp, I.cyc, dp, name, I.sec_dt, I.thr, I.sec_mf, I.tail, I.sepafreq, I.simple, dir, (float)I.tlimit);
            }
        }
    } catch (std::exception& e) { threw = true; NoArena na; what = e.what(); }
    catch (...) { threw = true; NoArena na; what = "an exception that is not a std::exception"; }
    g_alloc_at = 0; NoArena na; boost::log::core::get()->set_logging_enabled(false);
    if (g_alloc_fired && threw) {
        /* the process ran out of memory inside the solve: the caller sees an exception and whatever reached the disk has to be a complete record */
        ob.reach.insert("alloc_exception"); g_io.armed = false; obs = nullptr; simscip::dec.mix(&g_alloc_count, sizeof g_alloc_count);
        std::string f = dir + "/" + PCTSP_SUMMARY_STATS_YAML; if (exists(f)) { std::string t = readFile(f); if (!(C.old_stats && t == OLD_STATS) && statsProblem(t) != "") viol("solver-faults", "after a failed allocation " + std::string(PCTSP_SUMMARY_STATS_YAML) + " " + statsProblem(t)); } else if (C.old_stats) viol("solver-faults", "after a failed allocation the previous record is gone");
        return; }
    g_io.armed = false; long ioops = g_io.count; int iofired = g_io.fired;
    SCIP_STATUS st = SCIPgetStatus(scip); bool err = has_error(scip); bool capped = stats.capped > 0; bool failed_api = stats.api_fail > fail0 || g_alloc_fired;
    simscip::dec.mix(&st, sizeof st); for (auto& e : result) { simscip::dec.mix(&e.first, sizeof e.first); simscip::dec.mix(&e.second, sizeof e.second); } simscip::dec.mix(&threw, 1); simscip::dec.mix(&ioops, sizeof ioops);
    if (threw) { ob.reach.insert("exception"); if (!failed_api && !(io && iofired)) viol("*", "the solve threw: " + what); }
    long cost = 0, prize = 0; std::string why; bool tour = !result.empty() && tourOf(I, R, result, &cost, &prize, &why);
    std::string tagAny = failed_api ? "solver-faults" : faulty ? "anytime-result" : "optimal-tour";
    if (!threw) {
        if (!result.empty() && !tour) viol(tagAny, "returned edges are not a tour (" + why + "):" + fmtPairs(result));
        else if (tour && prize < I.quota) viol(tagAny, "returned tour collects " + std::to_string(prize) + " < quota " + std::to_string(I.quota));
        else if (tour && cost < R.best) viol(tagAny, "harness: cheaper than the brute-force optimum");
        if (st == SCIP_STATUS_OPTIMAL) {
            if (result.empty()) viol(tagAny, "status OPTIMAL but no tour returned");
            else if (tour && prize >= I.quota && cost != R.best) viol(tagAny, "status OPTIMAL with cost " + std::to_string(cost) + " but the optimum is " + std::to_string(R.best) + ":" + fmtPairs(result));
            ob.reach.insert("status_optimal");
        }
        if (st == SCIP_STATUS_INFEASIBLE) { ob.reach.insert("status_infeasible"); if (!result.empty()) viol(tagAny, "status INFEASIBLE with a tour returned"); if (R.best >= 0) viol(tagAny, "status INFEASIBLE although a tour of cost " + std::to_string(R.best) + " exists"); }
        if (capped && !failed_api) viol(faulty ? "anytime-result" : "optimal-tour", "the solve did not finish within " + std::to_string(cfg.max_nodes) + " nodes");
        if (!faulty && !failed_api && !capped && st != SCIP_STATUS_OPTIMAL && st != SCIP_STATUS_INFEASIBLE) viol("optimal-tour", "no limit and no fault, but the solve ended with status " + std::to_string((int)st) + (err ? " after a SCIP error" : ""));
        if (faulty && !failed_api && !err && !I.warm.empty()) { if (result.empty()) viol("anytime-result", "a starting tour was given but an interrupted solve returned nothing"); else if (tour && cost > ob.warmcost + std::max(0.5, tolOf(I))) viol("anytime-result", "returned cost " + std::to_string(cost) + " is worse than the starting tour's " + std::to_string((long)ob.warmcost)); }
        if (faulty && !failed_api && !err && ob.best < 1e19 && tour && cost > ob.best + std::max(0.5, tolOf(I))) viol("anytime-result", "returned cost " + std::to_string(cost) + " although a tour of cost " + std::to_string((long)ob.best) + " had been found");
        if (faulty && !failed_api && !err && ob.best < 1e19 && result.empty()) viol("anytime-result", "a tour of cost " + std::to_string((long)ob.best) + " had been found but nothing was returned");
        if (faulty && err && !failed_api) viol("anytime-result", "the solve stopped with a SCIP error that no injected fault explains");
        if (statusIsLimit(st)) ob.reach.insert("status_limit");
        if (I.overload == 3 && st == SCIP_STATUS_TIMELIMIT && !failed_api && SCIPgetSolvingTime(scip) < (double)(float)I.tlimit) viol("search-as-asked", "the solve ended with the time limit after " + std::to_string(SCIPgetSolvingTime(scip)) + " s, the limit is " + std::to_string(I.tlimit));
        if (I.overload == 3 && !failed_api && (st == SCIP_STATUS_NODELIMIT ? !capped : st == SCIP_STATUS_TOTALNODELIMIT || st == SCIP_STATUS_STALLNODELIMIT || st == SCIP_STATUS_GAPLIMIT || st == SCIP_STATUS_SOLLIMIT || st == SCIP_STATUS_BESTSOLLIMIT)) viol("search-as-asked", "the solve ended with status " + std::to_string((int)st) + ", a limit nobody set");
    }
    /* statistics */
    if (I.overload == 3 && !threw && !failed_api && !err) {
        std::string f = dir + "/" + PCTSP_SUMMARY_STATS_YAML; std::string text = exists(f) ? readFile(f) : "";
        bool disk = io && iofired && k + 1 == C.insts.size() && C.io_kind != 4;
        if (!disk) {
            std::string p = exists(f) ? statsProblem(text) : "is missing"; if (p != "") viol("stats-file", "after the solve " + PCTSP_SUMMARY_STATS_YAML + " " + p);
            else {
                YAML::Node n = YAML::Load(text); auto D = [&](const char* q) { return n[q].as<double>(); }; auto L = [&](const char* q) { return n[q].as<long>(); };
                ob.reach.insert("stats_checked");
                if (L("status") != (long)st) viol("stats-file", "status in the file is " + std::to_string(L("status")) + ", the solver's is " + std::to_string((int)st));
                double lo = D("lower_bound"), up = D("upper_bound"), tol = tolOf(I);
                double rlo = SCIPgetDualbound(scip), rup = SCIPgetPrimalbound(scip);
                if (tour && std::fabs(up - cost) > tol) viol("stats-bounds", "upper_bound " + std::to_string(up) + " in the file, the returned tour costs " + std::to_string(cost));
                if (!tour && up < 1e19) viol("stats-bounds", "finite upper_bound without a tour");
                if (R.best >= 0 && lo > R.best + tol) viol("stats-bounds", "lower_bound " + std::to_string(lo) + " exceeds the optimum " + std::to_string(R.best));
                if (st == SCIP_STATUS_OPTIMAL && std::fabs(lo - up) > tol) viol("stats-bounds", "optimal, but lower_bound " + std::to_string(lo) + " != upper_bound " + std::to_string(up));
                if (lo > up + tol) viol("stats-bounds", "lower_bound above upper_bound");
                if (std::fabs(lo - rlo) > tol * std::max(1.0, std::fabs(rlo)) && std::fabs(rlo) < 1e19) viol("stats-bounds", "lower_bound " + std::to_string(lo) + " in the file, the solver's dual bound is " + std::to_string(rlo));
                if (std::fabs(up - rup) > tol * std::max(1.0, std::fabs(rup)) && std::fabs(rup) < 1e19) viol("stats-bounds", "upper_bound " + std::to_string(up) + " in the file, the solver's primal bound is " + std::to_string(rup));
                long dt = L("num_sec_disjoint_tour"), mf = L("num_sec_maxflow_mincut");
                if (L("num_nodes") != SCIPgetNNodes(scip)) viol("stats-conserved", "num_nodes " + std::to_string(L("num_nodes")) + ", " + std::to_string(SCIPgetNNodes(scip)) + " nodes were processed");
                if (dt + mf < ob.sec_added || dt + mf > ob.sec_created) viol("stats-conserved", "the record counts " + std::to_string(dt) + "+" + std::to_string(mf) + " subtour inequalities; the solver was given " + std::to_string(ob.sec_added) + " of " + std::to_string(ob.sec_created) + " built");
                if (!I.sec_dt && dt) viol("stats-conserved", "disjoint-tour inequalities counted while that separation is off"); if (!I.sec_mf && mf) viol("stats-conserved", "maxflow inequalities counted while that separation is off");
                if (L("num_cycle_cover") != ob.cyc_added) viol("stats-conserved", "num_cycle_cover " + std::to_string(L("num_cycle_cover")) + ", " + std::to_string(ob.cyc_added) + " rows were added");
                long cd = L("num_cost_cover_disjoint_paths"), cs = L("num_cost_cover_shortest_paths"), pd = L("nconss_presolve_disjoint_paths"), ps = L("nconss_presolve_shortest_paths");
                if (cd + cs != ob.cc_model + ob.cc_solving) viol("stats-conserved", "cost-cover totals " + std::to_string(cd) + "+" + std::to_string(cs) + ", " + std::to_string(ob.cc_model + ob.cc_solving) + " were added");
                if (pd + ps != ob.cc_model) viol("stats-conserved", "presolve cost-cover totals " + std::to_string(pd) + "+" + std::to_string(ps) + ", " + std::to_string(ob.cc_model) + " were added before solving");
                if ((!I.cc_dp && (cd || pd)) || (!I.cc_sp && (cs || ps))) viol("stats-conserved", "cost covers counted for a separation that is off");
                try { std::filesystem::path fp = f; SummaryStats rs = readSummaryStatsFromYaml(fp); if ((long)rs.status != L("status") || rs.lower_bound != lo || rs.upper_bound != up || rs.num_cost_cover_disjoint_paths != cd || rs.num_cost_cover_shortest_paths != cs || rs.nconss_presolve_disjoint_paths != pd || rs.nconss_presolve_shortest_paths != ps || rs.num_cycle_cover != L("num_cycle_cover") || rs.num_nodes != L("num_nodes") || rs.num_sec_disjoint_tour != dt || rs.num_sec_maxflow_mincut != mf) viol("stats-file", "readSummaryStatsFromYaml does not return what was written"); } catch (std::exception& e) { viol("stats-file", std::string("readSummaryStatsFromYaml failed on a complete file: ") + e.what()); }
            }
            /* any record must come back as it was written, not only the small ones a simulated solve produces */
            if (!io) { Rng q((uint64_t)C.seed * 77777 + k); auto big = [&]() -> unsigned { return q.p(400) ? q.r(10) : q.p(300) ? 4294967295u - q.r(3) : (unsigned)q.r(1 << 30) * 3u; };
                auto dbl = [&]() -> double { double x = q.p(150) ? 1e20 : q.p(100) ? -1e20 : (double)q.r(1 << 30) + q.r(1 << 30) / 1073741824.0; return q.p(100) ? -x : q.p(100) ? x * 1e9 : x; };
                SummaryStats w = { (SCIP_Status)q.r(12), dbl(), dbl(), big(), big(), big(), big(), big(), q.p(300) ? (long long)q.r(1 << 30) * 1021 : (long long)big(), big(), big() };
                std::filesystem::path wp = dir + "/round-trip.yaml";
                try { writeSummaryStatsToYaml(w, wp); SummaryStats g = readSummaryStatsFromYaml(wp);
                    if (g.status != w.status || g.lower_bound != w.lower_bound || g.upper_bound != w.upper_bound || g.num_cost_cover_disjoint_paths != w.num_cost_cover_disjoint_paths || g.num_cost_cover_shortest_paths != w.num_cost_cover_shortest_paths || g.nconss_presolve_disjoint_paths != w.nconss_presolve_disjoint_paths || g.nconss_presolve_shortest_paths != w.nconss_presolve_shortest_paths || g.num_cycle_cover != w.num_cycle_cover || g.num_nodes != w.num_nodes || g.num_sec_disjoint_tour != w.num_sec_disjoint_tour || g.num_sec_maxflow_mincut != w.num_sec_maxflow_mincut) viol("stats-file", "a record with large numbers does not come back as it was written");
                } catch (std::exception& e) { viol("stats-file", std::string("a record with large numbers cannot be read back: ") + e.what()); } }
        } else { std::string p = exists(f) ? statsProblem(text) : ""; bool old = C.old_stats && text == OLD_STATS; if (exists(f) && !old && p != "") viol("stats-file", "after a failed disk write " + PCTSP_SUMMARY_STATS_YAML + " " + p); ob.reach.insert("stats_diskfault"); }
        if (!threw) { int fds1 = openFds(); if (fdcheck && fds1 - (simscip::open_logs - logs0) > fds0) viol("solver-releases", std::to_string(fds1 - (simscip::open_logs - logs0) - fds0) + " file descriptor(s) still open after the solve returned"); }
        if (!threw && !failed_api) { std::string kept = simscip::held(scip); if (kept != "") viol("solver-releases", kept + " is still held when the solve returns"); }
        if (!disk && !(io && iofired)) { std::string lf = dir + "/" + SCIP_LOGS_TXT; if (readFile(lf).find("SCIP Status") == std::string::npos) viol("solver-releases", "solver statistics are not in " + SCIP_LOGS_TXT + " when the solve returns"); }
        /* bounds trace */
        auto* bh = dynamic_cast<BoundsEventHandler*>(SCIPfindObjEventhdlr(scip, "pctsp_bound_handler"));
        if (bh) {
            auto v = bh->getBoundsVector(); if (v.size() != ob.ref_bounds.size()) viol("bounds-trace", std::to_string(v.size()) + " bound records for " + std::to_string(ob.ref_bounds.size()) + " LP solves");
            else for (size_t i = 0; i < v.size(); i++) {
                if (v[i].end_timestamp < v[i].start_timestamp) { viol("bounds-trace", "interval ends before it starts"); break; }
                if (i && v[i].start_timestamp < v[i - 1].end_timestamp) { viol("bounds-trace", "intervals overlap"); break; }
                if (i && v[i].start_timestamp > v[i - 1].end_timestamp) { viol("bounds-trace", "gap between consecutive intervals"); break; }
                auto& rb = ob.ref_bounds[i]; auto near = [](double a, double b) { return a == b || std::fabs(a - b) <= 1e-6 * std::max(1.0, std::fabs(b)); };
                if (!near(v[i].lower_bound, rb[0]) || !near(v[i].upper_bound, rb[1])) { viol("bounds-trace", "record " + std::to_string(i) + " has bounds [" + std::to_string(v[i].lower_bound) + "," + std::to_string(v[i].upper_bound) + "], the solver's were [" + std::to_string(rb[0]) + "," + std::to_string(rb[1]) + "]"); break; }
                if (v[i].node_id != (unsigned)rb[2]) { viol("bounds-trace", "record names node " + std::to_string(v[i].node_id) + ", the LP was solved at node " + std::to_string((long)rb[2])); break; }
                if (i && v[i].lower_bound < v[i - 1].lower_bound - 1e-6 - (tolOf(I) - 1e-4)) { viol("bounds-trace", "global lower bound decreases"); break; } if (i && v[i].upper_bound > v[i - 1].upper_bound + 1e-6 + (tolOf(I) - 1e-4)) { viol("bounds-trace", "upper bound increases"); break; }
                if (R.best >= 0 && (v[i].lower_bound > R.best + tolOf(I) || v[i].upper_bound < R.best - tolOf(I))) { viol("bounds-trace", "recorded bounds [" + std::to_string(v[i].lower_bound) + "," + std::to_string(v[i].upper_bound) + "] exclude the optimum " + std::to_string(R.best)); break; } }
            if (v.size() > 1) ob.reach.insert("bounds_trace");
            std::filesystem::path bp = g_scratch + "/solver/bounds-export.csv"; std::filesystem::create_directories(g_scratch + "/solver"); writeBoundsToCSV(v, bp); checkBoundsCsv(readFile(bp.string()), v, ob);
        }
    }
    if (I.overload == 3 && !threw && !failed_api && !err) {
        auto* nh = dynamic_cast<NodeEventhdlr*>(SCIPfindObjEventhdlr(scip, NODE_EVENTHDLR_NAME.c_str()));
        if (nh) {
            auto v = nh->getNodeStatsVector(); std::map<long long, NodeStats> byid; for (auto& n : v) if (n.node_id) byid[n.node_id] = n;
            for (auto& pn : ob.pernode) { auto it = byid.find(pn.first); long got = it == byid.end() ? 0 : (long)it->second.num_sec_disjoint_tour + it->second.num_sec_maxflow_mincut; if (got < pn.second.first || got > pn.second.second) { viol("stats-conserved", "node " + std::to_string(pn.first) + " is recorded with " + std::to_string(got) + " subtour inequalities, the solver was given " + std::to_string(pn.second.first) + " of " + std::to_string(pn.second.second) + " built there"); break; } }
            for (auto& n : byid) { auto it = ob.parent.find(n.first); if (it != ob.parent.end() && n.first > 1 && it->second != n.second.parent_id) { viol("trace-export", "node " + std::to_string(n.first) + " is recorded with parent " + std::to_string(n.second.parent_id) + ", its parent is " + std::to_string(it->second)); break; } }
            if (byid.size() > 1) ob.reach.insert("node_records");
            std::filesystem::path np = g_scratch + "/solver/nodes-export.csv"; std::filesystem::create_directories(g_scratch + "/solver"); writeNodeStatsToCSV(v, np); checkNodeCsv(readFile(np.string()), v);
        } }
    if (I.keep_scip == 0) { obs = nullptr; SCIPfree(&scip); if (fdcheck && !threw && !failed_api && simscip::open_logs > logs0) viol("solver-releases", "the solver log file is still open after the solve returned and the solver was freed"); }
    (void)hash;
}
static void freshDir(const std::string& d) { NoArena na; std::error_code ec; std::filesystem::remove_all(d, ec); }

/* result record sent from the run process to the campaign process */
static std::string runCase(const Case& C, bool wantDec) {
    std::vector<Violation> v; g_viol = &v; setKnobs(C.knobs); stats = Stats(); last_failed_api = "";
    if (C.has_dec) simscip::dec.replay(C.decs); else simscip::dec.seed(C.seed * 2654435761ULL + 17);
    sim_now_ns = 1700000000LL * 1000000000LL + (int64_t)(C.seed % 1000) * 1000000007LL; sim_elapsed_ns = 0;
    g_arena_mix = C.addr != 0; g_arena_state = (uint64_t)C.addr * 7777777; memset(g_off, 0, sizeof g_off); memset(g_free, 0, sizeof g_free);
    Obs ob; freshDir(g_scratch + "/solver"); if (C.old_stats) { std::filesystem::create_directories(g_scratch + "/solver"); std::ofstream(g_scratch + "/solver/" + PCTSP_SUMMARY_STATS_YAML) << OLD_STATS; }
    { auto it = C.knobs.find("tz"); static const char* Z[] = {"UTC0", "EST5", "JST-9", "IST-5:30"}; setenv("TZ", Z[it == C.knobs.end() ? 0 : it->second % 4], 1); tzset(); }
    uint64_t h = 0; g_arena_on = true;
    for (size_t k = 0; k < C.insts.size(); k++) runInst(C, k, ob, &h);
    g_arena_on = false; obs = nullptr;
    std::ostringstream o;
    o << "hash " << simscip::dec.hash << "\nsimns " << sim_elapsed_ns << "\n";
    for (auto& x : v) { std::string m = x.msg; for (auto& ch : m) if (ch == '\n') ch = ' '; o << "viol " << x.tag << " " << m << "\n"; }
    for (auto& s : simscip::dec.sites) o << "site " << s.first << " " << s.second << "\n";
    for (auto& r : ob.reach) o << "reach " << r << "\n";
    o << "stat lps " << stats.lps << "\nstat nodes " << stats.nodes << "\nmax nodes " << stats.nodes << "\nmax lps " << stats.lps << "\nstat rounds " << stats.rounds << "\nstat rows_added " << stats.rows_added << "\nstat cuts_dropped " << stats.cuts_dropped << "\nstat cuts_aged " << stats.cuts_aged << "\nstat heur_accepted " << stats.heur_accepted << "\nstat interrupts " << stats.interrupts << "\nstat timelimit " << stats.timelimit << "\nstat memlimit " << stats.memlimit << "\nstat lperror " << stats.lperror << "\nstat api_fail " << stats.api_fail << "\nstat solves " << stats.solves << "\nstat capped " << stats.capped << "\nstat rows_checked " << ob.rows_checked << "\nstat checks " << ob.checks << "\nstat enfo_resolves " << stats.enfo_resolve << "\nstat tail_checked " << ob.tail_checked << "\nstat windows_full " << ob.full << "\nstat branches " << ob.branches << "\nstat rounds_checked " << ob.rounds_checked << "\nstat cover_checks " << ob.cover_checked << "\nstat cycle_checks " << ob.cycle_checks << "\nstat sepa_checked " << ob.sepa_checked << "\nstat flow_checked " << ob.flow_checked << "\nstat enfo_branched " << ob.enf_branch << "\nstat fault_io_" << IOK[g_io.kind] << " " << g_io.fired << "\nstat fault_interrupt " << stats.interrupts << "\nstat fault_time_limit " << stats.timelimit << "\nstat fault_memory_limit " << stats.memlimit << "\nstat fault_lp_error " << stats.lperror << "\nstat fault_api_failure " << stats.api_fail << "\nstat fault_failed_allocation " << g_alloc_fired << "\nstat alloc_fail " << g_alloc_fired << "\nstat fault_clock_jump " << (simscip::dec.sites.count("time_jump") ? simscip::dec.sites["time_jump"] : 0) << "\nstat fault_lp_noise " << stats.noise << "\nstat io_faults " << g_io.fired << "\nstat io_ops " << g_io.count << "\nstat decisions " << simscip::dec.out.size() << "\n";
    if (wantDec) { o << "dec " << simscip::dec.out.size(); for (int d : simscip::dec.out) o << " " << d; o << "\n"; }
    o << "done\n"; return o.str(); }

/* run one case in a child; returns its report, with crashes turned into violations */
static std::string forkRun(const Case& C, bool wantDec, double timeout_s) {
    int fd[2]; if (pipe(fd)) _exit(3);
    pid_t p = fork(); if (p < 0) _exit(3);
    if (p == 0) {
        real<int (*)(int)>("close")(fd[0]); int dn = real<int (*)(const char*, int, ...)>("open")("/dev/null", O_WRONLY); dup2(dn, 1); dup2(dn, 2); real<int (*)(int)>("close")(dn);
        struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl); rl.rlim_cur = rl.rlim_max = 60; setrlimit(RLIMIT_CPU, &rl); rl.rlim_cur = rl.rlim_max = 4ull << 30; setrlimit(RLIMIT_AS, &rl);
        std::set_terminate([] { if (g_alloc_fired) _exit(97); std::abort(); });
        std::string r = runCase(C, wantDec); g_arena_on = false; auto rw = real<ssize_t (*)(int, const void*, size_t)>("write"); size_t off = 0; while (off < r.size()) { ssize_t w = rw(fd[1], r.data() + off, r.size() - off); if (w <= 0) break; off += w; }
        _exit(0);
    }
    close(fd[1]); std::string out; char buf[65536]; bool to = false; struct timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
    for (;;) { struct pollfd pf{fd[0], POLLIN, 0}; int k = poll(&pf, 1, 1000); if (k > 0) { ssize_t n = read(fd[0], buf, sizeof buf); if (n <= 0) break; out.append(buf, n); } struct timespec t1; clock_gettime(CLOCK_MONOTONIC, &t1); if (t1.tv_sec - t0.tv_sec > timeout_s) { kill(p, SIGKILL); to = true; break; } }
    close(fd[0]); int st; waitpid(p, &st, 0);
    if (out.size() >= 5 && out.compare(out.size() - 5, 5, "done\n") == 0) return out;
    if (to) return "hash 0\nsimns 0\nviol timeout the run did not finish in " + std::to_string((int)timeout_s) + " s of wall time\ndone\n";
    if (WIFEXITED(st) && WEXITSTATUS(st) == 97) return "hash " + std::to_string(C.seed * 31 + 7) + "\nsimns 0\nreach alloc_terminated\nstat alloc_fail 1\nstat fault_failed_allocation 1\ndone\n";
    if (WIFEXITED(st) && WEXITSTATUS(st) == 99 && C.io_kind) {
        /* simulated process crash while writing: look at what survived */
        std::ostringstream o; o << "hash " << (C.seed * 31 + C.io_at) << "\nsimns 0\nreach crash\nstat io_faults 1\nstat crash 1\nstat fault_io_" << IOK[C.io_kind] << " 1\n";
        std::string f = g_scratch + "/solver/" + PCTSP_SUMMARY_STATS_YAML; bool ex = exists(f); std::string t = ex ? readFile(f) : "";
        if (C.old_stats && C.insts.size() == 1) { if (!ex) o << "viol stats-file after a crash the previous record is gone\n"; else if (t != OLD_STATS && statsProblem(t) != "") o << "viol stats-file after a crash " << PCTSP_SUMMARY_STATS_YAML << " " << statsProblem(t) << "\n"; if (t == OLD_STATS) o << "reach crash_old\n"; else o << "reach crash_new\n"; }
        else if (ex && statsProblem(t) != "") o << "viol stats-file after a crash " << PCTSP_SUMMARY_STATS_YAML << " " << statsProblem(t) << "\n";
        else o << (ex ? "reach crash_complete\n" : "reach crash_absent\n");
        o << "done\n"; return o.str();
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 3) return "harness\n";
    if (WIFEXITED(st) && WEXITSTATUS(st) == 98) return "hash " + std::to_string(C.seed) + "\nsimns 0\nstat capped 1\nreach memory_cap\ndone\n";
    std::ostringstream o; o << "hash " << C.seed << "\nsimns 0\nviol * the process died with " << (WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit status " + std::to_string(WEXITSTATUS(st))) << "\ndone\n"; return o.str(); }

/* ------------------------------------------------------------------ generation */
static Inst genInst(Rng& r, const std::string& prop) {
    Inst I; I.n = 3 + r.r(5); if (r.p(250)) I.n = 5 + r.r(3); bool big = r.p(70); if (big) I.n = 8 + r.r(4); bool euclid = r.p(400); int n = I.n;
    int dens = big ? (n <= 9 ? 150 + r.r(250) : 100 + r.r(130)) : r.p(400) ? 1000 : 350 + r.r(600); std::vector<std::pair<int, int>> xy; for (int i = 0; i < n; i++) xy.push_back({r.r(60), r.r(60)});
    int cm = r.r(7); int mult = 1; if (cm == 2) mult = 2 + r.r(9); if (cm == 5) mult = 10;
    for (int a = 0; a < n; a++) for (int b = a + 1; b < n; b++) {
        bool ring = b == a + 1 || (a == 0 && b == n - 1); if (!(ring && !r.p(100)) && !r.p(dens)) continue;
        int w; if (euclid) { double dx = xy[a].first - xy[b].first, dy = xy[a].second - xy[b].second; w = (int)std::lround(std::sqrt(dx * dx + dy * dy)); } else w = cm == 0 ? 1 : cm == 1 ? 1 + r.r(3) : cm == 3 ? r.r(4) : cm == 4 ? (r.p(200) ? 500 + r.r(500) : 1 + r.r(10)) : 1 + r.r(60);
        int a2 = a, b2 = b; if (r.p(300)) std::swap(a2, b2); I.edges.push_back({a2, b2, w * mult}); }
    for (int i = (int)I.edges.size() - 1; i > 0; i--) std::swap(I.edges[i], I.edges[r.r(i + 1)]);
    if (I.edges.empty()) I.edges.push_back({0, 1, 1}); int mx = 0; for (auto& e : I.edges) mx = std::max(mx, std::max(e[0], e[1])); I.n = std::max(mx + 1, 1); n = I.n;
    if (r.p(500)) { /* two dense clusters joined by dear bridges: detached cycles are attractive to the LP */ for (auto& e : I.edges) if ((e[0] < n / 2) != (e[1] < n / 2)) e[2] = (e[2] + 20) * (mult > 1 ? mult : 1); }
    if (n >= 4 && r.p(60)) { /* a part that cannot be reached */ std::set<int> S; for (int v = 0; v < n; v++) if (r.p(300)) S.insert(v); auto E = I.edges; E.erase(std::remove_if(E.begin(), E.end(), [&](const std::array<int, 3>& e) { return S.count(e[0]) != S.count(e[1]); }), E.end()); int m = 0; for (auto& e : E) m = std::max(m, std::max(e[0], e[1])); if (m == n - 1) I.edges = E; }
    I.root = r.p(300) ? r.r(n) : 0; long tot = 0; int pm = r.r(4); for (int v = 0; v < n; v++) { int p = pm == 0 ? 1 : pm == 1 ? r.r(3) : pm == 2 ? r.r(20) : (r.p(300) ? 0 : 1 + r.r(100)); I.prize.push_back(p); tot += p; }
    if (r.p(30)) { static const int K[] = {1009, 100003}; int k = K[r.r(2)]; tot *= k; for (auto& p : I.prize) p *= k; }
    int qm = r.r(10); I.quota = qm == 0 ? 0 : qm == 1 ? (int)tot : qm == 2 ? (int)tot + 1 : (int)(tot * (20 + r.r(70)) / 100);
    if (r.p(80)) { /* dear edges: costs beyond single precision and 32-bit products */ long sum = 1; for (auto& e : I.edges) sum += e[2]; static const int K[] = {1009, 100003, 1000003}; long k = K[r.r(3)]; if (k > 1000000000 / sum) k = std::max(1L, 1000000000 / sum); for (auto& e : I.edges) e[2] = (int)(e[2] * k); }
    I.overload = 3; return I; }
static void genParams(Rng& r, Inst& I, const Ref& R) {
    std::vector<const Tour*> f; for (auto& t : R.cycles) if (t.prize >= I.quota) f.push_back(&t);
    if (!f.empty() && r.p(500)) { const Tour* t = f[r.r((int)f.size())]; if (r.p(300)) for (auto* q : f) if (q->cost < t->cost) t = q; size_t m = t->verts.size(); for (size_t i = 0; i < m; i++) { int a = t->verts[i], b = t->verts[(i + 1) % m]; I.warm.push_back({a, b}); } }
    I.strategy = r.r(5); I.depth = r.p(500) ? -1 : r.r(7); I.cc_dp = r.p(350); I.cc_sp = r.p(350); I.cyc = r.p(350); I.sec_dt = r.p(850); I.sec_mf = r.p(600); if (!I.sec_dt && !I.sec_mf && r.p(800)) I.sec_dt = 1;
    static const int T[] = {-1, 0, 1, 2, 3, 5, 8}; I.tail = T[r.r(7)]; static const int SF[] = {1, 1, 1, 2, 10, 0, -1}; I.sepafreq = SF[r.r(7)]; static const double TH[] = {0.01, 0.0, 0.1, 1.0, 0.001}; I.thr = TH[r.r(5)]; I.simple = r.p(700); I.tlimit = 1e9; I.debuglog = r.p(50); }
static Case gen(const std::string& prop, uint64_t seed) {
    Case C; C.prop = prop; C.seed = seed; Rng r(seed ^ 0xabcdef12345ULL); C.addr = r.p(700) ? 1 + r.r(1000000) : 0; C.pool_seed = 1 + r.r(1 << 30);
    int ni = 1; if (prop == "history-independence") ni = r.p(150) ? 4 + r.r(2) : 2 + r.r(2); else if (r.p(60)) ni = 2;
    auto sw = [&](const char* n, std::vector<long> v) { C.knobs[n] = v[r.r((int)v.size())]; };
    sw("lp_alt", {0, 400, 400, 900}); sw("lp_mix", {0, 120, 400}); sw("skip_lp", {0, 0, 30, 200}); sw("noise", {0, 0, 30, 120}); sw("drop_cut", {0, 0, 150, 600}); sw("age_cut", {0, 0, 60, 400}); sw("stop_sepa", {0, 60, 400}); sw("heur", {0, 100, 200, 500}); sw("heur_bad", {0, 300, 700}); sw("sepasol", {0, 40, 300}); sw("checkall", {0, 300, 1000}); sw("recheck", {0, 500, 1000}); sw("warm_late", {0, 0, 500}); sw("clock_tick", {0, 0, 100, 500}); sw("int_bound", {1, 1, 0}); sw("max_rounds", {40, 40, 10, 3}); sw("tz", {0, 1, 2, 3}); if (prop == "tailing-off") sw("enfo_resolve", {200, 500, 800}); else sw("enfo_resolve", {0, 0, 150, 500});
    for (int i = 0; i < ni; i++) {
        Inst I = genInst(r, prop); Ref R; R.build(I); genParams(r, I, R); if (ni > 1) I.keep_scip = r.p(400);
        if (prop == "tailing-off") { static const int T[] = {1, 2, 2, 3, 3, 5}; I.tail = T[r.r(6)]; }
        if (prop == "separation-progress") I.sec_dt = 1; if (prop == "maxflow-complete") { I.sec_mf = 1; I.sec_dt = r.p(300); if (I.sepafreq < 1) I.sepafreq = 1; }
        if (prop == "search-as-asked") { if (r.p(600)) { I.strategy = 2; I.depth = r.r(4); } if (r.p(600)) { static const int F[] = {0, -1, 2, 3, 10}; I.sepafreq = F[r.r(5)]; } if (r.p(250)) I.sec_dt = I.sec_mf = 0; if (r.p(300)) I.tlimit = (1 + r.r(300)) / 1000.0; }
        if (prop == "cost-cover-complete") { if (r.p(500)) { I.cc_sp = 1; I.cc_dp = r.p(300); } else { I.cc_dp = 1; I.cc_sp = r.p(300); } int far = r.r(I.n); if (r.p(600) && far != I.root) for (auto& e : I.edges) if ((e[0] == far || e[1] == far) && e[2] < 1000000) e[2] = e[2] * 2 + 30; }
        if (prop == "cycle-cover-complete") { I.cyc = 1; if (r.p(500)) { long t = 0; for (int p : I.prize) t += p; I.quota = (int)(t * (60 + r.r(41)) / 100); } }
        if ((prop == "cuts-valid" || prop == "stats-conserved") && r.p(600)) { I.cc_dp = r.p(700); I.cc_sp = r.p(700); I.cyc = r.p(600); }
        bool files = prop == "search-as-asked" || prop == "cost-cover-complete" || prop == "cycle-cover-complete" || prop == "trace-export" || prop == "stats-file" || prop == "stats-conserved" || prop == "stats-bounds" || prop == "bounds-trace" || prop == "solver-releases";
        if (!files && r.p(prop == "optimal-tour" || prop == "anytime-result" ? 300 : 120)) { I.overload = 1 + r.r(2); I.tail = -1; I.thr = 0.01; I.sec_dt = I.sec_mf = 1; I.sepafreq = 1; I.cc_dp = I.cc_sp = I.cyc = 0; }
        C.insts.push_back(I); }
    bool limits = prop == "anytime-result" || ((prop == "stats-bounds" || prop == "stats-conserved" || prop == "bounds-trace" || prop == "trace-export" || prop == "stats-file" || prop == "cuts-valid" || prop == "tour-check" || prop == "tailing-off" || prop == "cost-cover-complete") && r.p(prop == "cost-cover-complete" ? 150 : 400));
    if (limits) {
        int k = r.r(5); if (k == 0) C.knobs["interrupt"] = 5 + r.r(120); if (k == 1) for (auto& I : C.insts) if (I.overload == 3) I.tlimit = (1 + r.r(400)) / 1000.0; if (k == 2) { C.knobs["timejump"] = 5 + r.r(60); for (auto& I : C.insts) if (I.overload == 3) I.tlimit = 14400; } if (k == 3) C.knobs["memlimit"] = 5 + r.r(80); if (k == 4) { C.knobs["interrupt"] = r.r(40); C.knobs["lperror"] = 20 + r.r(150); }
        if (k <= 3 && r.p(250)) C.knobs["lperror"] = 10 + r.r(80);
        if (r.p(100)) for (auto& I : C.insts) if (I.overload == 3) I.tlimit = 0; }
    if (prop == "solver-faults") { C.knobs["api_fail"] = 1 + r.r(30); C.knobs["api_fail_budget"] = 1 + r.r(2); C.knobs["api_fail_from"] = r.r(3); if (C.knobs["api_fail_from"] == 0) C.knobs["api_fail"] = 1 + r.r(10);
        if (r.p(300)) { C.knobs["api_fail"] = C.knobs["api_fail_budget"] = C.knobs["api_fail_from"] = 0; C.knobs["alloc_fail"] = 1 + r.r(1 << (5 + r.r(15))); C.old_stats = r.p(300); } }
    if (prop == "stats-file" || prop == "solver-releases") { C.old_stats = r.p(500); if (r.p(prop == "stats-file" ? 800 : 150)) { static const int K[] = {1, 2, 3, 4, 5, 5, 6, 1}; C.io_kind = K[r.r(8)]; C.io_at = r.r(8); C.io_rng = 1 + r.r(1 << 20); C.insts.back().overload = 3; } }
    return C; }

/* ------------------------------------------------------------------ modes */
struct Report { uint64_t hash = 0; long long simns = 0; std::vector<Violation> viol; std::map<std::string, long> sites, stat, mx; std::vector<std::string> reach; std::vector<int> decs; bool harness = false; };
static Report parse(const std::string& t) {
    Report R; if (t.rfind("harness", 0) == 0) { R.harness = true; return R; } std::istringstream s(t); std::string line;
    while (std::getline(s, line)) { std::istringstream l(line); std::string k; l >> k; if (k == "hash") l >> R.hash; else if (k == "simns") l >> R.simns; else if (k == "viol") { Violation v; l >> v.tag; std::getline(l, v.msg); if (!v.msg.empty()) v.msg.erase(0, 1); R.viol.push_back(v); } else if (k == "site") { std::string n; long c; l >> n >> c; R.sites[n] += c; } else if (k == "stat") { std::string n; long c; l >> n >> c; R.stat[n] += c; } else if (k == "max") { std::string n; long c; l >> n >> c; R.mx[n] = std::max(R.mx[n], c); } else if (k == "reach") { std::string n; l >> n; R.reach.push_back(n); } else if (k == "dec") { size_t n; l >> n; int d; while (l >> d) R.decs.push_back(d); } }
    return R; }
static const Violation* relevant(const std::string& prop, const Report& R) {
    for (auto& v : R.viol) { if (v.tag == prop || v.tag == "*" || (v.tag == "timeout" && (prop == "optimal-tour" || prop == "anytime-result"))) return &v; if (prop == "history-independence" && (v.tag == "optimal-tour" || v.tag == "tour-check" || v.tag == "stats-conserved" || v.tag == "stats-bounds" || v.tag == "tailing-off" || v.tag == "search-as-asked" || v.tag == "separation-progress" || v.tag == "cuts-valid")) return &v; }
    return nullptr; }
/* does the run exercise what the property is about? */
static bool nontrivial(const std::string& p, Report& R) {
    auto S = [&](const char* k) { auto it = R.stat.find(k); return it == R.stat.end() ? 0L : it->second; }; auto P = [&](const char* k) { return std::find(R.reach.begin(), R.reach.end(), k) != R.reach.end(); };
    if (p == "optimal-tour") return S("lps") >= 2; if (p == "anytime-result") return S("interrupts") + S("timelimit") + S("memlimit") + S("lperror") > 0;
    if (p == "cuts-valid") return S("rows_checked") > 0; if (p == "tour-check") return S("checks") > 0; if (p == "tailing-off") return S("windows_full") > 0; if (p == "separation-progress") return S("sepa_checked") > 0; if (p == "maxflow-complete") return S("flow_checked") > 0;
    if (p == "stats-file") return S("io_faults") > 0 || P("stats_checked"); if (p.rfind("stats-", 0) == 0) return P("stats_checked") && S("lps") >= 2; if (p == "bounds-trace" || p == "trace-export") return P("bounds_trace"); if (p == "search-as-asked") return S("branches") + S("rounds_checked") > 0; if (p == "cost-cover-complete") return P("vertex_too_dear"); if (p == "cycle-cover-complete") return P("cycle_cover_needed"); if (p == "solver-faults") return S("api_fail") + S("alloc_fail") > 0; if (p == "history-independence") return S("solves") >= 2;
    return S("lps") > 0 || S("io_faults") > 0; }
static std::string klass(const Violation& v) { std::string s; for (char c : v.msg.substr(0, 200)) { if (isdigit((unsigned char)c)) { if (s.empty() || s.back() != '#') s += '#'; } else s += c; if (s.size() > 40) break; } return v.tag + ":" + s; }
static double nowS() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static Report go(const Case& c, bool d = false) { return parse(forkRun(c, d, 40)); }
static Case minimise(const Case& c0, const std::string& prop, const std::string& kl, double budget) {
    double end = nowS() + budget; Case best = c0; auto fails = [&](const Case& c) { Report r = go(c); auto* v = relevant(prop, r); return v && klass(*v) == kl; };
    auto tryit = [&](const Case& c) { if (nowS() > end) return false; if (fails(c)) { best = c; return true; } return false; };
    /* the decisions first: shortest prefix, then zero out blocks */
    if (best.has_dec) {
        size_t lo = 0, hi = best.decs.size(); while (lo < hi && nowS() < end) { size_t mid = (lo + hi) / 2; Case c = best; c.decs.resize(mid); if (fails(c)) { hi = mid; best = c; } else lo = mid + 1; }
        for (size_t b = std::max<size_t>(1, best.decs.size() / 2); nowS() < end; b /= 2) { for (size_t i = 0; i < best.decs.size() && nowS() < end; i += b) { Case c = best; bool ch = false; for (size_t j = i; j < std::min(i + b, c.decs.size()); j++) if (c.decs[j]) { c.decs[j] = 0; ch = true; } if (ch) tryit(c); } if (b <= 1) break; }
    }
    for (bool more = true; more && nowS() < end;) { more = false;
        if (best.insts.size() > 1) for (size_t k = 0; k < best.insts.size(); k++) { Case c = best; c.insts.erase(c.insts.begin() + k); if (tryit(c)) { more = true; break; } }
        for (size_t k = 0; k < best.insts.size(); k++) {
            for (size_t e = 0; e < best.insts[k].edges.size() && best.insts[k].edges.size() > 1; e++) { Case c = best; auto& I = c.insts[k]; auto ed = I.edges[e]; bool inw = false; for (auto& w : I.warm) if (Ref::key(w.first, w.second) == Ref::key(ed[0], ed[1])) inw = true; if (inw) continue; I.edges.erase(I.edges.begin() + e); int mx = 0; for (auto& q : I.edges) mx = std::max(mx, std::max(q[0], q[1])); mx = std::max(mx, I.root); if (mx + 1 < I.n && mx != I.root) { I.n = mx + 1; I.prize.resize(I.n); } if (mx + 1 < I.n) continue; if (tryit(c)) { more = true; e--; } }
            auto set = [&](auto f) { Case c = best; f(c.insts[k]); std::ostringstream a, b; writeCase(a, c); writeCase(b, best); if (a.str() != b.str() && tryit(c)) more = true; };
            set([](Inst& I) { I.warm.clear(); }); set([](Inst& I) { I.cc_dp = 0; }); set([](Inst& I) { I.cc_sp = 0; }); set([](Inst& I) { I.cyc = 0; }); set([](Inst& I) { I.sec_mf = 0; }); set([](Inst& I) { I.tail = -1; }); set([](Inst& I) { I.strategy = 1; I.depth = -1; }); set([](Inst& I) { I.sepafreq = 1; }); set([](Inst& I) { I.keep_scip = 0; I.debuglog = 0; });
        }
        if (best.addr) { Case c = best; c.addr = 0; if (tryit(c)) more = true; }
        for (auto kn : {"noise", "enfo_resolve", "sepasol", "skip_lp", "age_cut", "drop_cut", "lp_mix", "lp_alt", "heur", "lperror", "memlimit", "timejump", "interrupt"}) { auto it = best.knobs.find(kn); if (it != best.knobs.end() && it->second) { Case c = best; c.knobs[kn] = 0; if (tryit(c)) more = true; } }
        for (size_t i = 0; i < best.decs.size() && nowS() < end; i++) if (best.decs[i]) { Case c = best; c.decs[i] = 0; if (tryit(c)) more = true; }
    }
    while (!best.decs.empty() && best.decs.back() == 0) best.decs.pop_back();
    return best; }

int main(int argc, char** argv) {
    std::map<std::string, std::string> a; std::string mode = argc > 1 ? argv[1] : ""; for (int i = 2; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
    signal(SIGPIPE, SIG_IGN); arena_init(); g_iofds = new std::set<int>(); g_files = new std::set<FILE*>();
    g_scratch = a.count("--scratch") ? a["--scratch"] : "/tmp/simdrv"; std::filesystem::create_directories(g_scratch);
    boost::log::core::get()->set_logging_enabled(false); BOOST_LOG_TRIVIAL(info) << "warm-up"; { YAML::Node n; n["a"] = 1; std::ostringstream o; o << n; }
    std::string prop = a["--prop"];
    if (mode == "campaign") {
        uint64_t base = strtoull(a["--seed"].c_str(), 0, 10); long from = atol(a["--from"].c_str()), step = std::max(1L, atol(a["--step"].c_str())), count = atol(a["--count"].c_str()); double secs = atof(a["--seconds"].c_str()); double t0 = nowS();
        std::set<uint64_t> hashes, nth; std::map<std::string, long> sites, stat, reach, mx; long runs = 0, nviol = 0; long long simns = 0; std::vector<std::string> samples; std::ofstream out(a["--out"]);
        for (long i = from; i < count && nowS() - t0 < secs; i += step) {
            uint64_t seed = base * 1000003ULL + (uint64_t)i; Case c = gen(prop, seed); Report r = go(c); runs++;
            if (r.harness) { out << "harness " << seed << "\n"; return 3; }
            hashes.insert(r.hash); if (nontrivial(prop, r)) nth.insert(r.hash); for (auto& s : r.sites) sites[s.first] += s.second; for (auto& s : r.stat) stat[s.first] += s.second; for (auto& s : r.reach) reach[s]++; for (auto& s : r.mx) mx[s.first] = std::max(mx[s.first], s.second); simns += r.simns;
            if (samples.size() < 3) { std::ostringstream o; o << "seed " << seed << ": n=" << c.insts[0].n << " edges=" << c.insts[0].edges.size() << " quota=" << c.insts[0].quota << " warm=" << c.insts[0].warm.size() << " solves=" << c.insts.size() << " lps=" << r.stat["lps"] << " nodes=" << r.stat["nodes"] << " rows=" << r.stat["rows_added"] << " decisions=" << r.stat["decisions"]; samples.push_back(o.str()); }
            if (a.count("--dump")) { out << "run " << seed << " " << r.hash << " " << r.viol.size() << "\n"; }
            if (auto* v = relevant(prop, r)) { nviol++; out << "violation " << seed << " " << klass(*v).size() << " " << v->tag << " " << v->msg << "\n"; out.flush(); if (nviol >= 5 && !a.count("--all")) break; }
        }
        for (auto& s : sites) out << "site " << s.first << " " << s.second << "\n"; for (auto& s : stat) out << "stat " << s.first << " " << s.second << "\n"; for (auto& s : mx) out << "max " << s.first << " " << s.second << "\n"; for (auto& s : reach) out << "reach " << s.first << " " << s.second << "\n"; for (auto& s : samples) out << "sample " << s << "\n";
        { std::ofstream hb(a["--out"] + ".hashes", std::ios::binary); for (uint64_t h : nth) hb.write((const char*)&h, 8); }
        out << "runs " << runs << "\ndistinct " << hashes.size() << "\nsimns " << simns << "\nwall " << nowS() - t0 << "\ndone\n"; return 0;
    }
    if (mode == "case") { Case c = gen(prop, strtoull(a["--seed"].c_str(), 0, 10)); writeCase(std::cout, c); return 0; }
    if (mode == "run" || mode == "replay") {   /* run: a seed; replay: a case file */
        Case c; if (mode == "run") c = gen(prop, strtoull(a["--seed"].c_str(), 0, 10)); else { std::ifstream f(a["--file"]); if (!readCase(f, c)) { fprintf(stderr, "bad case file\n"); return 3; } }
        if (a.count("--inproc")) { std::string t = runCase(c, false); std::cout << t; return 0; }
        std::string t = forkRun(c, false, 60); std::cout << t; Report r = parse(t); auto* v = relevant(c.prop, r); return v ? 1 : r.harness ? 3 : 0;
    }
    if (mode == "minimise") {  /* a seed -> a replay file with recorded decisions, minimised */
        Case c; if (a.count("--file")) { std::ifstream f(a["--file"]); if (!readCase(f, c)) return 3; } else c = gen(prop, strtoull(a["--seed"].c_str(), 0, 10)); Report r = go(c, true); auto* v = relevant(c.prop, r); if (!v) { fprintf(stderr, "does not fail\n"); return 4; }
        Report r2 = go(c, true); if (r2.hash != r.hash) { fprintf(stderr, "not deterministic\n"); return 3; }
        std::string kl = klass(*v); Case rec = c; if (!r.decs.empty()) { rec.has_dec = true; rec.decs = r.decs; Report q = go(rec); auto* w = relevant(c.prop, q); if (!w || klass(*w) != kl) { rec = c; } }
        Case m = minimise(rec, c.prop, kl, atof(a["--seconds"].c_str())); Report f = go(m); auto* w = relevant(c.prop, f); if (!w) { fprintf(stderr, "minimised case does not fail\n"); return 3; }
        std::ofstream o(a["--out"]); o << "# property " << c.prop << "\n# violation: " << w->tag << ": " << w->msg << "\n# found with seed " << c.seed << "; event hash of this run " << f.hash << "\n"; writeCase(o, m); std::cout << w->msg << "\n"; return 0;
    }
    fprintf(stderr, "usage: driver campaign|case|run|replay|minimise --prop P --seed N ...\n"); return 2; }
