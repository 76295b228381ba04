/* simscip: deterministic simulation of the SCIP solver that pctsp drives.
 * Everything the real SCIP leaves open (which optimal LP vertex is returned, node order, branching variable,
 * which cuts are kept, when heuristics find solutions, when the clock moves, when a limit or an interrupt hits,
 * which API call fails) is a decision drawn from one stream, so one seed (or one recorded list of decisions) is
 * one exactly repeatable solve. */
#ifndef SIMSCIP_H
#define SIMSCIP_H
#include <scip/scip.h>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
#include <map>

namespace simscip {

/* ---- decision stream ---- */
struct Decisions {
    bool replaying = false;
    uint64_t state = 1;
    std::vector<int> in;        // decisions to replay
    size_t pos = 0;
    std::vector<int> out;       // decisions taken
    std::map<std::string, long> sites;   // how often each site chose something other than 0
    uint64_t hash = 1469598103934665603ULL;
    void seed(uint64_t s) { replaying = false; state = s * 0x9E3779B97F4A7C15ULL + 0x1234567; out.clear(); sites.clear(); pos = 0; hash = 1469598103934665603ULL; }
    void replay(const std::vector<int>& d) { replaying = true; in = d; pos = 0; out.clear(); sites.clear(); hash = 1469598103934665603ULL; }
    uint64_t next() { state += 0x9E3779B97F4A7C15ULL; uint64_t z = state; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
    int choose(int n, const char* site);            // uniform in [0,n)
    bool chance(int permille, const char* site);    // 1 with that probability; 0 is the benign answer
    void mix(const void* p, size_t n) { const unsigned char* c = (const unsigned char*)p; for (size_t i = 0; i < n; i++) { hash ^= c[i]; hash *= 1099511628211ULL; } }
};
extern Decisions dec;
extern long kill_at_decision;          // > 0: the process ends (as by SIGKILL) at that decision

/* ---- simulated clock (nanoseconds since the epoch) ---- */
extern int64_t sim_now_ns;
std::string held(SCIP*);            // a row or constraint that the caller created and has not released, if any
extern int open_logs;               // log files held open by message handlers
extern int64_t sim_elapsed_ns;     // simulated time consumed, never decreases
void advance(int64_t ns);

/* ---- knobs; all permille unless said otherwise ---- */
struct Config {
    int lp_alt = 400, lp_mix = 120, skip_lp = 30, noise = 0;
    int drop_cut = 150, age_cut = 60, stop_sepa = 60;
    int heur = 200, heur_bad = 300, sepasol = 40, checkall = 300, recheck = 500;
    int interrupt = 0, timejump = 0, lperror = 0, memlimit = 0;
    int api_fail = 0; int api_fail_budget = 0; int api_fail_from = 0; /* stage: 0 anywhere, 1 only while solving, 2 only while modelling */
    int warm_late = 0; int enfo_resolve = 0; int clock_tick = 0; /* time passes between two readings of the clock */
    int max_nodes = 4000, max_rounds = 40;
    int64_t lp_cost_ns = 5000000;
    bool int_bound = true;
};
extern Config cfg;

struct RowInfo { std::string name, hdlr; double lhs, rhs; std::vector<std::pair<int, double>> coefs; bool local; bool is_cons; bool accepted; };
struct Observer {
    virtual ~Observer() {}
    virtual void on_row(SCIP*, const RowInfo&) {}
    virtual void on_row_created(SCIP*, const std::string& name, const std::string& hdlr) {}
    virtual void on_check(SCIP*, const char* hdlr, const std::vector<double>&, SCIP_RESULT) {}
    virtual void before_enfo(SCIP*, const char* hdlr, const std::vector<double>&, bool lp) {}
    virtual void on_enfo(SCIP*, const char* hdlr, const std::vector<double>&, bool lp, SCIP_RESULT) {}
    virtual void on_sepa(SCIP*, const char* hdlr, const std::vector<double>&, bool lp, SCIP_RESULT, int rows_added, int rows_created) {}
    virtual void on_best(SCIP*, double obj, const std::vector<double>&) {}
    virtual void on_event(SCIP*, SCIP_EVENTTYPE, long long node) {}
    virtual void before_event(SCIP*, SCIP_EVENTTYPE, long long node) {}
    virtual void on_solve_start(SCIP*) {}
    virtual void on_solving(SCIP*) {}
    virtual void on_lp(SCIP*, double solving_time) {}                                  // an LP is about to be solved
    virtual void on_branch(SCIP*, int depth, const std::string& rule) {}               // rule: the branching rule SCIP would call at that depth, names joined by | if some tie
    virtual void on_round(SCIP*, int depth, const std::vector<std::string>& called, bool cutoff) {}   // one LP separation round and the handlers it asked
    virtual void contract(const std::string&) {}
};
extern Observer* obs;

struct Stats { long lps = 0, nodes = 0, rounds = 0, rows_added = 0, rows_created = 0, cuts_dropped = 0, cuts_aged = 0, heur_tried = 0, heur_accepted = 0,
    pseudo_nodes = 0, sepasol = 0, api_fail = 0, interrupts = 0, timelimit = 0, memlimit = 0, lperror = 0, noise = 0, solves = 0, branch_pseudo = 0, contract = 0, lp_alt = 0, lp_mix = 0, capped = 0, enfo_resolve = 0; };
extern Stats stats;
extern std::string last_failed_api;

/* introspection for oracles */
int num_orig_vars(SCIP*);
double orig_obj(SCIP*, int idx);
const char* row_var_name(SCIP*, int idx);
int orig_index(SCIP_VAR*);
double obj_scale(SCIP*);
bool has_error(SCIP*);
SCIP* last_scip();
bool all_handles_closed(std::string* what);
/* candidate integral points the simulated heuristics may propose (indexed by original variable) */
extern std::vector<std::vector<double>> heuristic_pool;
}
#endif
