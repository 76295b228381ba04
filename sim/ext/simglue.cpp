/* C entry points through which the lab simulator drives the simulated SCIP inside libpypctsp. */
#include "../simscip/simscip.h"
#include <chrono>
#include <unistd.h>
using namespace simscip;
namespace std { namespace chrono { inline namespace _V2 { system_clock::time_point system_clock::now() noexcept { return time_point(duration_cast<duration>(nanoseconds(simscip::sim_now_ns))); } } } }
extern "C" {
void sim_begin(unsigned long long seed, long long now_ns, const int* k, int nk) {
    dec.seed(seed); cfg = Config(); stats = Stats(); sim_now_ns = now_ns; sim_elapsed_ns = 0; heuristic_pool.clear(); obs = nullptr;
    int* f[] = {&cfg.interrupt, &cfg.timejump, &cfg.lperror, &cfg.memlimit, &cfg.heur, &cfg.lp_alt, &cfg.drop_cut, &cfg.api_fail, &cfg.api_fail_budget, &cfg.api_fail_from};
    for (int i = 0; i < nk && i < (int)(sizeof f / sizeof *f); i++) if (k[i] >= 0) *f[i] = k[i]; }
void sim_set_lp_cost(long long ns) { cfg.lp_cost_ns = ns; }
void sim_kill_at(long n) { kill_at_decision = n; }
long long sim_now() { return sim_now_ns; }
long long sim_elapsed() { return sim_elapsed_ns; }
void sim_set_now(long long ns) { sim_now_ns = ns; }
unsigned long long sim_hash() { return dec.hash; }
long sim_stat(int i) { long v[] = {stats.lps, stats.nodes, stats.rows_added, stats.interrupts, stats.timelimit, stats.memlimit, stats.lperror, stats.api_fail, stats.capped, stats.contract, (long)dec.out.size(), stats.solves}; return i < (int)(sizeof v / sizeof *v) ? v[i] : -1; }
void* sim_model_new(const char* name) { SCIP* s = nullptr; SCIPcreate(&s); return s; }
int sim_model_status(void* s) { return (int)SCIPgetStatus((SCIP*)s); }
void sim_model_freeprob(void* s) { SCIPfreeProb((SCIP*)s); }
void sim_model_free(void* p) { SCIP* s = (SCIP*)p; SCIPfree(&s); }
}
