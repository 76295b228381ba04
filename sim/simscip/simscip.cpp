#include "simscip.h"
#include <unistd.h>
#include "lp.h"
#include <objscip/objscip.h>
#include <algorithm>
#include <cstdarg>
#include <numeric>
#include <climits>
#include <memory>
#include <deque>

using namespace simscip;

namespace simscip {
Decisions dec; Config cfg; Stats stats; Observer* obs = nullptr; std::string last_failed_api;
int64_t sim_now_ns = 1700000000LL * 1000000000LL, sim_elapsed_ns = 0;
std::vector<std::vector<double>> heuristic_pool;
long kill_at_decision = 0; int open_logs = 0;
int Decisions::choose(int n, const char* site) {
    if (kill_at_decision > 0 && --kill_at_decision == 0) _exit(77);
    if (n <= 1) return 0;
    int v = 0;
    if (replaying) { v = pos < in.size() ? in[pos] : 0; pos++; if (v < 0) v = 0; v %= n; }
    else v = (int)(next() % (uint64_t)n);
    out.push_back(v); if (v) sites[site]++;
    return v;
}
bool Decisions::chance(int permille, const char* site) {
    if (permille <= 0) return false;
    int v = 0;
    if (replaying) { v = pos < in.size() ? (in[pos] ? 1 : 0) : 0; pos++; }
    else v = (int)(next() % 1000) < permille;
    out.push_back(v); if (v) sites[site]++;
    return v;
}
void advance(int64_t ns) { if (ns < 0) ns = 0; sim_now_ns += ns; sim_elapsed_ns += ns; }
static void contract(const std::string& s) { stats.contract++; if (obs) obs->contract(s); }
}

struct SCIP_Var { std::string name; double lb, ub, obj; SCIP_VARTYPE type; int idx; bool trans; SCIP_Var* other = nullptr; double llb, lub; int refs = 1; double lpsol = 0; };
struct SCIP_Cons { std::string name; SCIP_Conshdlr* hdlr = nullptr; bool linear = false; std::vector<SCIP_VAR*> vars; std::vector<double> vals; double lhs = 0, rhs = 0;
    bool initial = true, separate = true, enforce = true, check = true, propagate = true, local = false, modifiable = false, dynamic = false, removable = false, sticking = false;
    SCIP_CONSDATA* data = nullptr; int refs = 1; bool added = false, trans = false, deleted = false; };
struct SCIP_Conshdlr { std::string name; scip::ObjConshdlr* obj; bool del; SCIP* scip; };
struct SCIP_Eventhdlr { std::string name; scip::ObjEventhdlr* obj; bool del; };
struct Catch { SCIP_EVENTTYPE type; SCIP_EVENTHDLR* h; SCIP_EVENTDATA* data; };
struct SCIP_Row { std::string name, hdlr; double lhs, rhs; std::vector<std::pair<int, double>> coefs; bool local; int refs = 1, own = 0; bool inlp = false, caching = false, offered = false; };
struct SCIP_Sol { std::vector<double> v; bool orig; double obj = 0; };
struct SCIP_Node { long long number; SCIP_Node* parent; int depth; double lower; std::vector<std::pair<int, std::pair<double, double>>> fix; };
struct SCIP_Event { SCIP_EVENTTYPE type; SCIP_NODE* node; SCIP_SOL* sol; };
struct SCIP_Branchrule { std::string name; int priority; int maxdepth; };
struct SCIP_Messagehdlr { FILE* log; int refs; bool quiet; };     // the log file stays open until the last reference is released
static void releaseMsg(SCIP_Messagehdlr* m) { if (m && --m->refs == 0) { if (m->log) { fclose(m->log); simscip::open_logs--; } delete m; } }
struct SCIP_Heur { int d; };

struct Scip {
    SCIP_STAGE stage = SCIP_STAGE_INIT; SCIP_STATUS status = SCIP_STATUS_UNKNOWN; std::string probname;
    std::vector<SCIP_VAR*> vars, tvars; std::vector<SCIP_CONS*> conss, tconss;
    std::vector<SCIP_CONSHDLR*> chdlrs; std::vector<SCIP_EVENTHDLR*> ehdlrs; std::vector<Catch> catches;
    std::vector<SCIP_BRANCHRULE*> rules; std::map<std::string, double> params; bool stop = false;
    scip::ObjProbData* prob = nullptr; bool delprob = false;
    std::vector<SCIP_SOL*> origsols, sols; SCIP_OBJSENSE sense = SCIP_OBJSENSE_MINIMIZE;
    std::vector<SCIP_NODE*> allnodes, open; std::vector<SCIP_NODE*> children; SCIP_NODE* cur = nullptr; long long created = 0, nnodes = 0; long long nlps = 0;
    std::vector<SCIP_ROW*> lprows, newcuts; std::vector<SCIP_ROW*> allrows; bool cutoffnow = false;
    std::vector<double> lpx; bool lpvalid = false; double lpobj = 0; SCIP_LPSOLSTAT lpstat = SCIP_LPSOLSTAT_NOTSOLVED; bool firstlp = true;
    double scale = 1; bool intobj = false; double upper = 1e20; double lower = -1e20; int64_t start_ns = 0; bool error = false; bool consadded = false; int rows_added = 0, rows_created = 0;
    SCIP_MESSAGEHDLR* msg = nullptr; bool in_callback = false; bool plugins = false; bool branched = false;
    int cuts_found = 0; bool initsolved = false; double objlimit = 1e20; long long bestnode = 0, nsolsfound = 0, nbestfound = 0;
};

static SCIP* g_last = nullptr;
namespace simscip {
int num_orig_vars(SCIP* s) { return (int)s->vars.size(); }
double orig_obj(SCIP* s, int i) { return s->vars[i]->obj; }
const char* row_var_name(SCIP* s, int i) { return s->vars[i]->name.c_str(); }
int orig_index(SCIP_VAR* v) { return v->idx; }
double obj_scale(SCIP* s) { return s->scale; }
bool has_error(SCIP* s) { return s->error; }
SCIP* last_scip() { return g_last; }
}
static bool solvingStage(SCIP* s) { return s->stage == SCIP_STAGE_SOLVING; }
static bool fail(SCIP* s, const char* api) {
    if (cfg.api_fail <= 0 || stats.api_fail >= cfg.api_fail_budget) return false;
    if (cfg.api_fail_from == 1 && !(s && solvingStage(s))) return false;
    if (cfg.api_fail_from == 2 && s && s->stage > SCIP_STAGE_PROBLEM) return false;
    if (!dec.chance(cfg.api_fail, "api_fail")) return false;
    stats.api_fail++; last_failed_api = api; return true;
}
#define FAILPOINT(api) do { if (fail(scip, api)) return SCIP_NOMEMORY; } while (0)
#define NEED(cond, what) do { if (!(cond)) { contract(what); return SCIP_INVALIDCALL; } } while (0)

static void fill_row(SCIP* s, RowInfo& r, SCIP_ROW* row) { r.name = row->name; r.hdlr = row->hdlr; r.lhs = row->lhs; r.rhs = row->rhs; r.coefs = row->coefs; r.local = row->local; r.is_cons = false; r.accepted = true; }

/* ---------------------------------------------------------------- basics */
void SCIPmessagePrintError(const char*, ...) {}
void SCIPprintError(SCIP_RETCODE) {}
void SCIPinfoMessage(SCIP*, FILE*, const char*, ...) {}
void SCIPwarningMessage(SCIP*, const char*, ...) {}
unsigned int SCIPinitializeRandomSeed(SCIP*, unsigned int v) { return v; }
SCIP_RETCODE SCIPcreate(SCIP** scip) { *scip = new Scip(); g_last = *scip; return SCIP_OKAY; }
static void freeTransform(SCIP* s) {
    if (s->initsolved) {
        s->initsolved = false;
        for (auto* h : s->ehdlrs) h->obj->scip_exitsol(s, h);
        for (auto* h : s->chdlrs) { std::vector<SCIP_CONS*> cs; for (auto* c : s->tconss) if (c->hdlr == h) cs.push_back(c); h->obj->scip_exitsol(s, h, cs.data(), (int)cs.size(), FALSE); }
        for (auto* h : s->ehdlrs) h->obj->scip_exit(s, h);
        for (auto* h : s->chdlrs) h->obj->scip_exit(s, h, nullptr, 0);
    }
    for (auto* v : s->tvars) { v->other->other = nullptr; delete v; }
    for (auto* c : s->tconss) delete c;
    for (auto* x : s->sols) delete x;
    for (auto* n : s->allnodes) delete n;
    for (auto* r : s->allrows) delete r;
    s->tvars.clear(); s->tconss.clear(); s->sols.clear(); s->allnodes.clear(); s->allrows.clear(); s->lprows.clear(); s->newcuts.clear(); s->open.clear(); s->children.clear(); s->catches.clear();
    s->cur = nullptr; s->upper = 1e20; s->lower = -1e20;
}
SCIP_RETCODE SCIPfreeTransform(SCIP* scip) { freeTransform(scip); if (scip->stage > SCIP_STAGE_PROBLEM) scip->stage = SCIP_STAGE_PROBLEM; return SCIP_OKAY; }
SCIP_RETCODE SCIPfreeProb(SCIP* scip) {
    freeTransform(scip);
    for (auto* c : scip->conss) delete c;
    for (auto* v : scip->vars) delete v;
    for (auto* x : scip->origsols) delete x;
    scip->conss.clear(); scip->vars.clear(); scip->origsols.clear();
    if (scip->prob && scip->delprob) delete scip->prob;
    scip->prob = nullptr; scip->stage = SCIP_STAGE_INIT; scip->status = SCIP_STATUS_UNKNOWN;
    return SCIP_OKAY;
}
SCIP_RETCODE SCIPfree(SCIP** pscip) {
    SCIP* scip = *pscip; if (!scip) return SCIP_OKAY;
    SCIPfreeProb(scip);
    for (auto* h : scip->ehdlrs) { if (h->obj) { h->obj->scip_free(scip, h); if (h->del) delete h->obj; } delete h; }
    for (auto* h : scip->chdlrs) { if (h->obj) { h->obj->scip_free(scip, h); if (h->del) delete h->obj; } delete h; }
    for (auto* r : scip->rules) delete r;
    if (g_last == scip) g_last = nullptr;
    releaseMsg(scip->msg); delete scip; *pscip = nullptr; return SCIP_OKAY;
}
SCIP_STAGE SCIPgetStage(SCIP* s) { return s->stage; }
SCIP_STATUS SCIPgetStatus(SCIP* s) { return s->status; }
SCIP_Bool SCIPisTransformed(SCIP* s) { return s->stage >= SCIP_STAGE_TRANSFORMING; }
SCIP_Bool SCIPinProbing(SCIP*) { return FALSE; }
SCIP_Bool SCIPinDive(SCIP*) { return FALSE; }
const char* SCIPgetProbName(SCIP* s) { return s->probname.c_str(); }
SCIP_RETCODE SCIPcreateProbBasic(SCIP* scip, const char* name) { FAILPOINT("SCIPcreateProbBasic"); SCIPfreeProb(scip); scip->probname = name; scip->stage = SCIP_STAGE_PROBLEM; return SCIP_OKAY; }
SCIP_RETCODE SCIPcreateObjProb(SCIP* scip, const char* name, scip::ObjProbData* data, SCIP_Bool del) {
    FAILPOINT("SCIPcreateObjProb"); SCIPfreeProb(scip); scip->probname = name; scip->prob = data; scip->delprob = del; scip->stage = SCIP_STAGE_PROBLEM; g_last = scip; return SCIP_OKAY; }
scip::ObjProbData* SCIPgetObjProbData(SCIP* scip) { return scip->prob; }
SCIP_RETCODE SCIPsetObjsense(SCIP* scip, SCIP_OBJSENSE o) { FAILPOINT("SCIPsetObjsense"); NEED(scip->stage == SCIP_STAGE_PROBLEM, "SCIPsetObjsense outside PROBLEM"); scip->sense = o; return SCIP_OKAY; }
SCIP_RETCODE SCIPsetObjlimit(SCIP* scip, SCIP_Real v) { FAILPOINT("SCIPsetObjlimit"); scip->objlimit = v; return SCIP_OKAY; }
SCIP_Real SCIPgetObjlimit(SCIP* s) { return s->objlimit; }
SCIP_RETCODE SCIPsetObjIntegral(SCIP* scip) { return SCIP_OKAY; }
SCIP_OBJSENSE SCIPgetObjsense(SCIP* s) { return s->sense; }

/* ---------------------------------------------------------------- parameters */
static bool knownParam(const char* n) {
    static const char* pre[] = {"limits/", "presolving/", "separating/", "heuristics/", "randomization/", "display/", "misc/", "branching/", "lp/", "numerics/", "propagating/", "conflict/", "concurrent/", "timing/", "nodeselection/", "constraints/", "estimation/", "memory/", "history/"};
    for (auto p : pre) if (!strncmp(n, p, strlen(p))) return true;
    return false;
}
static SCIP_RETCODE setp(SCIP* scip, const char* n, double v) { FAILPOINT("SCIPsetParam"); if (!knownParam(n)) { contract(std::string("unknown parameter ") + n); return SCIP_PARAMETERUNKNOWN; } scip->params[n] = v; return SCIP_OKAY; }
SCIP_RETCODE SCIPsetIntParam(SCIP* s, const char* n, int v) { return setp(s, n, v); }
SCIP_RETCODE SCIPsetRealParam(SCIP* s, const char* n, SCIP_Real v) { if (!strcmp(n, "limits/time") && !(v >= 0)) { contract("limits/time out of range"); return SCIP_PARAMETERWRONGVAL; } return setp(s, n, v); }
SCIP_RETCODE SCIPsetBoolParam(SCIP* s, const char* n, SCIP_Bool v) { return setp(s, n, v); }
SCIP_RETCODE SCIPsetLongintParam(SCIP* s, const char* n, SCIP_Longint v) { return setp(s, n, (double)v); }
SCIP_RETCODE SCIPsetCharParam(SCIP* s, const char* n, char v) { return setp(s, n, v); }
SCIP_RETCODE SCIPsetStringParam(SCIP* s, const char* n, const char*) { return setp(s, n, 0); }
SCIP_RETCODE SCIPgetRealParam(SCIP* s, const char* n, SCIP_Real* v) { auto it = s->params.find(n); *v = it == s->params.end() ? 1e20 : it->second; return SCIP_OKAY; }
SCIP_RETCODE SCIPgetIntParam(SCIP* s, const char* n, int* v) { auto it = s->params.find(n); *v = it == s->params.end() ? -1 : (int)it->second; return SCIP_OKAY; }
static double param(SCIP* s, const char* n, double d) { auto it = s->params.find(n); return it == s->params.end() ? d : it->second; }

/* ---------------------------------------------------------------- variables */
SCIP_RETCODE SCIPcreateVar(SCIP* scip, SCIP_VAR** var, const char* name, SCIP_Real lb, SCIP_Real ub, SCIP_Real obj, SCIP_VARTYPE t, SCIP_Bool, SCIP_Bool, SCIP_DECL_VARDELORIG((*)), SCIP_DECL_VARTRANS((*)), SCIP_DECL_VARDELTRANS((*)), SCIP_DECL_VARCOPY((*)), SCIP_VARDATA*) {
    return SCIPcreateVarBasic(scip, var, name, lb, ub, obj, t); }
SCIP_RETCODE SCIPcreateVarBasic(SCIP* scip, SCIP_VAR** var, const char* name, SCIP_Real lb, SCIP_Real ub, SCIP_Real obj, SCIP_VARTYPE t) {
    FAILPOINT("SCIPcreateVar"); NEED(scip->stage == SCIP_STAGE_PROBLEM, "SCIPcreateVar outside PROBLEM");
    auto* v = new SCIP_Var(); v->name = name ? name : "x" + std::to_string(scip->vars.size()); v->lb = v->llb = lb; v->ub = v->lub = ub; v->obj = obj; v->type = t; v->idx = -1; v->trans = false; *var = v; return SCIP_OKAY; }
SCIP_RETCODE SCIPaddVar(SCIP* scip, SCIP_VAR* v) { FAILPOINT("SCIPaddVar"); NEED(scip->stage == SCIP_STAGE_PROBLEM, "SCIPaddVar outside PROBLEM"); if (v->idx >= 0) { contract("variable added twice"); return SCIP_INVALIDCALL; } v->idx = (int)scip->vars.size(); scip->vars.push_back(v); v->refs++; return SCIP_OKAY; }
SCIP_RETCODE SCIPreleaseVar(SCIP*, SCIP_VAR** v) { if (--(*v)->refs < 1) contract("variable over-released"); *v = nullptr; return SCIP_OKAY; }
SCIP_RETCODE SCIPcaptureVar(SCIP*, SCIP_VAR* v) { v->refs++; return SCIP_OKAY; }
SCIP_VAR** SCIPgetVars(SCIP* s) { return SCIPisTransformed(s) ? s->tvars.data() : s->vars.data(); }
int SCIPgetNVars(SCIP* s) { return (int)s->vars.size(); }
SCIP_VAR** SCIPgetOrigVars(SCIP* s) { return s->vars.data(); }
int SCIPgetNOrigVars(SCIP* s) { return (int)s->vars.size(); }
SCIP_RETCODE SCIPgetTransformedVar(SCIP* scip, SCIP_VAR* v, SCIP_VAR** t) { FAILPOINT("SCIPgetTransformedVar"); if (!v) { contract("SCIPgetTransformedVar(NULL)"); return SCIP_INVALIDDATA; } *t = v->trans ? v : v->other; return SCIP_OKAY; }
SCIP_RETCODE SCIPgetTransformedVars(SCIP* scip, int n, SCIP_VAR** v, SCIP_VAR** t) { FAILPOINT("SCIPgetTransformedVars"); for (int i = 0; i < n; i++) t[i] = v[i]->trans ? v[i] : v[i]->other; return SCIP_OKAY; }
const char* SCIPvarGetName(SCIP_VAR* v) { return v->name.c_str(); }
SCIP_VARSTATUS SCIPvarGetStatus(SCIP_VAR* v) { return v->trans ? SCIP_VARSTATUS_COLUMN : SCIP_VARSTATUS_ORIGINAL; }
SCIP_Real SCIPvarGetObj(SCIP_VAR* v) { return v->obj; }
int SCIPvarGetIndex(SCIP_VAR* v) { return v->idx; }
int SCIPvarGetProbindex(SCIP_VAR* v) { return v->idx; }
SCIP_Bool SCIPvarIsOriginal(SCIP_VAR* v) { return !v->trans; }
SCIP_Bool SCIPvarIsTransformed(SCIP_VAR* v) { return v->trans; }
SCIP_VARTYPE SCIPvarGetType(SCIP_VAR* v) { return v->type; }
SCIP_Real SCIPvarGetLbLocal(SCIP_VAR* v) { return v->llb; }
SCIP_Real SCIPvarGetUbLocal(SCIP_VAR* v) { return v->lub; }
SCIP_Real SCIPvarGetLbGlobal(SCIP_VAR* v) { return v->lb; }
SCIP_Real SCIPvarGetUbGlobal(SCIP_VAR* v) { return v->ub; }
SCIP_Real SCIPvarGetLPSol(SCIP_VAR* v) { return v->lpsol; }
SCIP_RETCODE SCIPchgVarUb(SCIP* scip, SCIP_VAR* v, SCIP_Real b) { FAILPOINT("SCIPchgVarUb"); v->ub = b; v->lub = std::min(v->lub, b); return SCIP_OKAY; }
SCIP_RETCODE SCIPchgVarLb(SCIP* scip, SCIP_VAR* v, SCIP_Real b) { FAILPOINT("SCIPchgVarLb"); v->lb = b; v->llb = std::max(v->llb, b); return SCIP_OKAY; }
SCIP_RETCODE SCIPchgVarUbGlobal(SCIP* s, SCIP_VAR* v, SCIP_Real b) { return SCIPchgVarUb(s, v, b); }
SCIP_RETCODE SCIPchgVarLbGlobal(SCIP* s, SCIP_VAR* v, SCIP_Real b) { return SCIPchgVarLb(s, v, b); }
SCIP_RETCODE SCIPaddVarLocks(SCIP*, SCIP_VAR*, int, int) { return SCIP_OKAY; }

/* ---------------------------------------------------------------- constraints */
static SCIP_VAR* totrans(SCIP_VAR* v) { return v->trans ? v : v->other; }
SCIP_RETCODE SCIPcreateCons(SCIP* scip, SCIP_CONS** cons, const char* name, SCIP_CONSHDLR* h, SCIP_CONSDATA* d, SCIP_Bool a, SCIP_Bool b, SCIP_Bool c, SCIP_Bool e, SCIP_Bool f, SCIP_Bool g, SCIP_Bool i, SCIP_Bool j, SCIP_Bool k, SCIP_Bool l) {
    FAILPOINT("SCIPcreateCons"); NEED(scip->stage >= SCIP_STAGE_PROBLEM && scip->stage <= SCIP_STAGE_SOLVING, "SCIPcreateCons in wrong stage");
    if (!h) { contract("SCIPcreateCons without constraint handler"); return SCIP_INVALIDDATA; }
    auto* x = new SCIP_Cons(); x->name = name; x->hdlr = h; x->data = d; x->initial = a; x->separate = b; x->enforce = c; x->check = e; x->propagate = f; x->local = g; x->modifiable = i; x->dynamic = j; x->removable = k; x->sticking = l;
    x->trans = SCIPisTransformed(scip); *cons = x; return SCIP_OKAY; }
SCIP_RETCODE SCIPcreateConsLinear(SCIP* scip, SCIP_CONS** cons, const char* name, int n, SCIP_VAR** vars, SCIP_Real* vals, SCIP_Real lhs, SCIP_Real rhs, SCIP_Bool a, SCIP_Bool b, SCIP_Bool c, SCIP_Bool e, SCIP_Bool f, SCIP_Bool g, SCIP_Bool i, SCIP_Bool j, SCIP_Bool k, SCIP_Bool l) {
    FAILPOINT("SCIPcreateConsLinear"); NEED(scip->stage >= SCIP_STAGE_PROBLEM && scip->stage <= SCIP_STAGE_SOLVING, "SCIPcreateConsLinear in wrong stage");
    auto* x = new SCIP_Cons(); x->name = name; x->linear = true; x->lhs = lhs; x->rhs = rhs; x->initial = a; x->separate = b; x->enforce = c; x->check = e; x->propagate = f; x->local = g; x->modifiable = i; x->dynamic = j; x->removable = k; x->sticking = l; x->trans = SCIPisTransformed(scip);
    for (int q = 0; q < n; q++) { if (!vars[q]) { contract(std::string("NULL variable in linear constraint ") + name); delete x; return SCIP_INVALIDDATA; } x->vars.push_back(x->trans ? totrans(vars[q]) : vars[q]); x->vals.push_back(vals[q]); vars[q]->refs++; }
    *cons = x; return SCIP_OKAY; }
SCIP_RETCODE SCIPcreateConsBasicLinear(SCIP* scip, SCIP_CONS** cons, const char* name, int n, SCIP_VAR** vars, SCIP_Real* vals, SCIP_Real lhs, SCIP_Real rhs) { return SCIPcreateConsLinear(scip, cons, name, n, vars, vals, lhs, rhs, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0); }
SCIP_RETCODE SCIPcreateConsBasicKnapsack(SCIP* scip, SCIP_CONS** cons, const char* name, int n, SCIP_VAR** vars, SCIP_Longint* w, SCIP_Longint cap) { std::vector<double> d(w, w + n); return SCIPcreateConsLinear(scip, cons, name, n, vars, d.data(), -1e20, (double)cap, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0); }
SCIP_RETCODE SCIPaddCoefLinear(SCIP* scip, SCIP_CONS* c, SCIP_VAR* v, SCIP_Real val) { FAILPOINT("SCIPaddCoefLinear"); if (!v) { contract("SCIPaddCoefLinear(NULL)"); return SCIP_INVALIDDATA; } c->vars.push_back(c->trans ? totrans(v) : v); c->vals.push_back(val); v->refs++; return SCIP_OKAY; }
SCIP_RETCODE SCIPchgRhsLinear(SCIP* scip, SCIP_CONS* c, SCIP_Real v) { FAILPOINT("SCIPchgRhsLinear"); c->rhs = v; return SCIP_OKAY; }
SCIP_RETCODE SCIPchgLhsLinear(SCIP* scip, SCIP_CONS* c, SCIP_Real v) { FAILPOINT("SCIPchgLhsLinear"); c->lhs = v; return SCIP_OKAY; }
SCIP_RETCODE SCIPaddCons(SCIP* scip, SCIP_CONS* c) {
    FAILPOINT("SCIPaddCons"); NEED(scip->stage >= SCIP_STAGE_PROBLEM && scip->stage <= SCIP_STAGE_SOLVING, "SCIPaddCons in wrong stage");
    if (c->added) { contract("constraint added twice"); return SCIP_INVALIDCALL; }
    c->added = true; c->refs++;
    if (SCIPisTransformed(scip)) {
        scip->tconss.push_back(c); scip->consadded = true;
        if (obs && c->linear) { RowInfo r; r.name = c->name; r.hdlr = "cons"; r.lhs = c->lhs; r.rhs = c->rhs; for (size_t i = 0; i < c->vars.size(); i++) r.coefs.push_back({c->vars[i]->idx, c->vals[i]}); r.local = c->local; r.is_cons = true; r.accepted = true; obs->on_row(scip, r); }
    } else {
        scip->conss.push_back(c);
        if (obs && c->linear) { RowInfo r; r.name = c->name; r.hdlr = "model"; r.lhs = c->lhs; r.rhs = c->rhs; for (size_t i = 0; i < c->vars.size(); i++) r.coefs.push_back({c->vars[i]->idx, c->vals[i]}); r.local = c->local; r.is_cons = true; r.accepted = true; obs->on_row(scip, r); }
    }
    return SCIP_OKAY; }
SCIP_RETCODE SCIPaddConsLocal(SCIP* s, SCIP_CONS* c, SCIP_NODE*) { return SCIPaddCons(s, c); }
SCIP_RETCODE SCIPaddConsNode(SCIP* s, SCIP_NODE*, SCIP_CONS* c, SCIP_NODE*) { return SCIPaddCons(s, c); }
SCIP_RETCODE SCIPreleaseCons(SCIP*, SCIP_CONS** c) { if (--(*c)->refs < 0) contract("constraint over-released"); if ((*c)->refs == 0 && !(*c)->added) delete *c; *c = nullptr; return SCIP_OKAY; }
SCIP_RETCODE SCIPcaptureCons(SCIP*, SCIP_CONS* c) { c->refs++; return SCIP_OKAY; }
SCIP_RETCODE SCIPdelCons(SCIP*, SCIP_CONS* c) { c->deleted = true; return SCIP_OKAY; }
int SCIPgetNConss(SCIP* s) { return (int)(SCIPisTransformed(s) ? s->tconss.size() : s->conss.size()); }
int SCIPgetNOrigConss(SCIP* s) { return (int)s->conss.size(); }
SCIP_CONS** SCIPgetConss(SCIP* s) { return SCIPisTransformed(s) ? s->tconss.data() : s->conss.data(); }
SCIP_CONS** SCIPgetOrigConss(SCIP* s) { return s->conss.data(); }
const char* SCIPconsGetName(SCIP_CONS* c) { return c->name.c_str(); }
SCIP_CONSHDLR* SCIPconsGetHdlr(SCIP_CONS* c) { return c->hdlr; }
SCIP_CONSDATA* SCIPconsGetData(SCIP_CONS* c) { return c->data; }
SCIP_Bool SCIPconsIsInitial(SCIP_CONS* c) { return c->initial; }
SCIP_Bool SCIPconsIsSeparated(SCIP_CONS* c) { return c->separate; }
SCIP_Bool SCIPconsIsEnforced(SCIP_CONS* c) { return c->enforce; }
SCIP_Bool SCIPconsIsChecked(SCIP_CONS* c) { return c->check; }
SCIP_Bool SCIPconsIsPropagated(SCIP_CONS* c) { return c->propagate; }
SCIP_Bool SCIPconsIsLocal(SCIP_CONS* c) { return c->local; }
SCIP_Bool SCIPconsIsModifiable(SCIP_CONS* c) { return c->modifiable; }
SCIP_Bool SCIPconsIsDynamic(SCIP_CONS* c) { return c->dynamic; }
SCIP_Bool SCIPconsIsRemovable(SCIP_CONS* c) { return c->removable; }
SCIP_Bool SCIPconsIsStickingAtNode(SCIP_CONS* c) { return c->sticking; }
SCIP_RETCODE SCIPgetConsNVars(SCIP*, SCIP_CONS* c, int* n, SCIP_Bool* ok) { *n = (int)c->vars.size(); *ok = c->linear; return SCIP_OKAY; }
SCIP_RETCODE SCIPgetConsVars(SCIP*, SCIP_CONS* c, SCIP_VAR** v, int sz, SCIP_Bool* ok) { for (int i = 0; i < sz && i < (int)c->vars.size(); i++) v[i] = c->vars[i]; *ok = c->linear; return SCIP_OKAY; }
SCIP_Real SCIPconsGetLhs(SCIP*, SCIP_CONS* c, SCIP_Bool* ok) { if (ok) *ok = c->linear; return c->lhs; }
SCIP_Real SCIPconsGetRhs(SCIP*, SCIP_CONS* c, SCIP_Bool* ok) { if (ok) *ok = c->linear; return c->rhs; }
SCIP_CONSHDLR* SCIPfindConshdlr(SCIP* s, const char* n) { for (auto* h : s->chdlrs) if (h->name == n) return h; return nullptr; }
const char* SCIPconshdlrGetName(SCIP_CONSHDLR* h) { return h->name.c_str(); }
static std::vector<SCIP_CONS*> hdlrConss(SCIP* s, SCIP_CONSHDLR* h) { std::vector<SCIP_CONS*> r; for (auto* c : (SCIPisTransformed(s) ? s->tconss : s->conss)) if (c->hdlr == h && !c->deleted) r.push_back(c); return r; }
int SCIPconshdlrGetNConss(SCIP_CONSHDLR* h) { return (int)hdlrConss(h->scip, h).size(); }
SCIP_RETCODE SCIPincludeObjConshdlr(SCIP* scip, scip::ObjConshdlr* o, SCIP_Bool del) {
    FAILPOINT("SCIPincludeObjConshdlr"); if (SCIPfindConshdlr(scip, o->scip_name_)) { contract(std::string("constraint handler included twice: ") + o->scip_name_); return SCIP_INVALIDDATA; }
    auto* h = new SCIP_Conshdlr(); h->name = o->scip_name_; h->obj = o; h->del = del; h->scip = scip; scip->chdlrs.push_back(h); return SCIP_OKAY; }
scip::ObjConshdlr* SCIPfindObjConshdlr(SCIP* s, const char* n) { auto* h = SCIPfindConshdlr(s, n); return h ? h->obj : nullptr; }
scip::ObjConshdlr* SCIPgetObjConshdlr(SCIP*, SCIP_CONSHDLR* h) { return h->obj; }

/* ---------------------------------------------------------------- rows */
static SCIP_RETCODE mkrow(SCIP* scip, SCIP_ROW** row, const char* hd, const char* name, double lhs, double rhs, bool local) {
    FAILPOINT("SCIPcreateEmptyRow"); NEED(scip->stage == SCIP_STAGE_SOLVING || scip->stage == SCIP_STAGE_INITSOLVE, "row created outside SOLVING");
    auto* r = new SCIP_Row(); r->name = name; r->hdlr = hd; r->lhs = lhs; r->rhs = rhs; r->local = local; scip->allrows.push_back(r); *row = r; scip->rows_created++; stats.rows_created++; if (obs) obs->on_row_created(scip, r->name, r->hdlr); return SCIP_OKAY; }
SCIP_RETCODE SCIPcreateEmptyRowConshdlr(SCIP* s, SCIP_ROW** r, SCIP_CONSHDLR* h, const char* n, SCIP_Real l, SCIP_Real u, SCIP_Bool lo, SCIP_Bool, SCIP_Bool) { return mkrow(s, r, h ? h->name.c_str() : "", n, l, u, lo); }
SCIP_RETCODE SCIPcreateEmptyRowCons(SCIP* s, SCIP_ROW** r, SCIP_CONS* c, const char* n, SCIP_Real l, SCIP_Real u, SCIP_Bool lo, SCIP_Bool, SCIP_Bool) { return mkrow(s, r, c && c->hdlr ? c->hdlr->name.c_str() : "", n, l, u, lo); }
SCIP_RETCODE SCIPcreateEmptyRowUnspec(SCIP* s, SCIP_ROW** r, const char* n, SCIP_Real l, SCIP_Real u, SCIP_Bool lo, SCIP_Bool, SCIP_Bool) { return mkrow(s, r, "", n, l, u, lo); }
SCIP_RETCODE SCIPcacheRowExtensions(SCIP* scip, SCIP_ROW* r) { FAILPOINT("SCIPcacheRowExtensions"); r->caching = true; return SCIP_OKAY; }
SCIP_RETCODE SCIPflushRowExtensions(SCIP* scip, SCIP_ROW* r) { FAILPOINT("SCIPflushRowExtensions"); r->caching = false; return SCIP_OKAY; }
SCIP_RETCODE SCIPaddVarToRow(SCIP* scip, SCIP_ROW* r, SCIP_VAR* v, SCIP_Real c) {
    FAILPOINT("SCIPaddVarToRow"); if (!v) { contract("SCIPaddVarToRow(NULL)"); return SCIP_INVALIDDATA; } if (!v->trans) contract("original variable in LP row " + r->name);
    for (auto& p : r->coefs) if (p.first == v->idx) { p.second += c; return SCIP_OKAY; }
    r->coefs.push_back({v->idx, c}); return SCIP_OKAY; }
SCIP_RETCODE SCIPaddVarsToRow(SCIP* s, SCIP_ROW* r, int n, SCIP_VAR** v, SCIP_Real* c) { for (int i = 0; i < n; i++) SCIP_CALL(SCIPaddVarToRow(s, r, v[i], c[i])); return SCIP_OKAY; }
SCIP_RETCODE SCIPaddVarsToRowSameCoef(SCIP* s, SCIP_ROW* r, int n, SCIP_VAR** v, SCIP_Real c) { for (int i = 0; i < n; i++) SCIP_CALL(SCIPaddVarToRow(s, r, v[i], c)); return SCIP_OKAY; }
SCIP_RETCODE SCIPreleaseRow(SCIP*, SCIP_ROW** r) { if (--(*r)->refs < 0) contract("row over-released"); *r = nullptr; return SCIP_OKAY; }
std::string simscip::held(SCIP* s) { // what the caller created and never released
    for (auto* r : s->allrows) if (r->refs > r->own) return "row " + r->name;
    for (auto* l : {&s->conss, &s->tconss}) for (auto* c : *l) if (c->added && c->refs > 1) return "constraint " + c->name;
    return ""; }
static double solval(SCIP* s, SCIP_SOL* sol, int idx);
SCIP_Real SCIPgetRowSolActivity(SCIP* s, SCIP_ROW* r, SCIP_SOL* sol) { double a = 0; for (auto& p : r->coefs) a += p.second * solval(s, sol, p.first); return a; }
SCIP_Real SCIPgetRowSolFeasibility(SCIP* s, SCIP_ROW* r, SCIP_SOL* sol) { double a = SCIPgetRowSolActivity(s, r, sol); return std::min(r->rhs - a, a - r->lhs); }
SCIP_Real SCIPgetCutEfficacy(SCIP* s, SCIP_SOL* sol, SCIP_ROW* r) { double n = 0; for (auto& p : r->coefs) n += p.second * p.second; n = std::sqrt(n); if (n < 1e-6) n = 1e-6; return -SCIPgetRowSolFeasibility(s, r, sol) / n; }
SCIP_Bool SCIPisEfficacious(SCIP*, SCIP_Real e) { return e > 1e-4; }
SCIP_Bool SCIPisCutEfficacious(SCIP* s, SCIP_SOL* sol, SCIP_ROW* r) { return SCIPisEfficacious(s, SCIPgetCutEfficacy(s, sol, r)); }
SCIP_RETCODE SCIPaddRow(SCIP* scip, SCIP_ROW* r, SCIP_Bool, SCIP_Bool* infeasible) {
    FAILPOINT("SCIPaddRow"); NEED(scip->stage == SCIP_STAGE_SOLVING, "SCIPaddRow outside SOLVING"); *infeasible = FALSE;
    if (r->caching) contract("row added before SCIPflushRowExtensions");
    double mn = 0, mx = 0; for (auto& p : r->coefs) { auto* v = scip->tvars[p.first]; mn += p.second > 0 ? p.second * v->llb : p.second * v->lub; mx += p.second > 0 ? p.second * v->lub : p.second * v->llb; }
    if (mn > r->rhs + 1e-6 || mx < r->lhs - 1e-6) { *infeasible = TRUE; scip->cutoffnow = true; }
    r->refs++; r->own++; r->offered = true; scip->newcuts.push_back(r); scip->rows_added++; stats.rows_added++;
    if (obs) { RowInfo ri; fill_row(scip, ri, r); obs->on_row(scip, ri); }
    return SCIP_OKAY; }
SCIP_RETCODE SCIPaddPoolCut(SCIP* scip, SCIP_ROW* r) { FAILPOINT("SCIPaddPoolCut"); r->refs++; r->own++; if (obs) { RowInfo ri; fill_row(scip, ri, r); obs->on_row(scip, ri); } return SCIP_OKAY; }
SCIP_RETCODE SCIPaddCut(SCIP* s, SCIP_SOL*, SCIP_ROW* r, SCIP_Bool force, SCIP_Bool* infeasible) { return SCIPaddRow(s, r, force, infeasible); }
const char* SCIProwGetName(SCIP_ROW* r) { return r->name.c_str(); }
int SCIPgetNCuts(SCIP* s) { return (int)s->newcuts.size(); }
int SCIPgetNCutsApplied(SCIP* s) { return (int)s->lprows.size(); }

/* ---------------------------------------------------------------- solutions */
static double pseudoval(SCIP* s, int i) { auto* v = s->tvars[i]; return v->obj >= 0 ? v->llb : v->lub; }
static double solval(SCIP* s, SCIP_SOL* sol, int i) {
    if (sol) return i < (int)sol->v.size() ? sol->v[i] : 0.0;
    if (s->stage != SCIP_STAGE_SOLVING) { contract("SCIPgetSolVal(NULL solution) outside SOLVING"); return 0.0; }
    return s->lpvalid ? s->lpx[i] : pseudoval(s, i); }
SCIP_RETCODE SCIPcreateSol(SCIP* scip, SCIP_SOL** sol, SCIP_HEUR*) { FAILPOINT("SCIPcreateSol"); NEED(scip->stage >= SCIP_STAGE_PROBLEM && scip->stage <= SCIP_STAGE_SOLVED, "SCIPcreateSol in wrong stage"); auto* x = new SCIP_Sol(); x->orig = !SCIPisTransformed(scip); x->v.assign(scip->vars.size(), 0.0); *sol = x; return SCIP_OKAY; }
SCIP_RETCODE SCIPcreateOrigSol(SCIP* s, SCIP_SOL** sol, SCIP_HEUR* h) { return SCIPcreateSol(s, sol, h); }
SCIP_RETCODE SCIPcreatePartialSol(SCIP* s, SCIP_SOL** sol, SCIP_HEUR* h) { return SCIPcreateSol(s, sol, h); }
SCIP_RETCODE SCIPfreeSol(SCIP*, SCIP_SOL** sol) { delete *sol; *sol = nullptr; return SCIP_OKAY; }
SCIP_RETCODE SCIPsetSolVal(SCIP* scip, SCIP_SOL* sol, SCIP_VAR* v, SCIP_Real val) { FAILPOINT("SCIPsetSolVal"); if (!v || v->idx < 0) { contract("SCIPsetSolVal on an unknown variable"); return SCIP_INVALIDDATA; } sol->v[v->idx] = val; return SCIP_OKAY; }
SCIP_Real SCIPgetSolVal(SCIP* s, SCIP_SOL* sol, SCIP_VAR* v) { if (!v || v->idx < 0) { contract("SCIPgetSolVal on an unknown variable"); return 0; } return solval(s, sol, v->idx); }
SCIP_RETCODE SCIPgetSolVals(SCIP* s, SCIP_SOL* sol, int n, SCIP_VAR** v, SCIP_Real* r) { for (int i = 0; i < n; i++) r[i] = SCIPgetSolVal(s, sol, v[i]); return SCIP_OKAY; }
static double objOf(SCIP* s, const std::vector<double>& v) { double o = 0; for (size_t i = 0; i < s->vars.size(); i++) o += s->vars[i]->obj * v[i]; return o; }
static SCIP_RETCODE trysol(SCIP* s, SCIP_SOL* sol, bool* stored);
SCIP_RETCODE SCIPaddSol(SCIP* scip, SCIP_SOL* sol, SCIP_Bool* stored) {
    FAILPOINT("SCIPaddSol"); auto* x = new SCIP_Sol(*sol); x->obj = objOf(scip, x->v);
    if (!SCIPisTransformed(scip)) { scip->origsols.push_back(x); *stored = TRUE; return SCIP_OKAY; }
    bool st = false; SCIP_RETCODE rc = trysol(scip, x, &st); *stored = st; if (!st) delete x; return rc; }
SCIP_RETCODE SCIPaddSolFree(SCIP* s, SCIP_SOL** sol, SCIP_Bool* st) { SCIP_RETCODE rc = SCIPaddSol(s, *sol, st); if (rc != SCIP_OKAY) return rc; return SCIPfreeSol(s, sol); }
SCIP_RETCODE SCIPtrySol(SCIP* s, SCIP_SOL* sol, SCIP_Bool, SCIP_Bool, SCIP_Bool, SCIP_Bool, SCIP_Bool, SCIP_Bool* st) { return SCIPaddSol(s, sol, st); }
SCIP_RETCODE SCIPtrySolFree(SCIP* s, SCIP_SOL** sol, SCIP_Bool, SCIP_Bool, SCIP_Bool, SCIP_Bool, SCIP_Bool, SCIP_Bool* st) { return SCIPaddSolFree(s, sol, st); }
SCIP_SOL* SCIPgetBestSol(SCIP* s) { auto& v = SCIPisTransformed(s) ? s->sols : s->origsols; return v.empty() ? nullptr : v[0]; }
SCIP_SOL** SCIPgetSols(SCIP* s) { auto& v = SCIPisTransformed(s) ? s->sols : s->origsols; return v.data(); }
int SCIPgetNSols(SCIP* s) { return (int)(SCIPisTransformed(s) ? s->sols : s->origsols).size(); }
SCIP_Real SCIPgetSolOrigObj(SCIP* s, SCIP_SOL* sol) { if (!sol) return s->lpobj; return objOf(s, sol->v); }
SCIP_Real SCIPgetSolTransObj(SCIP* s, SCIP_SOL* sol) { return SCIPgetSolOrigObj(s, sol) / s->scale; }

/* ---------------------------------------------------------------- queries */
SCIP_NODE* SCIPgetCurrentNode(SCIP* s) { return s->cur; }
SCIP_NODE* SCIPgetFocusNode(SCIP* s) { return s->cur; }
SCIP_NODE* SCIPgetRootNode(SCIP* s) { return s->allnodes.empty() ? nullptr : s->allnodes[0]; }
int SCIPgetDepth(SCIP* s) { return s->cur ? s->cur->depth : 0; }
SCIP_Longint SCIPnodeGetNumber(SCIP_NODE* n) { if (!n) { contract("SCIPnodeGetNumber(NULL)"); return 0; } return n->number; }
int SCIPnodeGetDepth(SCIP_NODE* n) { return n->depth; }
SCIP_Real SCIPnodeGetLowerbound(SCIP_NODE* n) { if (!n) { contract("SCIPnodeGetLowerbound(NULL)"); return 0; } return n->lower <= -1e20 ? -1e20 : n->lower; }
SCIP_NODE* SCIPnodeGetParent(SCIP_NODE* n) { return n->parent; }
SCIP_RETCODE SCIPgetChildren(SCIP* s, SCIP_NODE*** c, int* n) { if (c) *c = s->children.data(); if (n) *n = (int)s->children.size(); return SCIP_OKAY; }
int SCIPgetNChildren(SCIP* s) { return (int)s->children.size(); }
static double treelower(SCIP* s) { double l = 1e20; bool any = false; for (auto* n : s->open) { l = std::min(l, n->lower); any = true; } for (auto* n : s->children) { l = std::min(l, n->lower); any = true; } if (s->cur) { l = std::min(l, s->cur->lower); any = true; } if (!any) l = s->upper / s->scale; return std::min(l, s->upper >= 1e20 ? 1e20 : s->upper / s->scale); }
SCIP_Real SCIPgetLowerbound(SCIP* s) { if (s->stage < SCIP_STAGE_INITSOLVE) return -1e20; return s->stage == SCIP_STAGE_SOLVED ? s->lower : treelower(s); }
SCIP_Real SCIPgetUpperbound(SCIP* s) { return s->upper >= 1e20 ? 1e20 : s->upper / s->scale; }
SCIP_Real SCIPgetCutoffbound(SCIP* s) { return SCIPgetUpperbound(s); }
SCIP_Real SCIPgetPrimalbound(SCIP* s) { return s->upper; }
SCIP_Real SCIPgetDualbound(SCIP* s) { double l = SCIPgetLowerbound(s); return std::fabs(l) >= 1e20 ? l : l * s->scale; }
SCIP_Real SCIPretransformObj(SCIP* s, SCIP_Real o) { return std::fabs(o) >= 1e20 ? o : o * s->scale; }
SCIP_Real SCIPtransformObj(SCIP* s, SCIP_Real o) { return std::fabs(o) >= 1e20 ? o : o / s->scale; }
SCIP_Real SCIPcomputeGap(SCIP_Real eps, SCIP_Real inf, SCIP_Real p, SCIP_Real d) {
    if (std::fabs(p - d) <= eps) return 0.0;
    if (std::fabs(d) <= eps || std::fabs(p) <= eps || std::fabs(p) >= inf || std::fabs(d) >= inf || p * d < 0) return inf;
    return std::fabs((p - d) / std::min(std::fabs(d), std::fabs(p))); }
SCIP_Real SCIPgetGap(SCIP* s) { return SCIPcomputeGap(1e-9, 1e20, SCIPgetPrimalbound(s), SCIPgetDualbound(s)); }
SCIP_Longint SCIPgetNNodes(SCIP* s) { return s->nnodes; }
SCIP_Longint SCIPgetNTotalNodes(SCIP* s) { return s->nnodes; }
SCIP_Longint SCIPgetNLPs(SCIP* s) { return s->nlps; }
SCIP_Real SCIPgetSolvingTime(SCIP* s) { return (sim_elapsed_ns - s->start_ns) / 1e9; }
SCIP_Real SCIPgetTotalTime(SCIP* s) { return SCIPgetSolvingTime(s); }
SCIP_LPSOLSTAT SCIPgetLPSolstat(SCIP* s) { return s->lpstat; }
SCIP_Real SCIPgetLPObjval(SCIP* s) { return s->lpobj / s->scale; }
SCIP_Bool SCIPhasCurrentNodeLP(SCIP* s) { return s->lpvalid; }
static int sim_write(FILE* f, const std::string& s) { return f ? fputs(s.c_str(), f) : 0; }
SCIP_RETCODE SCIPprintStatistics(SCIP* s, FILE* f) { sim_write(f, "SCIP Status        : simulated\nSolving Nodes      : " + std::to_string(s->nnodes) + "\n"); return SCIP_OKAY; }
SCIP_RETCODE SCIPprintBestSol(SCIP*, FILE*, SCIP_Bool) { return SCIP_OKAY; }
SCIP_RETCODE SCIPprintSol(SCIP*, SCIP_SOL*, FILE*, SCIP_Bool) { return SCIP_OKAY; }
SCIP_RETCODE SCIPwriteOrigProblem(SCIP*, const char*, const char*, SCIP_Bool) { return SCIP_OKAY; }

SCIP_Real SCIPinfinity(SCIP*) { return 1e20; }
SCIP_Real SCIPepsilon(SCIP*) { return 1e-9; }
SCIP_Real SCIPfeastol(SCIP*) { return 1e-6; }
SCIP_Bool SCIPisInfinity(SCIP*, SCIP_Real v) { return v >= 1e20; }
SCIP_Bool SCIPisZero(SCIP*, SCIP_Real v) { return std::fabs(v) <= 1e-9; }
SCIP_Bool SCIPisPositive(SCIP*, SCIP_Real v) { return v > 1e-9; }
SCIP_Bool SCIPisNegative(SCIP*, SCIP_Real v) { return v < -1e-9; }
SCIP_Bool SCIPisIntegral(SCIP*, SCIP_Real v) { return std::fabs(v - std::floor(v + 0.5)) <= 1e-9; }
SCIP_Bool SCIPisEQ(SCIP*, SCIP_Real a, SCIP_Real b) { return std::fabs(a - b) <= 1e-9; }
SCIP_Bool SCIPisLT(SCIP*, SCIP_Real a, SCIP_Real b) { return a - b < -1e-9; }
SCIP_Bool SCIPisLE(SCIP*, SCIP_Real a, SCIP_Real b) { return a - b <= 1e-9; }
SCIP_Bool SCIPisGT(SCIP*, SCIP_Real a, SCIP_Real b) { return a - b > 1e-9; }
SCIP_Bool SCIPisGE(SCIP*, SCIP_Real a, SCIP_Real b) { return a - b >= -1e-9; }
static double rel(double a, double b) { double q = std::max(1.0, std::max(std::fabs(a), std::fabs(b))); return (a - b) / q; }
SCIP_Bool SCIPisFeasEQ(SCIP*, SCIP_Real a, SCIP_Real b) { return std::fabs(rel(a, b)) <= 1e-6; }
SCIP_Bool SCIPisFeasLT(SCIP*, SCIP_Real a, SCIP_Real b) { return rel(a, b) < -1e-6; }
SCIP_Bool SCIPisFeasLE(SCIP*, SCIP_Real a, SCIP_Real b) { return rel(a, b) <= 1e-6; }
SCIP_Bool SCIPisFeasGT(SCIP*, SCIP_Real a, SCIP_Real b) { return rel(a, b) > 1e-6; }
SCIP_Bool SCIPisFeasGE(SCIP*, SCIP_Real a, SCIP_Real b) { return rel(a, b) >= -1e-6; }
SCIP_Bool SCIPisFeasZero(SCIP*, SCIP_Real v) { return std::fabs(v) <= 1e-6; }
SCIP_Bool SCIPisFeasPositive(SCIP*, SCIP_Real v) { return v > 1e-6; }
SCIP_Bool SCIPisFeasNegative(SCIP*, SCIP_Real v) { return v < -1e-6; }
SCIP_Bool SCIPisFeasIntegral(SCIP*, SCIP_Real v) { return std::fabs(v - std::floor(v + 0.5)) <= 1e-6; }
SCIP_Real SCIPfloor(SCIP*, SCIP_Real v) { return std::floor(v + 1e-9); }
SCIP_Real SCIPceil(SCIP*, SCIP_Real v) { return std::ceil(v - 1e-9); }
SCIP_Real SCIPround(SCIP*, SCIP_Real v) { return std::floor(v + 0.5); }
SCIP_Real SCIPfeasFloor(SCIP*, SCIP_Real v) { return std::floor(v + 1e-6); }
SCIP_Real SCIPfeasCeil(SCIP*, SCIP_Real v) { return std::ceil(v - 1e-6); }
SCIP_Real SCIPfeasRound(SCIP*, SCIP_Real v) { return std::floor(v + 0.5); }

/* ---------------------------------------------------------------- events */
SCIP_RETCODE SCIPincludeObjEventhdlr(SCIP* scip, scip::ObjEventhdlr* o, SCIP_Bool del) { FAILPOINT("SCIPincludeObjEventhdlr"); if (SCIPfindEventhdlr(scip, o->scip_name_)) { contract(std::string("event handler included twice: ") + o->scip_name_); return SCIP_INVALIDDATA; } auto* h = new SCIP_Eventhdlr(); h->name = o->scip_name_; h->obj = o; h->del = del; scip->ehdlrs.push_back(h); return SCIP_OKAY; }
SCIP_EVENTHDLR* SCIPfindEventhdlr(SCIP* s, const char* n) { for (auto* h : s->ehdlrs) if (h->name == n) return h; return nullptr; }
scip::ObjEventhdlr* SCIPfindObjEventhdlr(SCIP* s, const char* n) { auto* h = SCIPfindEventhdlr(s, n); return h ? h->obj : nullptr; }
const char* SCIPeventhdlrGetName(SCIP_EVENTHDLR* h) { return h->name.c_str(); }
SCIP_RETCODE SCIPcatchEvent(SCIP* scip, SCIP_EVENTTYPE t, SCIP_EVENTHDLR* h, SCIP_EVENTDATA* d, int* pos) { FAILPOINT("SCIPcatchEvent"); NEED(scip->stage >= SCIP_STAGE_TRANSFORMING && scip->stage <= SCIP_STAGE_EXITSOLVE, "SCIPcatchEvent before the problem is transformed"); scip->catches.push_back({t, h, d}); if (pos) *pos = (int)scip->catches.size() - 1; return SCIP_OKAY; }
SCIP_RETCODE SCIPdropEvent(SCIP* scip, SCIP_EVENTTYPE t, SCIP_EVENTHDLR* h, SCIP_EVENTDATA* d, int) { for (size_t i = 0; i < scip->catches.size(); i++) { auto& c = scip->catches[i]; if (c.type == t && c.h == h && c.data == d) { scip->catches.erase(scip->catches.begin() + i); return SCIP_OKAY; } } contract("SCIPdropEvent on an event that was not caught"); return SCIP_INVALIDDATA; }
SCIP_EVENTTYPE SCIPeventGetType(SCIP_EVENT* e) { return e->type; }
SCIP_NODE* SCIPeventGetNode(SCIP_EVENT* e) { return e->node; }
SCIP_SOL* SCIPeventGetSol(SCIP_EVENT* e) { return e->sol; }
static SCIP_RETCODE fire(SCIP* s, SCIP_EVENTTYPE t, SCIP_SOL* sol) {
    auto cs = s->catches; std::vector<Catch> hit; for (auto& c : cs) if (c.type & t) hit.push_back(c);
    for (size_t i = 0; i + 1 < hit.size(); i++) { int k = dec.choose((int)(hit.size() - i), "event_order"); std::swap(hit[i], hit[i + k]); }
    SCIP_Event e{t, s->cur, sol};
    if (obs) obs->before_event(s, t, s->cur ? s->cur->number : 0);
    for (auto& c : hit) SCIP_CALL(c.h->obj->scip_exec(s, c.h, &e, c.data));
    if (obs) obs->on_event(s, t, s->cur ? s->cur->number : 0);
    return SCIP_OKAY; }

/* ---------------------------------------------------------------- branching rules and other plugins */
static SCIP_RETCODE addrule(SCIP* scip, const char* n, int prio) { FAILPOINT("SCIPincludeBranchrule"); if (SCIPfindBranchrule(scip, n)) { contract(std::string("branching rule included twice: ") + n); return SCIP_INVALIDDATA; } scip->rules.push_back(new SCIP_Branchrule{n, prio, -1}); return SCIP_OKAY; }
SCIP_BRANCHRULE* SCIPfindBranchrule(SCIP* s, const char* n) { for (auto* r : s->rules) if (r->name == n) return r; return nullptr; }
SCIP_BRANCHRULE** SCIPgetBranchrules(SCIP* s) { return s->rules.data(); }
int SCIPgetNBranchrules(SCIP* s) { return (int)s->rules.size(); }
const char* SCIPbranchruleGetName(SCIP_BRANCHRULE* r) { return r->name.c_str(); }
int SCIPbranchruleGetPriority(SCIP_BRANCHRULE* r) { return r->priority; }
int SCIPbranchruleGetMaxdepth(SCIP_BRANCHRULE* r) { return r->maxdepth; }
SCIP_BRANCHRULEDATA* SCIPbranchruleGetData(SCIP_BRANCHRULE*) { return nullptr; }
SCIP_RETCODE SCIPsetBranchrulePriority(SCIP*, SCIP_BRANCHRULE* r, int p) { if (!r) { contract("SCIPsetBranchrulePriority(NULL)"); return SCIP_INVALIDDATA; } r->priority = p; return SCIP_OKAY; }
SCIP_RETCODE SCIPsetBranchruleMaxdepth(SCIP*, SCIP_BRANCHRULE* r, int d) { if (!r) { contract("SCIPsetBranchruleMaxdepth(NULL)"); return SCIP_INVALIDDATA; } if (d < -1) { contract("branching max depth below -1"); return SCIP_INVALIDDATA; } r->maxdepth = d; return SCIP_OKAY; }
SCIP_RETCODE SCIPincludeBranchruleFullstrong(SCIP* s) { return addrule(s, "fullstrong", 0); }
SCIP_RETCODE SCIPincludeBranchruleRelpscost(SCIP* s) { return addrule(s, "relpscost", 10000); }
SCIP_RETCODE SCIPincludeBranchruleMostinf(SCIP* s) { return addrule(s, "mostinf", 100); }
SCIP_RETCODE SCIPincludeBranchruleLeastinf(SCIP* s) { return addrule(s, "leastinf", 50); }
SCIP_RETCODE SCIPincludeBranchrulePscost(SCIP* s) { return addrule(s, "pscost", 2000); }
SCIP_RETCODE SCIPincludeBranchruleRandom(SCIP* s) { return addrule(s, "random", -100000); }
#define NOP(f) SCIP_RETCODE f(SCIP* scip) { FAILPOINT(#f); return SCIP_OKAY; }
NOP(SCIPincludeConshdlrLinear) NOP(SCIPincludeConshdlrIntegral) NOP(SCIPincludeConshdlrKnapsack) NOP(SCIPincludeConshdlrVarbound) NOP(SCIPincludeConshdlrLogicor) NOP(SCIPincludeConshdlrSetppc)
NOP(SCIPincludeNodeselBfs) NOP(SCIPincludeNodeselBreadthfirst) NOP(SCIPincludeNodeselDfs) NOP(SCIPincludeNodeselEstimate) NOP(SCIPincludeNodeselHybridestim) NOP(SCIPincludeSepaGomory) NOP(SCIPincludeSepaZerohalf)
NOP(SCIPincludeHeurFeaspump) NOP(SCIPincludeHeurDps) NOP(SCIPincludeHeurRounding)
SCIP_RETCODE SCIPincludeDefaultPlugins(SCIP* s) { SCIP_CALL(SCIPincludeBranchruleFullstrong(s)); SCIP_CALL(SCIPincludeBranchruleRelpscost(s)); SCIP_CALL(SCIPincludeBranchruleMostinf(s)); SCIP_CALL(SCIPincludeBranchruleLeastinf(s)); SCIP_CALL(SCIPincludeBranchrulePscost(s)); return SCIPincludeBranchruleRandom(s); }
SCIP_RETCODE SCIPcreateMessagehdlrDefault(SCIP_MESSAGEHDLR** m, SCIP_Bool, const char* f, SCIP_Bool q) { FILE* log = f ? fopen(f, "a") : nullptr; if (f && !log) { *m = nullptr; return SCIP_FILECREATEERROR; } if (log) simscip::open_logs++; *m = new SCIP_Messagehdlr{log, 1, (bool)q}; return SCIP_OKAY; }
SCIP_RETCODE SCIPsetMessagehdlr(SCIP* s, SCIP_MESSAGEHDLR* m) { if (m) m->refs++; releaseMsg(s->msg); s->msg = m; return SCIP_OKAY; }
SCIP_MESSAGEHDLR* SCIPgetMessagehdlr(SCIP* s) { return s->msg; }
SCIP_RETCODE SCIPmessagehdlrRelease(SCIP_MESSAGEHDLR** m) { if (!*m || (*m)->refs <= 0) contract("message handler over-released"); else releaseMsg(*m); *m = nullptr; return SCIP_OKAY; }
void SCIPmessagehdlrSetQuiet(SCIP_MESSAGEHDLR* m, SCIP_Bool q) { m->quiet = q; }
void SCIPsetMessagehdlrQuiet(SCIP*, SCIP_Bool) {}
SCIP_RETCODE SCIPinterruptSolve(SCIP* s) { s->stop = true; s->status = SCIP_STATUS_USERINTERRUPT; return SCIP_OKAY; }

/* ---------------------------------------------------------------- checking */
static bool linViolated(SCIP_CONS* c, const std::vector<double>& v) { double a = 0, sc = 1; for (size_t i = 0; i < c->vars.size(); i++) { a += c->vals[i] * v[c->vars[i]->idx]; } sc = std::max(1.0, std::max(std::fabs(a), 1.0)); return a > c->rhs + 1e-6 * std::max(sc, std::fabs(c->rhs) < 1e19 ? std::fabs(c->rhs) : 1.0) || a < c->lhs - 1e-6 * std::max(sc, std::fabs(c->lhs) < 1e19 ? std::fabs(c->lhs) : 1.0); }
static std::vector<SCIP_CONSHDLR*> byPrio(SCIP* s, int which) { auto v = s->chdlrs; std::stable_sort(v.begin(), v.end(), [&](SCIP_CONSHDLR* a, SCIP_CONSHDLR* b) { auto p = [&](SCIP_CONSHDLR* h) { return which == 0 ? h->obj->scip_sepapriority_ : which == 1 ? h->obj->scip_enfopriority_ : h->obj->scip_checkpriority_; }; return p(a) > p(b); }); return v; }
static bool fracInt(double v) { return std::fabs(v - std::floor(v + 0.5)) > 1e-6; }
static SCIP_RETCODE checksol(SCIP* s, SCIP_SOL* sol, bool* feas) {
    *feas = true; bool all = dec.chance(cfg.checkall, "check_completely");
    for (size_t i = 0; i < s->tvars.size(); i++) { auto* v = s->tvars[i]; if (sol->v[i] < v->lb - 1e-6 || sol->v[i] > v->ub + 1e-6) { *feas = false; if (!all) return SCIP_OKAY; } if (v->type != SCIP_VARTYPE_CONTINUOUS && fracInt(sol->v[i])) { *feas = false; if (!all) return SCIP_OKAY; } }
    for (auto* c : s->tconss) if (c->linear && c->check && !c->local && !c->deleted && linViolated(c, sol->v)) { *feas = false; if (!all) return SCIP_OKAY; }
    for (auto* h : byPrio(s, 2)) {
        auto cs = hdlrConss(s, h); std::vector<SCIP_CONS*> ck; for (auto* c : cs) if (c->check) ck.push_back(c);
        if (h->obj->scip_needscons_ && ck.empty()) continue;
        SCIP_RESULT r = SCIP_FEASIBLE;
        SCIP_CALL(h->obj->scip_check(s, h, ck.data(), (int)ck.size(), sol, TRUE, TRUE, FALSE, all, &r));
        if (obs) obs->on_check(s, h->name.c_str(), sol->v, r);
        if (r != SCIP_FEASIBLE && r != SCIP_INFEASIBLE) { contract("check of " + h->name + " returned invalid result " + std::to_string((int)r)); return SCIP_INVALIDRESULT; }
        if (r == SCIP_INFEASIBLE) { *feas = false; if (!all) return SCIP_OKAY; }
    }
    return SCIP_OKAY; }
static SCIP_RETCODE store(SCIP* s, SCIP_SOL* x, bool* stored) {
    double o = x->obj; *stored = true; s->nsolsfound++;
    size_t p = 0; while (p < s->sols.size() && s->sols[p]->obj <= o) p++;
    s->sols.insert(s->sols.begin() + p, x);
    if (o < s->upper - 1e-9) {
        s->upper = o; s->bestnode = s->nnodes; s->nbestfound++; if (obs) obs->on_best(s, o, x->v);
        SCIP_CALL(fire(s, SCIP_EVENTTYPE_BESTSOLFOUND, x));
    } else SCIP_CALL(fire(s, SCIP_EVENTTYPE_POORSOLFOUND, x));
    return SCIP_OKAY; }
static SCIP_RETCODE trysol(SCIP* s, SCIP_SOL* x, bool* stored) {
    *stored = false; x->obj = objOf(s, x->v);
    if (x->obj >= s->upper - 1e-9 && s->upper < 1e20 && !dec.chance(100, "check_worse")) return SCIP_OKAY;
    if (x->obj >= s->objlimit - 1e-9 && s->objlimit < 1e20) return SCIP_OKAY;
    bool f; SCIP_CALL(checksol(s, x, &f)); if (!f) return SCIP_OKAY;
    return store(s, x, stored); }

/* ---------------------------------------------------------------- branch and bound */
static SCIP_NODE* newnode(SCIP* s, SCIP_NODE* par) { auto* n = new SCIP_Node(); n->number = ++s->created; n->parent = par; n->depth = par ? par->depth + 1 : 0; n->lower = par ? par->lower : -1e20; s->allnodes.push_back(n); return n; }
static void branchOn(SCIP* s, int i, double val) {
    bool frac = fracInt(val); double d0 = frac ? std::floor(val) : 0.0, u0 = frac ? std::ceil(val) : 1.0;
    auto* a = newnode(s, s->cur); a->fix.push_back({i, {s->tvars[i]->llb, d0}});
    auto* b = newnode(s, s->cur); b->fix.push_back({i, {u0, s->tvars[i]->lub}});
    s->children.push_back(a); s->children.push_back(b); s->branched = true; }
static void tellBranch(SCIP* s) {   /* SCIP calls the rule of highest priority whose depth limit admits the node */
    if (!obs || !s->cur) return; std::string best; long bp = LONG_MIN;
    for (auto* r : s->rules) if (r->maxdepth == -1 || r->maxdepth >= s->cur->depth) { if (r->priority > bp) { bp = r->priority; best = r->name; } else if (r->priority == bp) best += "|" + r->name; }
    obs->on_branch(s, s->cur->depth, best); }
static std::vector<int> lpcands(SCIP* s) { std::vector<int> c; if (s->lpvalid) for (size_t i = 0; i < s->tvars.size(); i++) if (s->tvars[i]->type != SCIP_VARTYPE_CONTINUOUS && fracInt(s->lpx[i])) c.push_back((int)i); return c; }
int SCIPgetNLPBranchCands(SCIP* s) { return (int)lpcands(s).size(); }
SCIP_RETCODE SCIPbranchLP(SCIP* scip, SCIP_RESULT* r) { FAILPOINT("SCIPbranchLP"); NEED(scip->stage == SCIP_STAGE_SOLVING, "SCIPbranchLP outside SOLVING"); *r = SCIP_DIDNOTRUN; auto c = lpcands(scip); if (c.empty()) return SCIP_OKAY; tellBranch(scip); branchOn(scip, c[dec.choose((int)c.size(), "branch_lp")], 0.5); *r = SCIP_BRANCHED; return SCIP_OKAY; }
SCIP_RETCODE SCIPbranchPseudo(SCIP* scip, SCIP_RESULT* r) { FAILPOINT("SCIPbranchPseudo"); *r = SCIP_DIDNOTRUN; std::vector<int> c; for (size_t i = 0; i < scip->tvars.size(); i++) if (scip->tvars[i]->lub - scip->tvars[i]->llb > 0.5) c.push_back((int)i); if (c.empty()) return SCIP_OKAY; stats.branch_pseudo++; branchOn(scip, c[dec.choose((int)c.size(), "branch_pseudo")], 0.5); *r = SCIP_BRANCHED; return SCIP_OKAY; }
SCIP_RETCODE SCIPbranchVar(SCIP* scip, SCIP_VAR* v, SCIP_NODE** d, SCIP_NODE** e, SCIP_NODE** u) { branchOn(scip, v->idx, 0.5); if (d) *d = scip->children[scip->children.size() - 2]; if (e) *e = nullptr; if (u) *u = scip->children.back(); return SCIP_OKAY; }
SCIP_RETCODE SCIPcutoffNode(SCIP* s, SCIP_NODE*) { s->cutoffnow = true; return SCIP_OKAY; }

enum LPOut { LP_OK, LP_INFEAS, LP_ERR };
static LPOut solveLP(SCIP* s) {
    int n = (int)s->tvars.size(); std::vector<double> l(n), u(n), c(n); std::vector<LPRow> rows;
    for (int i = 0; i < n; i++) { l[i] = s->tvars[i]->llb; u[i] = s->tvars[i]->lub; c[i] = s->tvars[i]->obj; if (l[i] > u[i] + 1e-9) return LP_INFEAS; }
    for (auto* k : s->tconss) if (k->linear && !k->deleted) { LPRow r; r.lhs = k->lhs; r.rhs = k->rhs; std::map<int, double> m; for (size_t i = 0; i < k->vars.size(); i++) m[k->vars[i]->idx] += k->vals[i]; for (auto& p : m) r.coefs.push_back(p); rows.push_back(r); }
    for (auto* k : s->lprows) rows.push_back(LPRow{k->coefs, k->lhs, k->rhs});
    advance(cfg.lp_cost_ns + (int64_t)dec.choose(4, "lp_time") * cfg.lp_cost_ns);
    if (dec.chance(cfg.timejump, "time_jump")) advance((int64_t)(1 + dec.choose(5, "time_jump_len")) * 3600LL * 1000000000LL);
    if (dec.chance(cfg.lperror, "lp_error")) { stats.lperror++; return LP_ERR; }
    LP lp; lp.build(n, l, u, c, rows); stats.lps++; s->nlps++;
    auto r = lp.solve();
    if (r == LP::INFEASIBLE) return LP_INFEAS;
    if (r == LP::FAIL) { stats.lperror++; return LP_ERR; }
    if (dec.chance(cfg.lp_alt, "lp_alt")) {
        stats.lp_alt++; LP b = lp; b.alternate(dec.choose(1 << 16, "lp_alt_seed"));
        if (b.infeas() < 1e-6) {
            if (dec.chance(cfg.lp_mix, "lp_mix")) { stats.lp_mix++; double w = (1 + dec.choose(7, "lp_mix_w")) / 8.0; for (int j = 0; j < n; j++) lp.x[j] = w * lp.x[j] + (1 - w) * b.x[j]; }
            else lp = b;
        }
    }
    s->lpx.assign(lp.x.begin(), lp.x.begin() + n);
    for (auto& v : s->lpx) { double q = std::floor(v + 0.5); if (std::fabs(v - q) < 1e-8) v = q; }
    s->lpobj = 0; for (int j = 0; j < n; j++) s->lpobj += c[j] * s->lpx[j];   /* the bound is exact; only the reported point carries rounding noise */
    if (cfg.noise > 0) for (int j = 0; j < n; j++) if (u[j] > l[j] && dec.chance(cfg.noise, "lp_noise")) { static const double NOISE[] = {-3e-8, 0, 3e-8, 4e-10}; double d = NOISE[dec.choose(4, "lp_noise_amt")]; double v = s->lpx[j] + d; if (v >= l[j] && v <= u[j]) { s->lpx[j] = v; stats.noise++; } }
    for (int j = 0; j < n; j++) s->tvars[j]->lpsol = s->lpx[j];
    dec.mix(s->lpx.data(), s->lpx.size() * sizeof(double));
    return LP_OK; }
static bool limitHit(SCIP* s) {
    if (s->stop) return true;
    if (dec.chance(cfg.interrupt, "interrupt")) { s->stop = true; s->status = SCIP_STATUS_USERINTERRUPT; stats.interrupts++; return true; }
    if (dec.chance(cfg.memlimit, "memlimit")) { s->stop = true; s->status = SCIP_STATUS_MEMLIMIT; stats.memlimit++; return true; }
    if (SCIPgetSolvingTime(s) >= param(s, "limits/time", 1e20)) { s->stop = true; s->status = SCIP_STATUS_TIMELIMIT; stats.timelimit++; return true; }
    if (s->nnodes >= cfg.max_nodes) { s->stop = true; s->status = SCIP_STATUS_NODELIMIT; stats.capped++; return true; }
    double nl = param(s, "limits/nodes", -1); if (nl >= 0 && s->nnodes >= nl) { s->stop = true; s->status = SCIP_STATUS_NODELIMIT; return true; }
    nl = param(s, "limits/totalnodes", -1); if (nl >= 0 && s->nnodes >= nl) { s->stop = true; s->status = SCIP_STATUS_TOTALNODELIMIT; return true; }
    nl = param(s, "limits/stallnodes", -1); if (nl >= 0 && s->upper < 1e20 && s->nnodes - s->bestnode >= nl) { s->stop = true; s->status = SCIP_STATUS_STALLNODELIMIT; return true; }
    if (s->nnodes > 0 && s->upper < 1e20) {
        nl = param(s, "limits/gap", 0); if (nl > 0 && SCIPgetGap(s) < nl) { s->stop = true; s->status = SCIP_STATUS_GAPLIMIT; return true; }
        nl = param(s, "limits/absgap", 0); if (nl > 0 && SCIPgetPrimalbound(s) - SCIPgetDualbound(s) < nl) { s->stop = true; s->status = SCIP_STATUS_GAPLIMIT; return true; } }
    nl = param(s, "limits/solutions", -1); if (nl >= 0 && s->nsolsfound >= nl) { s->stop = true; s->status = SCIP_STATUS_SOLLIMIT; return true; }
    nl = param(s, "limits/bestsol", -1); if (nl >= 0 && s->nbestfound >= nl) { s->stop = true; s->status = SCIP_STATUS_BESTSOLLIMIT; return true; }
    return false; }
static SCIP_RETCODE tryHeur(SCIP* s) {
    if (heuristic_pool.empty() || !dec.chance(cfg.heur, "heur")) return SCIP_OKAY;
    stats.heur_tried++; auto* x = new SCIP_Sol(); x->orig = false;
    x->v = heuristic_pool[dec.choose((int)heuristic_pool.size(), "heur_which")];
    if (x->v.size() != s->tvars.size()) { delete x; return SCIP_OKAY; }
    bool st; SCIP_RETCODE rc = trysol(s, x, &st); if (!st) delete x; else stats.heur_accepted++; return rc; }
static double cutoffAt(SCIP* s) { double u = std::min(s->upper, s->objlimit); if (u >= 1e20) return 1e20; return s->intobj ? (std::ceil(u / s->scale - 0.2) - 1.0 + 1e-6) * s->scale : u - 1e-9; }
/* one separation round; *found tells whether the LP changed */
static SCIP_RETCODE separate(SCIP* s, bool* found, bool* cutoff) {
    *found = *cutoff = false; s->newcuts.clear(); s->consadded = false; s->cutoffnow = false; std::vector<std::string> called;
    for (auto* h : byPrio(s, 0)) {
        int f = h->obj->scip_sepafreq_; if (f < 0 || (f == 0 && s->cur->depth > 0) || (f > 0 && s->cur->depth % f != 0)) continue;
        auto cs = hdlrConss(s, h); std::vector<SCIP_CONS*> sp; for (auto* c : cs) if (c->separate) sp.push_back(c);
        if (h->obj->scip_needscons_ && sp.empty()) continue;
        int a0 = s->rows_added, c0 = s->rows_created; SCIP_RESULT r = SCIP_DIDNOTRUN; called.push_back(h->name);
        SCIP_CALL(h->obj->scip_sepalp(s, h, sp.data(), (int)sp.size(), (int)sp.size(), &r));
        if (obs) obs->on_sepa(s, h->name.c_str(), s->lpx, true, r, s->rows_added - a0, s->rows_created - c0);
        if (r != SCIP_CUTOFF && r != SCIP_CONSADDED && r != SCIP_REDUCEDDOM && r != SCIP_SEPARATED && r != SCIP_NEWROUND && r != SCIP_DIDNOTFIND && r != SCIP_DIDNOTRUN && r != SCIP_DELAYED) { contract("sepalp of " + h->name + " returned invalid result " + std::to_string((int)r)); return SCIP_INVALIDRESULT; }
        if (r == SCIP_CUTOFF) { *cutoff = true; if (obs) obs->on_round(s, s->cur->depth, called, true); return SCIP_OKAY; }
        if (dec.chance(cfg.sepasol, "sepasol") && !heuristic_pool.empty()) {
            stats.sepasol++; SCIP_Sol x; x.orig = false; x.v = heuristic_pool[dec.choose((int)heuristic_pool.size(), "sepasol_which")];
            if (x.v.size() == s->tvars.size()) {
                a0 = s->rows_added; c0 = s->rows_created; r = SCIP_DIDNOTRUN;
                SCIP_CALL(h->obj->scip_sepasol(s, h, sp.data(), (int)sp.size(), (int)sp.size(), &x, &r));
                if (obs) obs->on_sepa(s, h->name.c_str(), x.v, false, r, s->rows_added - a0, s->rows_created - c0);
                if (r == SCIP_CUTOFF) { *cutoff = true; if (obs) obs->on_round(s, s->cur->depth, called, true); return SCIP_OKAY; }
            }
        }
    }
    if (obs) obs->on_round(s, s->cur->depth, called, false);
    for (auto* r : s->newcuts) {
        if (r->inlp) continue;
        if (dec.chance(cfg.drop_cut, "drop_cut")) { stats.cuts_dropped++; continue; }
        r->inlp = true; s->lprows.push_back(r); *found = true;
    }
    s->newcuts.clear();
    if (s->consadded) *found = true;
    return SCIP_OKAY; }
static SCIP_RETCODE branchAny(SCIP* s, bool* cutoff) {
    SCIP_RESULT r = SCIP_DIDNOTRUN; auto c = lpcands(s);
    if (!c.empty()) { tellBranch(s); branchOn(s, c[dec.choose((int)c.size(), "branch_var")], 0.5); return SCIP_OKAY; }
    std::vector<int> p; for (size_t i = 0; i < s->tvars.size(); i++) if (s->tvars[i]->lub - s->tvars[i]->llb > 0.5) p.push_back((int)i);
    if (p.empty()) { if (s->lpvalid) *cutoff = true; return SCIP_OKAY; }
    stats.branch_pseudo++; branchOn(s, p[dec.choose((int)p.size(), "branch_pseudo")], 0.5); return SCIP_OKAY; }

static SCIP_RETCODE solveNode(SCIP* s) {
    bool cutoff = false; int rounds = 0; bool skip = dec.chance(cfg.skip_lp, "skip_lp"); s->lpvalid = false; s->lpstat = SCIP_LPSOLSTAT_NOTSOLVED; s->branched = false; s->children.clear(); bool feasibleNode = false;
    bool force_lp = false;
    for (;;) {
        if (limitHit(s)) return SCIP_OKAY;
        s->consadded = false;
        if (!skip || force_lp) {
            if (obs) obs->on_lp(s, SCIPgetSolvingTime(s));
            LPOut o = solveLP(s);
            if (o == LP_INFEAS) { s->lpvalid = false; s->lpstat = SCIP_LPSOLSTAT_INFEASIBLE; cutoff = true; break; }
            if (o == LP_ERR) { s->lpvalid = false; s->lpstat = SCIP_LPSOLSTAT_ERROR; skip = true; force_lp = false; }
            else {
                s->lpvalid = true; s->lpstat = SCIP_LPSOLSTAT_OPTIMAL;
                double lb = s->lpobj; if (s->intobj && cfg.int_bound) lb = std::ceil(lb / s->scale - 1e-6) * s->scale;
                s->cur->lower = std::max(s->cur->lower, lb / s->scale);
                if (s->firstlp) { s->firstlp = false; SCIP_CALL(fire(s, SCIP_EVENTTYPE_FIRSTLPSOLVED, nullptr)); }
                else SCIP_CALL(fire(s, SCIP_EVENTTYPE_LPSOLVED, nullptr));
                if (s->lpobj >= cutoffAt(s)) { s->lpstat = SCIP_LPSOLSTAT_OBJLIMIT; cutoff = true; break; }
            }
        }
        SCIP_CALL(tryHeur(s));
        if (s->lpvalid && s->cur->lower * s->scale >= cutoffAt(s)) { cutoff = true; break; }
        if (s->consadded && s->lpvalid) { rounds++; if (rounds < 4 * cfg.max_rounds) continue; }
        if (s->lpvalid && rounds < cfg.max_rounds && !dec.chance(cfg.stop_sepa, "stop_sepa")) {
            bool f; SCIP_CALL(separate(s, &f, &cutoff)); stats.rounds++; rounds++;
            if (cutoff) break;
            if (f) continue;
        }
        /* enforcement */
        bool infeas = false, resolve = false, solvelp = false; s->children.clear(); s->branched = false; s->cutoffnow = false; s->newcuts.clear(); s->consadded = false;
        std::vector<double> x(s->tvars.size()); for (size_t i = 0; i < x.size(); i++) x[i] = solval(s, nullptr, (int)i);
        bool didIntegral = false, didLinear = false; auto hs = byPrio(s, 1);
        auto integral = [&]() -> bool { didIntegral = true; if (!s->lpvalid) return false; auto c = lpcands(s); if (c.empty()) return false; tellBranch(s); branchOn(s, c[dec.choose((int)c.size(), "branch_var")], 0.5); return true; };
        auto linear = [&]() { didLinear = true; for (auto* c : s->tconss) if (c->linear && !c->deleted && c->enforce && linViolated(c, x)) infeas = true; };
        bool done = false;
        for (size_t k = 0; k <= hs.size() && !done; k++) {
            int pr = k < hs.size() ? hs[k]->obj->scip_enfopriority_ : -2000000000;
            if (!didIntegral && pr < 0) { if (integral()) { done = true; break; } }
            if (!didLinear && pr < -1000000) linear();
            if (k == hs.size()) break;
            auto* h = hs[k]; auto cs = hdlrConss(s, h); std::vector<SCIP_CONS*> en; for (auto* c : cs) if (c->enforce) en.push_back(c);
            if (h->obj->scip_needscons_ && en.empty()) continue;
            SCIP_RESULT r = SCIP_FEASIBLE;
            if (obs) obs->before_enfo(s, h->name.c_str(), x, s->lpvalid);
            if (s->lpvalid) SCIP_CALL(h->obj->scip_enfolp(s, h, en.data(), (int)en.size(), (int)en.size(), infeas, &r));
            else SCIP_CALL(h->obj->scip_enfops(s, h, en.data(), (int)en.size(), (int)en.size(), infeas, FALSE, &r));
            if (obs) obs->on_enfo(s, h->name.c_str(), x, s->lpvalid, r);
            switch (r) {
                case SCIP_CUTOFF: cutoff = done = true; break;
                case SCIP_CONSADDED: case SCIP_REDUCEDDOM: case SCIP_SEPARATED: resolve = done = true; break;
                case SCIP_SOLVELP: solvelp = done = true; break;
                case SCIP_BRANCHED: if (!s->branched) { contract("enforcement of " + h->name + " claims a branching that did not happen"); return SCIP_INVALIDRESULT; } infeas = done = true; break;
                case SCIP_INFEASIBLE: infeas = true; break;
                case SCIP_FEASIBLE: break;
                default: contract("enforcement of " + h->name + " returned invalid result " + std::to_string((int)r)); return SCIP_INVALIDRESULT;
            }
            /* another component enforces by re-solving the LP at the same node, after putting rows back that had been dropped or aged out */
            if (!done && s->lpvalid && rounds < cfg.max_rounds && dec.chance(cfg.enfo_resolve, "enfo_resolve")) {
                stats.enfo_resolve++; for (auto* row : s->allrows) if (row->offered && !row->inlp && !row->local && !dec.chance(500, "pool_skip")) { row->inlp = true; s->lprows.push_back(row); }
                solvelp = done = true; }
        }
        if (cutoff) break;
        if (resolve || solvelp || s->consadded) {
            for (auto* r : s->newcuts) if (!r->inlp) { r->inlp = true; s->lprows.push_back(r); }
            s->newcuts.clear(); force_lp = true; rounds++;
            if (s->lpvalid || resolve || solvelp) { if (rounds < 6 * cfg.max_rounds) { s->children.clear(); s->branched = false; continue; } }
        }
        if (s->branched) break;
        if (infeas) {
            bool anyfree = false; for (auto* v : s->tvars) if (v->lub - v->llb > 0.5) anyfree = true;
            if (!s->lpvalid && !anyfree) { cutoff = true; break; }
            SCIP_CALL(branchAny(s, &cutoff)); break;
        }
        /* feasible for every constraint handler */
        {
            auto* sol = new SCIP_Sol(); sol->orig = false; sol->v = x; sol->obj = objOf(s, x); bool st = false;
            double o = sol->obj;
            if (o < s->upper - 1e-9) {
                SCIP_RETCODE rc;
                if (dec.chance(cfg.recheck, "recheck_lpsol")) rc = trysol(s, sol, &st); else rc = store(s, sol, &st);
                if (rc != SCIP_OKAY) return rc;
                if (st) feasibleNode = true;
            } else feasibleNode = true;
            if (!st) delete sol;
            if (!feasibleNode) { SCIP_CALL(branchAny(s, &cutoff)); break; }
            if (!s->lpvalid) { /* a feasible pseudo solution is optimal for the node */ }
            break;
        }
    }
    /* node outcome */
    for (auto* c : s->children) s->open.push_back(c);
    s->children.clear();
    SCIP_EVENTTYPE ev = s->branched && !cutoff ? SCIP_EVENTTYPE_NODEBRANCHED : feasibleNode && !cutoff ? SCIP_EVENTTYPE_NODEFEASIBLE : SCIP_EVENTTYPE_NODEINFEASIBLE;
    if (cutoff && s->branched) { /* children of a node that is cut off are discarded */ for (size_t i = 0; i < s->open.size();) if (s->open[i]->parent == s->cur) s->open.erase(s->open.begin() + i); else i++; }
    SCIP_CALL(fire(s, ev, nullptr));
    return SCIP_OKAY; }

static void applyBounds(SCIP* s, SCIP_NODE* n) {
    for (auto* v : s->tvars) { v->llb = v->lb; v->lub = v->ub; }
    for (auto* k = n; k; k = k->parent) for (auto& f : k->fix) { auto* v = s->tvars[f.first]; v->llb = std::max(v->llb, f.second.first); v->lub = std::min(v->lub, f.second.second); } }

SCIP_RETCODE SCIPtransformProb(SCIP* scip) {
    FAILPOINT("SCIPtransformProb"); if (scip->stage >= SCIP_STAGE_TRANSFORMED) return SCIP_OKAY; NEED(scip->stage == SCIP_STAGE_PROBLEM, "SCIPtransformProb without a problem");
    scip->stage = SCIP_STAGE_TRANSFORMING;
    for (auto* v : scip->vars) { auto* t = new SCIP_Var(*v); t->name = "t_" + v->name; t->trans = true; t->other = v; v->other = t; t->refs = 1; scip->tvars.push_back(t); }
    double g = 0; bool integral = param(scip, "misc/scaleobj", 1) != 0; bool all = true;
    for (auto* v : scip->vars) { if (v->obj == 0) continue; if (v->type == SCIP_VARTYPE_CONTINUOUS || std::fabs(v->obj - std::floor(v->obj + 0.5)) > 1e-9) { all = false; break; } g = std::gcd((long long)g, (long long)std::llabs((long long)std::floor(v->obj + 0.5))); }
    scip->intobj = all && g > 0; scip->scale = scip->intobj && integral ? (double)g : 1.0; if (!integral && scip->intobj) scip->intobj = false;
    for (auto* c : scip->conss) {
        if (c->deleted) continue;
        SCIP_CONS* t = nullptr;
        if (c->linear) { t = new SCIP_Cons(*c); t->trans = true; for (auto*& v : t->vars) v = v->other; }
        else SCIP_CALL(c->hdlr->obj->scip_trans(scip, c->hdlr, c, &t));
        t->trans = true; t->added = true; scip->tconss.push_back(t);
    }
    scip->stage = SCIP_STAGE_TRANSFORMED;
    for (auto* h : scip->chdlrs) { auto cs = hdlrConss(scip, h); SCIP_CALL(h->obj->scip_init(scip, h, cs.data(), (int)cs.size())); }
    for (auto* h : scip->ehdlrs) SCIP_CALL(h->obj->scip_init(scip, h));
    return SCIP_OKAY; }
SCIP_RETCODE SCIPpresolve(SCIP* s) { return SCIPtransformProb(s); }
static SCIP_RETCODE doSolve(SCIP* scip) {
    stats.solves++;
    if (obs) obs->on_solve_start(scip);
    SCIP_CALL(SCIPtransformProb(scip));
    scip->start_ns = sim_elapsed_ns; scip->stop = false; scip->status = SCIP_STATUS_UNKNOWN;
    auto warm = [&]() -> SCIP_RETCODE { for (auto* o : scip->origsols) { auto* x = new SCIP_Sol(*o); x->orig = false; bool st; x->obj = objOf(scip, x->v); bool f; SCIP_RETCODE rc = checksol(scip, x, &f); if (rc == SCIP_OKAY && f && (scip->objlimit >= 1e20 || x->obj < scip->objlimit - 1e-9)) rc = store(scip, x, &st); else { delete x; } if (rc != SCIP_OKAY) return rc; } return SCIP_OKAY; };
    bool late = dec.chance(cfg.warm_late, "warm_late");
    if (!late) SCIP_CALL(warm());
    scip->stage = SCIP_STAGE_PRESOLVED;
    scip->stage = SCIP_STAGE_INITSOLVE; scip->initsolved = true;
    for (auto* h : scip->chdlrs) { auto cs = hdlrConss(scip, h); SCIP_CALL(h->obj->scip_initsol(scip, h, cs.data(), (int)cs.size())); }
    for (auto* h : scip->ehdlrs) SCIP_CALL(h->obj->scip_initsol(scip, h));
    if (late) SCIP_CALL(warm());
    scip->stage = SCIP_STAGE_SOLVING;
    if (obs) obs->on_solving(scip);
    scip->open.push_back(newnode(scip, nullptr));
    while (!scip->open.empty()) {
        if (limitHit(scip)) break;
        for (size_t i = 0; i < scip->open.size();) if (scip->open[i]->lower * scip->scale >= cutoffAt(scip)) scip->open.erase(scip->open.begin() + i); else i++;
        if (scip->open.empty()) break;
        /* default: dive on the newest node; otherwise any open node */
        int k = dec.choose((int)scip->open.size(), "node_select"); k = (int)scip->open.size() - 1 - k;
        scip->cur = scip->open[k]; scip->open.erase(scip->open.begin() + k); scip->nnodes++; stats.nodes++;
        applyBounds(scip, scip->cur); scip->lpvalid = false;
        for (size_t i = 0; i < scip->lprows.size();) if (dec.chance(cfg.age_cut, "age_cut")) { scip->lprows[i]->inlp = false; scip->lprows.erase(scip->lprows.begin() + i); stats.cuts_aged++; } else i++;
        SCIP_CALL(fire(scip, SCIP_EVENTTYPE_NODEFOCUSED, nullptr));
        SCIP_CALL(solveNode(scip));
        if (scip->stop) break;
        scip->cur = nullptr;
    }
    if (!scip->stop) scip->status = scip->sols.empty() ? SCIP_STATUS_INFEASIBLE : SCIP_STATUS_OPTIMAL;
    if (!scip->stop) scip->open.clear();
    scip->lower = scip->stop ? treelower(scip) : (scip->sols.empty() ? 1e20 : scip->upper / scip->scale);
    if (!scip->stop) { /* SCIP keeps event filters until the transformed problem is freed */ }
    scip->lpvalid = false; scip->cur = nullptr;
    scip->stage = SCIP_STAGE_SOLVED;
    return SCIP_OKAY; }
SCIP_RETCODE SCIPsolve(SCIP* scip) {
    NEED(scip->stage == SCIP_STAGE_PROBLEM || scip->stage == SCIP_STAGE_TRANSFORMED, "SCIPsolve in wrong stage");
    SCIP_RETCODE rc = doSolve(scip);
    if (rc != SCIP_OKAY) { scip->error = true; scip->status = SCIP_STATUS_UNKNOWN; scip->lower = treelower(scip); }
    return rc; }

/* ---------------------------------------------------------------- scip/more.h */
SCIP_Longint SCIPgetNSolsFound(SCIP* s) { return s->nsolsfound; }
SCIP_Longint SCIPgetNLimSolsFound(SCIP* s) { return s->nsolsfound; }
SCIP_Longint SCIPgetNBestSolsFound(SCIP* s) { return s->nbestfound; }
int SCIPgetNNodesLeft(SCIP* s) { return (int)(s->open.size() + s->children.size()); }
int SCIPgetNLeaves(SCIP* s) { return (int)s->open.size(); }
int SCIPgetNSiblings(SCIP* s) { int k = 0; if (s->cur) for (auto* n : s->open) if (n->parent && n->parent == s->cur->parent) k++; return k; }
int SCIPgetMaxDepth(SCIP* s) { int d = -1; for (auto* n : s->allnodes) d = std::max(d, n->depth); return d; }
int SCIPgetMaxTotalDepth(SCIP* s) { return SCIPgetMaxDepth(s); }
int SCIPgetPlungeDepth(SCIP*) { return 0; }
int SCIPgetFocusDepth(SCIP* s) { return SCIPgetDepth(s); }
int SCIPgetNRuns(SCIP* s) { return s->stage >= SCIP_STAGE_SOLVING ? 1 : 0; }
int SCIPgetNSepaRounds(SCIP*) { return 0; }
int SCIPgetNLPRows(SCIP* s) { return (int)s->lprows.size(); }
int SCIPgetNLPCols(SCIP* s) { return (int)s->tvars.size(); }
SCIP_ROW** SCIPgetLPRows(SCIP* s) { return s->lprows.data(); }
SCIP_Longint SCIPgetNLPIterations(SCIP* s) { return s->nlps * 3; }
SCIP_Bool SCIPisLPSolBasic(SCIP* s) { return s->lpvalid; }
int SCIPgetNBinVars(SCIP* s) { int k = 0; for (auto* v : s->vars) k += v->type == SCIP_VARTYPE_BINARY; return k; }
int SCIPgetNIntVars(SCIP* s) { int k = 0; for (auto* v : s->vars) k += v->type == SCIP_VARTYPE_INTEGER; return k; }
SCIP_Real SCIPgetTransGap(SCIP* s) { return SCIPcomputeGap(1e-9, 1e20, SCIPgetUpperbound(s), SCIPgetLowerbound(s)); }
SCIP_Real SCIPgetNodeLowerbound(SCIP*, SCIP_NODE* n) { return SCIPnodeGetLowerbound(n); }
SCIP_Real SCIPgetNodeDualbound(SCIP* s, SCIP_NODE* n) { return SCIPretransformObj(s, SCIPnodeGetLowerbound(n)); }
SCIP_Real SCIPgetLocalLowerbound(SCIP* s) { return s->cur ? SCIPnodeGetLowerbound(s->cur) : 1e20; }
SCIP_Real SCIPgetLocalDualbound(SCIP* s) { return s->cur ? SCIPgetNodeDualbound(s, s->cur) : 1e20; }
SCIP_Real SCIPgetLocalOrigEstimate(SCIP* s) { return SCIPgetLocalDualbound(s); }
SCIP_Real SCIPgetLocalTransEstimate(SCIP* s) { return SCIPgetLocalLowerbound(s); }
SCIP_Real SCIPgetLowerboundRoot(SCIP* s) { return s->allnodes.empty() ? -1e20 : s->allnodes[0]->lower; }
SCIP_Real SCIPgetDualboundRoot(SCIP* s) { double l = SCIPgetLowerboundRoot(s); return std::fabs(l) >= 1e20 ? l : l * s->scale; }
SCIP_Real SCIPgetAvgLowerbound(SCIP* s) { return SCIPgetLowerbound(s); }
SCIP_Real SCIPgetAvgDualbound(SCIP* s) { return SCIPgetDualbound(s); }
SCIP_Real SCIPgetPresolvingTime(SCIP*) { return 0; }
SCIP_Real SCIPgetReadingTime(SCIP*) { return 0; }
SCIP_Bool SCIPisStopped(SCIP* s) { return s->stop; }
SCIP_Bool SCIPpressedCtrlC(SCIP*) { return FALSE; }
SCIP_Bool SCIPisPresolveFinished(SCIP* s) { return s->stage >= SCIP_STAGE_PRESOLVED; }
SCIP_Bool SCIPisObjIntegral(SCIP* s) { return s->intobj; }
SCIP_Real SCIPgetTransObjscale(SCIP* s) { return s->scale; }
SCIP_Real SCIPgetOrigObjscale(SCIP*) { return 1; }
SCIP_Real SCIPgetTransObjoffset(SCIP*) { return 0; }
SCIP_Real SCIPgetOrigObjoffset(SCIP*) { return 0; }
SCIP_RETCODE SCIPgetBoolParam(SCIP* s, const char* n, SCIP_Bool* v) { auto it = s->params.find(n); *v = it != s->params.end() && it->second != 0; return SCIP_OKAY; }
SCIP_RETCODE SCIPgetLongintParam(SCIP* s, const char* n, SCIP_Longint* v) { auto it = s->params.find(n); *v = it == s->params.end() ? -1 : (SCIP_Longint)it->second; return SCIP_OKAY; }
SCIP_RETCODE SCIPsetPresolving(SCIP*, SCIP_PARAMSETTING, SCIP_Bool) { return SCIP_OKAY; }
SCIP_RETCODE SCIPsetHeuristics(SCIP*, SCIP_PARAMSETTING, SCIP_Bool) { return SCIP_OKAY; }
SCIP_RETCODE SCIPsetSeparating(SCIP*, SCIP_PARAMSETTING, SCIP_Bool) { return SCIP_OKAY; }
SCIP_RETCODE SCIPresetParams(SCIP* s) { s->params.clear(); return SCIP_OKAY; }
SCIP_RETCODE SCIPresetParam(SCIP* s, const char* n) { s->params.erase(n); return SCIP_OKAY; }
SCIP_Real SCIPfrac(SCIP*, SCIP_Real v) { return v - std::floor(v + 1e-9); }
SCIP_Real SCIPfeasFrac(SCIP*, SCIP_Real v) { return v - std::floor(v + 1e-6); }
SCIP_Real SCIPsumepsilon(SCIP*) { return 1e-6; }
SCIP_Real SCIPdualfeastol(SCIP*) { return 1e-7; }
SCIP_Real SCIPrelDiff(SCIP_Real a, SCIP_Real b) { return (a - b) / std::max(1.0, std::max(std::fabs(a), std::fabs(b))); }
SCIP_Bool SCIPisRelEQ(SCIP*, SCIP_Real a, SCIP_Real b) { return std::fabs(SCIPrelDiff(a, b)) <= 1e-9; }
SCIP_Bool SCIPisRelLT(SCIP*, SCIP_Real a, SCIP_Real b) { return SCIPrelDiff(a, b) < -1e-9; }
SCIP_Bool SCIPisRelGT(SCIP*, SCIP_Real a, SCIP_Real b) { return SCIPrelDiff(a, b) > 1e-9; }
SCIP_Bool SCIPisSumEQ(SCIP*, SCIP_Real a, SCIP_Real b) { return std::fabs(a - b) <= 1e-6; }
SCIP_Bool SCIPisSumLT(SCIP*, SCIP_Real a, SCIP_Real b) { return a - b < -1e-6; }
SCIP_Bool SCIPisSumGT(SCIP*, SCIP_Real a, SCIP_Real b) { return a - b > 1e-6; }
SCIP_Bool SCIPisSumLE(SCIP*, SCIP_Real a, SCIP_Real b) { return a - b <= 1e-6; }
SCIP_Bool SCIPisSumGE(SCIP*, SCIP_Real a, SCIP_Real b) { return a - b >= -1e-6; }
SCIP_Bool SCIPisFracIntegral(SCIP*, SCIP_Real v) { return std::fabs(v - std::floor(v + 0.5)) <= 1e-9; }
SCIP_Bool SCIPisHugeValue(SCIP*, SCIP_Real v) { return v >= 1e15; }
SCIP_Bool SCIPisDualfeasZero(SCIP*, SCIP_Real v) { return std::fabs(v) <= 1e-7; }
SCIP_Real SCIPnodeGetEstimate(SCIP_NODE* n) { return n->lower; }
SCIP_RETCODE SCIPupdateNodeLowerbound(SCIP*, SCIP_NODE* n, SCIP_Real b) { n->lower = std::max(n->lower, b); return SCIP_OKAY; }
SCIP_RETCODE SCIPupdateLocalLowerbound(SCIP* s, SCIP_Real b) { if (s->cur) s->cur->lower = std::max(s->cur->lower, b); return SCIP_OKAY; }
SCIP_Bool SCIPsolIsOriginal(SCIP_SOL* x) { return x->orig; }
SCIP_RETCODE SCIPcreateSolCopy(SCIP* s, SCIP_SOL** x, SCIP_SOL* src) { SCIP_CALL(SCIPcreateSol(s, x, NULL)); **x = *src; return SCIP_OKAY; }
SCIP_RETCODE SCIPcreateLPSol(SCIP* s, SCIP_SOL** x, SCIP_HEUR* h) { SCIP_CALL(SCIPcreateSol(s, x, h)); (*x)->v = s->lpx; (*x)->v.resize(s->vars.size()); return SCIP_OKAY; }
SCIP_RETCODE SCIPcreateCurrentSol(SCIP* s, SCIP_SOL** x, SCIP_HEUR* h) { return SCIPcreateLPSol(s, x, h); }
SCIP_RETCODE SCIPsetSolVals(SCIP* s, SCIP_SOL* x, int n, SCIP_VAR** v, SCIP_Real* r) { for (int i = 0; i < n; i++) SCIP_CALL(SCIPsetSolVal(s, x, v[i], r[i])); return SCIP_OKAY; }
SCIP_Bool SCIPvarIsIntegral(SCIP_VAR* v) { return v->type != SCIP_VARTYPE_CONTINUOUS; }
SCIP_Bool SCIPvarIsBinary(SCIP_VAR* v) { return v->type == SCIP_VARTYPE_BINARY || (v->type == SCIP_VARTYPE_INTEGER && v->lb >= 0 && v->ub <= 1); }
SCIP_Bool SCIPvarIsActive(SCIP_VAR* v) { return v->trans; }
SCIP_Real SCIPgetVarSol(SCIP* s, SCIP_VAR* v) { return SCIPgetSolVal(s, NULL, v); }
SCIP_RETCODE SCIPgetVarSols(SCIP* s, int n, SCIP_VAR** v, SCIP_Real* r) { return SCIPgetSolVals(s, NULL, n, v, r); }
SCIP_RETCODE SCIPfixVar(SCIP* s, SCIP_VAR* v, SCIP_Real x, SCIP_Bool* inf, SCIP_Bool* fixed) { *inf = x < v->lb - 1e-9 || x > v->ub + 1e-9; *fixed = FALSE; if (*inf) return SCIP_OKAY; SCIP_CALL(SCIPchgVarLb(s, v, x)); SCIP_CALL(SCIPchgVarUb(s, v, x)); *fixed = TRUE; return SCIP_OKAY; }
SCIP_Real SCIPvarGetLbOriginal(SCIP_VAR* v) { return v->trans && v->other ? v->other->lb : v->lb; }
SCIP_Real SCIPvarGetUbOriginal(SCIP_VAR* v) { return v->trans && v->other ? v->other->ub : v->ub; }
SCIP_RETCODE SCIPgetLPBranchCands(SCIP* s, SCIP_VAR*** vars, SCIP_Real** sol, SCIP_Real** frac, int* n, int* nprio, int* nfracimpl) {
    static thread_local std::vector<SCIP_VAR*> V; static thread_local std::vector<double> X, F; V.clear(); X.clear(); F.clear();
    for (auto j : lpcands(s)) { V.push_back(s->tvars[j]); X.push_back(s->lpx[j]); F.push_back(s->lpx[j] - std::floor(s->lpx[j])); }
    if (vars) *vars = V.data(); if (sol) *sol = X.data(); if (frac) *frac = F.data(); if (n) *n = (int)V.size(); if (nprio) *nprio = (int)V.size(); if (nfracimpl) *nfracimpl = 0; return SCIP_OKAY; }
SCIP_VAR* SCIPfindVar(SCIP* s, const char* n) { for (auto* v : SCIPisTransformed(s) ? s->tvars : s->vars) if (v->name == n) return v; return NULL; }
SCIP_Real SCIProwGetLhs(SCIP_ROW* r) { return r->lhs; }
SCIP_Real SCIProwGetRhs(SCIP_ROW* r) { return r->rhs; }
int SCIProwGetNNonz(SCIP_ROW* r) { return (int)r->coefs.size(); }
SCIP_Bool SCIProwIsLocal(SCIP_ROW* r) { return r->local; }
SCIP_Bool SCIProwIsInLP(SCIP_ROW* r) { return r->inlp; }
SCIP_Real SCIPgetRowLPActivity(SCIP* s, SCIP_ROW* r) { return SCIPgetRowSolActivity(s, r, NULL); }
SCIP_Real SCIPgetRowLPFeasibility(SCIP* s, SCIP_ROW* r) { return SCIPgetRowSolFeasibility(s, r, NULL); }
SCIP_Real SCIPgetRowActivity(SCIP* s, SCIP_ROW* r) { return SCIPgetRowSolActivity(s, r, NULL); }
SCIP_Real SCIPgetRowFeasibility(SCIP* s, SCIP_ROW* r) { return SCIPgetRowSolFeasibility(s, r, NULL); }
SCIP_RETCODE SCIPchgRowRhs(SCIP*, SCIP_ROW* r, SCIP_Real v) { r->rhs = v; return SCIP_OKAY; }
SCIP_RETCODE SCIPchgRowLhs(SCIP*, SCIP_ROW* r, SCIP_Real v) { r->lhs = v; return SCIP_OKAY; }
SCIP_RETCODE SCIPcaptureRow(SCIP*, SCIP_ROW* r) { r->refs++; return SCIP_OKAY; }
int SCIPgetNCutsFoundRound(SCIP* s) { return (int)s->newcuts.size(); }
int SCIPgetNCutsFound(SCIP* s) { return s->rows_added; }
SCIP_RETCODE SCIPcreateEmptyRow(SCIP* s, SCIP_ROW** r, const char* n, SCIP_Real l, SCIP_Real u, SCIP_Bool lo, SCIP_Bool m, SCIP_Bool rem) { return SCIPcreateEmptyRowUnspec(s, r, n, l, u, lo, m, rem); }
SCIP_CONS* SCIPfindOrigCons(SCIP* s, const char* n) { for (auto* c : s->conss) if (c->name == n) return c; return NULL; }
SCIP_CONS* SCIPfindCons(SCIP* s, const char* n) { if (SCIPisTransformed(s)) for (auto* c : s->tconss) if (c->name == n) return c; return SCIPfindOrigCons(s, n); }
SCIP_Bool SCIPconsIsActive(SCIP_CONS* c) { return c->added && !c->deleted; }
SCIP_Bool SCIPconsIsDeleted(SCIP_CONS* c) { return c->deleted; }
SCIP_Bool SCIPconsIsOriginal(SCIP_CONS* c) { return !c->trans; }
SCIP_Bool SCIPconsIsTransformed(SCIP_CONS* c) { return c->trans; }
int SCIPgetNVarsLinear(SCIP*, SCIP_CONS* c) { return (int)c->vars.size(); }
SCIP_VAR** SCIPgetVarsLinear(SCIP*, SCIP_CONS* c) { return c->vars.data(); }
SCIP_Real* SCIPgetValsLinear(SCIP*, SCIP_CONS* c) { return c->vals.data(); }
SCIP_Real SCIPgetLhsLinear(SCIP*, SCIP_CONS* c) { return c->lhs; }
SCIP_Real SCIPgetRhsLinear(SCIP*, SCIP_CONS* c) { return c->rhs; }
int SCIPconshdlrGetSepaFreq(SCIP_CONSHDLR* h) { return h->obj->scip_sepafreq_; }
int SCIPconshdlrGetEnfoPriority(SCIP_CONSHDLR* h) { return h->obj->scip_enfopriority_; }
int SCIPconshdlrGetCheckPriority(SCIP_CONSHDLR* h) { return h->obj->scip_checkpriority_; }
int SCIPgetNConshdlrs(SCIP* s) { return (int)s->chdlrs.size(); }
SCIP_CONSHDLR** SCIPgetConshdlrs(SCIP* s) { return s->chdlrs.data(); }
int SCIPgetNEventhdlrs(SCIP* s) { return (int)s->ehdlrs.size(); }
SCIP_EVENTHDLR** SCIPgetEventhdlrs(SCIP* s) { return s->ehdlrs.data(); }
SCIP_RETCODE SCIPsetBranchruleMaxbounddist(SCIP*, SCIP_BRANCHRULE*, SCIP_Real) { return SCIP_OKAY; }
SCIP_Longint SCIPbranchruleGetNLPCalls(SCIP_BRANCHRULE*) { return 0; }
void SCIPverbMessage(SCIP*, int, FILE*, const char*, ...) {}
SCIP_RETCODE SCIPprintRow(SCIP*, SCIP_ROW*, FILE*) { return SCIP_OKAY; }
SCIP_RETCODE SCIPprintCons(SCIP*, SCIP_CONS*, FILE*) { return SCIP_OKAY; }
void SCIPprintVersion(SCIP*, FILE*) {}
SCIP_RETCODE SCIPprintOrigProblem(SCIP*, FILE*, const char*, SCIP_Bool) { return SCIP_OKAY; }
SCIP_RETCODE SCIPwriteTransProblem(SCIP*, const char*, const char*, SCIP_Bool) { return SCIP_OKAY; }
SCIP_RETCODE SCIPprintTransSol(SCIP* s, SCIP_SOL* x, FILE* f, SCIP_Bool z) { return SCIPprintSol(s, x, f, z); }
SCIP_RETCODE SCIPprintStatus(SCIP*, FILE*) { return SCIP_OKAY; }
int SCIPsnprintf(char* t, int n, const char* f, ...) { va_list a; va_start(a, f); int k = vsnprintf(t, (size_t)n, f, a); va_end(a); return k; }
int SCIPgetSubscipDepth(SCIP*) { return 0; }
SCIP_RETCODE SCIPgetVarsData(SCIP* s, SCIP_VAR*** v, int* n, int* nb, int* ni, int* nm, int* nc) {
    if (v) *v = SCIPgetVars(s); if (n) *n = SCIPgetNVars(s); int b = 0, i = 0, c = 0; for (auto* x : s->vars) (x->type == SCIP_VARTYPE_BINARY ? b : x->type == SCIP_VARTYPE_INTEGER ? i : c)++;
    if (nb) *nb = b; if (ni) *ni = i; if (nm) *nm = 0; if (nc) *nc = c; return SCIP_OKAY; }
