/* simscip: a deterministic simulated SCIP. Declares the part of the SCIP 8 C API that
 * PatrickOHara/pctsp uses (plus near neighbours, so that a refactoring which reaches for
 * another common SCIP call still compiles).  Every decision the real solver would make is
 * drawn from the simulator's decision stream; see simscip.h. */
#ifndef SIMSCIP_SCIP_H
#define SIMSCIP_SCIP_H
#include <cassert>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <map>
#include <list>
#include <set>
#include <string>

typedef unsigned int SCIP_Bool;
typedef double SCIP_Real;
typedef long long SCIP_Longint;
#ifndef TRUE
#define TRUE 1
#define FALSE 0
#endif
#define SCIP_VERSION 800
#define SCIP_VERSION_MAJOR 8
#define SCIP_MAXSTRLEN 1024
#define SCIP_INVALID 1e99
#define SCIP_DEFAULT_INFINITY 1e20

enum SCIP_Retcode {
    SCIP_OKAY = +1, SCIP_ERROR = 0, SCIP_NOMEMORY = -1, SCIP_READERROR = -2, SCIP_WRITEERROR = -3,
    SCIP_NOFILE = -4, SCIP_FILECREATEERROR = -5, SCIP_LPERROR = -6, SCIP_NOPROBLEM = -7,
    SCIP_INVALIDCALL = -8, SCIP_INVALIDDATA = -9, SCIP_INVALIDRESULT = -10, SCIP_PLUGINNOTFOUND = -11,
    SCIP_PARAMETERUNKNOWN = -12, SCIP_PARAMETERWRONGTYPE = -13, SCIP_PARAMETERWRONGVAL = -14,
    SCIP_KEYALREADYEXISTING = -15, SCIP_MAXDEPTHLEVEL = -16, SCIP_BRANCHERROR = -17, SCIP_NOTIMPLEMENTED = -18
};
typedef enum SCIP_Retcode SCIP_RETCODE;
enum SCIP_Result {
    SCIP_DIDNOTRUN = 1, SCIP_DELAYED = 2, SCIP_DIDNOTFIND = 3, SCIP_FEASIBLE = 4, SCIP_INFEASIBLE = 5,
    SCIP_UNBOUNDED = 6, SCIP_CUTOFF = 7, SCIP_SEPARATED = 8, SCIP_NEWROUND = 9, SCIP_REDUCEDDOM = 10,
    SCIP_CONSADDED = 11, SCIP_CONSCHANGED = 12, SCIP_BRANCHED = 13, SCIP_SOLVELP = 14, SCIP_FOUNDSOL = 15,
    SCIP_SUSPENDED = 16, SCIP_SUCCESS = 17, SCIP_DELAYNODE = 18
};
typedef enum SCIP_Result SCIP_RESULT;
enum SCIP_Status {
    SCIP_STATUS_UNKNOWN = 0, SCIP_STATUS_USERINTERRUPT = 1, SCIP_STATUS_NODELIMIT = 2, SCIP_STATUS_TOTALNODELIMIT = 3,
    SCIP_STATUS_STALLNODELIMIT = 4, SCIP_STATUS_TIMELIMIT = 5, SCIP_STATUS_MEMLIMIT = 6, SCIP_STATUS_GAPLIMIT = 7,
    SCIP_STATUS_SOLLIMIT = 8, SCIP_STATUS_BESTSOLLIMIT = 9, SCIP_STATUS_RESTARTLIMIT = 10, SCIP_STATUS_OPTIMAL = 11,
    SCIP_STATUS_INFEASIBLE = 12, SCIP_STATUS_UNBOUNDED = 13, SCIP_STATUS_INFORUNBD = 14, SCIP_STATUS_TERMINATE = 15
};
typedef enum SCIP_Status SCIP_STATUS;
enum SCIP_Stage {
    SCIP_STAGE_INIT = 0, SCIP_STAGE_PROBLEM = 1, SCIP_STAGE_TRANSFORMING = 2, SCIP_STAGE_TRANSFORMED = 3,
    SCIP_STAGE_INITPRESOLVE = 4, SCIP_STAGE_PRESOLVING = 5, SCIP_STAGE_EXITPRESOLVE = 6, SCIP_STAGE_PRESOLVED = 7,
    SCIP_STAGE_INITSOLVE = 8, SCIP_STAGE_SOLVING = 9, SCIP_STAGE_SOLVED = 10, SCIP_STAGE_EXITSOLVE = 11,
    SCIP_STAGE_FREETRANS = 12, SCIP_STAGE_FREE = 13
};
typedef enum SCIP_Stage SCIP_STAGE;
enum SCIP_Objsense { SCIP_OBJSENSE_MAXIMIZE = -1, SCIP_OBJSENSE_MINIMIZE = +1 };
typedef enum SCIP_Objsense SCIP_OBJSENSE;
enum SCIP_Vartype { SCIP_VARTYPE_BINARY = 0, SCIP_VARTYPE_INTEGER = 1, SCIP_VARTYPE_IMPLINT = 2, SCIP_VARTYPE_CONTINUOUS = 3 };
typedef enum SCIP_Vartype SCIP_VARTYPE;
enum SCIP_Varstatus {
    SCIP_VARSTATUS_ORIGINAL = 0, SCIP_VARSTATUS_LOOSE = 1, SCIP_VARSTATUS_COLUMN = 2, SCIP_VARSTATUS_FIXED = 3,
    SCIP_VARSTATUS_AGGREGATED = 4, SCIP_VARSTATUS_MULTAGGR = 5, SCIP_VARSTATUS_NEGATED = 6
};
typedef enum SCIP_Varstatus SCIP_VARSTATUS;
enum SCIP_LPSolStat {
    SCIP_LPSOLSTAT_NOTSOLVED = 0, SCIP_LPSOLSTAT_OPTIMAL = 1, SCIP_LPSOLSTAT_INFEASIBLE = 2, SCIP_LPSOLSTAT_UNBOUNDEDRAY = 3,
    SCIP_LPSOLSTAT_OBJLIMIT = 4, SCIP_LPSOLSTAT_ITERLIMIT = 5, SCIP_LPSOLSTAT_TIMELIMIT = 6, SCIP_LPSOLSTAT_ERROR = 7
};
typedef enum SCIP_LPSolStat SCIP_LPSOLSTAT;
enum SCIP_LockType { SCIP_LOCKTYPE_MODEL = 0, SCIP_LOCKTYPE_CONFLICT = 1 };
typedef enum SCIP_LockType SCIP_LOCKTYPE;
typedef unsigned int SCIP_PROPTIMING;
typedef unsigned int SCIP_PRESOLTIMING;
typedef unsigned int SCIP_HEURTIMING;
typedef unsigned long long SCIP_EVENTTYPE;
#define SCIP_PROPTIMING_BEFORELP 0x001u
#define SCIP_PROPTIMING_DURINGLPLOOP 0x002u
#define SCIP_PROPTIMING_AFTERLPLOOP 0x004u
#define SCIP_PROPTIMING_AFTERLPNODE 0x008u
#define SCIP_PRESOLTIMING_FAST 0x002u
#define SCIP_PRESOLTIMING_MEDIUM 0x004u
#define SCIP_PRESOLTIMING_EXHAUSTIVE 0x008u
#define SCIP_EVENTTYPE_DISABLED 0x0ull
#define SCIP_EVENTTYPE_NODEFOCUSED 0x00010000ull
#define SCIP_EVENTTYPE_NODEFEASIBLE 0x00020000ull
#define SCIP_EVENTTYPE_NODEINFEASIBLE 0x00040000ull
#define SCIP_EVENTTYPE_NODEBRANCHED 0x00080000ull
#define SCIP_EVENTTYPE_NODEDELETE 0x00100000ull
#define SCIP_EVENTTYPE_FIRSTLPSOLVED 0x00200000ull
#define SCIP_EVENTTYPE_LPSOLVED 0x00400000ull
#define SCIP_EVENTTYPE_POORSOLFOUND 0x00800000ull
#define SCIP_EVENTTYPE_BESTSOLFOUND 0x01000000ull
#define SCIP_EVENTTYPE_NODESOLVED (SCIP_EVENTTYPE_NODEFEASIBLE | SCIP_EVENTTYPE_NODEINFEASIBLE | SCIP_EVENTTYPE_NODEBRANCHED)
#define SCIP_EVENTTYPE_NODEEVENT (SCIP_EVENTTYPE_NODEFOCUSED | SCIP_EVENTTYPE_NODESOLVED)
#define SCIP_EVENTTYPE_LPEVENT (SCIP_EVENTTYPE_FIRSTLPSOLVED | SCIP_EVENTTYPE_LPSOLVED)
#define SCIP_EVENTTYPE_SOLFOUND (SCIP_EVENTTYPE_POORSOLFOUND | SCIP_EVENTTYPE_BESTSOLFOUND)
#define SCIP_EVENTTYPE_SOLEVENT SCIP_EVENTTYPE_SOLFOUND

typedef struct Scip SCIP;
typedef struct SCIP_Var SCIP_VAR;
typedef struct SCIP_VarData SCIP_VARDATA;
typedef struct SCIP_Cons SCIP_CONS;
typedef struct SCIP_ConsData SCIP_CONSDATA;
typedef struct SCIP_Conshdlr SCIP_CONSHDLR;
typedef struct SCIP_ConshdlrData SCIP_CONSHDLRDATA;
typedef struct SCIP_Sol SCIP_SOL;
typedef struct SCIP_Row SCIP_ROW;
typedef struct SCIP_Node SCIP_NODE;
typedef struct SCIP_Event SCIP_EVENT;
typedef struct SCIP_EventData SCIP_EVENTDATA;
typedef struct SCIP_Eventhdlr SCIP_EVENTHDLR;
typedef struct SCIP_EventhdlrData SCIP_EVENTHDLRDATA;
typedef struct SCIP_Branchrule SCIP_BRANCHRULE;
typedef struct SCIP_BranchruleData SCIP_BRANCHRULEDATA;
typedef struct SCIP_Heur SCIP_HEUR;
typedef struct SCIP_Messagehdlr SCIP_MESSAGEHDLR;
typedef struct SCIP_MessagehdlrData SCIP_MESSAGEHDLRDATA;
typedef struct SCIP_ProbData SCIP_PROBDATA;
typedef struct SCIP_HashMap SCIP_HASHMAP;
typedef struct SCIP_RandNumGen SCIP_RANDNUMGEN;
typedef struct SCIP_Nodesel SCIP_NODESEL;
typedef struct SCIP_Sepa SCIP_SEPA;

#define SCIP_DECL_VARDELORIG(x) SCIP_RETCODE x(SCIP* scip, SCIP_VAR* var, SCIP_VARDATA** vardata)
#define SCIP_DECL_VARTRANS(x) SCIP_RETCODE x(SCIP* scip, SCIP_VAR* sourcevar, SCIP_VARDATA* sourcedata, SCIP_VAR* targetvar, SCIP_VARDATA** targetdata)
#define SCIP_DECL_VARDELTRANS(x) SCIP_RETCODE x(SCIP* scip, SCIP_VAR* var, SCIP_VARDATA** vardata)
#define SCIP_DECL_VARCOPY(x) SCIP_RETCODE x(SCIP* scip, SCIP* sourcescip, SCIP_VAR* sourcevar, SCIP_VARDATA* sourcedata, SCIP_HASHMAP* varmap, SCIP_HASHMAP* consmap, SCIP_VAR* targetvar, SCIP_VARDATA** targetdata, SCIP_RESULT* result)

#define SCIP_DECL_CONSFREE(x) SCIP_RETCODE x(SCIP* scip, SCIP_CONSHDLR* conshdlr)
#define SCIP_DECL_CONSINIT(x) SCIP_RETCODE x(SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss)
#define SCIP_DECL_CONSEXIT(x) SCIP_RETCODE x(SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss)
#define SCIP_DECL_CONSINITSOL(x) SCIP_RETCODE x(SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss)
#define SCIP_DECL_CONSEXITSOL(x) SCIP_RETCODE x(SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss, SCIP_Bool restart)
#define SCIP_DECL_CONSDELETE(x) SCIP_RETCODE x(SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS* cons, SCIP_CONSDATA** consdata)
#define SCIP_DECL_CONSTRANS(x) SCIP_RETCODE x(SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS* sourcecons, SCIP_CONS** targetcons)
#define SCIP_DECL_CONSINITLP(x) SCIP_RETCODE x(SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss, SCIP_Bool* infeasible)
#define SCIP_DECL_CONSSEPALP(x) SCIP_RETCODE x(SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss, int nusefulconss, SCIP_RESULT* result)
#define SCIP_DECL_CONSSEPASOL(x) SCIP_RETCODE x(SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss, int nusefulconss, SCIP_SOL* sol, SCIP_RESULT* result)
#define SCIP_DECL_CONSENFOLP(x) SCIP_RETCODE x(SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss, int nusefulconss, SCIP_Bool solinfeasible, SCIP_RESULT* result)
#define SCIP_DECL_CONSENFOPS(x) SCIP_RETCODE x(SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss, int nusefulconss, SCIP_Bool solinfeasible, SCIP_Bool objinfeasible, SCIP_RESULT* result)
#define SCIP_DECL_CONSCHECK(x) SCIP_RETCODE x(SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss, SCIP_SOL* sol, SCIP_Bool checkintegrality, SCIP_Bool checklprows, SCIP_Bool printreason, SCIP_Bool completely, SCIP_RESULT* result)
#define SCIP_DECL_CONSPROP(x) SCIP_RETCODE x(SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss, int nusefulconss, int nmarkedconss, SCIP_PROPTIMING proptiming, SCIP_RESULT* result)
#define SCIP_DECL_CONSLOCK(x) SCIP_RETCODE x(SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS* cons, SCIP_LOCKTYPE locktype, int nlockspos, int nlocksneg)
#define SCIP_DECL_CONSPRINT(x) SCIP_RETCODE x(SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS* cons, FILE* file)

#define SCIP_DECL_EVENTFREE(x) SCIP_RETCODE x(SCIP* scip, SCIP_EVENTHDLR* eventhdlr)
#define SCIP_DECL_EVENTINIT(x) SCIP_RETCODE x(SCIP* scip, SCIP_EVENTHDLR* eventhdlr)
#define SCIP_DECL_EVENTEXIT(x) SCIP_RETCODE x(SCIP* scip, SCIP_EVENTHDLR* eventhdlr)
#define SCIP_DECL_EVENTINITSOL(x) SCIP_RETCODE x(SCIP* scip, SCIP_EVENTHDLR* eventhdlr)
#define SCIP_DECL_EVENTEXITSOL(x) SCIP_RETCODE x(SCIP* scip, SCIP_EVENTHDLR* eventhdlr)
#define SCIP_DECL_EVENTDELETE(x) SCIP_RETCODE x(SCIP* scip, SCIP_EVENTHDLR* eventhdlr, SCIP_EVENTDATA** eventdata)
#define SCIP_DECL_EVENTEXEC(x) SCIP_RETCODE x(SCIP* scip, SCIP_EVENTHDLR* eventhdlr, SCIP_EVENT* event, SCIP_EVENTDATA* eventdata)

#define SCIPerrorMessage(...) SCIPmessagePrintError(__VA_ARGS__)
#define SCIPdebugMsg(scip, ...) do { } while (0)
#define SCIPdebugMessage(...) do { } while (0)
#define SCIPdebug(x)
#define SCIP_CALL(x) do { SCIP_RETCODE _restat_; if ((_restat_ = (x)) != SCIP_OKAY) { return _restat_; } } while (0)
#define SCIP_CALL_ABORT(x) do { SCIP_RETCODE _restat_; if ((_restat_ = (x)) != SCIP_OKAY) { abort(); } } while (0)
#define SCIP_CALL_ABORT_QUIET(x) SCIP_CALL_ABORT(x)
#define SCIP_CALL_TERMINATE(r, x, T) do { if (((r) = (x)) != SCIP_OKAY) { goto T; } } while (0)
#define SCIP_UNUSED(x) ((void)(x))
#define BMScheckEmptyMemory() do { } while (0)

void SCIPmessagePrintError(const char* formatstr, ...);
void SCIPprintError(SCIP_RETCODE retcode);
SCIP_RETCODE SCIPcreate(SCIP** scip);
SCIP_RETCODE SCIPfree(SCIP** scip);
SCIP_STAGE SCIPgetStage(SCIP* scip);
SCIP_STATUS SCIPgetStatus(SCIP* scip);
SCIP_RETCODE SCIPcreateProbBasic(SCIP* scip, const char* name);
SCIP_RETCODE SCIPfreeProb(SCIP* scip);
SCIP_RETCODE SCIPfreeTransform(SCIP* scip);
SCIP_RETCODE SCIPtransformProb(SCIP* scip);
SCIP_RETCODE SCIPpresolve(SCIP* scip);
SCIP_RETCODE SCIPsolve(SCIP* scip);
SCIP_RETCODE SCIPinterruptSolve(SCIP* scip);
SCIP_RETCODE SCIPsetObjsense(SCIP* scip, SCIP_OBJSENSE objsense);
SCIP_RETCODE SCIPsetObjlimit(SCIP*, SCIP_Real); SCIP_Real SCIPgetObjlimit(SCIP*);
SCIP_RETCODE SCIPsetObjIntegral(SCIP* scip);
SCIP_OBJSENSE SCIPgetObjsense(SCIP* scip);
const char* SCIPgetProbName(SCIP* scip);

SCIP_RETCODE SCIPsetIntParam(SCIP* scip, const char* name, int value);
SCIP_RETCODE SCIPsetRealParam(SCIP* scip, const char* name, SCIP_Real value);
SCIP_RETCODE SCIPsetBoolParam(SCIP* scip, const char* name, SCIP_Bool value);
SCIP_RETCODE SCIPsetLongintParam(SCIP* scip, const char* name, SCIP_Longint value);
SCIP_RETCODE SCIPsetCharParam(SCIP* scip, const char* name, char value);
SCIP_RETCODE SCIPsetStringParam(SCIP* scip, const char* name, const char* value);
SCIP_RETCODE SCIPgetRealParam(SCIP* scip, const char* name, SCIP_Real* value);
SCIP_RETCODE SCIPgetIntParam(SCIP* scip, const char* name, int* value);

SCIP_RETCODE SCIPcreateVar(SCIP* scip, SCIP_VAR** var, const char* name, SCIP_Real lb, SCIP_Real ub, SCIP_Real obj, SCIP_VARTYPE vartype, SCIP_Bool initial, SCIP_Bool removable, SCIP_DECL_VARDELORIG((*vardelorig)), SCIP_DECL_VARTRANS((*vartrans)), SCIP_DECL_VARDELTRANS((*vardeltrans)), SCIP_DECL_VARCOPY((*varcopy)), SCIP_VARDATA* vardata);
SCIP_RETCODE SCIPcreateVarBasic(SCIP* scip, SCIP_VAR** var, const char* name, SCIP_Real lb, SCIP_Real ub, SCIP_Real obj, SCIP_VARTYPE vartype);
SCIP_RETCODE SCIPaddVar(SCIP* scip, SCIP_VAR* var);
SCIP_RETCODE SCIPreleaseVar(SCIP* scip, SCIP_VAR** var);
SCIP_RETCODE SCIPcaptureVar(SCIP* scip, SCIP_VAR* var);
SCIP_VAR** SCIPgetVars(SCIP* scip);
int SCIPgetNVars(SCIP* scip);
SCIP_VAR** SCIPgetOrigVars(SCIP* scip);
int SCIPgetNOrigVars(SCIP* scip);
SCIP_RETCODE SCIPgetTransformedVar(SCIP* scip, SCIP_VAR* var, SCIP_VAR** transvar);
SCIP_RETCODE SCIPgetTransformedVars(SCIP* scip, int nvars, SCIP_VAR** vars, SCIP_VAR** transvars);
const char* SCIPvarGetName(SCIP_VAR* var);
SCIP_VARSTATUS SCIPvarGetStatus(SCIP_VAR* var);
SCIP_Real SCIPvarGetObj(SCIP_VAR* var);
int SCIPvarGetIndex(SCIP_VAR* var);
int SCIPvarGetProbindex(SCIP_VAR* var);
SCIP_Bool SCIPvarIsOriginal(SCIP_VAR* var);
SCIP_Bool SCIPvarIsTransformed(SCIP_VAR* var);
SCIP_VARTYPE SCIPvarGetType(SCIP_VAR* var);
SCIP_Real SCIPvarGetLbLocal(SCIP_VAR* var);
SCIP_Real SCIPvarGetUbLocal(SCIP_VAR* var);
SCIP_Real SCIPvarGetLbGlobal(SCIP_VAR* var);
SCIP_Real SCIPvarGetUbGlobal(SCIP_VAR* var);
SCIP_Real SCIPvarGetLPSol(SCIP_VAR* var);
SCIP_RETCODE SCIPchgVarUb(SCIP*, SCIP_VAR*, SCIP_Real); SCIP_RETCODE SCIPchgVarLb(SCIP*, SCIP_VAR*, SCIP_Real); SCIP_RETCODE SCIPchgVarUbGlobal(SCIP*, SCIP_VAR*, SCIP_Real); SCIP_RETCODE SCIPchgVarLbGlobal(SCIP*, SCIP_VAR*, SCIP_Real);
SCIP_RETCODE SCIPaddCut(SCIP*, SCIP_SOL*, SCIP_ROW*, SCIP_Bool, SCIP_Bool*);
SCIP_RETCODE SCIPaddVarLocks(SCIP* scip, SCIP_VAR* var, int nlocksdown, int nlocksup);

SCIP_RETCODE SCIPcreateCons(SCIP* scip, SCIP_CONS** cons, const char* name, SCIP_CONSHDLR* conshdlr, SCIP_CONSDATA* consdata, SCIP_Bool initial, SCIP_Bool separate, SCIP_Bool enforce, SCIP_Bool check, SCIP_Bool propagate, SCIP_Bool local, SCIP_Bool modifiable, SCIP_Bool dynamic, SCIP_Bool removable, SCIP_Bool stickingatnode);
SCIP_RETCODE SCIPaddCons(SCIP* scip, SCIP_CONS* cons);
SCIP_RETCODE SCIPaddConsLocal(SCIP* scip, SCIP_CONS* cons, SCIP_NODE* validnode);
SCIP_RETCODE SCIPaddConsNode(SCIP* scip, SCIP_NODE* node, SCIP_CONS* cons, SCIP_NODE* validnode);
SCIP_RETCODE SCIPreleaseCons(SCIP* scip, SCIP_CONS** cons);
SCIP_RETCODE SCIPcaptureCons(SCIP* scip, SCIP_CONS* cons);
SCIP_RETCODE SCIPdelCons(SCIP* scip, SCIP_CONS* cons);
int SCIPgetNConss(SCIP* scip);
int SCIPgetNOrigConss(SCIP* scip);
SCIP_CONS** SCIPgetConss(SCIP* scip);
SCIP_CONS** SCIPgetOrigConss(SCIP* scip);
const char* SCIPconsGetName(SCIP_CONS* cons);
SCIP_CONSHDLR* SCIPconsGetHdlr(SCIP_CONS* cons);
SCIP_CONSDATA* SCIPconsGetData(SCIP_CONS* cons);
SCIP_Bool SCIPconsIsInitial(SCIP_CONS* cons);
SCIP_Bool SCIPconsIsSeparated(SCIP_CONS* cons);
SCIP_Bool SCIPconsIsEnforced(SCIP_CONS* cons);
SCIP_Bool SCIPconsIsChecked(SCIP_CONS* cons);
SCIP_Bool SCIPconsIsPropagated(SCIP_CONS* cons);
SCIP_Bool SCIPconsIsLocal(SCIP_CONS* cons);
SCIP_Bool SCIPconsIsModifiable(SCIP_CONS* cons);
SCIP_Bool SCIPconsIsDynamic(SCIP_CONS* cons);
SCIP_Bool SCIPconsIsRemovable(SCIP_CONS* cons);
SCIP_Bool SCIPconsIsStickingAtNode(SCIP_CONS* cons);
SCIP_RETCODE SCIPgetConsNVars(SCIP* scip, SCIP_CONS* cons, int* nvars, SCIP_Bool* success);
SCIP_RETCODE SCIPgetConsVars(SCIP* scip, SCIP_CONS* cons, SCIP_VAR** vars, int varssize, SCIP_Bool* success);
SCIP_Real SCIPconsGetLhs(SCIP* scip, SCIP_CONS* cons, SCIP_Bool* success);
SCIP_Real SCIPconsGetRhs(SCIP* scip, SCIP_CONS* cons, SCIP_Bool* success);
SCIP_CONSHDLR* SCIPfindConshdlr(SCIP* scip, const char* name);
const char* SCIPconshdlrGetName(SCIP_CONSHDLR* conshdlr);
int SCIPconshdlrGetNConss(SCIP_CONSHDLR* conshdlr);

SCIP_RETCODE SCIPcreateConsLinear(SCIP* scip, SCIP_CONS** cons, const char* name, int nvars, SCIP_VAR** vars, SCIP_Real* vals, SCIP_Real lhs, SCIP_Real rhs, SCIP_Bool initial, SCIP_Bool separate, SCIP_Bool enforce, SCIP_Bool check, SCIP_Bool propagate, SCIP_Bool local, SCIP_Bool modifiable, SCIP_Bool dynamic, SCIP_Bool removable, SCIP_Bool stickingatnode);
SCIP_RETCODE SCIPcreateConsBasicLinear(SCIP* scip, SCIP_CONS** cons, const char* name, int nvars, SCIP_VAR** vars, SCIP_Real* vals, SCIP_Real lhs, SCIP_Real rhs);
SCIP_RETCODE SCIPaddCoefLinear(SCIP* scip, SCIP_CONS* cons, SCIP_VAR* var, SCIP_Real val);
SCIP_RETCODE SCIPchgRhsLinear(SCIP* scip, SCIP_CONS* cons, SCIP_Real rhs);
SCIP_RETCODE SCIPchgLhsLinear(SCIP* scip, SCIP_CONS* cons, SCIP_Real lhs);
SCIP_RETCODE SCIPcreateConsBasicKnapsack(SCIP* scip, SCIP_CONS** cons, const char* name, int nvars, SCIP_VAR** vars, SCIP_Longint* weights, SCIP_Longint capacity);

SCIP_RETCODE SCIPcreateEmptyRowConshdlr(SCIP* scip, SCIP_ROW** row, SCIP_CONSHDLR* conshdlr, const char* name, SCIP_Real lhs, SCIP_Real rhs, SCIP_Bool local, SCIP_Bool modifiable, SCIP_Bool removable);
SCIP_RETCODE SCIPcreateEmptyRowCons(SCIP* scip, SCIP_ROW** row, SCIP_CONS* cons, const char* name, SCIP_Real lhs, SCIP_Real rhs, SCIP_Bool local, SCIP_Bool modifiable, SCIP_Bool removable);
SCIP_RETCODE SCIPcreateEmptyRowUnspec(SCIP* scip, SCIP_ROW** row, const char* name, SCIP_Real lhs, SCIP_Real rhs, SCIP_Bool local, SCIP_Bool modifiable, SCIP_Bool removable);
SCIP_RETCODE SCIPcacheRowExtensions(SCIP* scip, SCIP_ROW* row);
SCIP_RETCODE SCIPflushRowExtensions(SCIP* scip, SCIP_ROW* row);
SCIP_RETCODE SCIPaddVarToRow(SCIP* scip, SCIP_ROW* row, SCIP_VAR* var, SCIP_Real val);
SCIP_RETCODE SCIPaddVarsToRow(SCIP* scip, SCIP_ROW* row, int nvars, SCIP_VAR** vars, SCIP_Real* vals);
SCIP_RETCODE SCIPaddVarsToRowSameCoef(SCIP* scip, SCIP_ROW* row, int nvars, SCIP_VAR** vars, SCIP_Real val);
SCIP_RETCODE SCIPreleaseRow(SCIP* scip, SCIP_ROW** row);
SCIP_RETCODE SCIPaddRow(SCIP* scip, SCIP_ROW* row, SCIP_Bool forcecut, SCIP_Bool* infeasible);
SCIP_RETCODE SCIPaddPoolCut(SCIP* scip, SCIP_ROW* row);
SCIP_Bool SCIPisCutEfficacious(SCIP* scip, SCIP_SOL* sol, SCIP_ROW* cut);
SCIP_Real SCIPgetCutEfficacy(SCIP* scip, SCIP_SOL* sol, SCIP_ROW* cut);
SCIP_Bool SCIPisEfficacious(SCIP* scip, SCIP_Real efficacy);
SCIP_Real SCIPgetRowSolFeasibility(SCIP* scip, SCIP_ROW* row, SCIP_SOL* sol);
SCIP_Real SCIPgetRowSolActivity(SCIP* scip, SCIP_ROW* row, SCIP_SOL* sol);
const char* SCIProwGetName(SCIP_ROW* row);
int SCIPgetNCuts(SCIP* scip);
int SCIPgetNCutsApplied(SCIP* scip);

SCIP_RETCODE SCIPcreateSol(SCIP* scip, SCIP_SOL** sol, SCIP_HEUR* heur);
SCIP_RETCODE SCIPcreatePartialSol(SCIP* scip, SCIP_SOL** sol, SCIP_HEUR* heur);
SCIP_RETCODE SCIPcreateOrigSol(SCIP* scip, SCIP_SOL** sol, SCIP_HEUR* heur);
SCIP_RETCODE SCIPfreeSol(SCIP* scip, SCIP_SOL** sol);
SCIP_RETCODE SCIPsetSolVal(SCIP* scip, SCIP_SOL* sol, SCIP_VAR* var, SCIP_Real val);
SCIP_Real SCIPgetSolVal(SCIP* scip, SCIP_SOL* sol, SCIP_VAR* var);
SCIP_RETCODE SCIPgetSolVals(SCIP* scip, SCIP_SOL* sol, int nvars, SCIP_VAR** vars, SCIP_Real* vals);
SCIP_RETCODE SCIPaddSol(SCIP* scip, SCIP_SOL* sol, SCIP_Bool* stored);
SCIP_RETCODE SCIPaddSolFree(SCIP* scip, SCIP_SOL** sol, SCIP_Bool* stored);
SCIP_RETCODE SCIPtrySol(SCIP* scip, SCIP_SOL* sol, SCIP_Bool printreason, SCIP_Bool completely, SCIP_Bool checkbounds, SCIP_Bool checkintegrality, SCIP_Bool checklprows, SCIP_Bool* stored);
SCIP_RETCODE SCIPtrySolFree(SCIP* scip, SCIP_SOL** sol, SCIP_Bool printreason, SCIP_Bool completely, SCIP_Bool checkbounds, SCIP_Bool checkintegrality, SCIP_Bool checklprows, SCIP_Bool* stored);
SCIP_SOL* SCIPgetBestSol(SCIP* scip);
SCIP_SOL** SCIPgetSols(SCIP* scip);
int SCIPgetNSols(SCIP* scip);
SCIP_Real SCIPgetSolOrigObj(SCIP* scip, SCIP_SOL* sol);
SCIP_Real SCIPgetSolTransObj(SCIP* scip, SCIP_SOL* sol);
SCIP_Real SCIPretransformObj(SCIP* scip, SCIP_Real obj);
SCIP_Real SCIPtransformObj(SCIP* scip, SCIP_Real obj);

SCIP_NODE* SCIPgetCurrentNode(SCIP* scip);
SCIP_NODE* SCIPgetFocusNode(SCIP* scip);
SCIP_NODE* SCIPgetRootNode(SCIP* scip);
int SCIPgetDepth(SCIP* scip);
SCIP_Longint SCIPnodeGetNumber(SCIP_NODE* node);
int SCIPnodeGetDepth(SCIP_NODE* node);
SCIP_Real SCIPnodeGetLowerbound(SCIP_NODE* node);
SCIP_NODE* SCIPnodeGetParent(SCIP_NODE* node);
SCIP_RETCODE SCIPgetChildren(SCIP* scip, SCIP_NODE*** children, int* nchildren);
int SCIPgetNChildren(SCIP* scip);
SCIP_RETCODE SCIPbranchLP(SCIP* scip, SCIP_RESULT* result);
SCIP_RETCODE SCIPbranchPseudo(SCIP* scip, SCIP_RESULT* result);
SCIP_RETCODE SCIPbranchVar(SCIP* scip, SCIP_VAR* var, SCIP_NODE** downchild, SCIP_NODE** eqchild, SCIP_NODE** upchild);
SCIP_RETCODE SCIPcutoffNode(SCIP* scip, SCIP_NODE* node);
int SCIPgetNLPBranchCands(SCIP* scip);

SCIP_Real SCIPgetLowerbound(SCIP* scip);
SCIP_Real SCIPgetUpperbound(SCIP* scip);
SCIP_Real SCIPgetCutoffbound(SCIP* scip);
SCIP_Real SCIPgetPrimalbound(SCIP* scip);
SCIP_Real SCIPgetDualbound(SCIP* scip);
SCIP_Real SCIPgetGap(SCIP* scip);
SCIP_Real SCIPcomputeGap(SCIP_Real eps, SCIP_Real inf, SCIP_Real primalbound, SCIP_Real dualbound);
SCIP_Longint SCIPgetNNodes(SCIP* scip);
SCIP_Longint SCIPgetNTotalNodes(SCIP* scip);
SCIP_Longint SCIPgetNLPs(SCIP* scip);
SCIP_Real SCIPgetSolvingTime(SCIP* scip);
SCIP_Real SCIPgetTotalTime(SCIP* scip);
SCIP_LPSOLSTAT SCIPgetLPSolstat(SCIP* scip);
SCIP_Real SCIPgetLPObjval(SCIP* scip);
SCIP_Bool SCIPhasCurrentNodeLP(SCIP* scip);
SCIP_Bool SCIPisTransformed(SCIP* scip);
SCIP_Bool SCIPinProbing(SCIP* scip);
SCIP_Bool SCIPinDive(SCIP* scip);
SCIP_RETCODE SCIPprintStatistics(SCIP* scip, FILE* file);
SCIP_RETCODE SCIPprintBestSol(SCIP* scip, FILE* file, SCIP_Bool printzeros);
SCIP_RETCODE SCIPprintSol(SCIP* scip, SCIP_SOL* sol, FILE* file, SCIP_Bool printzeros);
SCIP_RETCODE SCIPwriteOrigProblem(SCIP* scip, const char* filename, const char* extension, SCIP_Bool genericnames);

SCIP_Real SCIPinfinity(SCIP* scip);
SCIP_Real SCIPepsilon(SCIP* scip);
SCIP_Real SCIPfeastol(SCIP* scip);
SCIP_Bool SCIPisInfinity(SCIP* scip, SCIP_Real v);
SCIP_Bool SCIPisZero(SCIP* scip, SCIP_Real v);
SCIP_Bool SCIPisPositive(SCIP* scip, SCIP_Real v);
SCIP_Bool SCIPisNegative(SCIP* scip, SCIP_Real v);
SCIP_Bool SCIPisIntegral(SCIP* scip, SCIP_Real v);
SCIP_Bool SCIPisEQ(SCIP* scip, SCIP_Real a, SCIP_Real b);
SCIP_Bool SCIPisLT(SCIP* scip, SCIP_Real a, SCIP_Real b);
SCIP_Bool SCIPisLE(SCIP* scip, SCIP_Real a, SCIP_Real b);
SCIP_Bool SCIPisGT(SCIP* scip, SCIP_Real a, SCIP_Real b);
SCIP_Bool SCIPisGE(SCIP* scip, SCIP_Real a, SCIP_Real b);
SCIP_Bool SCIPisFeasEQ(SCIP* scip, SCIP_Real a, SCIP_Real b);
SCIP_Bool SCIPisFeasLT(SCIP* scip, SCIP_Real a, SCIP_Real b);
SCIP_Bool SCIPisFeasLE(SCIP* scip, SCIP_Real a, SCIP_Real b);
SCIP_Bool SCIPisFeasGT(SCIP* scip, SCIP_Real a, SCIP_Real b);
SCIP_Bool SCIPisFeasGE(SCIP* scip, SCIP_Real a, SCIP_Real b);
SCIP_Bool SCIPisFeasZero(SCIP* scip, SCIP_Real v);
SCIP_Bool SCIPisFeasPositive(SCIP* scip, SCIP_Real v);
SCIP_Bool SCIPisFeasNegative(SCIP* scip, SCIP_Real v);
SCIP_Bool SCIPisFeasIntegral(SCIP* scip, SCIP_Real v);
SCIP_Real SCIPfloor(SCIP* scip, SCIP_Real v);
SCIP_Real SCIPceil(SCIP* scip, SCIP_Real v);
SCIP_Real SCIPround(SCIP* scip, SCIP_Real v);
SCIP_Real SCIPfeasFloor(SCIP* scip, SCIP_Real v);
SCIP_Real SCIPfeasCeil(SCIP* scip, SCIP_Real v);
SCIP_Real SCIPfeasRound(SCIP* scip, SCIP_Real v);

SCIP_RETCODE SCIPcatchEvent(SCIP* scip, SCIP_EVENTTYPE eventtype, SCIP_EVENTHDLR* eventhdlr, SCIP_EVENTDATA* eventdata, int* filterpos);
SCIP_RETCODE SCIPdropEvent(SCIP* scip, SCIP_EVENTTYPE eventtype, SCIP_EVENTHDLR* eventhdlr, SCIP_EVENTDATA* eventdata, int filterpos);
SCIP_EVENTTYPE SCIPeventGetType(SCIP_EVENT* event);
SCIP_NODE* SCIPeventGetNode(SCIP_EVENT* event);
SCIP_SOL* SCIPeventGetSol(SCIP_EVENT* event);
const char* SCIPeventhdlrGetName(SCIP_EVENTHDLR* eventhdlr);
SCIP_EVENTHDLR* SCIPfindEventhdlr(SCIP* scip, const char* name);

SCIP_BRANCHRULE* SCIPfindBranchrule(SCIP* scip, const char* name);
SCIP_BRANCHRULE** SCIPgetBranchrules(SCIP* scip);
int SCIPgetNBranchrules(SCIP* scip);
const char* SCIPbranchruleGetName(SCIP_BRANCHRULE* branchrule);
int SCIPbranchruleGetPriority(SCIP_BRANCHRULE* branchrule);
int SCIPbranchruleGetMaxdepth(SCIP_BRANCHRULE* branchrule);
SCIP_BRANCHRULEDATA* SCIPbranchruleGetData(SCIP_BRANCHRULE* branchrule);
SCIP_RETCODE SCIPsetBranchrulePriority(SCIP* scip, SCIP_BRANCHRULE* branchrule, int priority);
SCIP_RETCODE SCIPsetBranchruleMaxdepth(SCIP* scip, SCIP_BRANCHRULE* branchrule, int maxdepth);
SCIP_RETCODE SCIPincludeBranchruleFullstrong(SCIP* scip);
SCIP_RETCODE SCIPincludeBranchruleRelpscost(SCIP* scip);
SCIP_RETCODE SCIPincludeBranchruleMostinf(SCIP* scip);
SCIP_RETCODE SCIPincludeBranchruleLeastinf(SCIP* scip);
SCIP_RETCODE SCIPincludeBranchrulePscost(SCIP* scip);
SCIP_RETCODE SCIPincludeBranchruleRandom(SCIP* scip);
SCIP_RETCODE SCIPincludeConshdlrLinear(SCIP* scip);
SCIP_RETCODE SCIPincludeConshdlrIntegral(SCIP* scip);
SCIP_RETCODE SCIPincludeConshdlrKnapsack(SCIP* scip);
SCIP_RETCODE SCIPincludeConshdlrVarbound(SCIP* scip);
SCIP_RETCODE SCIPincludeConshdlrLogicor(SCIP* scip);
SCIP_RETCODE SCIPincludeConshdlrSetppc(SCIP* scip);
SCIP_RETCODE SCIPincludeNodeselBfs(SCIP* scip);
SCIP_RETCODE SCIPincludeNodeselBreadthfirst(SCIP* scip);
SCIP_RETCODE SCIPincludeNodeselDfs(SCIP* scip);
SCIP_RETCODE SCIPincludeNodeselEstimate(SCIP* scip);
SCIP_RETCODE SCIPincludeNodeselHybridestim(SCIP* scip);
SCIP_RETCODE SCIPincludeSepaGomory(SCIP* scip);
SCIP_RETCODE SCIPincludeSepaZerohalf(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurFeaspump(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurDps(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurRounding(SCIP* scip);
SCIP_RETCODE SCIPincludeDefaultPlugins(SCIP* scip);

SCIP_RETCODE SCIPcreateMessagehdlrDefault(SCIP_MESSAGEHDLR** messagehdlr, SCIP_Bool bufferedoutput, const char* filename, SCIP_Bool quiet);
SCIP_RETCODE SCIPsetMessagehdlr(SCIP* scip, SCIP_MESSAGEHDLR* messagehdlr);
SCIP_MESSAGEHDLR* SCIPgetMessagehdlr(SCIP* scip);
SCIP_RETCODE SCIPmessagehdlrRelease(SCIP_MESSAGEHDLR** messagehdlr);
void SCIPmessagehdlrSetQuiet(SCIP_MESSAGEHDLR* messagehdlr, SCIP_Bool quiet);
void SCIPsetMessagehdlrQuiet(SCIP* scip, SCIP_Bool quiet);
void SCIPinfoMessage(SCIP* scip, FILE* file, const char* formatstr, ...);
void SCIPwarningMessage(SCIP* scip, const char* formatstr, ...);
unsigned int SCIPinitializeRandomSeed(SCIP* scip, unsigned int initialseedvalue);
#include "scip/more.h"
#endif
