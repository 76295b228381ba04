/* further calls of SCIP's public interface, answered from the same simulated state */
#ifndef SIMSCIP_MORE_H
#define SIMSCIP_MORE_H
#include <cstdlib>
#include <cstring>
SCIP_Longint SCIPgetNSolsFound(SCIP*); SCIP_Longint SCIPgetNLimSolsFound(SCIP*); SCIP_Longint SCIPgetNBestSolsFound(SCIP*);
int SCIPgetNNodesLeft(SCIP*); int SCIPgetNLeaves(SCIP*); int SCIPgetNSiblings(SCIP*); int SCIPgetMaxDepth(SCIP*); int SCIPgetMaxTotalDepth(SCIP*); int SCIPgetPlungeDepth(SCIP*); int SCIPgetFocusDepth(SCIP*); int SCIPgetNRuns(SCIP*); int SCIPgetNSepaRounds(SCIP*);
int SCIPgetNLPRows(SCIP*); int SCIPgetNLPCols(SCIP*); SCIP_ROW** SCIPgetLPRows(SCIP*); SCIP_Longint SCIPgetNLPIterations(SCIP*); SCIP_Bool SCIPisLPSolBasic(SCIP*); int SCIPgetNBinVars(SCIP*); int SCIPgetNIntVars(SCIP*);
SCIP_Real SCIPgetTransGap(SCIP*); SCIP_Real SCIPgetLocalLowerbound(SCIP*); SCIP_Real SCIPgetLocalDualbound(SCIP*); SCIP_Real SCIPgetNodeLowerbound(SCIP*, SCIP_NODE*); SCIP_Real SCIPgetNodeDualbound(SCIP*, SCIP_NODE*); SCIP_Real SCIPgetLocalOrigEstimate(SCIP*); SCIP_Real SCIPgetLocalTransEstimate(SCIP*); SCIP_Real SCIPgetDualboundRoot(SCIP*); SCIP_Real SCIPgetLowerboundRoot(SCIP*); SCIP_Real SCIPgetAvgDualbound(SCIP*); SCIP_Real SCIPgetAvgLowerbound(SCIP*);
SCIP_Real SCIPgetPresolvingTime(SCIP*); SCIP_Real SCIPgetReadingTime(SCIP*); SCIP_Bool SCIPisStopped(SCIP*); SCIP_Bool SCIPpressedCtrlC(SCIP*); SCIP_Bool SCIPisPresolveFinished(SCIP*); SCIP_Bool SCIPisObjIntegral(SCIP*); SCIP_Real SCIPgetTransObjscale(SCIP*); SCIP_Real SCIPgetOrigObjscale(SCIP*); SCIP_Real SCIPgetTransObjoffset(SCIP*); SCIP_Real SCIPgetOrigObjoffset(SCIP*);
SCIP_RETCODE SCIPgetBoolParam(SCIP*, const char*, SCIP_Bool*); SCIP_RETCODE SCIPgetLongintParam(SCIP*, const char*, SCIP_Longint*);
enum SCIP_ParamSetting { SCIP_PARAMSETTING_DEFAULT = 0, SCIP_PARAMSETTING_AGGRESSIVE = 1, SCIP_PARAMSETTING_FAST = 2, SCIP_PARAMSETTING_OFF = 3 }; typedef enum SCIP_ParamSetting SCIP_PARAMSETTING;
SCIP_RETCODE SCIPsetPresolving(SCIP*, SCIP_PARAMSETTING, SCIP_Bool); SCIP_RETCODE SCIPsetHeuristics(SCIP*, SCIP_PARAMSETTING, SCIP_Bool); SCIP_RETCODE SCIPsetSeparating(SCIP*, SCIP_PARAMSETTING, SCIP_Bool); SCIP_RETCODE SCIPresetParams(SCIP*); SCIP_RETCODE SCIPresetParam(SCIP*, const char*);
SCIP_Real SCIPfrac(SCIP*, SCIP_Real); SCIP_Real SCIPfeasFrac(SCIP*, SCIP_Real); SCIP_Real SCIPsumepsilon(SCIP*); SCIP_Real SCIPdualfeastol(SCIP*); SCIP_Bool SCIPisRelEQ(SCIP*, SCIP_Real, SCIP_Real); SCIP_Bool SCIPisRelLT(SCIP*, SCIP_Real, SCIP_Real); SCIP_Bool SCIPisRelGT(SCIP*, SCIP_Real, SCIP_Real); SCIP_Bool SCIPisSumEQ(SCIP*, SCIP_Real, SCIP_Real); SCIP_Bool SCIPisSumLT(SCIP*, SCIP_Real, SCIP_Real); SCIP_Bool SCIPisSumGT(SCIP*, SCIP_Real, SCIP_Real); SCIP_Bool SCIPisSumLE(SCIP*, SCIP_Real, SCIP_Real); SCIP_Bool SCIPisSumGE(SCIP*, SCIP_Real, SCIP_Real); SCIP_Bool SCIPisFracIntegral(SCIP*, SCIP_Real); SCIP_Bool SCIPisHugeValue(SCIP*, SCIP_Real); SCIP_Real SCIPrelDiff(SCIP_Real, SCIP_Real); SCIP_Bool SCIPisDualfeasZero(SCIP*, SCIP_Real);
enum SCIP_NodeType { SCIP_NODETYPE_FOCUSNODE = 0, SCIP_NODETYPE_PROBINGNODE = 1, SCIP_NODETYPE_SIBLING = 2, SCIP_NODETYPE_CHILD = 3, SCIP_NODETYPE_LEAF = 4 }; typedef enum SCIP_NodeType SCIP_NODETYPE;
SCIP_Real SCIPnodeGetEstimate(SCIP_NODE*); SCIP_RETCODE SCIPupdateNodeLowerbound(SCIP*, SCIP_NODE*, SCIP_Real); SCIP_RETCODE SCIPupdateLocalLowerbound(SCIP*, SCIP_Real);
SCIP_Bool SCIPsolIsOriginal(SCIP_SOL*); SCIP_RETCODE SCIPcreateSolCopy(SCIP*, SCIP_SOL**, SCIP_SOL*); SCIP_RETCODE SCIPcreateLPSol(SCIP*, SCIP_SOL**, SCIP_HEUR*); SCIP_RETCODE SCIPcreateCurrentSol(SCIP*, SCIP_SOL**, SCIP_HEUR*); SCIP_RETCODE SCIPsetSolVals(SCIP*, SCIP_SOL*, int, SCIP_VAR**, SCIP_Real*);
SCIP_Bool SCIPvarIsIntegral(SCIP_VAR*); SCIP_Bool SCIPvarIsBinary(SCIP_VAR*); SCIP_Bool SCIPvarIsActive(SCIP_VAR*); SCIP_Real SCIPgetVarSol(SCIP*, SCIP_VAR*); SCIP_RETCODE SCIPgetVarSols(SCIP*, int, SCIP_VAR**, SCIP_Real*); SCIP_RETCODE SCIPfixVar(SCIP*, SCIP_VAR*, SCIP_Real, SCIP_Bool*, SCIP_Bool*); SCIP_Real SCIPvarGetLbOriginal(SCIP_VAR*); SCIP_Real SCIPvarGetUbOriginal(SCIP_VAR*); SCIP_RETCODE SCIPgetLPBranchCands(SCIP*, SCIP_VAR***, SCIP_Real**, SCIP_Real**, int*, int*, int*); SCIP_VAR* SCIPfindVar(SCIP*, const char*);
SCIP_Real SCIProwGetLhs(SCIP_ROW*); SCIP_Real SCIProwGetRhs(SCIP_ROW*); int SCIProwGetNNonz(SCIP_ROW*); SCIP_Bool SCIProwIsLocal(SCIP_ROW*); SCIP_Bool SCIProwIsInLP(SCIP_ROW*); SCIP_Real SCIPgetRowLPFeasibility(SCIP*, SCIP_ROW*); SCIP_Real SCIPgetRowLPActivity(SCIP*, SCIP_ROW*); SCIP_Real SCIPgetRowActivity(SCIP*, SCIP_ROW*); SCIP_Real SCIPgetRowFeasibility(SCIP*, SCIP_ROW*); SCIP_RETCODE SCIPchgRowRhs(SCIP*, SCIP_ROW*, SCIP_Real); SCIP_RETCODE SCIPchgRowLhs(SCIP*, SCIP_ROW*, SCIP_Real); SCIP_RETCODE SCIPcaptureRow(SCIP*, SCIP_ROW*); int SCIPgetNCutsFoundRound(SCIP*); int SCIPgetNCutsFound(SCIP*); SCIP_RETCODE SCIPcreateEmptyRow(SCIP*, SCIP_ROW**, const char*, SCIP_Real, SCIP_Real, SCIP_Bool, SCIP_Bool, SCIP_Bool);
SCIP_CONS* SCIPfindCons(SCIP*, const char*); SCIP_CONS* SCIPfindOrigCons(SCIP*, const char*); SCIP_Bool SCIPconsIsActive(SCIP_CONS*); SCIP_Bool SCIPconsIsDeleted(SCIP_CONS*); SCIP_Bool SCIPconsIsOriginal(SCIP_CONS*); SCIP_Bool SCIPconsIsTransformed(SCIP_CONS*); int SCIPgetNVarsLinear(SCIP*, SCIP_CONS*); SCIP_VAR** SCIPgetVarsLinear(SCIP*, SCIP_CONS*); SCIP_Real* SCIPgetValsLinear(SCIP*, SCIP_CONS*); SCIP_Real SCIPgetLhsLinear(SCIP*, SCIP_CONS*); SCIP_Real SCIPgetRhsLinear(SCIP*, SCIP_CONS*);
int SCIPconshdlrGetSepaFreq(SCIP_CONSHDLR*); int SCIPconshdlrGetEnfoPriority(SCIP_CONSHDLR*); int SCIPconshdlrGetCheckPriority(SCIP_CONSHDLR*); int SCIPgetNConshdlrs(SCIP*); SCIP_CONSHDLR** SCIPgetConshdlrs(SCIP*); int SCIPgetNEventhdlrs(SCIP*); SCIP_EVENTHDLR** SCIPgetEventhdlrs(SCIP*); SCIP_RETCODE SCIPsetBranchruleMaxbounddist(SCIP*, SCIP_BRANCHRULE*, SCIP_Real); SCIP_Longint SCIPbranchruleGetNLPCalls(SCIP_BRANCHRULE*);
void SCIPverbMessage(SCIP*, int, FILE*, const char*, ...); SCIP_RETCODE SCIPprintRow(SCIP*, SCIP_ROW*, FILE*); SCIP_RETCODE SCIPprintCons(SCIP*, SCIP_CONS*, FILE*); void SCIPprintVersion(SCIP*, FILE*); SCIP_RETCODE SCIPprintOrigProblem(SCIP*, FILE*, const char*, SCIP_Bool); SCIP_RETCODE SCIPwriteTransProblem(SCIP*, const char*, const char*, SCIP_Bool); SCIP_RETCODE SCIPprintTransSol(SCIP*, SCIP_SOL*, FILE*, SCIP_Bool); SCIP_RETCODE SCIPprintStatus(SCIP*, FILE*);
#define SCIPallocBufferArray(scip, ptr, n) ((*(void**)(ptr) = malloc(sizeof(**(ptr)) * (size_t)((n) > 0 ? (n) : 1))) ? SCIP_OKAY : SCIP_NOMEMORY)
#define SCIPfreeBufferArray(scip, ptr) (free((void*)*(ptr)), *(ptr) = NULL)
#define SCIPfreeBufferArrayNull(scip, ptr) SCIPfreeBufferArray(scip, ptr)
#define SCIPallocClearBufferArray(scip, ptr, n) ((*(void**)(ptr) = calloc((size_t)((n) > 0 ? (n) : 1), sizeof(**(ptr)))) ? SCIP_OKAY : SCIP_NOMEMORY)
#define SCIPallocMemory(scip, ptr) SCIPallocBufferArray(scip, ptr, 1)
#define SCIPallocMemoryArray(scip, ptr, n) SCIPallocBufferArray(scip, ptr, n)
#define SCIPfreeMemory(scip, ptr) SCIPfreeBufferArray(scip, ptr)
#define SCIPfreeMemoryArray(scip, ptr) SCIPfreeBufferArray(scip, ptr)
#define SCIPfreeMemoryArrayNull(scip, ptr) SCIPfreeBufferArray(scip, ptr)
#define SCIPallocBlockMemory(scip, ptr) SCIPallocBufferArray(scip, ptr, 1)
#define SCIPallocBlockMemoryArray(scip, ptr, n) SCIPallocBufferArray(scip, ptr, n)
#define SCIPfreeBlockMemory(scip, ptr) SCIPfreeBufferArray(scip, ptr)
#define SCIPfreeBlockMemoryArray(scip, ptr, n) SCIPfreeBufferArray(scip, ptr)
#define SCIPfreeBlockMemoryArrayNull(scip, ptr, n) SCIPfreeBufferArray(scip, ptr)
int SCIPsnprintf(char*, int, const char*, ...); int SCIPgetSubscipDepth(SCIP*); SCIP_RETCODE SCIPgetVarsData(SCIP*, SCIP_VAR***, int*, int*, int*, int*, int*);
#define SCIPduplicateBufferArray(scip, ptr, source, n) (SCIPallocBufferArray(scip, ptr, n) == SCIP_OKAY ? (std::memcpy((void*)*(ptr), (const void*)(source), sizeof(**(ptr)) * (size_t)((n) > 0 ? (n) : 0)), SCIP_OKAY) : SCIP_NOMEMORY)
#define SCIPduplicateMemoryArray(scip, ptr, source, n) SCIPduplicateBufferArray(scip, ptr, source, n)
#define SCIPduplicateBlockMemoryArray(scip, ptr, source, n) SCIPduplicateBufferArray(scip, ptr, source, n)
#define SCIP_VERBLEVEL_NORMAL 3
#define SCIP_VERBLEVEL_FULL 5
#endif
