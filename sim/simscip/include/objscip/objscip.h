/* simscip: the objscip C++ interface used by pctsp */
#ifndef SIMSCIP_OBJSCIP_H
#define SIMSCIP_OBJSCIP_H
#include <scip/scip.h>
namespace scip {
class ObjCloneable { public: virtual ~ObjCloneable() {} };
class ObjProbCloneable { public: virtual ~ObjProbCloneable() {} };
class ObjConshdlr : public ObjProbCloneable {
public:
    SCIP* scip_;
    std::string name_storage_, desc_storage_;
    char* scip_name_;
    char* scip_desc_;
    const int scip_sepapriority_, scip_enfopriority_, scip_checkpriority_, scip_sepafreq_, scip_propfreq_, scip_eagerfreq_, scip_maxprerounds_;
    const SCIP_Bool scip_delaysepa_, scip_delayprop_, scip_needscons_;
    const SCIP_PROPTIMING scip_proptiming_;
    const SCIP_PRESOLTIMING scip_presoltiming_;
    ObjConshdlr(SCIP* scip, const char* name, const char* desc, int sepapriority, int enfopriority, int checkpriority,
        int sepafreq, int propfreq, int eagerfreq, int maxprerounds, SCIP_Bool delaysepa, SCIP_Bool delayprop,
        SCIP_Bool needscons, SCIP_PROPTIMING proptiming, SCIP_PRESOLTIMING presoltiming)
        : scip_(scip), name_storage_(name), desc_storage_(desc), scip_name_(NULL), scip_desc_(NULL),
          scip_sepapriority_(sepapriority), scip_enfopriority_(enfopriority), scip_checkpriority_(checkpriority),
          scip_sepafreq_(sepafreq), scip_propfreq_(propfreq), scip_eagerfreq_(eagerfreq), scip_maxprerounds_(maxprerounds),
          scip_delaysepa_(delaysepa), scip_delayprop_(delayprop), scip_needscons_(needscons), scip_proptiming_(proptiming),
          scip_presoltiming_(presoltiming) { scip_name_ = &name_storage_[0]; scip_desc_ = &desc_storage_[0]; }
    virtual ~ObjConshdlr() {}
    virtual SCIP_DECL_CONSFREE(scip_free) { return SCIP_OKAY; }
    virtual SCIP_DECL_CONSINIT(scip_init) { return SCIP_OKAY; }
    virtual SCIP_DECL_CONSEXIT(scip_exit) { return SCIP_OKAY; }
    virtual SCIP_DECL_CONSINITSOL(scip_initsol) { return SCIP_OKAY; }
    virtual SCIP_DECL_CONSEXITSOL(scip_exitsol) { return SCIP_OKAY; }
    virtual SCIP_DECL_CONSDELETE(scip_delete) { return SCIP_OKAY; }
    virtual SCIP_DECL_CONSTRANS(scip_trans) = 0;
    virtual SCIP_DECL_CONSINITLP(scip_initlp) { return SCIP_OKAY; }
    virtual SCIP_DECL_CONSSEPALP(scip_sepalp) { *result = SCIP_DIDNOTRUN; return SCIP_OKAY; }
    virtual SCIP_DECL_CONSSEPASOL(scip_sepasol) { *result = SCIP_DIDNOTRUN; return SCIP_OKAY; }
    virtual SCIP_DECL_CONSENFOLP(scip_enfolp) = 0;
    virtual SCIP_DECL_CONSENFOPS(scip_enfops) = 0;
    virtual SCIP_DECL_CONSCHECK(scip_check) = 0;
    virtual SCIP_DECL_CONSPROP(scip_prop) { *result = SCIP_DIDNOTRUN; return SCIP_OKAY; }
    virtual SCIP_DECL_CONSLOCK(scip_lock) = 0;
    virtual SCIP_DECL_CONSPRINT(scip_print) { return SCIP_OKAY; }
};
class ObjEventhdlr : public ObjCloneable {
public:
    SCIP* scip_;
    std::string name_storage_, desc_storage_;
    char* scip_name_;
    char* scip_desc_;
    ObjEventhdlr(SCIP* scip, const char* name, const char* desc)
        : scip_(scip), name_storage_(name), desc_storage_(desc) { scip_name_ = &name_storage_[0]; scip_desc_ = &desc_storage_[0]; }
    virtual ~ObjEventhdlr() {}
    virtual SCIP_DECL_EVENTFREE(scip_free) { return SCIP_OKAY; }
    virtual SCIP_DECL_EVENTINIT(scip_init) { return SCIP_OKAY; }
    virtual SCIP_DECL_EVENTEXIT(scip_exit) { return SCIP_OKAY; }
    virtual SCIP_DECL_EVENTINITSOL(scip_initsol) { return SCIP_OKAY; }
    virtual SCIP_DECL_EVENTEXITSOL(scip_exitsol) { return SCIP_OKAY; }
    virtual SCIP_DECL_EVENTDELETE(scip_delete) { return SCIP_OKAY; }
    virtual SCIP_DECL_EVENTEXEC(scip_exec) = 0;
};
class ObjProbData {
public:
    virtual ~ObjProbData() {}
};
}
SCIP_RETCODE SCIPincludeObjConshdlr(SCIP* scip, scip::ObjConshdlr* objconshdlr, SCIP_Bool deleteobject);
scip::ObjConshdlr* SCIPfindObjConshdlr(SCIP* scip, const char* name);
scip::ObjConshdlr* SCIPgetObjConshdlr(SCIP* scip, SCIP_CONSHDLR* conshdlr);
SCIP_RETCODE SCIPincludeObjEventhdlr(SCIP* scip, scip::ObjEventhdlr* objeventhdlr, SCIP_Bool deleteobject);
scip::ObjEventhdlr* SCIPfindObjEventhdlr(SCIP* scip, const char* name);
SCIP_RETCODE SCIPcreateObjProb(SCIP* scip, const char* name, scip::ObjProbData* objprobdata, SCIP_Bool deleteobject);
scip::ObjProbData* SCIPgetObjProbData(SCIP* scip);
#endif
