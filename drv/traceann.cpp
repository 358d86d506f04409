// The annotator library the engine histories run: every callback is forwarded to the driver,
// which records it and does what the history's script says.
#include "uima/api.hpp"
using namespace uima;
extern "C" int verif_cb(Annotator*, int method, AnnotatorContext*, CAS*, ResultSpecification const*);
extern "C" CAS* verif_next(Annotator*, AnnotatorContext*);
extern "C" void verif_gone(Annotator*);
class TraceAnn : public Annotator {
public:
  ~TraceAnn() { verif_gone(this); }
  TyErrorId initialize(AnnotatorContext& c) { return (TyErrorId) verif_cb(this, 1, &c, 0, 0); }
  TyErrorId typeSystemInit(TypeSystem const&) { return (TyErrorId) verif_cb(this, 2, 0, 0, 0); }
  TyErrorId destroy() { return (TyErrorId) verif_cb(this, 3, 0, 0, 0); }
  TyErrorId reconfigure() { return (TyErrorId) verif_cb(this, 4, 0, 0, 0); }
  TyErrorId process(CAS& cas, ResultSpecification const& rs) { return (TyErrorId) verif_cb(this, 5, &getAnnotatorContext(), &cas, &rs); }
  TyErrorId batchProcessComplete() { return (TyErrorId) verif_cb(this, 6, 0, 0, 0); }
  TyErrorId collectionProcessComplete() { return (TyErrorId) verif_cb(this, 7, 0, 0, 0); }
  bool hasNext() { return verif_cb(this, 8, 0, 0, 0) != 0; }
  CAS& next() { return *verif_next(this, &getAnnotatorContext()); }
  int getCasInstancesRequired() { return verif_cb(this, 9, 0, 0, 0); }
};
MAKE_AE(TraceAnn);
