// Executes histories of analysis engine operations on the real library, one JSON value per line.
#include <typeinfo>
#include "common.hpp"
#include <list>
#include "uima/caspool.hpp"
#include "uima/casiterator.hpp"
#include "uima/internal_casimpl.hpp"
using namespace uima;

struct Cfg {
  json raw;
  std::vector<std::string> tof;                       // 1-based names of types and features
  std::vector<std::string> sofa;                      // 1-based sofa names
  std::map<std::string, int> tofix, sofaix, grpix;
  std::vector<int> inst;                              // CAS instances the annotator of node k asks for
  std::string xml;
  int rw = 0;                                         // read the description, write it out, create the engine from that
};
static Cfg* g = 0;
static AnalysisEngine* eng = 0;
static std::vector<CAS*> cases;
static std::map<std::string, CASIterator*> iters;
static json script = json::array();                   // {a,m,r,acts}
static json trace = json::array();
static std::map<Annotator*, int> who;
static std::map<Annotator*, int> left;                // new CASes the annotator still has to hand out
static std::map<int, std::vector<void*>> pooled;      // initial views of the CASes a component's pool handed out, by number
static std::map<Annotator*, int> made;                // new CASes produced for the current document
static int destroyed = 0;

// the class of an exception that a component throws follows from its code
static void throwId(int id) {
  ErrorMessage m(UIMA_MSG_ID_EXC_INVALID_INDEX_OBJECT);
  if (id == 96001) throw CASException(m, (TyErrorId) id, ErrorInfo::unrecoverable);
  if (id == 96002) throw ExcIndexOutOfRange(m, (TyErrorId) id, ErrorInfo::unrecoverable);
  throw Exception(m, (TyErrorId) id, ErrorInfo::unrecoverable);
}
static bool sameClass(int id, Exception const& x) {
  return typeid(x) == (id == 96001 ? typeid(CASException) : id == 96002 ? typeid(ExcIndexOutOfRange) : id == 96003 ? typeid(Exception) : typeid(x));
}
static int sofaTok(std::string const& n) {
  if (n.empty()) return 1;
  auto it = g->sofaix.find(n);
  return it == g->sofaix.end() ? -2 : it->second;
}
static int viewTok(CAS* c) {
  UnicodeStringRef r = c->getViewName();
  return sofaTok(toU8(UnicodeString(r.getBuffer(), r.length())));
}
static void* baseOf(CAS& c) { return (void*) c.getView(u8("_InitialView")); }
static int poolTok(int k, CAS& c) {
  void* b = baseOf(c);
  std::vector<void*>& p = pooled[k];
  for (size_t i = 0; i < p.size(); i++) if (p[i] == b) return i + 1;
  p.push_back(b);
  return p.size();
}
static CAS* pcas(json const& e) { return (CAS*) pooled[e["k"]][(int) e["x"] - 1]; }
static json casState(CAS& base);
static int text(CAS* cas, int len = 9) {
  for (auto& x : casState(*cas)) if (x == 1) return -1;
  cas->setDocumentText(UnicodeStringRef(u8(std::string(len, 'x'))));
  return 1;
}
static int act(CAS* cas, json const& a) {
  std::string k = a["k"];
  try {
    if (k == "tx") return viewTok(cas) == 1 ? text(cas) : -1;
    if (k == "gv") return viewTok(cas->getView(u8(g->sofa[(int) a["n"]])));
    if (k == "cv") return viewTok(cas->createView(u8(g->sofa[(int) a["n"]])));
    if (k == "sl") { cas->getDocumentAnnotation().setLanguage(Language(u8(a["val"]))); return 0; }
  } catch (Exception const&) { return -1; }
  return -3;
}
extern "C" __attribute__((visibility("default"))) int verif_cb(Annotator* self, int m, AnnotatorContext* c, CAS* cas, ResultSpecification const* rs) {
  if (m == 8) return left[self] > 0;
  if (m == 1) {
    std::string n = toU8(c->getTaeSpecifier().getAnalysisEngineMetaData()->getName());
    who[self] = atoi(n.c_str() + 1);
  }
  auto w = who.find(self);
  int a = w == who.end() ? -1 : w->second;
  if (m == 9) return a < 0 ? 0 : g->inst[a];
  json ev = { a, m };
  json ent;
  for (size_t i = 0; i < script.size(); i++)
    if (script[i]["a"] == a && script[i]["m"] == m) { ent = script[i]; script.erase(script.begin() + i); break; }
  if (m == 5) {
    ev.push_back(viewTok(cas));
    std::set<int> t;
    for (auto& x : rs->getTypeOrFeatureSTLSet()) {
      UnicodeStringRef nm = x.isType() ? x.getType().getName() : x.getFeature().getName();
      std::string full = toU8(UnicodeString(nm.getBuffer(), nm.length()));
      if (!x.isType()) { Type d; x.getFeature().getIntroType(d); UnicodeStringRef dn = d.getName(); full = toU8(UnicodeString(dn.getBuffer(), dn.length())) + ":" + full; }
      auto it = g->tofix.find(full);
      t.insert(it == g->tofix.end() ? -1 : it->second);
    }
    ev.push_back(t.size());
    for (int x : t) ev.push_back(x);
    if (!ent.is_null()) {
      for (auto& q : ent["acts"]) ev.push_back(act(cas, q));
      left[self] = ent.value("emit", 0);
    } else left[self] = 0;
    made[self] = 0;
  }
  trace.push_back(ev.size());
  for (auto& x : ev) trace.push_back(x);
  int r = ent.is_null() ? 0 : (int) ent["r"];
  if (r < 0) throwId(-r);
  return r;
}
extern "C" __attribute__((visibility("default"))) CAS* verif_next(Annotator* self, AnnotatorContext* c) {
  CAS& cas = c->getEmptyCAS();
  left[self]--;
  int n = ++made[self];
  UnicodeString t;
  for (int i = 0; i < n; i++) t.append((UChar) 'x');
  cas.setDocumentText(UnicodeStringRef(t));
  return &cas;
}
extern "C" __attribute__((visibility("default"))) void verif_gone(Annotator* self) { who.erase(self); left.erase(self); made.erase(self); destroyed++; }

static json out(int rc) {
  json r = json::array();
  r.push_back(rc == 0 ? 0 : rc >= 95000 && rc < 97000 ? rc : -1);
  for (auto& x : trace) r.push_back(x);
  return r;
}
static AnnotatorContext& ctx(json const& e) {
  AnnotatorContext* c = &eng->getAnnotatorContext();
  for (auto& k : e["path"]) c = c->getDelegate(u8(k));
  return *c;
}
static void dropCases() {
  for (auto& i : iters) delete i.second;
  iters.clear();
  for (CAS* c : cases) delete c;
  cases.clear();
}
static void dropEngine() {
  dropCases();
  delete eng;
  eng = 0;
  pooled.clear();
}
static std::string encF(float f) { unsigned u; memcpy(&u, &f, 4); char b[20]; snprintf(b, sizeof b, "f:%08x", u); return b; }
static std::string encU(UnicodeString const& s) { return encStr(s.getBuffer(), s.length()); }
static float decF(std::string const& s) { unsigned u = strtoul(s.c_str() + 2, 0, 16); float f; memcpy(&f, &u, 4); return f; }
static UnicodeString decU(std::string const& s) { std::vector<UChar> v = decStr(s); return UnicodeString(v.data(), v.size()); }

template <class T> static TyErrorId getv(AnnotatorContext& c, json const& e, T& v) {
  if (e.contains("group")) return c.extractValue(u8(e["group"]), u8(e["name"]), v);
  return c.extractValue(u8(e["name"]), v);
}
template <class T> static TyErrorId setv(AnnotatorContext& c, json const& e, T const& v) {
  if (e.contains("group")) return c.assignValue(u8(e["group"]), u8(e["name"]), v);
  return c.assignValue(u8(e["name"]), v);
}
static json getp(json const& e) {
  AnnotatorContext& c = ctx(e);
  std::string k = e["kind"];
  bool multi = e["multi"] != 0;
  json r = { 0 };
  TyErrorId rc;
  if (!multi) {
    if (k == "int") { int v = 0; rc = getv(c, e, v); r.push_back(v); }
    else if (k == "size") { size_t v = 0; rc = getv(c, e, v); r.push_back((int) v); }
    else if (k == "float") { float v = 0; rc = getv(c, e, v); r.push_back(encF(v)); }
    else if (k == "bool") { bool v = false; rc = getv(c, e, v); r.push_back((int) v); }
    else if (k == "sbs") { std::string v; rc = getv(c, e, v); r.push_back(encU(UnicodeString(v.c_str()))); }
    else { UnicodeString v; rc = getv(c, e, v); r.push_back(encU(v)); }
  } else {
    if (k == "int") { std::vector<int> v; rc = getv(c, e, v); for (int x : v) r.push_back(x); }
    else if (k == "float") { std::vector<float> v; rc = getv(c, e, v); for (float x : v) r.push_back(encF(x)); }
    else if (k == "bool") { std::vector<bool> v; rc = getv(c, e, v); for (bool x : v) r.push_back((int) x); }
    else if (k == "sbs") { std::vector<std::string*> v; rc = getv(c, e, v); for (auto x : v) { r.push_back(encU(UnicodeString(x->c_str()))); delete x; } }
    else { std::vector<UnicodeString> v; rc = getv(c, e, v); for (auto& x : v) r.push_back(encU(x)); }
  }
  if (rc != 0) return json::array({ -1 });
  return r;
}
static json setp(json const& e) {
  AnnotatorContext& c = ctx(e);
  std::string k = e["kind"];
  json const& val = e["vals"];
  TyErrorId rc;
  if (e["multi"] == 0) {
    if (k == "int") rc = setv(c, e, (int) val[0]);
    else if (k == "size") rc = setv(c, e, (size_t) (int) val[0]);
    else if (k == "float") rc = setv(c, e, decF(val[0]));
    else if (k == "double") rc = setv(c, e, (double) decF(val[0]));
    else if (k == "bool") rc = setv(c, e, (bool) ((int) val[0] != 0));
    else rc = setv(c, e, decU(val[0]));
  } else {
    if (k == "int") { std::vector<int> v; for (auto& x : val) v.push_back(x); rc = setv(c, e, v); }
    else if (k == "size") { std::vector<size_t> v; for (auto& x : val) v.push_back((int) x); rc = setv(c, e, v); }
    else if (k == "float") { std::vector<float> v; for (auto& x : val) v.push_back(decF(x)); rc = setv(c, e, v); }
    else if (k == "double") { std::vector<double> v; for (auto& x : val) v.push_back(decF(x)); rc = setv(c, e, v); }
    else if (k == "bool") { std::vector<bool> v; for (auto& x : val) v.push_back((int) x != 0); rc = setv(c, e, v); }
    else { std::vector<UnicodeString> v; for (auto& x : val) v.push_back(decU(x)); rc = setv(c, e, v); }
  }
  return json::array({ rc == 0 ? 0 : -1 });
}
static json casState(CAS& base) {
  CAS& c = base;
  std::set<int> v;
  FSIterator it = c.getSofaIterator();
  for (it.moveToFirst(); it.isValid(); it.moveToNext()) {
    UnicodeStringRef n = SofaFS(it.get()).getSofaID();
    v.insert(sofaTok(toU8(UnicodeString(n.getBuffer(), n.length()))));
  }
  json r = json::array();
  for (int x : v) r.push_back(x);
  return r;
}
// indexes as declared: a CAS with one structure for each that the configuration describes
static int declError(int id) {
  static const int ids[] = { 0, (int) UIMA_ERR_CONFIG_DUPLICATE_INDEX_LABEL, (int) UIMA_ERR_UNKNOWN_TYPE, (int) UIMA_ERR_UNKNOWN_FEATURE,
                             (int) UIMA_ERR_INCOMPATIBLE_INDEX_DEFINITIONS, (int) UIMA_ERR_TYPE_PRIORITY_CONFLICT,
                             (int) UIMA_ERR_RESOURCE_CORRUPTED, (int) UIMA_ERR_IMPORT_INVALID_XML_ATTRIBUTE };
  for (int i = 1; i < 8; i++) if (ids[i] == id) return i;
  return id == 0 ? -1 : id;
}
static std::vector<FeatureStructure> pop;
static void populate() {
  CAS* c = eng->newCAS();
  cases.push_back(c);
  TypeSystem const& ts = c->getTypeSystem();
  pop.clear();
  for (auto& q : g->raw["pop"]) {
    Type t = ts.getType(u8(g->raw["tn"][(int) q["ty"]]));
    FeatureStructure fs = c->createFS(t);
    for (size_t i = 0; i < q["f"].size(); i++) {
      Feature f = ts.getFeatureByFullName(u8(g->raw["fn"][i]));
      if (t.isAppropriateFeature(f)) fs.setIntValue(f, (int) q["f"][i]);
    }
    c->getIndexRepository().addFS(fs);
    pop.push_back(fs);
  }
}
static int label(UnicodeString const& l) {
  for (size_t i = 1; i < g->raw["lab"].size(); i++) if (u8(g->raw["lab"][i]) == l) return i;
  return l == UnicodeString("SofaIndex") ? 0 : -1;
}
static json apply(json const& e) {
  std::string op = e["op"];
  script = e.contains("scr") ? e["scr"] : json::array();
  trace = json::array();
  if (op == "create" || op == "pcreate" || op == "build") {
    dropEngine();
    ErrorInfo err;
    UnicodeString again;
    if (g->rw) {
      try {
        AnalysisEngineDescription d;
        XMLParser p;
        p.parseAnalysisEngineDescription(d, u8(g->xml));
        if (g->rw == 2) {                              // twice
          UnicodeString once;
          d.toXMLBuffer(once);
          AnalysisEngineDescription e2;
          TextAnalysisEngineSpecifierBuilder().buildTaeFromMemory(e2, once);
          e2.toXMLBuffer(again);
        } else d.toXMLBuffer(again);
      } catch (Exception const&) { again.remove(); }   // malformed: let the engine's creation report it
    }
    if (again.length()) {                              // what was valid against the schema still is
      WithSchema ws(schemaValid(u8(g->xml)));
      eng = Framework::createAnalysisEngine(again.getBuffer(), again.length(), err);
    }
    else eng = Framework::createAnalysisEngine(g->xml.c_str(), err);
    if (!eng && getenv("ENGDEBUG")) std::cerr << err.asString() << std::endl << toU8(again) << std::endl;
    if (!eng && op == "pcreate") return json::array({ -1 });
    if (!eng && op == "build") return json::array({ declError(err.getErrorId()) });
    if (op == "build") { populate(); return json::array({ 0 }); }
    if (!eng) return out(err.getErrorId() == 0 ? -1 : (int) err.getErrorId());
    return op == "pcreate" ? json::array({ 0 }) : out(0);
  }
  if (op == "ixids") {
    json r = json::array();
    for (auto& l : cases.at(0)->getIndexRepository().getAllIndexIDs()) r.push_back(label(l));
    return r;
  }
  if (op == "ixall") {
    UnicodeString l = u8(g->raw["lab"][(int) e["l"]]);
    FSIndexRepository& ir = cases.at(0)->getIndexRepository();
    FSIndex ix = ir.getIndex(l);
    json r = json::array();
    UnicodeStringRef n = ir.getTypeForIndex(l).getName();
    int ty = 0;
    for (size_t i = 1; i < g->raw["tn"].size(); i++) if (n == u8(g->raw["tn"][i])) ty = i;
    r.push_back(ty);
    FSIterator it = ix.iterator();
    for (it.moveToFirst(); it.isValid(); it.moveToNext()) {
      int k = 0;
      for (size_t i = 0; i < pop.size(); i++) if (pop[i] == it.get()) k = i + 1;
      r.push_back(k);
    }
    return r;
  }
  if (op == "delete") { dropCases(); delete eng; eng = 0; pooled.clear(); return out(0); }
  if (op == "init") return out(eng->initialize(eng->getAnnotatorContext().getTaeSpecifier()));
  if (op == "reconf") return out(eng->reconfigure());
  if (op == "batch") return out(eng->batchProcessComplete());
  if (op == "coll") return out(eng->collectionProcessComplete());
  if (op == "destroy") return out(eng->destroy());
  if (op == "isinit") return json::array({ (int) eng->isInitialized() });
  if (op == "newcas") { cases.push_back(eng->newCAS()); return json::array({ (int) cases.size() }); }
  if (op == "live") return json::array({ (int) who.size() });
  if (op == "mkview") return json::array({ viewTok(cases[(int) e["c"] - 1]->createView(u8(g->sofa[(int) e["n"]]))) });
  if (op == "getview") return json::array({ viewTok(cases[(int) e["c"] - 1]->getView(u8(g->sofa[(int) e["n"]]))) });
  if (op == "views") return casState(*cases[(int) e["c"] - 1]);
  if (op == "text") return json::array({ text(cases[(int) e["c"] - 1]) });
  if (op == "rescas") { cases[(int) e["c"] - 1]->reset(); return json::array({ 0 }); }
  if (op == "setlang") {
    CAS* v = cases[(int) e["c"] - 1];
    if (e["n"] != 1) v = v->getView(u8(g->sofa[(int) e["n"]]));
    v->getDocumentAnnotation().setLanguage(Language(u8(e["val"])));
    return json::array({ 0 });
  }
  if (op == "process") {
    CAS* v = cases[(int) e["c"] - 1];
    if (e["n"] != 1) v = v->getView(u8(g->sofa[(int) e["n"]]));
    if (e["all"] != 0) return out(eng->process(*v));
    ResultSpecification rs;
    TypeSystem const& ts = v->getTypeSystem();
    for (auto& t : e["rs"]) {
      UnicodeString n = u8(g->tof[(int) t]);
      if (n.indexOf((UChar) ':') >= 0) rs.add(ts.getFeatureByFullName(n)); else rs.add(ts.getType(n));
    }
    return out(eng->process(*v, rs));
  }
  if (op == "getp") return getp(e);
  if (op == "setp") return setp(e);
  if (op == "isdef") {
    AnnotatorContext& c = ctx(e);
    return json::array({ (int) (e.contains("group") ? c.isParameterDefined(u8(e["group"]), u8(e["name"])) : c.isParameterDefined(u8(e["name"]))) });
  }
  if (op == "gnames") {
    std::set<int> t;
    for (auto& n : ctx(e).getGroupNamesForParameter(u8(e["name"]))) {
      std::string x = toU8(n);
      auto it = g->grpix.find(x);
      t.insert(it != g->grpix.end() ? it->second : x == "CONFIG_GROUP_NAME_WHEN_NO_GROUPS" ? 0 : -9);
    }
    json r = json::array();
    for (int x : t) r.push_back(x);
    return r;
  }
  // CAS multipliers and their pool
  if (op == "pget") { CAS& c = ctx(e).getEmptyCAS(); return json::array({ poolTok(e["k"], c) }); }
  if (op == "prel") {
    CAS* c = pcas(e);
    if (e["n"] != 1) c = c->getView(u8(g->sofa[(int) e["n"]]));
    ctx(e).releaseCAS(*c);
    return json::array({ 0 });
  }
  if (op == "prelx") { ctx(e).releaseCAS(*cases[(int) e["c"] - 1]); return json::array({ 0 }); }
  if (op == "prelo") { ctx(e).releaseCAS(*(CAS*) pooled[e["o"]][(int) e["x"] - 1]); return json::array({ 0 }); }
  if (op == "pview") { return json::array({ viewTok(pcas(e)->createView(u8(g->sofa[(int) e["n"]]))) }); }
  if (op == "pviews") return casState(*pcas(e));
  if (op == "ptext") { return json::array({ text(pcas(e), e["len"]) }); }
  if (op == "plen") { CAS* c = pcas(e); return json::array({ (int) c->getDocumentText().length(), (int) c->getAnnotationIndex().getSize() }); }
  if (op == "pn") {
    CAS* v = cases[(int) e["c"] - 1];
    if (e["n"] != 1) v = v->getView(u8(g->sofa[(int) e["n"]]));
    std::string k = e["it"];
    try {
      CASIterator it = eng->processAndOutputNewCASes(*v);
      delete iters[k];
      iters[k] = new CASIterator(it);
    } catch (CASIteratorException const&) { json r = out(0); r[0] = -2; return r; }
    return out(0);
  }
  if (op == "ihn") return json::array({ (int) iters[e["it"]]->hasNext() });
  if (op == "inx") { CAS& c = iters[e["it"]]->next(); return json::array({ poolTok(1, c) }); }
  throw std::runtime_error("unknown op " + op);
}
static void reply(std::string const& t, json const& v) {
  json o = { {"t", t}, {"v", v} };
  std::string s = o.dump() + "\n";
  fwrite(s.data(), 1, s.size(), stdout);
  fflush(stdout);
}
int main(int argc, char** argv) {
  installHandlers();
  setenv("VERIF_ENV", "red", 1);
  ResourceManager::createInstance("verif");
  schema(false);
  std::string line;
  while (std::getline(std::cin, line)) {
    if (line.empty()) continue;
    json e = json::parse(line);
    alarm((int) e.value("timeout", 20));
    try {
      if (e.contains("cfg")) {
        json const& c = e["cfg"];
        dropEngine();
        who.clear(); left.clear(); made.clear();
        delete g;
        g = new Cfg;
        g->tof.push_back(""); g->sofa.push_back("");
        for (auto& s : c["tof"]) { g->tof.push_back(s); g->tofix[s] = g->tof.size() - 1; }
        for (auto& s : c["sofa"]) { g->sofa.push_back(s); g->sofaix[s] = g->sofa.size() - 1; }
        g->inst.push_back(0);
        for (auto& s : c["inst"]) g->inst.push_back(s);
        if (c.contains("groups")) for (auto& s : c["groups"]) { int n = g->grpix.size() + 1; g->grpix[s] = n; }
        g->xml = c["xml"];
        g->rw = c.value("rw", 0);
        g->raw = c;
        reply("ok", json::array());
      } else { json v = apply(e); reply("ok", v); }
    } catch (Exception const& x) {
      int id = x.getErrorInfo().getErrorId();
      json v = json::array();
      std::string op = e.value("op", "");
      if (op == "process" || op == "pn") { v = out(id == 0 ? -1 : id); reply(op == "pn" || sameClass(id, x) ? "EXC" : "EXC of another class", v); }
      else reply(excName(x), v);
    } catch (std::exception const& x) {
      reply(excName(x), json::array());
    }
    alarm(0);
  }
  dropEngine();
  return 0;
}
