// Executes histories of type system definitions, merges and queries on the real library, one JSON value per line.
#include "common.hpp"
#include <fstream>
#include <algorithm>
#include <memory>
#include "uima/lowlevel_typesystem.hpp"
#include "uima/internal_fspromoter.hpp"
#include "uima/internal_casimpl.hpp"
#include "uima/taespecifierbuilder.hpp"
#include "uima/taespecifier.hpp"
#include "uima/xmltypesystemwriter.hpp"
#include "uima/xmltypesystemreader.hpp"
#include "uima/casdefinition.hpp"
using namespace uima;
typedef lowlevel::TypeSystem LTS;
typedef lowlevel::TyFSType T;
typedef lowlevel::TyFSFeature F;

static std::vector<std::string> tn, fn, cr;               // 1-based names
static std::map<std::string, int> tix, fix, crix;
static TypeSystem* ts = 0;                                // the type system under test
static AnalysisEngine* eng = 0;                           // its owner, or 0
static CAS* cas = 0;

static LTS& low() { return LTS::promoteTypeSystem(*ts); }
static void drop() {
  delete cas; cas = 0;
  if (eng) { eng->destroy(); delete eng; eng = 0; }
  else delete ts;
  ts = 0;
}
static int tok(std::map<std::string, int> const& m, UnicodeString const& s) { auto i = m.find(toU8(s)); return i == m.end() ? -2 : i->second; }
static UnicodeString us(UnicodeStringRef r) { return UnicodeString(r.getBuffer(), r.length()); }
static int tt(T t) { return t == 0 ? 0 : tok(tix, low().getTypeName(t)); }
static int tt(Type const& t) { return t.isValid() ? tok(tix, us(t.getName())) : 0; }
static T ty(int k) {
  T t = low().getTypeByName(u8(tn[k]));
  if (!low().isValidType(t)) throw std::runtime_error("no such type " + tn[k]);
  return t;
}
static Type uty(int k) { return ts->getType(u8(tn[k])); }
static int fk(F f) { return low().isValidFeature(f) ? tt(low().getIntroType(f)) * 1000 + tok(fix, low().getFeatureBaseName(f)) : -1; }
static int fk(Feature const& f) { if (!f.isValid()) return -1; Type i; f.getIntroType(i); return tt(i) * 1000 + tok(fix, us(f.getName())); }
static json sorted(std::vector<int> v) { std::sort(v.begin(), v.end()); return json(v); }
static json one(int x) { return json::array({ x }); }
static std::string slurp(std::string const& p) { std::ifstream f(p); std::stringstream s; s << f.rdbuf(); return s.str(); }

static json query(json const& e) {
  std::string k = e["k"];
  bool u = e.value("u", 0) != 0;
  int t = e.value("t", 0), n = e.value("n", 0);
  LTS& L = low();
  std::vector<int> r;
  if (k == "all") {
    if (u) { std::vector<Type> v; ts->getAllTypes(v); for (auto& x : v) r.push_back(tt(x)); }
    else { std::vector<T> v; L.getAllTypes(v); for (auto x : v) r.push_back(tt(x)); if (v.size() != L.getNumberOfTypes()) r.push_back(-3); }
    return sorted(r);
  }
  if (k == "par") return one(tt(L.getParentType(ty(t))));
  if (k == "dir") {
    if (u) { std::vector<Type> v; uty(t).getDirectSubTypes(v); for (auto& x : v) r.push_back(tt(x)); }
    else { std::vector<T> v; L.getDirectSubTypes(ty(t), v); for (auto x : v) r.push_back(tt(x)); if (v.empty() != L.isMaximalType(ty(t))) r.push_back(-3); }
    return sorted(r);
  }
  if (k == "subs") {
    if (u) { std::vector<Type> v; uty(t).getSubTypes(v); for (auto& x : v) r.push_back(tt(x)); }
    else { std::vector<T> v; L.getSubsumedTypes(ty(t), v); for (auto x : v) r.push_back(tt(x)); }
    return sorted(r);
  }
  if (k == "row") {
    std::vector<T> v; L.getAllTypes(v);
    for (auto x : v) if (u ? uty(t).subsumes(internal::FSPromoter::promoteType(x, L)) : L.subsumes(ty(t), x)) r.push_back(tt(x));
    return sorted(r);
  }
  if (k == "csup") return one(tt(L.getMostSpecificCommonSupertype(ty(t), ty(e["u2"]))));
  if (k == "byname") {
    UnicodeString nm = e.contains("raw") ? u8(e["raw"]) : u8(tn[t]);
    if (u) { Type x = ts->getType(nm); return one(x.isValid() && us(x.getName()) == nm); }
    T x = L.getTypeByName(nm);
    return one(L.isValidType(x) && L.getTypeName(x) == nm);
  }
  if (k == "feats") {
    if (u) { std::vector<Feature> v; ts->getAllFeatures(v); for (auto& x : v) r.push_back(fk(x)); }
    else { std::vector<F> v; L.getAllFeatures(v); for (auto x : v) r.push_back(fk(x)); if (v.size() != L.getNumberOfFeatures()) r.push_back(-3); }
    return sorted(r);
  }
  if (k == "approp") {
    if (u) { std::vector<Feature> v; uty(t).getAppropriateFeatures(v); for (auto& x : v) r.push_back(fk(x)); }
    else { std::vector<F> v; L.getAppropriateFeatures(ty(t), v); for (auto x : v) r.push_back(fk(x)); }
    return sorted(r);
  }
  if (k == "isapp") {
    std::vector<F> v; L.getAllFeatures(v);
    for (auto x : v) if (u ? uty(t).isAppropriateFeature(internal::FSPromoter::promoteFeature(x, L)) : L.isAppropriateFeature(ty(t), x)) r.push_back(fk(x));
    return sorted(r);
  }
  if (k == "fnum") return one((int) L.getFeatureNumber(ty(t)));
  if (k == "offs") {   // every appropriate feature has a slot of its own, and the slot leads back to it
    std::vector<F> v; L.getAppropriateFeatures(ty(t), v);
    std::set<int> seen;
    int ok = 1;
    for (auto x : v) {
      int o = L.getFeatureOffset(x);
      if (!seen.insert(o).second || o < 1 || o > (int) v.size() || L.getFeatureFromOffset(ty(t), o) != x) ok = 0;
    }
    return one(ok);
  }
  if (k == "fby") {
    if (u) { Type x = uty(t); return one(x.isValid() ? fk(x.getFeatureByBaseName(u8(fn[n]))) : -1); }
    if (e.value("nm", 0)) return one(fk(L.getFeatureByBaseName(u8(tn[t]), u8(fn[n]))));
    return one(fk(L.getFeatureByBaseName(L.getTypeByName(u8(tn[t])), u8(fn[n]))));
  }
  if (k == "ffull") {
    std::string T_ = tn[t], F_ = fn[n], s;
    switch ((int) e["form"]) {
      case 0: s = T_ + ":" + F_; break;
      case 1: s = F_; break;
      case 2: s = T_ + "::" + F_; break;
      case 3: s = T_ + ":" + F_ + ":"; break;
      case 4: s = ":" + F_; break;
      case 5: s = T_ + ":"; break;
      case 6: s = T_ + "." + F_; break;
      case 7: s = " " + T_ + ":" + F_; break;
      case 8: s = T_ + ":" + F_ + " "; break;
      default: s = "";
    }
    if (u) return one(fk(ts->getFeatureByFullName(u8(s))));
    return one(fk(L.getFeatureByFullName(u8(s))));
  }
  if (k == "finfo") {
    if (u) {
      Feature f = ts->getFeatureByFullName(u8(tn[t] + ":" + fn[n]));
      if (!f.isValid()) return one(-1);
      Type i, g; f.getIntroType(i); f.getRangeType(g);
      return json::array({ tt(i), tt(g), (int) f.isMultipleReferencesAllowed() });
    }
    F f = L.getFeatureByBaseName(u8(tn[t]), u8(fn[n]));
    if (!L.isValidFeature(f)) return one(-1);
    if (L.getFeatureName(f) != u8(tn[tt(L.getIntroType(f))] + ":" + fn[n])) return one(-4);
    return json::array({ tt(L.getIntroType(f)), tt(L.getRangeType(f)), (int) L.isMultipleReferencesAllowed(f) });
  }
  if (k == "fcr") {
    F f = L.getFeatureByBaseName(ty(t), u8(fn[n]));
    return one(tok(crix, u ? us(internal::FSPromoter::promoteFeature(f, L).getCreatorID()) : L.getFeatureCreatorID(f)));
  }
  if (k == "tcr") return one(tok(crix, u ? us(uty(t).getCreatorID()) : L.getTypeCreatorID(ty(t))));
  if (k == "strs" || k == "strset") {
    json o = json::array();
    for (auto& s : L.getStringsForStringSubtype(ty(t))) o.push_back(encStr(s.getBuffer(), s.length()));
    return o;
  }
  if (k == "prim") return one(ts->isPrimitive(ty(t)));
  if (k == "sst") return one(u ? uty(t).isStringSubType() : ts->isStringSubType(ty(t)));
  if (k == "final") return json::array({ (int) L.isAllowedToAddSubTypes(ty(t)), (int) L.isAllowedToCreateFeatures(ty(t)) });
  if (k == "order") {
    std::vector<T> v; L.getAllTypes(v);
    std::sort(v.begin(), v.end(), [&](T a, T b) { return L.getTypePriorityNumber(a) < L.getTypePriorityNumber(b); });
    for (size_t i = 0; i < v.size(); i++) for (size_t j = 0; j < v.size(); j++) if (L.hasPriorityOver(v[i], v[j]) != (i < j)) return one(-3);
    for (auto x : v) r.push_back(tt(x));
    return json(r);
  }
  if (k == "invt") {
    Type x;
    if (e.value("src", 0) == 1) x = ts->getType(u8("no.such.Type"));
    std::vector<Type> v; std::vector<Feature> w;
    switch ((int) e["form"]) {
      case 0: x.getName(); break;
      case 1: x.getAppropriateFeatures(w); break;
      case 2: x.isAppropriateFeature(Feature()); break;
      case 3: x.getDirectSubTypes(v); break;
      case 4: x.getSubTypes(v); break;
      case 5: x.getFeatureByBaseName(u8("f")); break;
      case 6: x.subsumes(ts->getTopType()); break;
      case 7: ts->getTopType().subsumes(x); break;
      case 8: x.getCreatorID(); break;
      default: x.getTypeSystem();
    }
    return json::array();
  }
  if (k == "invf") {
    Feature f;
    if (e.value("src", 0) == 1) f = ts->getFeatureByFullName(u8("no.such.Type:f"));
    Type x;
    switch ((int) e["form"]) {
      case 0: f.getName(); break;
      case 1: f.getIntroType(x); break;
      case 2: f.getRangeType(x); break;
      case 3: f.getCreatorID(); break;
      case 4: f.isMultipleReferencesAllowed(); break;
      default: f.getTypeSystem();
    }
    return json::array();
  }
  if (k == "inveq") {
    Type a = uty(t), b = uty(t), c = uty(e["u2"]);
    return json::array({ (int) (a == b && !(a != b) && Type() == Type()), (int) (a == c || a == Type() || !(a != c)) });
  }
  throw std::runtime_error("unknown query " + k);
}

// the annotator of the descriptors does nothing here
extern "C" __attribute__((visibility("default"))) int verif_cb(Annotator*, int m, AnnotatorContext*, CAS*, ResultSpecification const*) { return 0; }
extern "C" __attribute__((visibility("default"))) CAS* verif_next(Annotator*, AnnotatorContext*) { return 0; }
extern "C" __attribute__((visibility("default"))) void verif_gone(Annotator*) {}
static json rej() { drop(); return one(-1); }
static json build(json const& e) {
  std::string how = e["how"], file = e["file"];
  drop();
  ErrorInfo err;
  std::string text = slurp(file);
  try {
    if (how == "ae" && e.value("rw", 0) == 0) {
      eng = Framework::createAnalysisEngine(file.c_str(), err);
      if (!eng) { if (getenv("TSDEBUG")) std::cerr << err.asString() << std::endl; return rej(); }
    } else if (how == "ae" && e["rw"] == 2) {        // the CAS definition straight from the description
      AnalysisEngineDescription d;
      XMLParser p;
      p.parseAnalysisEngineDescription(d, u8(file));
      d.validate();
      std::unique_ptr<internal::CASDefinition> def(internal::CASDefinition::createCASDefinition(d));
      // keep what it holds by writing the type system over: queries run on a live engine instead
      cas = Framework::createCAS(*def.release(), err);
      ts = const_cast<TypeSystem*>(&cas->getTypeSystem());
      return one(0);
    } else if (how == "ae") {                        // read, write out, read again
      AnalysisEngineDescription d;
      XMLParser p;
      p.parseAnalysisEngineDescription(d, u8(file));
      UnicodeString out;
      d.toXMLBuffer(out);
      eng = Framework::createAnalysisEngine(out.getBuffer(), out.length(), err);
      if (!eng) return rej();
    } else if (how == "file") ts = Framework::createTypeSystem(file.c_str(), err);
    else if (how == "buf") ts = Framework::createTypeSystemFromXMLBuffer(text.c_str(), err);
    else if (how == "ubuf") { UnicodeString s = u8(text); ts = Framework::createTypeSystem(s.getBuffer(), s.length(), err); }
    else {
      std::unique_ptr<TypeSystemDescription> d;
      TextAnalysisEngineSpecifierBuilder b;
      if (how == "desc") d.reset(b.buildTypeSystemSpecifierFromFile(file.c_str()));
      else if (how == "fdesc") d.reset(Framework::createTypeSystemDescription(file.c_str()));
      else if (how == "udesc") { UnicodeString s = u8(text); d.reset(Framework::createTypeSystemDescription(s.getBuffer(), s.length())); }
      else if (how == "bdesc") d.reset(b.buildTypeSystemSpecifierFromXMLBuffer(text.c_str()));
      else throw std::logic_error("unknown way " + how);
      if (e.contains("pr")) {
        std::vector<TypePriority*> pr;
        for (auto& c : e["pr"]) {
          TypePriority* q = new TypePriority;
          for (auto& t : c) q->addType(u8(tn[(int) t]));
          pr.push_back(q);
        }
        ts = Framework::createTypeSystem(*d, pr, u8("me"), err);
        for (auto q : pr) delete q;
      } else ts = Framework::createTypeSystem(*d, u8("me"), err);
    }
  } catch (std::logic_error const&) { throw;
  } catch (Exception const& x) { if (getenv("TSDEBUG")) std::cerr << x.getErrorInfo().asString() << std::endl; return rej();
  } catch (std::exception const&) { return rej();
  } catch (...) { return rej(); }
  if (eng) { std::unique_ptr<CAS> c(eng->newCAS()); ts = const_cast<TypeSystem*>(&c->getTypeSystem()); }
  if (!ts) return rej();
  if (e.value("xml", 0)) {
    // through the XML form of a type hierarchy
    CAS* c = Framework::createCAS(*ts, err);
    std::stringstream o;
    XMLTypeSystemWriter(*c).write(o);
    TypeSystemDescription none;
    TypeSystem* t2 = Framework::createTypeSystem(none, u8(""), err);
    LTS::promoteTypeSystem(*t2).reset();
    XMLTypeSystemReader rd(*t2);
    std::string s = o.str();
    if (e["xml"] == 1 && e.value("xf", 0) == 0) rd.readMemory(s.c_str(), u8(cr[1]));
    else if (e.value("xf", 0) == 1) rd.readMemory(u8(s), u8(cr[1]));
    else {
      char p[] = "/tmp/verif-tsXXXXXX";
      int fd = mkstemp(p);
      if (write(fd, s.data(), s.size()) != (ssize_t) s.size()) throw std::logic_error("scratch file");
      close(fd);
      try { rd.readFile(p, u8(cr[1])); } catch (...) { unlink(p); throw; }
      unlink(p);
    }
    LTS::promoteTypeSystem(*t2).commit();
    delete c;
    drop();
    ts = t2;
  }
  return one(0);
}

static json apply(json const& e) {
  std::string op = e["op"];
  if (op == "q") return query(e);
  if (op == "build") return build(e);
  LTS& L = low();
  if (op == "reset") { L.reset(); return json::array(); }
  if (op == "commit") { L.commit(); return json::array(); }
  if (op == "tcreate") {
    T t = L.createType(ty(e["par"]), u8(tn[e["nm"]]), u8(cr[e["cr"]]));
    return tt(t) == e["nm"] ? json::array() : one(tt(t));
  }
  if (op == "scr") {
    std::vector<UnicodeString> v;
    for (auto& s : e["vals"]) { std::vector<UChar> c = decStr(s); v.push_back(UnicodeString(c.data(), c.size())); }
    T t = L.createStringSubtype(u8(tn[e["nm"]]), v, u8(cr[e["cr"]]));
    return tt(t) == e["nm"] ? json::array() : one(tt(t));
  }
  if (op == "fcreate") return one(fk(L.createFeature(ty(e["i"]), ty(e["r"]), e["m"] != 0, u8(fn[e["n"]]), u8(cr[e["cr"]]))));
  if (op == "prio") return one(L.addTypePriority(ty(e["a"]), ty(e["b"])));
  throw std::runtime_error("unknown op " + op);
}
static void reply(std::string const& t, json const& v) {
  json o = { {"t", t}, {"v", v} };
  std::string s = o.dump() + "\n";
  fwrite(s.data(), 1, s.size(), stdout);
  fflush(stdout);
}
int main(int argc, char** argv) {
  installHandlers();
  ResourceManager::createInstance("verif");
  std::string line;
  while (std::getline(std::cin, line)) {
    if (line.empty()) continue;
    json e = json::parse(line);
    alarm((int) e.value("timeout", 20));
    try {
      if (e.contains("cfg")) {
        json const& c = e["cfg"];
        drop();
        tn.assign(1, ""); fn.assign(1, ""); cr.assign(1, "");
        tix.clear(); fix.clear(); crix.clear();
        for (auto& s : c["tn"]) { tn.push_back(s); tix[s] = tn.size() - 1; }
        for (auto& s : c["fn"]) { fn.push_back(s); fix[s] = fn.size() - 1; }
        for (auto& s : c["cr"]) { cr.push_back(s); crix[s] = cr.size() - 1; }
        TypeSystemDescription none;
        ErrorInfo err;
        ts = Framework::createTypeSystem(none, u8(""), err);
        reply("ok", json::array());
      } else { json v = apply(e); reply("ok", v); }
    } catch (std::exception const& x) {
      reply(excName(x), x.what() && dynamic_cast<std::runtime_error const*>(&x) ? json::array({ std::string(x.what()) }) : json::array());
    }
    alarm(0);
  }
  return 0;
}
