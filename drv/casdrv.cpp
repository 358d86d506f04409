// Executes histories of CAS operations on the real library, one JSON history per line.
#include "common.hpp"
#include <cmath>
#include <xercesc/framework/MemBufInputSource.hpp>
#include "uima/xmiwriter.hpp"
#include <sys/mman.h>
#include <unistd.h>
#include "uima/xmideserializer.hpp"
#include "uima/xmlwriter.hpp"
#include "uima/xcasdeserializer.hpp"
#include "uima/xmishareddata.hpp"
#include "uima/internal_casserializer.hpp"
#include "uima/internal_casdeserializer.hpp"
#include "uima/internal_serializedcas.hpp"
#include "uima/internal_casimpl.hpp"
#include "uima/sofastream.hpp"
#include <dlfcn.h>
#include <unistd.h>
using namespace uima;

struct Config {
  TypeSystem* ts;
  AnalysisEngineMetaData* meta;
  AnalysisEngineDescription* desc;
  std::vector<std::string> tn, fn;          // 1-based names
  std::map<std::string, int> tix;
  std::vector<Type> ty;
  std::vector<Feature> fe;
  std::vector<UnicodeString> ix;            // index labels
  std::string err;
};
static std::map<std::string, Config*> g_cfgs;

static Config* getConfig(json const& c) {
  std::string key = c["id"];
  auto it = g_cfgs.find(key);
  if (it != g_cfgs.end()) return it->second;
  Config* C = new Config;
  ErrorInfo err;
  C->desc = new AnalysisEngineDescription();
  std::string path = c["xml"];
  XMLParser p;
  p.parseAnalysisEngineDescription(*C->desc, path.c_str());
  bool sv = c.value("rw", 0) && schemaValid(u8(path));
  if (getenv("CASDEBUG")) std::cerr << "schema valid " << sv << std::endl;
  for (int k = c.value("rw", 0); k > 0; k--) {           // written, and read back: what was valid against the schema still is
    UnicodeString x;
    C->desc->toXMLBuffer(x);
    if (getenv("CASDEBUG")) std::cerr << toU8(x) << std::endl;
    delete C->desc;
    C->desc = new AnalysisEngineDescription();
    WithSchema ws(sv);
    TextAnalysisEngineSpecifierBuilder().buildTaeFromMemory(*C->desc, x);
  }
  C->meta = C->desc->getAnalysisEngineMetaData();
  C->ts = Framework::createTypeSystem(*C->meta, err);
  if (!C->ts) { C->err = "createTypeSystem"; g_cfgs[key] = C; return C; }
  C->tn.push_back(""); C->fn.push_back("");
  C->ty.push_back(Type()); C->fe.push_back(Feature());
  for (auto& s : c["tn"]) { C->tn.push_back(s); C->tix[s] = C->tn.size() - 1; C->ty.push_back(C->ts->getType(u8(s))); }
  for (auto& s : c["fn"]) { C->fn.push_back(s); C->fe.push_back(C->ts->getFeatureByFullName(u8(s))); }
  for (auto& s : c["ix"]) C->ix.push_back(u8(s));
  g_cfgs[key] = C;
  return C;
}

enum K { INT, FLOAT, STR, BOOL, BYTE, SHORT, LONG, DOUBLE, REF };
static K kindOf(std::string const& k) {
  if (k == "int") return INT; if (k == "float") return FLOAT; if (k == "str") return STR;
  if (k == "bool") return BOOL; if (k == "byte") return BYTE; if (k == "short") return SHORT;
  if (k == "long") return LONG; if (k == "double") return DOUBLE; return REF;
}
static K accKind(std::string const& rng, Type const& t) {
  static std::map<std::string, K> m = {
    {"uima.cas.Integer", INT}, {"uima.cas.Float", FLOAT}, {"uima.cas.String", STR}, {"uima.cas.Boolean", BOOL},
    {"uima.cas.Byte", BYTE}, {"uima.cas.Short", SHORT}, {"uima.cas.Long", LONG}, {"uima.cas.Double", DOUBLE}};
  auto i = m.find(rng);
  if (i != m.end()) return i->second;
  return t.isStringSubType() ? STR : REF;
}
static json encF(float f) { uint32_t u; memcpy(&u, &f, 4); char b[20]; snprintf(b, 20, "f:%08x", u); return b; }
static json encD(double f) { uint64_t u; memcpy(&u, &f, 8); char b[30]; snprintf(b, 30, "d:%016llx", (unsigned long long) u); return b; }
static json encL(INT64 l) { return "l:" + std::to_string((long long) l); }
static float decF(std::string const& s) { uint32_t u = strtoul(s.c_str() + 2, 0, 16); float f; memcpy(&f, &u, 4); return f; }
static double decD(std::string const& s) { uint64_t u = strtoull(s.c_str() + 2, 0, 16); double f; memcpy(&f, &u, 8); return f; }
static INT64 decL(std::string const& s) { return strtoll(s.c_str() + 2, 0, 10); }

struct Filters;
static std::string g_handler;                // the library of the stream handler
struct Run {
  Config* C;
  CAS* cas;                                  // initial view
  std::vector<FeatureStructure> h;           // 1-based handles
  std::map<int, CAS*> vw;                    // views by number
  std::vector<FSIterator*> its;
  std::vector<FSFilter*> flts;
  std::vector<std::vector<UChar>*> keep;     // buffers that must outlive the calls

  Run(Config* c) : C(c), cas(0) { h.push_back(FeatureStructure()); }
  ~Run() { clearStreams(); clearIts(); for (auto p : flts) { p->deInit(); delete p; } delete cas; for (auto k : keep) delete k; }
  void clearIts() { for (auto i : its) delete i; its.clear(); }

  // one structure seen through two views is one structure
  static lowlevel::TyFS addr(FeatureStructure const& f) { return uima::internal::FSPromoter::demoteFS(f); }
  int handle(FeatureStructure const& f) {
    if (!f.isValid()) return 0;
    for (size_t i = 1; i < h.size(); i++) if (h[i].isValid() && addr(h[i]) == addr(f)) return i;
    return -1;
  }
  int give(FeatureStructure const& f) {
    int i = handle(f);
    if (i >= 0) return i;
    h.push_back(f);
    return h.size() - 1;
  }
  int fresh(FeatureStructure const& f) {      // a new handle, even if the structure has one already
    int i = handle(f);
    h.push_back(f);
    return i > 0 ? -1000 - i : (int) h.size() - 1;
  }
  CAS* V(json const& e, const char* k = "w") { int n = e[k]; auto i = vw.find(n); return i == vw.end() ? cas : i->second; }
  FeatureStructure H(json const& e, const char* k) { int i = e[k]; return h.at(i); }
  UnicodeStringRef S(json const& v) {          // string value of an op
    std::string s = v;
    if (s == "n") return UnicodeStringRef();
    auto* b = new std::vector<UChar>(decStr(s));
    keep.push_back(b);
    b->push_back(0x5858);                      // no terminator: lengths must be honoured
    return UnicodeStringRef(b->data(), (int32_t) b->size() - 1);
  }
  int typeId(Type const& t) {
    auto i = C->tix.find(t.getName().asUTF8());
    return i == C->tix.end() ? -9999 : i->second;
  }

  json getVal(FeatureStructure const& f, Feature const& g, K k) {
    switch (k) {
      case INT: return f.getIntValue(g);
      case FLOAT: return encF(f.getFloatValue(g));
      case STR: return encRef(f.getStringValue(g));
      case BOOL: return f.getBooleanValue(g) ? 1 : 0;
      case BYTE: return (int) f.getByteValue(g);
      case SHORT: return (int) f.getShortValue(g);
      case LONG: return encL(f.getLongValue(g));
      case DOUBLE: return encD(f.getDoubleValue(g));
      default: return 0;
    }
  }
  template<class L, class F> json withArr(FeatureStructure const& f, F fn) { L a(f); return fn(a); }

  // ---------------------------------------------------------------- arrays
  template<class A, class T, class ENC, class DEC>
  json arrOp(json const& e, ENC enc, DEC dec) {
    std::string op = e["op"];
    A a(H(e, "x"));
    if (op == "alen") return json::array({ (int) a.size() });
    if (op == "aget") return json::array({ enc(a.get((size_t)(long)(int) e["i"])) });
    if (op == "aset") { a.set((size_t)(long)(int) e["i"], dec(e["val"])); return json::array(); }
    size_t b = (int) e["b"], en = (int) e["e"], o = (int) e["o"];
    json const& src = e["vals"];
    size_t n = src.size();
    T* buf = new T[n + 1];
    for (size_t i = 0; i < n; i++) buf[i] = dec(src[i]);
    json out = json::array();
    try {
      if (op == "acto" || op == "acto2") {
        if (op == "acto") a.copyToArray(b, en, buf, o); else a.copyToArray(b, buf, o, en - b);
        for (size_t i = 0; i < n; i++) out.push_back(enc(buf[i]));
      } else a.copyFromArray(buf, b, en, o);
    } catch (...) { delete[] buf; throw; }
    delete[] buf;
    return out;
  }
  json doArr(json const& e) {
    switch (kindOf(e["k"])) {
      case INT: return arrOp<IntArrayFS, int>(e, [](int v) { return json(v); }, [](json const& j) { return (int) j; });
      case FLOAT: return arrOp<FloatArrayFS, float>(e, [](float v) { return encF(v); }, [](json const& j) { return decF(j); });
      case STR: return arrOp<StringArrayFS, UnicodeStringRef>(e, [](UnicodeStringRef v) { return json(encRef(v)); }, [this](json const& j) { return S(j); });
      case BOOL: return arrOp<BooleanArrayFS, bool>(e, [](bool v) { return json(v ? 1 : 0); }, [](json const& j) { return (int) j != 0; });
      case BYTE: return arrOp<ByteArrayFS, char>(e, [](char v) { return json((int) v); }, [](json const& j) { return (char)(int) j; });
      case SHORT: return arrOp<ShortArrayFS, short>(e, [](short v) { return json((int) v); }, [](json const& j) { return (short)(int) j; });
      case LONG: return arrOp<LongArrayFS, INT64>(e, [](INT64 v) { return encL(v); }, [](json const& j) { return decL(j); });
      case DOUBLE: return arrOp<DoubleArrayFS, double>(e, [](double v) { return encD(v); }, [](json const& j) { return decD(j); });
      default: return arrOp<ArrayFS, FeatureStructure>(e, [this](FeatureStructure const& v) { return json(give(v)); },
                         [this](json const& j) { return h.at((int) j); });
    }
  }
  FeatureStructure makeArr(CAS* c, K k, int n) {
    switch (k) {
      case INT: return c->createIntArrayFS(n);
      case FLOAT: return c->createFloatArrayFS(n);
      case STR: return c->createStringArrayFS(n);
      case BOOL: return c->createBooleanArrayFS(n);
      case BYTE: return c->createByteArrayFS(n);
      case SHORT: return c->createShortArrayFS(n);
      case LONG: return c->createLongArrayFS(n);
      case DOUBLE: return c->createDoubleArrayFS(n);
      default: return c->createArrayFS(n);
    }
  }
  FeatureStructure makeAny(CAS* c, int t) {
    switch (t) {
      case 6: return makeArr(c, REF, 1);
      case 7: return makeArr(c, FLOAT, 1);
      case 8: return makeArr(c, INT, 1);
      case 9: return makeArr(c, STR, 1);
      case 28: return makeArr(c, BOOL, 1);
      case 29: return makeArr(c, BYTE, 1);
      case 30: return makeArr(c, SHORT, 1);
      case 31: return makeArr(c, LONG, 1);
      case 32: return makeArr(c, DOUBLE, 1);
    }
    return c->createFS(C->ty.at(t));
  }
  // ---------------------------------------------------------------- lists
  template<class L, class T, class ENC, class DEC, class FEAT>
  json listOp(json const& e, ENC enc, DEC dec, FEAT ofFeat, bool isRef) {
    std::string op = e["op"];
    if (op == "lfeat") { L l(ofFeat(H(e, "x"), C->fe.at((int) e["f"]))); return json::array({ give(l) }); }
    if (op == "lhas") return json::array({ H(e, "x").hasListElements(C->fe.at((int) e["f"])) ? 1 : 0 });
    if (op == "lapp" || op == "lpre" || op == "lsettail") {
      // conversion of the two handles, then the call
      int xi = e["x"];
      L a(h.at(xi));
      L b(h.at((int) e["y"]));
      if (op == "lsettail") { a.setTail(b); return json::array(); }
      FeatureStructure r;
      if (op == "lapp") r = a.append(b); else r = a.prepend(b);
      h[xi] = r;
      if (!(a == r)) return json::array({ "result differs from handle" });
      return json::array();
    }
    int xi = e["x"];
    L l(h.at(xi));
    if (op == "lemp") return json::array({ l.isEmpty() ? 1 : 0 });
    if (op == "llen") return json::array({ (int) l.getLength() });
    if (op == "lhead") return json::array({ enc(l.getHead()) });
    if (op == "lsethead") { l.setHead(dec(e["val"])); return json::array(); }
    if (op == "ltail") return json::array({ give(l.getTail()) });
    if (op == "laddf") { L r(l.addFirst(dec(e["val"]))); h[xi] = l; return r == l ? json::array() : json::array({ "result differs from handle" }); }
    if (op == "laddl") { FeatureStructure r = l.addLast(dec(e["val"])); h[xi] = l; return json::array({ give(r) }); }
    if (op == "lnext") { l.moveToNext(); h[xi] = l; return json::array(); }
    if (op == "lrem") { FeatureStructure r = l.removeElement(dec(e["val"])); h[xi] = l; return json::array({ r.isValid() ? give(r) : 0 }); }
    if (op == "ldump") {
      json out = json::array();
      int fuel = 1000;
      while (!l.isEmpty() && fuel-- > 0) {
        if (isRef) out.push_back(refOut(FeatureStructure(toFS(l.getHead())))); else out.push_back(enc(l.getHead()));
        FeatureStructure t = l.getTail();
        if (!t.isValid()) break;
        l = L(t);
      }
      if (fuel <= 0) out.push_back("endless");
      return out;
    }
    throw std::runtime_error("bad list op " + op);
  }
  static FeatureStructure toFS(FeatureStructure const& f) { return f; }
  static FeatureStructure toFS(int) { return FeatureStructure(); }
  static FeatureStructure toFS(float) { return FeatureStructure(); }
  static FeatureStructure toFS(UnicodeStringRef const&) { return FeatureStructure(); }
  int refOut(FeatureStructure const& f) { return handle(f); }
  json doList(json const& e) {
    switch (kindOf(e["k"])) {
      case INT: return listOp<IntListFS, int>(e, [](int v) { return json(v); }, [](json const& j) { return (int) j; },
                   [](FeatureStructure const& f, Feature const& g) { return f.getIntListFSValue(g); }, false);
      case FLOAT: return listOp<FloatListFS, float>(e, [](float v) { return encF(v); }, [](json const& j) { return decF(j); },
                   [](FeatureStructure const& f, Feature const& g) { return f.getFloatListFSValue(g); }, false);
      case STR: return listOp<StringListFS, UnicodeStringRef>(e, [](UnicodeStringRef v) { return json(encRef(v)); }, [this](json const& j) { return S(j); },
                   [](FeatureStructure const& f, Feature const& g) { return f.getStringListFSValue(g); }, false);
      default: return listOp<ListFS, FeatureStructure>(e, [this](FeatureStructure const& v) { return json(give(v)); },
                   [this](json const& j) { return h.at((int) j); },
                   [](FeatureStructure const& f, Feature const& g) { return f.getListFSValue(g); }, true);
    }
  }
  // ---------------------------------------------------------------- dump of everything reachable through handles
  template<class A, class ENC> void dumpArr(json& out, FeatureStructure const& f, ENC enc) {
    A a(f);
    size_t n = a.size();
    out.push_back((int) n);
    for (size_t i = 0; i < n; i++) out.push_back(enc(a.get(i)));
  }
  template<class REFOUT> void nodeOut(json& out, FeatureStructure const& f, REFOUT ref) {
    if (!f.isValid()) { out.push_back(0); return; }
    Type t = f.getType();
    int ti = typeId(t);
    out.push_back(ti);
    switch (ti) {
      case 6: dumpArr<ArrayFS>(out, f, [&](FeatureStructure const& v) { return json(ref(v)); }); return;
      case 7: dumpArr<FloatArrayFS>(out, f, [](float v) { return encF(v); }); return;
      case 8: dumpArr<IntArrayFS>(out, f, [](int v) { return json(v); }); return;
      case 9: dumpArr<StringArrayFS>(out, f, [](UnicodeStringRef v) { return json(encRef(v)); }); return;
      case 28: dumpArr<BooleanArrayFS>(out, f, [](bool v) { return json(v ? 1 : 0); }); return;
      case 29: dumpArr<ByteArrayFS>(out, f, [](char v) { return json((int) v); }); return;
      case 30: dumpArr<ShortArrayFS>(out, f, [](short v) { return json((int) v); }); return;
      case 31: dumpArr<LongArrayFS>(out, f, [](INT64 v) { return encL(v); }); return;
      case 32: dumpArr<DoubleArrayFS>(out, f, [](double v) { return encD(v); }); return;
    }
    for (size_t i = 1; i < C->fe.size(); i++) {
      Feature const& g = C->fe[i];
      if (!g.isValid() || !t.isAppropriateFeature(g)) continue;
      Type r; g.getRangeType(r);
      K k = accKind(r.getName().asUTF8(), r);
      if (k == REF) out.push_back(ref(f.getFeatureValue(g))); else out.push_back(getVal(f, g, k));
    }
  }
  json dump() {
    json out = json::array();
    for (size_t i = 1; i < h.size(); i++) nodeOut(out, h[i], [this](FeatureStructure const& v) { return refOut(v); });
    return out;
  }
  void junk(CAS* c, int n) {
    static const UChar us[] = { 'j', 'u', 'n', 'k' };
    for (int i = 0; i < n; i++) {
      IntArrayFS a = c->createIntArrayFS(3);
      a.set(1, i * 7919);
      c->createLongArrayFS(2).set(0, (INT64) i << 33);
      c->createStringArrayFS(1).set(0, UnicodeStringRef(us, 4));
      c->createFS(C->ty.at(12));
    }
  }
#include "casdrv_ser.inc"
#include "casdrv_str.inc"
#include "casdrv_ops.inc"
};


// Protocol, one JSON value per line: {"cfg":...} opens a history (reply {"t":"ok"} or a failure),
// {"op":...} is one operation of the open history (reply {"t":...,"v":[...]}).
static void reply(std::string const& t, json const& v) {
  json o = { {"t", t}, {"v", v} };
  std::string s = o.dump() + "\n";
  fwrite(s.data(), 1, s.size(), stdout);
  fflush(stdout);
}
int main(int argc, char** argv) {
  installHandlers();
  char exe[4096];
  ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
  std::string dir(exe, n > 0 ? n : 0);
  g_handler = dir.substr(0, dir.rfind('/')) + "/memhandler.so";
  setenv("UIMACPP_STREAMHANDLERS", ("  mem:" + g_handler + "   m2:" + g_handler).c_str(), 1);
  ResourceManager::createInstance("verif");
  schema(false);
  std::string line;
  Run* r = 0;
  while (std::getline(std::cin, line)) {
    if (line.empty()) continue;
    json e = json::parse(line);
    alarm((int) e.value("timeout", 20));
    try {
      if (e.contains("cfg")) {
        delete r;
        r = 0;
        Config* C = getConfig(e["cfg"]);
        if (!C->err.empty()) { reply(C->err, json::array()); continue; }
        r = new Run(C);
        r->open();
        reply("ok", json::array());
      } else if (!r) reply("NOCFG", json::array());
      else { json v = r->apply(e); reply("ok", v); }
    } catch (std::exception const& x) {
      reply(excName(x), json::array());
    }
    alarm(0);
  }
  delete r;
  return 0;
}
