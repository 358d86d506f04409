// Error messages, error information and exceptions, one JSON value per line.
// A text is the list of its runs: code point, length, code point, length...
#include "common.hpp"
#include <unicode/utf8.h>
#include "uima/exceptions.hpp"
#include "uima/msg.h"
#include "uima/msgstrtab.h"
#include "uima/cas.hpp"
#include "uima/caspool.hpp"
#include "uima/typesystem.hpp"
using namespace uima;

static json runs(std::string const& s) {
  json r = json::array();
  int32_t i = 0, n = (int32_t) s.size();
  long last = -1, k = 0;
  while (i < n) {
    UChar32 c;
    U8_NEXT(s.c_str(), i, n, c);
    if (c == last) { k++; continue; }
    if (k) { r.push_back(last); r.push_back(k); }
    last = c; k = 1;
  }
  if (k) { r.push_back(last); r.push_back(k); }
  return r;
}
static UnicodeString text(json const& p) {
  UnicodeString u;
  for (size_t i = 0; i < p.size(); i += 2) for (int k = 0; k < (int) p[i + 1]; k++) u.append((UChar32) (int) p[i]);
  return u;
}
static std::string u8s(json const& p) { std::string s; text(p).toUTF8String(s); return s; }

static std::vector<ErrorMessage> ms;
static std::vector<ErrorInfo> is;
// a message with one parameter of kind k: text t, or number
static ErrorMessage one(TyMessageId id, json const& p) {
  std::string k = p["k"], s = u8s(p["t"]);
  UnicodeString u = text(p["t"]);
  long long n = p.contains("n") ? std::stoll((std::string) p["n"]) : 0;
  if (k == "cs") return ErrorMessage(id, s.c_str());
  if (k == "s") return ErrorMessage(id, s);
  if (k == "uc") return ErrorMessage(id, (UChar const*) u.getTerminatedBuffer());
  if (k == "u") return ErrorMessage(id, u);
  if (k == "l") return ErrorMessage(id, (long) n);
  if (k == "ul") return ErrorMessage(id, (unsigned long) n);
  if (k == "i") return ErrorMessage(id, (int) n);
  return ErrorMessage(id, (unsigned int) n);
}
static void add(ErrorMessage& m, json const& p) {
  std::string k = p["k"], s = u8s(p["t"]);
  UnicodeString u = text(p["t"]);
  long long n = p.contains("n") ? std::stoll((std::string) p["n"]) : 0;
  if (k == "cs") m.addParam(s.c_str());
  else if (k == "s") m.addParam(s);
  else if (k == "uc") { if (p.value("v", 0)) m.addParam((UChar const*) u.getTerminatedBuffer()); else m.addParam(const_cast<UChar*>(u.getTerminatedBuffer())); }
  else if (k == "u") { if (p.value("v", 0)) m.addParam(u); else m.addParam(UnicodeStringRef(u)); }
  else if (k == "l") m.addParam((long) n);
  else if (k == "ul") m.addParam((unsigned long) n);
  else if (k == "i") m.addParam((int) n);
  else m.addParam((unsigned int) n);
}
// throws an exception of a class, as the library throws it
template<class X> static void raise(ErrorInfo const& i, ErrorMessage const& ctx, int how) {
  if (how == 0) throw X(i);
  X x(i);
  UIMA_EXC_THROW(x, ctx);
}
typedef void (*Raise)(ErrorInfo const&, ErrorMessage const&, int);
template<class X> static bool isA(Exception const& e) { return dynamic_cast<X const*>(&e) != 0; }
struct Class { char const* name; Raise raise; bool (*is)(Exception const&); };
#define K(n) { #n, raise<n>, isA<n> }
static Class const classes[] = { K(Exception), K(Uima_logic_error), K(Uima_runtime_error), K(Uima_invalid_argument), K(Uima_out_of_range), K(ExcIllFormedInputError),
  K(ExcIndexOutOfRange), K(ExcResourceExhausted), K(ExcOutOfMemory), K(CASException), K(InvalidFSTypeObjectException), K(CASPoolException) };
static int const NC = sizeof classes / sizeof *classes;

static json apply(json const& e) {
  std::string op = e["op"];
  json none = json::array();
  int m = e.value("m", 0), i = e.value("i", 0);
  if (op == "mk") { if (e["ps"].empty()) ms[m] = ErrorMessage((int) e["id"]); else ms[m] = one((int) e["id"], e["ps"][0]); return none; }
  if (op == "vec") {
    std::vector<std::string> v;
    for (auto& p : e["ps"]) v.push_back(u8s(p["t"]));
    ms[m] = ErrorMessage((int) e["id"], v);
    return none;
  }
  if (op == "add") { add(ms[m], e["ps"][0]); return none; }
  if (op == "mcp") { ms[m] = ms[(int) e["o"]]; return none; }
  if (op == "mrs") { ms[m].reset(); return none; }
  if (op == "str") {
    std::string s = ms[m].asString();
    std::ostringstream o; o << ms[m];
    if (o.str() != s) return json::array({ -7 });
    return runs(s);
  }
  if (op == "prm") {
    json r = json::array({ (int) ms[m].getMessageID() });
    for (auto& p : ms[m].getMessageParams()) { for (auto& x : runs(p)) r.push_back(x); r.push_back(-1); }
    return r;
  }
  if (op == "in") { is[i] = ErrorInfo(ms[m], (TyErrorId) (int) e["id"], e["sev"] == 1 ? ErrorInfo::recoverable : ErrorInfo::unrecoverable); return none; }
  if (op == "idef") { is[i] = ErrorInfo(); return none; }
  if (op == "icp") { is[i] = is[(int) e["o"]]; return none; }
  if (op == "irs") { is[i].reset(); return none; }
  if (op == "setm") { is[i].setMessage(ms[m]); return none; }
  if (op == "seti") { is[i].setErrorId((TyErrorId) (int) e["id"]); return none; }
  if (op == "sets") { is[i].setSeverity(e["sev"] == 1 ? ErrorInfo::recoverable : ErrorInfo::unrecoverable); return none; }
  if (op == "ctx") { is[i].addContext(ErrorContext(ms[m], e["sev"] == 1 ? "file.cpp" : 0, e["sev"] == 1 ? "f" : 0, e["sev"] == 1 ? 7 : 0)); return none; }
  if (op == "get") return json::array({ (int) is[i].getErrorId(), is[i].isRecoverable() ? 1 : 0, (int) is[i].contextCount() });
  if (op == "imsg") return runs(is[i].getMessage().asString());
  if (op == "ictx") {
    ErrorContext const* c = is[i].contextPtrAtIndex((int) e["k"]);
    if (!c) return json::array({ -1 });
    return runs(c->getMessage().asString());
  }
  if (op == "istr") {
    // how many of number, message and contexts are shown, in this order
    std::string s = is[i].asString();
    std::ostringstream o; o << is[i];
    if (o.str() != s) return json::array({ -7 });
    if (is[i].getErrorId() == UIMA_ERR_NONE) return json::array({ s.size() > 40 ? 1 : 0 });
    std::vector<std::string> w = { std::to_string((int) is[i].getErrorId()), is[i].getMessage().asString() };
    for (size_t k = 0; k < is[i].contextCount(); k++) w.push_back(is[i].contextPtrAtIndex(k)->getMessage().asString());
    size_t at = 0; int n = 0;
    for (auto& x : w) { at = s.find(x, at); if (at == std::string::npos) break; at += x.size(); n++; }
    return json::array({ n });
  }
  if (op == "throw") {
    // thrown with a context or without, caught and thrown again with another
    int c = e["c"], how = e["how"];
    try {
      try { classes[c].raise(is[i], ms[m], how & 1); }
      catch (Exception& x) { if (how & 2) { UIMA_EXC_RETHROW(x, ms[m]); } throw; }
    } catch (Exception& x) {
      json r = json::array();
      is[(int) e["o"]] = x.getErrorInfo();
      for (int k = 0; k < NC; k++) if (classes[k].is(x)) r.push_back(k);
      r.push_back(-1);
      std::string nm = x.getName(), s = x.asString();
      r.push_back(c == 0 || nm.find(classes[c].name) != std::string::npos ? 1 : 0);
      r.push_back(x.what() == nm && s.find(nm) != std::string::npos && s.find(x.getErrorInfo().asString()) != std::string::npos ? 1 : 0);
      return r;
    }
    return json::array({ -2 });
  }
  throw std::runtime_error("unknown op " + op);
}
static void reply(std::string const& t, json const& v) {
  json o = { {"t", t}, {"v", v} };
  std::string s = o.dump() + "\n";
  fwrite(s.data(), 1, s.size(), stdout);
  fflush(stdout);
}
int main(int argc, char**) {
  if (argc > 1) {                                          // the texts of the messages
    json l = json::array();
    for (auto t : gs_aszMessageStringTable) { json c = json::array(); for (char const* p = t; *p; p++) c.push_back((int) (unsigned char) *p); l.push_back(c); }
    std::cout << l.dump() << std::endl;
    return 0;
  }
  installHandlers();
  ResourceManager::createInstance("verif");
  std::string line;
  while (std::getline(std::cin, line)) {
    if (line.empty()) continue;
    json e = json::parse(line);
    alarm(20);
    try {
      if (e.contains("cfg")) {
        ms.assign(5, ErrorMessage(UIMA_MSG_ID_NO_MESSAGE_AVAILABLE)); is.assign(5, ErrorInfo());
        for (auto& m : ms) m.reset();
        for (auto& i : is) i.reset();
        reply("ok", json::array());
      } else { json v = apply(e); reply("ok", v); }
    } catch (std::exception const& x) { reply(excName(x), json::array()); }
    alarm(0);
  }
  return 0;
}
