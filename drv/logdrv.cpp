// Logs through the real facilities to loggers that record what they get, one JSON value per line.
#include "common.hpp"
#include <fstream>
#include <thread>
#include <atomic>
#include "uima/log.hpp"
#include "uima/resmgr.hpp"
using namespace uima;

static json got = json::array();
static std::string file;                                   // the file of the file logger
static long filePos = 0;
static std::atomic<int> inside(0);
static std::atomic<bool> overlap(false);
static bool slow = false;

// names of origins and texts: o<k>; and m<k>; as numbers
static std::vector<int> nums(std::string const& s, char c) {
  std::vector<int> r;
  for (size_t i = 0; i + 1 < s.size(); i++)
    if (s[i] == c && isdigit((unsigned char) s[i + 1]) && (i == 0 || !isalnum((unsigned char) s[i - 1]))) {
      size_t j = i + 1; int n = 0;
      while (j < s.size() && isdigit((unsigned char) s[j])) n = n * 10 + (s[j++] - '0');
      if (j < s.size() && s[j] == ';') r.push_back(n);
    }
  return r;
}
static int origin(std::string const& s) {
  if (s.find("org.apache.uima.cpp") != std::string::npos) return 0;
  auto r = nums(s, 'o');
  return r.size() == 1 ? r[0] : r.empty() ? 0 : -3;
}
static std::string text(json const& m) { std::string s; for (int k : m) s += "m" + std::to_string(k) + ";"; return s; }
static void entry(int g, int y, int o, long c, std::vector<int> const& m) {
  got.push_back(g); got.push_back(y); got.push_back(o); got.push_back(c);
  for (int k : m) got.push_back(k);
  got.push_back(-1);
}
struct Guard {
  Guard() { if (inside++ != 0) overlap = true; if (slow) std::this_thread::sleep_for(std::chrono::microseconds(30)); }
  ~Guard() { inside--; }
};
struct Mem : Logger {
  int g;
  Mem(int n) : g(n) {}
  void log(LogStream::EnEntryType y, std::string cls, std::string meth, std::string msg, long c) {
    Guard q;
    std::vector<int> m = nums(msg, 'm');
    if (!meth.empty() || cls.empty()) m.push_back(-4);
    entry(g, (int) y, cls == "org.apache.uima.cpp" ? 0 : origin(cls), c, m);
  }
};
struct File : FileLogger {
  int g;
  File(int n, std::string const& p) : FileLogger(p), g(n) {}
  void log(LogStream::EnEntryType y, std::string cls, std::string meth, std::string msg, long c) {
    Guard q;
    FileLogger::log(y, cls, meth, msg, c);
    std::ifstream f(file);
    f.seekg(filePos);
    std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    filePos += s.size();
    // what the file says: one line (or the lines of a text with several), ended
    std::vector<int> m = nums(s, 'm');
    int ty = s.find(" SEVERE: ") != std::string::npos ? 2 : s.find(" WARNING: ") != std::string::npos ? 1 : s.find(" INFO: ") != std::string::npos ? 0 : -3;
    size_t r = s.find(" RC=");
    if (s.empty() || s.back() != '\n') m.push_back(-4);
    entry(g, ty, origin(s), r == std::string::npos ? 0 : atol(s.c_str() + r + 4), m);
  }
};
static std::vector<Logger*> lg;
static std::vector<LogFacility*> fa;
static std::vector<LogStream*> str;
static int nl = 0;

static ResourceManager& rm() { return ResourceManager::getInstance(); }
static LogFacility& fac(json const& e) {
  int f = e["f"];
  return f == 1 ? rm().getLogger() : *fa[f];
}
static void clear() {
  rm().getLoggers().clear();
  rm().getLogger().flushLogStream();
  rm().getLogger().logError(ErrorInfo());                  // forgets the last error
  for (auto*& f : fa) { delete f; f = 0; }
  for (auto*& l : lg) { delete l; l = 0; }
  if (!file.empty()) unlink(file.c_str());
  filePos = 0;
  rm().setLoggingLevel(LogStream::EnMessage);
}
static void say(LogFacility& f, int y, int k, std::string const& t, long c) {
  UnicodeString u = u8(t);
  if (k == 0) y == 0 ? f.logMessage(t.c_str(), c) : y == 1 ? f.logWarning(t.c_str(), c) : f.logError(t.c_str(), c);
  else if (k == 1) y == 0 ? f.logMessage(t, c) : y == 1 ? f.logWarning(t, c) : f.logError(t, c);
  else y == 0 ? f.logMessage(u, c) : y == 1 ? f.logWarning(u, c) : f.logError(u, c);
}
static json apply(json const& e) {
  std::string op = e["op"];
  got = json::array();
  slow = op == "par"; overlap = false;
  int y = e.value("y", 0);
  if (op == "lv") { rm().setLoggingLevel((LogStream::EnEntryType) (int) e["l"]); return got; }
  if (op == "glv") return json::array({ (int) rm().getLoggingLevel() });
  if (op == "reg") { rm().registerLogger(lg[e["lo"]]); return got; }
  if (op == "unreg") { rm().unregisterLogger(lg[e["lo"]]); return got; }
  if (op == "new") {
    UnicodeString n = u8("o" + std::to_string((int) e["n"]) + ";");
    fa[e["f"]] = e["l"] < 0 ? new LogFacility(n) : new LogFacility(n, (LogStream::EnEntryType) (int) e["l"]);
    return got;
  }
  if (op == "par") {
    std::vector<std::thread> t;
    std::atomic<int> go(0);
    for (auto& th : e["ths"]) t.emplace_back([&] {
      LogFacility& f = fac(th);
      go++; while (go < (int) e["ths"].size()) std::this_thread::yield();
      for (auto& m : th["ms"]) say(f, m[0], (int) m[1] % 3, text(json::array({ m[1] })), m[2]);
    });
    for (auto& x : t) x.join();
    if (overlap) got.push_back(-6);
    return got;
  }
  LogFacility& f = fac(e);
  if (op == "del") { delete &f; fa[e["f"]] = 0; return got; }
  if (op == "log") { say(f, y, e["k"], text(e["m"]), e["c"]); return got; }
  if (op == "loge") {
    ErrorInfo i;
    i.setErrorId((TyErrorId) (int) e["id"]);
    i.setMessage(ErrorMessage(UIMA_MSG_ID_LITERAL_STRING, text(e["m"])));
    y == 1 ? f.logWarning(i) : f.logError(i);
    return got;
  }
  if (op == "st" || op == "more") {
    if (op == "st") str[e["f"]] = &f.getLogStream((LogStream::EnEntryType) y);
    LogStream& s = *str[e["f"]];
    for (int k : e["m"]) s << "m" << k << ";";
    if (e["fl"] == 1) s.flush(); else if (e["fl"] == 2) f.flushLogStream();
    return got;
  }
  if (op == "err") {
    ErrorInfo const& i = f.getLastError();
    json r = json::array({ (int) i.getErrorId() });
    std::string t = i.getErrorId() == UIMA_ERR_NONE ? "" : i.getMessage().asString();
    r.push_back(origin(t));
    for (int k : nums(t, 'm')) r.push_back(k);
    return r;
  }
  if (op == "errs") {
    const char* p = f.getLastErrorAsCStr();
    if (!p) return json::array();
    std::string t(p);
    json r = json::array({ origin(t) });
    for (int k : nums(t, 'm')) r.push_back(k);
    return r;
  }
  throw std::runtime_error("unknown op " + op);
}
static void reply(std::string const& t, json const& v) {
  json o = { {"t", t}, {"v", v} };
  std::string s = o.dump() + "\n";
  fwrite(s.data(), 1, s.size(), stdout);
  fflush(stdout);
}
int main() {
  installHandlers();
  ResourceManager::createInstance("verif");
  std::string line;
  while (std::getline(std::cin, line)) {
    if (line.empty()) continue;
    json e = json::parse(line);
    alarm(20);
    try {
      if (e.contains("cfg")) {
        json const& c = e["cfg"];
        clear();
        file = c["file"].get<std::string>() + "." + std::to_string(getpid());
        nl = c["nl"];
        lg.assign(nl + 1, 0); fa.assign((int) c["nf"] + 1, 0); str.assign((int) c["nf"] + 1, 0);
        for (int g = 1; g < nl; g++) lg[g] = new Mem(g);
        lg[nl] = new File(nl, file);
        reply("ok", json::array());
      } else { json v = apply(e); reply("ok", v); }
    } catch (std::exception const& x) { reply(excName(x), json::array()); }
    alarm(0);
  }
  clear();
  return 0;
}
