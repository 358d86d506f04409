// Shared by the drivers: JSON lines in, JSON lines out, crash reporting.
#pragma once
#include <nlohmann/json.hpp>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <csignal>
#include <unistd.h>
#include <typeinfo>
#include <cxxabi.h>
#include <iostream>
#include <sstream>
#include "uima/api.hpp"
#include "uima/fsfilterbuilder.hpp"
using json = nlohmann::json;
using icu::UnicodeString;

static inline std::string excName(std::exception const& e) {
  int st = 0;
  char* d = abi::__cxa_demangle(typeid(e).name(), 0, 0, &st);
  std::string s = d ? d : typeid(e).name();
  free(d);
  if (s.compare(0, 6, "uima::") == 0) s = s.substr(6);
  return s;
}
static inline void onSignal(int sg) {
  const char* m = sg == SIGALRM ? "{\"t\":\"HANG\",\"v\":[]}\n" : "{\"t\":\"CRASH\",\"v\":[]}\n";
  ssize_t r = write(1, m, strlen(m));
  (void) r;
  _exit(3);
}
static inline void onTerminate() { onSignal(SIGABRT); }
static inline void installHandlers() {
#if !defined(__SANITIZE_ADDRESS__)
  static char stack[1 << 16];
  stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = stack; ss.ss_size = sizeof stack;
  sigaltstack(&ss, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa);
  sa.sa_handler = onSignal; sa.sa_flags = SA_ONSTACK;
  int sigs[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM };
  for (int s : sigs) sigaction(s, &sa, 0);
#else
  signal(SIGALRM, onSignal);
#endif
  std::set_terminate(onTerminate);
}
// is a description valid against the schema of the resource specifiers?
static inline void schema(bool on) { uima::ResourceManager::getInstance().enableSchemaValidation(on); }
struct WithSchema { WithSchema(bool on) { schema(on); } ~WithSchema() { schema(false); } };
static inline bool schemaValid(UnicodeString const& file) {
  if (!uima::ResourceManager::getInstance().isSchemaAvailable()) throw std::logic_error("no schema");
  schema(true);
  bool ok = true;
  try { uima::AnalysisEngineDescription d; uima::XMLParser p; p.parseAnalysisEngineDescription(d, file);
  } catch (...) { ok = false; }
  schema(false);
  return ok;
}
// value encodings: strings as hex UTF-16 units "s:0041", null as "n"
static inline std::string encStr(const UChar* p, size_t n) {
  static const char* H = "0123456789abcdef";
  std::string r = "s:";
  for (size_t i = 0; i < n; i++) for (int k = 12; k >= 0; k -= 4) r += H[(p[i] >> k) & 15];
  return r;
}
static inline std::string encRef(uima::UnicodeStringRef const& r) {
  if (r.getBuffer() == NULL) return "n";
  return encStr(r.getBuffer(), r.length());
}
static inline std::vector<UChar> decStr(std::string const& s) {
  std::vector<UChar> r;
  for (size_t i = 2; i + 3 < s.size() + 0; i += 4) r.push_back((UChar) strtoul(s.substr(i, 4).c_str(), 0, 16));
  return r;
}
static inline UnicodeString u8(std::string const& s) { return UnicodeString::fromUTF8(s); }
static inline std::string toU8(UnicodeString const& u) { std::string s; u.toUTF8String(s); return s; }
