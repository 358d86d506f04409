// helpers of the demonstrations
#include "uima/api.hpp"
#include "uima/fsfilterbuilder.hpp"
#include "uima/xmlerror_handler.hpp"
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <memory>
using namespace uima;
using icu::UnicodeString;
static std::string g_dir;
static int g_bad = 0;
static void expect(bool b, char const* what) { if (!b) { g_bad = 1; printf("WRONG: %s\n", what); } }
struct World {
  std::unique_ptr<AnalysisEngineDescription> desc;
  TypeSystem* ts; CAS* cas;
  World(char const* file) : desc(new AnalysisEngineDescription()) {
    XMLParser p; p.parseAnalysisEngineDescription(*desc, (g_dir + "/" + file).c_str());
    ErrorInfo err;
    ts = Framework::createTypeSystem(*desc->getAnalysisEngineMetaData(), err);
    if (!ts) { printf("no type system: %s\n", err.asString().c_str()); exit(3); }
    cas = Framework::createCAS(*ts, *desc->getAnalysisEngineMetaData(), err);
    if (!cas) { printf("no cas: %s\n", err.asString().c_str()); exit(3); }
  }
  ~World() { delete cas; delete ts; }
  Type T(char const* n) { return ts->getType(n); }
  Feature F(char const* t, char const* f) { return ts->getType(t).getFeatureByBaseName(f); }
};
int body();
int main(int argc, char** argv) {
  g_dir = argv[1];
  ResourceManager::createInstance("demo");
  int rc = 0;
  try { rc = body(); } catch (uima::Exception& e) { printf("exception: %s\n", e.getErrorInfo().asString().c_str()); rc = 2; } catch (std::exception& e) { printf("exception: %s\n", e.what()); rc = 2; }
  return rc ? rc : g_bad;
}
