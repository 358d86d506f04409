// A stream handler whose content is the URI itself; counts the handlers that are open.
#include <string>
#include <cstring>
#include <cstdio>
#include "uima/api.hpp"
#include "uima/sofastreamhandler.hpp"
extern "C" { int verif_live = 0; }
using namespace uima;
class Mem : public SofaStreamHandler {
  std::string c;
  size_t pos;
  bool up;
public:
  Mem() : pos(0), up(false) {}
  ~Mem() { closeStream(); }
  void openStream(const char* u) { c = u; pos = 0; if (!up) verif_live++; up = true; }
  void openStream(const char* u, size_t) { openStream(u); }
  INT64 getTotalStreamSize() { return up ? (INT64) c.size() : -1; }
  size_t getBufferSize() { return c.size(); }
  INT64 howManyAvailable() { return up ? (INT64) (c.size() - pos) : -1; }
  INT64 getNext(size_t n, void* p) {
    if (!up || pos == c.size()) return -1;
    if (n > c.size() - pos) n = c.size() - pos;
    memcpy(p, c.data() + pos, n);
    pos += n;
    return n;
  }
  int seek(INT64 o, int org) {
    if (!up || org < 0 || org > 2) return -1;
    INT64 to = org == SEEK_SET ? o : org == SEEK_CUR ? (INT64) pos + o : (INT64) c.size() + o;
    if (to < 0 || to > (INT64) c.size()) return -1;
    pos = to;
    return 0;
  }
  void closeStream() { if (up) verif_live--; up = false; }
  void* getDataPointer() { return up ? (void*) c.data() : 0; }
};
MAKE_HANDLER(Mem);
