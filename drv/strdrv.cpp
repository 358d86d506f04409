// Asks a UnicodeStringRef into a text that ends at the end of accessible memory, one JSON value per line.
#include "common.hpp"
#include <sys/mman.h>
#include "uima/unistrref.hpp"
using namespace uima;
typedef UnicodeStringRef R;
static UChar* txt = 0; static size_t tlen = 0;
static char* page = 0; static const size_t PG = 4096;

static void setText(json const& u) {
  if (!page) {
    page = (char*) mmap(0, 3 * PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(page, PG, PROT_NONE); mprotect(page + 2 * PG, PG, PROT_NONE);
  }
  tlen = u.size();
  txt = (UChar*) (page + 2 * PG) - tlen;
  for (size_t i = 0; i < tlen; i++) txt[i] = (UChar) (int) u[i];
}
static R ref(json const& r) { int s = r[0]; return s < 0 ? R() : R(txt + s, (int32_t) (int) r[1]); }
static json one(int x) { return json::array({ x }); }
static json units(const UChar* p, int n) { json a = json::array(); for (int i = 0; i < n; i++) a.push_back((int) p[i]); return a; }
static json units(R const& r) { return units(r.getBuffer(), r.length()); }
static json bytes(std::string const& s) { json a = json::array(); for (unsigned char c : s) a.push_back((int) c); return a; }

static json apply(json const& e) {
  std::string op = e["op"];
  R a = ref(e["a"]), b = ref(e["b"]);
  int s = e["s"], l = e["l"], ss = e["ss"], sl = e["sl"], v = e["v"];      // v: which of the overloads
  const UChar* bp = b.getBuffer(); int bl = b.length();
  std::vector<int> cu = e["u"];
  UChar32 cp = cu.size() == 2 ? 0x10000 + ((cu[0] - 0xd800) << 10) + (cu[1] - 0xdc00) : cu[0];
  UChar c = (UChar) cu[0];
  bool unit = v == 0 && cu.size() == 1;
  UnicodeString us(false, bp ? bp : u"", bl);
  if (op == "rel") return json::array({ (int) (a == b), (int) (a != b), (int) (a < b), (int) (a <= b), (int) (a > b), (int) (a >= b) });
  if (op == "cmp") return one(v == 0 ? a.compare(b) : v == 1 ? a.compare(bp, bl) : a.compare(us));
  if (op == "cmps") return one(v == 0 || bl != l ? a.compare(s, l, b) : a.compare(s, l, bp));
  if (op == "cmpss") return one(v == 0 ? a.compare(s, l, b, ss, sl) : v == 1 ? a.compare(s, l, bp, ss, sl) : a.compareBetween(s, s + l, b, ss, ss + sl));
  if (op == "cpo") return one(v == 0 ? a.compareCodePointOrder(b) : a.compareCodePointOrder(bp, bl));
  if (op == "cpos") return one(v == 0 || bl != l ? a.compareCodePointOrder(s, l, b) : a.compareCodePointOrder(s, l, bp));
  if (op == "cposs") return one(v == 0 ? a.compareCodePointOrder(s, l, b, ss, sl) : v == 1 ? a.compareCodePointOrder(s, l, bp, ss, sl) : a.compareCodePointOrderBetween(s, s + l, b, ss, ss + sl));
  if (op == "fold") return one(v == 0 ? a.caseCompare(b, 0) : a.caseCompare(bp, bl, 0));
  if (op == "folds") return one(v == 0 || bl != l ? a.caseCompare(s, l, b, 0) : a.caseCompare(s, l, bp, 0));
  if (op == "foldss") return one(v == 0 ? a.caseCompare(s, l, b, ss, sl, 0) : v == 1 ? a.caseCompare(s, l, bp, ss, sl, 0) : a.caseCompareBetween(s, s + l, b, ss, ss + sl, 0));
  if (op == "starts") return one(v == 0 ? a.startsWith(b) : a.startsWith(bp, bl));
  if (op == "startss") return one(v == 0 ? a.startsWith(b, ss, sl) : a.startsWith(bp, ss, sl));
  if (op == "ends") return one(v == 0 ? a.endsWith(b) : a.endsWith(bp, bl));
  if (op == "endss") return one(v == 0 ? a.endsWith(b, ss, sl) : a.endsWith(bp, ss, sl));
  if (op == "ix") return one(a.indexOf(b));
  if (op == "ixs") return one(v == 0 ? a.indexOf(b, s) : a.indexOf(bp, bl, s));
  if (op == "ixl") return one(v == 0 ? a.indexOf(b, s, l) : a.indexOf(bp, bl, s, l));
  if (op == "ixss") return one(v == 0 ? a.indexOf(b, ss, sl, s, l) : a.indexOf(bp, ss, sl, s, l));
  if (op == "lix") return one(a.lastIndexOf(b));
  if (op == "lixs") return one(v == 0 ? a.lastIndexOf(b, s) : a.lastIndexOf(bp, bl, s));
  if (op == "lixl") return one(v == 0 ? a.lastIndexOf(b, s, l) : a.lastIndexOf(bp, bl, s, l));
  if (op == "lixss") return one(v == 0 ? a.lastIndexOf(b, ss, sl, s, l) : a.lastIndexOf(bp, ss, sl, s, l));
  if (op == "ixc") return one(unit ? a.indexOf(c) : a.indexOf(cp));
  if (op == "ixcs") return one(unit ? a.indexOf(c, s) : a.indexOf(cp, s));
  if (op == "ixcl") return one(unit ? a.indexOf(c, s, l) : a.indexOf(cp, s, l));
  if (op == "lixc") return one(unit ? a.lastIndexOf(c) : a.lastIndexOf(cp));
  if (op == "lixcs") return one(unit ? a.lastIndexOf(c, s) : a.lastIndexOf(cp, s));
  if (op == "lixcl") return one(unit ? a.lastIndexOf(c, s, l) : a.lastIndexOf(cp, s, l));
  if (op == "at") return one(v == 0 && s >= 0 && s < a.length() ? a[s] : a.charAt(s));
  if (op == "at32") return one(a.char32At(s));
  if (op == "start32") return one(a.getChar32Start(s));
  if (op == "limit32") return one(a.getChar32Limit(s));
  if (op == "move") return one(a.moveIndex32(s, l));
  if (op == "ext" || op == "extb") {
    bool to = op == "extb";
    if (v == 0) {
      UnicodeString d("old");
      if (to) a.extractBetween(s, l, d); else a.extract(s, l, d);
      return units(R(d));
    }
    std::vector<UChar> buf(tlen + 8, 0xfffe);
    if (to) a.extractBetween(s, l, buf.data(), v - 1); else a.extract(s, l, buf.data(), v - 1);
    int n = 0;
    while (buf[v - 1 + n] != 0xfffe) n++;
    return v > 1 && buf[0] != 0xfffe ? one(-7) : units(buf.data() + v - 1, n);
  }
  if (op == "cap") {
    std::vector<UChar> buf(tlen + 8, 0xfffe);
    UErrorCode err = U_ZERO_ERROR;
    int n = a.extract(buf.data(), l, err);
    json r = one(n);
    if (n > l ? err != U_BUFFER_OVERFLOW_ERROR : U_FAILURE(err)) r.push_back(-8);
    if (n <= l) for (int i = 0; i < n; i++) r.push_back((int) buf[i]);
    for (size_t i = l; i < buf.size(); i++) if (buf[i] != 0xfffe) r.push_back(-9);
    return r;
  }
  if (op == "utf8" || op == "utf8s") {
    std::string d("old");
    int n;
    if (op == "utf8s") n = a.extract(s, l, d, "utf-8");
    else if (v == 0) n = a.extractUTF8(d);
    else if (v == 1) n = a.extract(d, "utf-8");
    else if (v == 2) { d = a.asUTF8(); n = d.size(); }
    else { std::ostringstream o; o << a; d = o.str(); n = d.size(); }
    return n == (int) d.size() ? bytes(d) : one(-7);
  }
  if (op == "len") {
    R x;
    if (v == 0) x = a; else if (v == 1) x.setTo(a); else x.setTo(a.getBuffer(), a.length());
    return json::array({ (int) x.length(), (int) x.isEmpty(), (int) x.getSizeInBytes() });
  }
  if (op == "trim") return units(strtrim(a));
  if (op == "split") {
    std::vector<R> out;
    std::vector<UChar> d(bp, bp + bl); d.push_back(0);
    int n = delimitedUnicodeStringRef2Vector(out, a.getBuffer(), a.length(), d.data(), s == 1, l == 1);
    json r = one(n);
    for (auto& x : out) { r.push_back((int) x.length()); for (auto& y : units(x)) r.push_back(y); }
    return r;
  }
  throw std::runtime_error("unknown op " + op);
}
static void reply(std::string const& t, json const& v) {
  json o = { {"t", t}, {"v", v} };
  std::string s = o.dump() + "\n";
  fwrite(s.data(), 1, s.size(), stdout);
  fflush(stdout);
}
int main() {
  installHandlers();
  std::string line;
  while (std::getline(std::cin, line)) {
    if (line.empty()) continue;
    json e = json::parse(line);
    alarm(20);
    try {
      if (e.contains("cfg")) { setText(e["cfg"]["txt"]); reply("ok", json::array()); }
      else { json v = apply(e); reply("ok", v); }
    } catch (std::exception const& x) { reply(excName(x), json::array({ std::string(x.what() ? x.what() : "") })); }
    alarm(0);
  }
  return 0;
}
