"""Planted bugs: property, edits of /repo (file, old text, new text), demonstration. mkseed.py turns them into /verif/seeded."""
S = {}
A = "World w(\"d.xml\"); CAS& c = *w.cas; Type A = w.T(\"t.A\"), B = w.T(\"t.B\"), C = w.T(\"t.C\"), N = w.T(\"t.N\");\n"

S["clone-strsub"] = dict(p="P03", needs="a feature whose range is a string subtype, clone(), then a write to the clone (or the original)",
  what="copyFeatures copies the string cell of features with a string-subtype range instead of making a new one, so the clone and the original share it",
  edits=[("src/cas/lowlevel_fsheap.cpp", "if ( iv_rclTypeSystem.subsumes( uima::internal::gs_tyStringType, iv_rclTypeSystem.getRangeType(feat) ) ) {",
          "if ( iv_rclTypeSystem.getRangeType(feat) == uima::internal::gs_tyStringType ) {")],
  demo=A + """
  FeatureStructure a = c.createFS(A);
  Feature f = w.F("t.A", "color");
  a.setStringValue(f, UnicodeString("red"));
  FeatureStructure b = a.clone(A);
  b.setStringValue(f, UnicodeString("blue"));
  expect(a.getStringValue(f).asUTF8() == "red", "the original keeps its value");
  expect(b.getStringValue(f).asUTF8() == "blue", "the clone has the new value");""")

S["copyto-short"] = dict(p="P04", needs="a ShortArray copied out with a destination offset different from the source offset",
  what="copyToArray of short arrays writes at the source offset instead of the destination offset",
  edits=[("src/cas/uima/lowlevel_fsheap.hpp", "memcpy(destArray + destOffset, ptr + srcOffset, numelements*sizeof(short) );",
          "memcpy(destArray + srcOffset, ptr + srcOffset, numelements*sizeof(short) );")],
  demo=A + """
  ShortArrayFS s = c.createShortArrayFS(6);
  for (int i = 0; i < 6; i++) s.set(i, 100 + i);
  short buf[16]; for (int i = 0; i < 16; i++) buf[i] = -1;
  s.copyToArray(1, 4, buf, 3);
  short want[16] = { -1, -1, -1, 101, 102, 103, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1 };
  for (int i = 0; i < 16; i++) expect(buf[i] == want[i], "buffer after copyToArray(1, 4, buf, 3)");""")

S["list-remove-tail"] = dict(p="P05", needs="removing an element that is not the head, then using the returned list",
  what="the list of the removed element keeps the old tail: it is not a list of one element and shares its cells with the original",
  edits=[("src/cas/listfs.cpp", "        aList.setTail(tail.getTail());\n", "        aList.setTail(tail.getTail());\n        if (aList.getTail().isEmpty())\n")],
  demo=A + """
  IntListFS l = c.createIntListFS(); l.addLast(1);
  l.addLast(2); l.addLast(3); l.addLast(4);
  IntListFS r = l.removeElement(2);
  expect(l.getLength() == 3, "three elements are left");
  expect(r.getLength() == 1, "the removed element stands alone");
  r.addLast(9);
  expect(l.getLength() == 3, "appending to the removed element does not touch the list");""")

S["index-first-of-type"] = dict(p="P06", needs="an index over a type with subtypes is read before the first structure of some subtype is added",
  what="adding the first structure of a type does not mark the caches of supertype indexes as out of date: it is missing from them until another one comes",
  edits=[("src/cas/lowlevel_indexrepository.cpp", "      iv_cacheDirtyFlags[type].clear();\n\n      assert( type < iv_indexes.size() );",
          "      if (iv_isUsed[type]) iv_cacheDirtyFlags[type].clear();\n\n      assert( type < iv_indexes.size() );")],
  demo=A + """
  c.setDocumentText(UnicodeString("some text here"));
  FSIndexRepository& r = c.getIndexRepository();
  r.addFS(c.createAnnotation(A, 0, 4));
  ANIndex ix = c.getAnnotationIndex(A);
  int n = 0; { FSIterator it = ix.iterator(); for (; it.isValid(); it.moveToNext()) n++; }
  expect(n == 1, "one annotation");
  r.addFS(c.createAnnotation(B, 5, 9));
  n = 0; { FSIterator it = ix.iterator(); for (; it.isValid(); it.moveToNext()) n++; }
  expect(n == 2, "two annotations after adding one of a subtype");""")

S["index-double-key"] = dict(p="P07", needs="a sorted index with a Double key and two keys that differ by less than the precision of a float",
  what="double keys are compared as floats",
  edits=[("src/cas/lowlevel_indexcomparator.cpp", "double f1 = heap.getFSAsDouble(val1);\n            double f2 = heap.getFSAsDouble(val2);",
          "float f1 = heap.getFSAsDouble(val1);\n            float f2 = heap.getFSAsDouble(val2);")],
  demo=A + """
  Feature d = w.F("t.A", "d");
  FeatureStructure a = c.createFS(A), b = c.createFS(A);
  a.setDoubleValue(d, 1.0000000001); b.setDoubleValue(d, 1.0);
  c.getIndexRepository().addFS(a); c.getIndexRepository().addFS(b);
  FSIterator it = c.getIndexRepository().getIndex("byD").iterator();
  expect(it.get() == b, "1.0 comes before 1.0000000001");""")

S["typeset-last"] = dict(p="P08", needs="a type-set iterator moved to its last element while the index ends with a structure of another type",
  what="moveToLast of a type-set iterator stops at the last structure of the index even if its type is not in the set",
  edits=[("src/cas/lowlevel_internal_indexes.cpp", "          iv_it->moveToLast();\n          goBackward();", "          iv_it->moveToLast();\n          goForward();")],
  demo=A + """
  c.setDocumentText(UnicodeString("some text here"));
  FSIndexRepository& r = c.getIndexRepository();
  AnnotationFS a = c.createAnnotation(A, 0, 4);
  r.addFS(a); r.addFS(c.createAnnotation(C, 5, 9));
  std::set<Type> ts; ts.insert(A);
  FSIterator it = c.getAnnotationIndex().typeSetIterator(ts);
  it.moveToLast();
  expect(it.isValid() && it.get() == (FeatureStructure const&) a, "the last one of the set is the t.A");""")

S["una-sub-adjacent"] = dict(p="P09", needs="an unambiguous subiterator over annotations one of which begins exactly where the one before ends",
  what="the unambiguous subiterator skips an annotation that begins where the previous one ends",
  edits=[("src/cas/cas.cpp", "        } while (uiCurrBeginPos < uiLastEndPos);\n\n      }", "        } while (uiCurrBeginPos <= uiLastEndPos);\n\n      }")],
  demo=A + """
  c.setDocumentText(UnicodeString("abcdefghijklmnop"));
  FSIndexRepository& r = c.getIndexRepository();
  AnnotationFS o = c.createAnnotation(C, 0, 12);
  r.addFS(o); r.addFS(c.createAnnotation(A, 1, 3)); r.addFS(c.createAnnotation(A, 3, 5)); r.addFS(c.createAnnotation(A, 5, 8));
  ANIterator it = c.getAnnotationIndex(A).subIterator(o, CAS::UNAMBIGUOUS_ITERATOR);
  int n = 0; for (; it.isValid(); it.moveToNext()) n++;
  expect(n == 3, "three adjacent annotations");""".replace("CAS::UNAMBIGUOUS_ITERATOR", "enUnambiguous"))

S["filter-int-overflow"] = dict(p="P10", needs="an integer comparison filter on values further apart than 2^31",
  what="LESS and GREATER are decided on the sign of the difference, which overflows",
  edits=[("src/cas/fsfilterbuilder.cpp", "          return val1 < val2;", "          return isNegative(val1, val2);"),
         ("src/cas/fsfilterbuilder.cpp", "      bool compare(FSFilterBuilder::EnComparisonOperator enOp, T val1, T val2) const {",
          "      static bool isNegative(int a, int b) { return (int) ((unsigned) a - (unsigned) b) < 0; }\n      static bool isNegative(float a, float b) { return a - b < 0; }\n      static bool isNegative(UnicodeStringRef const & a, UnicodeStringRef const & b) { return a < b; }\n      bool compare(FSFilterBuilder::EnComparisonOperator enOp, T val1, T val2) const {")],
  demo=A + """
  Feature i = w.F("t.A", "i");
  FeatureStructure a = c.createFS(A);
  a.setIntValue(i, -2147483647);
  c.getIndexRepository().addFS(a);
  std::vector<Feature> p; p.push_back(i);
  FSFilter const * f(c.getFSFilterBuilder().createIntFeatureFilter(p, FSFilterBuilder::LESS, 100));
  FSIterator it = c.getIndexRepository().getIndex("byD").filteredIterator(f);
  int n = 0; for (; it.isValid(); it.moveToNext()) n++;
  expect(n == 0, "-2147483647 is less than 100 and is filtered out");""")

S["doc-end-codepoints"] = dict(p="P12", needs="a document text with characters beyond U+FFFF",
  what="the end of the document annotation counts code points instead of UTF-16 units",
  edits=[("src/cas/cas.cpp", "                              (int) iv_uiDocumentLength);\n", "                              (int) u_countChar32(iv_cpDocument, iv_uiDocumentLength));\n")],
  demo=A + """
  UnicodeString t; t.append((UChar32) 0x1F600); t.append((UChar32) 'a');
  c.setDocumentText(t);
  expect(c.getDocumentAnnotation().getEndPosition() == 3, "the document annotation ends at the end of the text");
  expect(c.getDocumentAnnotation().getCoveredText().length() == 3, "the document annotation covers the text");""")

S["reset-caches"] = dict(p="P13", needs="an index over a type with subtypes is read, the CAS is reset, and the index is read again before anything is added",
  what="reset does not mark the caches of supertype indexes as out of date: they still hold the structures of the previous document",
  edits=[("src/cas/lowlevel_indexrepository.cpp", "        iv_cacheDirtyFlags[iv_usedIndexes[i]].clear();\n        iv_isUsed", "        iv_isUsed")],
  demo=A + """
  c.setDocumentText(UnicodeString("some text here"));
  FSIndexRepository& r = c.getIndexRepository();
  r.addFS(c.createAnnotation(A, 0, 4));
  ANIndex ix = c.getAnnotationIndex(A);
  int n = 0; { FSIterator it = ix.iterator(); for (; it.isValid(); it.moveToNext()) n++; }
  expect(n == 1, "one annotation");
  c.reset();
  FSIterator it = c.getAnnotationIndex(A).iterator();
  expect(!it.isValid(), "nothing in the index of a reset CAS");""")

# ---- helpers for seeds about engines: descriptions and a traced annotator
H = '<?xml version="1.0" encoding="UTF-8"?>\n<analysisEngineDescription xmlns="http://uima.apache.org/resourceSpecifier"><frameworkImplementation>org.apache.uima.cpp</frameworkImplementation>'
OP = "<operationalProperties><modifiesCas>true</modifiesCas><multipleDeploymentAllowed>true</multipleDeploymentAllowed><outputsNewCASes>false</outputsNewCASes></operationalProperties></analysisEngineMetaData>"
def typ(n, sup="uima.tcas.Annotation", feats=()):
    return "<typeDescription><name>%s</name><description/><supertypeName>%s</supertypeName>%s</typeDescription>" % (n, sup, "<features>%s</features>" % "".join(
        "<featureDescription><name>%s</name><description/><rangeTypeName>%s</rangeTypeName></featureDescription>" % f for f in feats) if feats else "")
def caps(outs=(), lang="x-unspecified"):
    return "<capabilities><capability><inputs/><outputs>%s</outputs><languagesSupported><language>%s</language></languagesSupported></capability></capabilities>" % (
        "".join('<type allAnnotatorFeatures="true">%s</type>' % t for t in outs), lang)
NOPAR = "<configurationParameters/><configurationParameterSettings/>"
def meta(name, params=NOPAR, types=(), flow="", cap=caps(), extra="", prio=""):
    return ("<analysisEngineMetaData><name>%s</name><description/><version>1</version><vendor/>%s%s<typeSystemDescription><types>%s</types></typeSystemDescription>%s%s%s" %
            (name, params, flow and "<flowConstraints>%s</flowConstraints>" % flow, "".join(types), prio, extra, cap)) + OP
def prim(name, **k): return H + "<primitive>true</primitive><annotatorImplementationName>@W@/plug.so</annotatorImplementationName>" + meta(name, **k) + "</analysisEngineDescription>"
def agg(name, kids, maps=(), tag="fixedFlow", **k):
    return (H + "<primitive>false</primitive><delegateAnalysisEngineSpecifiers>%s</delegateAnalysisEngineSpecifiers>" %
            "".join('<delegateAnalysisEngine key="%s"><import location="%s"/></delegateAnalysisEngine>' % q for q in kids)
            + meta(name, flow="<%s>%s</%s>" % (tag, "".join("<node>%s</node>" % q[0] for q in kids), tag), **k)
            + ("<sofaMappings>%s</sofaMappings>" % "".join("<sofaMapping><componentKey>%s</componentKey><componentSofaName>%s</componentSofaName><aggregateSofaName>%s</aggregateSofaName></sofaMapping>" % m for m in maps) if maps else "")
            + "</analysisEngineDescription>")
PLUG = '''#include "uima/api.hpp"
using namespace uima;
extern "C" int trace(Annotator* a, char const* what, AnnotatorContext* ctx, CAS* cas);
class Traced : public Annotator {
  TyErrorId t(char const* what, CAS* cas = 0) { return (TyErrorId) trace(this, what, &getAnnotatorContext(), cas); }
public:
  TyErrorId initialize(AnnotatorContext& c) { return (TyErrorId) trace(this, "init", &c, 0); }
  TyErrorId typeSystemInit(TypeSystem const&) { return t("ts"); }
  TyErrorId destroy() { return t("destroy"); }
  TyErrorId reconfigure() { return t("reconf"); }
  TyErrorId process(CAS& cas, ResultSpecification const&) { return t("process", &cas); }
  TyErrorId batchProcessComplete() { return t("batch"); }
  TyErrorId collectionProcessComplete() { return t("coll"); }
};
MAKE_AE(Traced);
'''
# g_trace is the log ("id.method" per call); g_rc gives the return code of a call
TR = '''
static std::string g_log; static std::map<std::string, int> g_rc; static std::map<Annotator*, std::string> g_id;
static void (*g_hook)(std::string const&, AnnotatorContext&, CAS*) = 0;
extern "C" int trace(Annotator* a, char const* what, AnnotatorContext* ctx, CAS* cas) {
  std::string& id = g_id[a];
  if (!strcmp(what, "init")) id = UnicodeStringRef(ctx->getTaeSpecifier().getAnalysisEngineMetaData()->getName()).asUTF8();
  std::string s = id + "." + what;
  g_log += s + " ";
  if (g_hook) g_hook(s, *ctx, cas);
  return g_rc.count(s) ? g_rc[s] : 0;
}
static AnalysisEngine* engine(char const* f) {
  ErrorInfo err;
  AnalysisEngine* e = Framework::createAnalysisEngine((g_dir + "/" + f).c_str(), err);
  if (!e) { printf("no engine: %s\\n", err.asString().c_str()); exit(3); }
  return e;
}
'''
def eng_seed(i, **k):
    f = k.pop("files")
    S[i] = dict(xml=False, pre="#include <map>\n#include <cstring>\n" + TR + k.pop("more", ""), files=dict(f, **{"plug.cpp": PLUG}), **k)

eng_seed("destroy-failed", p="P18", needs="an annotator whose destroy fails, and a second destroy of the engine",
  what="an engine whose destroy returned an error is not marked as destroyed: another destroy calls the annotator again instead of being rejected",
  edits=[("src/framework/internal_engine_base.cpp", "      iv_state.setToState(EngineState::enEngineState_readyForDeletion);\n      return true;", "      return true;"),
         ("src/framework/internal_engine_base.cpp", "        return destroyImpl();\n", "        TyErrorId utRetVal = destroyImpl();\n        if (utRetVal == UIMA_ERR_NONE) {\n          iv_state.setToState(EngineState::enEngineState_readyForDeletion);\n        }\n        return utRetVal;\n")],
  files={"a.xml": prim("a")}, demo="""
  AnalysisEngine* e = engine("a.xml");
  g_rc["a.destroy"] = 95004;
  expect(e->destroy() == 95004, "the first destroy reports the error of the annotator");
  expect(e->destroy() == UIMA_ERR_ENGINE_INVALID_CALLING_SEQUENCE, "the second destroy is rejected");
  expect(g_log == "a.init a.ts a.destroy ", "the annotator is destroyed once");""")

eng_seed("cpc-stop", p="P19", needs="collectionProcessComplete fails in a delegate that is not the last",
  what="collectionProcessComplete of an aggregate does not call the delegates after the one that failed",
  edits=[("src/framework/annotator_mgr.cpp", "          clTrace.dump(_TEXT(\"Error in launchCollectionProcessComplete()\"), (long) utErrorId);\n          utRetVal = utErrorId;                        /* I know, this overwrites a previous error */\n",
          "          clTrace.dump(_TEXT(\"Error in launchCollectionProcessComplete()\"), (long) utErrorId);\n          utRetVal = utErrorId;\n          break;\n")],
  files={"a.xml": prim("a"), "b.xml": prim("b"), "agg.xml": agg("agg", [("a", "a.xml"), ("b", "b.xml")])}, demo="""
  AnalysisEngine* e = engine("agg.xml");
  g_rc["a.coll"] = 95004; g_log = "";
  expect(e->collectionProcessComplete() == 95004, "the error is reported");
  expect(g_log == "a.coll b.coll ", "both delegates are called");
  e->destroy(); delete e;""")

eng_seed("caplang-error", p="P20", needs="a capability language flow in which the first of two delegates that produce the same type fails",
  what="the output of a delegate that failed is taken for produced, so that a later delegate that could produce it is skipped",
  edits=[("src/framework/annotator_mgr.cpp", "          } else {\n            // now remove TOFs from ResultSpec", "          }\n          {\n            // now remove TOFs from ResultSpec")],
  files={"a.xml": prim("a", types=[typ("v.T")], cap=caps(["v.T"])), "b.xml": prim("b", types=[typ("v.T")], cap=caps(["v.T"])),
         "agg.xml": agg("agg", [("a", "a.xml"), ("b", "b.xml")], tag="capabilityLanguageFlow", types=[typ("v.T")], cap=caps(["v.T"]))}, demo="""
  AnalysisEngine* e = engine("agg.xml");
  std::unique_ptr<CAS> c(e->newCAS());
  c->setDocumentText(UnicodeString("some text"));
  g_log = ""; e->process(*c);
  expect(g_log == "a.process ", "the second producer is skipped");
  g_log = ""; g_rc["a.process"] = 95004; e->process(*c);
  expect(g_log == "a.process b.process ", "the second producer runs when the first fails");
  e->destroy(); delete e;""")

GP = ('<configurationParameters defaultGroup="g" searchStrategy="none"><configurationGroup names="g"><configurationParameter><name>p</name><description/><type>Integer</type>'
      '<multiValued>false</multiValued><mandatory>false</mandatory>%s</configurationParameter></configurationGroup></configurationParameters><configurationParameterSettings><settingsForGroup name="g">'
      '<nameValuePair><name>p</name><value><integer>%d</integer></value></nameValuePair></settingsForGroup></configurationParameterSettings>')
eng_seed("group-override", p="P22", needs="an aggregate that declares a grouped parameter for one of its delegates, and another delegate that reads its own parameter of that name",
  what="a delegate reads the value the aggregate has for a grouped parameter although the aggregate declares it for another delegate only",
  edits=[("src/framework/annotator_context.cpp", "pValueParent = iv_pParentAnC->findNameValuePair(groupName, paramName, strategy, iv_AnCKey);", "pValueParent = iv_pParentAnC->findNameValuePair(groupName, paramName, strategy, ancKey);")],
  files={"a.xml": prim("a", params=GP % ("", 1)), "b.xml": prim("b", params=GP % ("", 2)),
         "agg.xml": agg("agg", [("a", "a.xml"), ("b", "b.xml")], params=GP % ("<restrictOverrideTo>b</restrictOverrideTo>", 3))}, more="""
static int g_a, g_b;
static void hook(std::string const& s, AnnotatorContext& c, CAS*) {
  if (s == "a.process") c.extractValue(UnicodeString("g"), UnicodeString("p"), g_a);
  if (s == "b.process") c.extractValue(UnicodeString("g"), UnicodeString("p"), g_b);
}
""", demo="""
  ResourceManager::getInstance().enableSchemaValidation(false);
  AnalysisEngine* e = engine("agg.xml");
  std::unique_ptr<CAS> c(e->newCAS());
  c->setDocumentText(UnicodeString("some text"));
  g_hook = hook;
  e->process(*c);
  expect(g_b == 3, ("b reads the value of the aggregate, not " + std::to_string(g_b)).c_str());
  expect(g_a == 1, ("a reads its own value, not " + std::to_string(g_a)).c_str());
  e->destroy(); delete e;""")

eng_seed("key-prefix", p="P23", needs="two delegates the key of one of which is a prefix of the other's, and a Sofa mapping for the shorter one",
  what="a Sofa mapping of a delegate also applies to the delegates whose key begins with its key",
  edits=[("src/framework/annotator_context.cpp", "if (sofamap->getComponentKey().compare(ancKey) == 0) {", "if (ancKey.startsWith(sofamap->getComponentKey())) {")],
  files={"a.xml": prim("a", cap="<capabilities><capability><inputs/><outputs/><inputSofas><sofaName>in</sofaName></inputSofas><languagesSupported/></capability></capabilities>"),
         "agg.xml": agg("agg", [("d", "a.xml"), ("dd", "a.xml")], maps=[("d", "in", "other")])}, more="""
static std::string g_names;
static void hook(std::string const& s, AnnotatorContext& c, CAS*) {
  if (s == "a.init") g_names += UnicodeStringRef(c.mapToSofaID(UnicodeString("in")).getSofaId()).asUTF8() + " ";
}
""", demo="""
  g_hook = hook;
  AnalysisEngine* e = engine("agg.xml");
  expect(g_names == "other in " || g_names == "in other ", "only the delegate d sees the other Sofa");
  e->destroy(); delete e;""")

MEM = '''#include "uima/api.hpp"
#include "uima/sofastreamhandler.hpp"
#include <cstring>
// eight bytes
class Mem : public uima::SofaStreamHandler {
  size_t pos;
public:
  Mem() : pos(0) {}
  void openStream(const char*) { pos = 0; }
  void openStream(const char*, size_t) { pos = 0; }
  INT64 getTotalStreamSize() { return 8; }
  size_t getBufferSize() { return 8; }
  INT64 howManyAvailable() { return 8 - pos; }
  INT64 getNext(size_t n, void* p) { if (pos == 8) return -1; if (n > 8 - pos) n = 8 - pos; memcpy(p, "\\0\\0\\0\\0\\0\\0\\1\\2" + pos, n); pos += n; return n; }
  int seek(INT64, int) { return -1; }
  void closeStream() {}
  void* getDataPointer() { return 0; }
};
using uima::SofaStreamHandler;
MAKE_HANDLER(Mem);
'''
S["swap8"] = dict(p="P24", needs="reading elements of eight bytes from a remote stream",
  what="elements of eight bytes read from a remote stream are not converted to the byte order of the machine",
  edits=[("src/cas/sofastream.cpp", "if ( elementSize==2 || elementSize==4 || elementSize == 8) {", "if ( elementSize==2 || elementSize==4 ) {")],
  files={"plug.cpp": MEM}, demo=A + """
  SofaFS s = c.createView(UnicodeString("v2"))->getSofa();
  s.setRemoteSofaURI(UnicodeString("mem:x"));
  SofaDataStream* st = s.getSofaDataStream();
  expect(st && st->open() == 0, "the stream opens");
  INT64 x = 0;
  int n = st->read(&x, 8, 1);
  expect(n == 1 && x == 258, "the element is 258");""")

NS = prim("a", types=[typ("%s.v.X" % p, "uima.cas.TOP", [("i", "uima.cas.Integer")]) for p in "abc"],
          extra='<fsIndexCollection><fsIndexes>%s</fsIndexes></fsIndexCollection>' % "".join(
            '<fsIndexDescription><label>%s</label><typeName>%s.v.X</typeName><kind>bag</kind></fsIndexDescription>' % (p, p) for p in "abc"))
S["ns-third"] = dict(p="P14", needs="types in three name spaces that end in the same name", xml=False, pre="#include \"uima/xmiwriter.hpp\"\n#include \"uima/xmideserializer.hpp\"\n#include <sstream>\n", files={"d.xml": NS},
  what="a prefix that was numbered because its base name is taken is not reserved: the third name space of that name gets the prefix of the second",
  edits=[("src/cas/xmiwriter.cpp", "     nsPrefixesUsed.insert(prefix);\n     nsUriToPrefixMap[nsUri] = prefix;\n   }\n   qName", "     if (num == 1)\n       nsPrefixesUsed.insert(prefix);\n     nsUriToPrefixMap[nsUri] = prefix;\n   }\n   qName")],
  demo="""
  World w("d.xml"); CAS& c = *w.cas;
  c.setDocumentText(UnicodeString("text"));
  char const* t[] = { "a.v.X", "b.v.X", "c.v.X" };
  for (int i = 0; i < 3; i++) { FeatureStructure f = c.createFS(w.T(t[i])); f.setIntValue(w.F(t[i], "i"), i + 1); c.getIndexRepository().addFS(f); }
  { std::ofstream o((g_dir + "/x.xmi").c_str()); XmiWriter wr(c, false); wr.write(o); }
  ErrorInfo err;
  std::unique_ptr<CAS> d(Framework::createCAS(*w.ts, *w.desc->getAnalysisEngineMetaData(), err));
  XmiDeserializer::deserialize((g_dir + "/x.xmi").c_str(), *d);
  char const* ix[] = { "a", "b", "c" };
  for (int i = 0; i < 3; i++) {
    FSIterator it = d->getIndexRepository().getIndex(ix[i]).iterator();
    expect(it.isValid() && it.get().getIntValue(w.F(t[i], "i")) == i + 1, t[i]);
  }""")

S["undefined-only-view"] = dict(p="P17", needs="a view in which only structures of types without an index are indexed", xml=False,
  pre="#include \"uima/internal_casserializer.hpp\"\n#include \"uima/internal_casdeserializer.hpp\"\n#include \"uima/internal_serializedcas.hpp\"\n#include \"uima/xmiwriter.hpp\"\n#include <sstream>\n",
  files={"d.xml": prim("a", types=[typ("t.N", "uima.cas.TOP", [("i", "uima.cas.Integer")])])},
  what="the blob leaves out the index contents of a view whose indexed structures are all of types no index is declared for",
  edits=[("src/cas/internal_casserializer.cpp", "if ( 0 == vecAllTypes.size() && 0 == perLoopIndexedFSs.size() ) {", "if ( 0 == vecAllTypes.size() ) {")],
  demo="""
  World w("d.xml"); CAS& c = *w.cas;
  CAS* v = c.createView(UnicodeString("v2"));
  FeatureStructure f = v->createFS(w.T("t.N")); f.setIntValue(w.F("t.N", "i"), 5);
  v->getIndexRepository().addFS(f);
  internal::CASSerializer ser(true);
  std::vector<char> buf(ser.getBlobSize(c));
  ser.getBlob(c, buf.data(), buf.size());
  ErrorInfo err;
  std::unique_ptr<CAS> d(Framework::createCAS(*w.ts, *w.desc->getAnalysisEngineMetaData(), err));
  internal::CASDeserializer des;
  des.deserializeBlob(buf.data(), *d);
  std::ostringstream o;
  { XmiWriter wr(*d, false); wr.write(o); }
  expect(o.str().find("i=\\\"5\\\"") != std::string::npos, "the structure of the view is still indexed after the round trip");""")

RED = prim("a", types=[typ("t.N", "uima.cas.TOP", [("i", "uima.cas.Integer")])])
FULL = prim("a", types=[typ("t.N", "uima.cas.TOP", [("i", "uima.cas.Integer")]), typ("t.X", "uima.cas.TOP", [("i", "uima.cas.Integer")])],
            extra='<fsIndexCollection><fsIndexes><fsIndexDescription><label>n</label><typeName>t.N</typeName><kind>bag</kind></fsIndexDescription>'
                  '<fsIndexDescription><label>x</label><typeName>t.X</typeName><kind>bag</kind></fsIndexDescription></fsIndexes></fsIndexCollection>')
S["oots-maxid"] = dict(p="P15", needs="a component that does not know the type of the structure with the largest id and adds a structure of its own", xml=False,
  pre="#include \"uima/xmiwriter.hpp\"\n#include \"uima/xmideserializer.hpp\"\n#include \"uima/xmishareddata.hpp\"\n", files={"d.xml": FULL, "red.xml": RED},
  what="ids of structures kept aside on a lenient read do not count for the next free id: a structure added later is written under the id of one of them",
  edits=[("src/cas/uima/xmishareddata.hpp", "    if (elemData->xmiId > maxXmiId)\n      maxXmiId = elemData->xmiId;\n", "")],
  demo="""
  World w("d.xml"), r("red.xml"); CAS& c = *w.cas; CAS& p = *r.cas;
  for (int i = 1; i <= 3; i++) { FeatureStructure f = c.createFS(w.T("t.X")); f.setIntValue(w.F("t.X", "i"), i); c.getIndexRepository().addFS(f); }
  { std::ofstream o((g_dir + "/1.xmi").c_str()); XmiWriter wr(c, false); wr.write(o); }
  XmiSerializationSharedData sh;
  XmiDeserializer::deserialize((g_dir + "/1.xmi").c_str(), p, sh);
  for (int i = 1; i <= 3; i++) { FeatureStructure f = p.createFS(r.T("t.N")); f.setIntValue(r.F("t.N", "i"), 10 + i); p.getIndexRepository().addFS(f); }
  { std::ofstream o((g_dir + "/2.xmi").c_str()); XmiWriter wr(p, false, &sh); wr.write(o); }
  ErrorInfo err;
  std::unique_ptr<CAS> d(Framework::createCAS(*w.ts, *w.desc->getAnalysisEngineMetaData(), err));
  XmiDeserializer::deserialize((g_dir + "/2.xmi").c_str(), *d);
  int n = 0, m = 0;
  for (FSIterator it = d->getIndexRepository().getIndex("n").iterator(); it.isValid(); it.moveToNext()) n++;
  for (FSIterator it = d->getIndexRepository().getIndex("x").iterator(); it.isValid(); it.moveToNext()) m++;
  expect(n == 3 && m == 3, "three structures of each type come back");""")

S["xcas-reached-first"] = dict(p="P16", needs="a structure that another one in an earlier view refers to and that is indexed itself in a later view", pre="#include \"uima/xcasdeserializer.hpp\"\n#include \"uima/xmlwriter.hpp\"\n#include <fstream>\n",
  what="a structure the writer has reached by a reference before is not written as indexed in the views after the initial one",
  edits=[("src/cas/xmlwriter.cpp", "      for (size_t i=0; i<indexes->size(); i++) {\n        if (sofa == indexes->at(i)) {\n          return false;\n        }\n      }\n", "      if (indexes->empty() ? sofa > 1 : sofa == indexes->back()) {\n        return false;\n      }\n")],
  demo=A + """
  c.setDocumentText(UnicodeString("text"));
  CAS* v2 = c.createView(UnicodeString("v2"));
  FeatureStructure f = c.createFS(N), g = c.createFS(N);
  f.setFSValue(w.F("t.N", "next"), g);
  c.getIndexRepository().addFS(f);
  v2->getIndexRepository().addFS(g);
  { std::ofstream o((g_dir + "/x.xcas").c_str()); XCASWriter wr(c, true); wr.write(o); }
  ErrorInfo err;
  std::unique_ptr<CAS> d(Framework::createCAS(*w.ts, *w.desc->getAnalysisEngineMetaData(), err));
  XCASDeserializer::deserialize((g_dir + "/x.xcas").c_str(), *d);
  int n = 0;
  for (FSIterator it = d->getView(UnicodeString("v2"))->getIndexRepository().getIndex("bag").iterator(); it.isValid(); it.moveToNext()) n++;
  expect(n == 1, "the structure is indexed in v2");""")

S["sofa-count"] = dict(p="P11", needs="a rejected createView, and another createView after it",
  what="a view that is rejected because its name exists uses up a view number: the next view gets a number with a gap before it",
  edits=[("src/cas/cas.cpp", "    if (iv_baseCas->getSofa(sofaName).isValid()) {\n      ErrorMessage errMessage(UIMA_MSG_ID_EXC_SOFA_NAME_ALREADY_EXISTS);", "    bumpSofaCount();\n    if (iv_baseCas->getSofa(sofaName).isValid()) {\n      ErrorMessage errMessage(UIMA_MSG_ID_EXC_SOFA_NAME_ALREADY_EXISTS);"),
         ("src/cas/cas.cpp", "    bumpSofaCount();\n    newSofa.setIntValue", "    newSofa.setIntValue")],
  demo=A + """
  c.createView(UnicodeString("v2"));
  int n = 0;
  try { c.createView(UnicodeString("v2")); } catch (Exception& e) { n = 1; }
  expect(n == 1, "a second view of the name is rejected");
  expect(c.createView(UnicodeString("v3"))->getSofa().getSofaRef() == 3, "the next view is number 3");""")

S["type-dup-slot"] = dict(p="P01", needs="a type definition that is rejected because the name exists, and a look at the types afterwards",
  what="a definition rejected for its name leaves an unnamed type behind",
  edits=[("src/cas/lowlevel_typesystem.cpp", "      assert( debugIsTreeConsistent() );\n\n      if ( find(iv_vecTypeNames", "      TyFSType newType = iv_vecTree.size();\n      iv_vecTypeNames.resize(newType + 1);\n      iv_vecTree.resize(newType + 1);\n      iv_vecParents.resize(newType + 1);\n      iv_vecIntroducedFeatures.resize(newType + 1);\n\n      if ( find(iv_vecTypeNames"),
         ("src/cas/lowlevel_typesystem.cpp", "      // add new type slots\n      TyFSType newType = iv_vecTree.size();\n      iv_vecTree.resize(newType + 1);\n      iv_vecParents.resize(newType + 1);\n      iv_vecIntroducedFeatures.resize(iv_vecTree.size());\n      iv_vecTypeNames.resize(iv_vecTree.size());\n", "")],
  pre="#include \"uima/lowlevel_typesystem.hpp\"\n", demo="""
  World w("d.xml");
  ErrorInfo err;
  TypeSystemDescription none;
  std::unique_ptr<uima::TypeSystem> u(Framework::createTypeSystem(none, UnicodeString("demo"), err));
  lowlevel::TypeSystem& t = lowlevel::TypeSystem::promoteTypeSystem(*u);
  t.reset();
  lowlevel::TyFSType top = t.getTypeByName(UnicodeString("uima.cas.TOP"));
  t.createType(top, UnicodeString("x.A"), UnicodeString("demo"));
  std::vector<lowlevel::TyFSType> a, b;
  t.getAllTypes(a);
  int n = 0;
  try { t.createType(top, UnicodeString("x.A"), UnicodeString("demo")); } catch (Exception& e) { n = 1; }
  expect(n == 1, "the second definition is rejected");
  t.getAllTypes(b);
  expect(a.size() == b.size(), "the rejected definition adds no type");""")

CT = lambda vals: prim("a", types=["<typeDescription><name>t.Color</name><description/><supertypeName>uima.cas.String</supertypeName><allowedValues>%s</allowedValues></typeDescription>" %
       "".join("<value><string>%s</string><description/></value>" % v for v in vals)])
eng_seed("allowed-after-known", p="P02", needs="a string subtype declared by two delegates, the second of which repeats an allowed value before a new one",
  what="merging the allowed values of two descriptions stops at the first value that is already known: the ones after it are lost",
  edits=[("src/framework/typesystemdescription.cpp", "        //already exists\n      } else {\n        //add\n", "        //already exists\n        break;\n      } else {\n        //add\n")],
  more="#include \"uima/lowlevel_typesystem.hpp\"\n", files={"a.xml": CT(["red", "blue"]), "b.xml": CT(["red", "green"]), "agg.xml": agg("agg", [("a", "a.xml"), ("b", "b.xml")])}, demo="""
  AnalysisEngine* e = engine("agg.xml");
  std::unique_ptr<CAS> c(e->newCAS());
  uima::lowlevel::TypeSystem const & t = uima::lowlevel::TypeSystem::promoteTypeSystem((uima::TypeSystem const&) c->getTypeSystem());
  std::vector<UnicodeString> v = t.getStringsForStringSubtype(t.getTypeByName(UnicodeString("t.Color")));
  expect(v.size() == 3, "red, blue and green are allowed");
  c.reset(); e->destroy(); delete e;""")

PRI = prim("a", types=[typ("t.%s" % x) for x in "ABCD"], prio="<typePriorities><priorityList><type>t.B</type><type>t.A</type></priorityList><priorityList><type>t.D</type><type>t.B</type></priorityList></typePriorities>")
eng_seed("flow-repeat", p="P25", needs="an aggregate that runs a delegate twice in a row, written and read back",
  what="a flow node that is the same as the one before it is not written",
  edits=[("src/framework/taespecifier.cpp", "      for (i=0; i<v.size(); ++i) {\n        s.append(\"<node>\");", "      vector<icu::UnicodeString>::const_iterator last = v.end(), it;\n      for (it = v.begin(); it != v.end(); last = it++) {\n        if (last != v.end() && *last == *it) {\n          continue;\n        }\n        i = it - v.begin();\n        s.append(\"<node>\");")],
  files={"a.xml": prim("a"), "b.xml": prim("b"), "agg.xml": agg("agg", [("a", "a.xml"), ("b", "b.xml")]).replace("<node>b</node>", "<node>b</node><node>b</node><node>a</node>")}, demo="""
  XMLParser p; AnalysisEngineDescription a;
  p.parseAnalysisEngineDescription(a, (g_dir + "/agg.xml").c_str());
  UnicodeString s; a.toXMLBuffer(s);
  std::string u; s.toUTF8String(u);
  FILE* f = fopen((g_dir + "/agg2.xml").c_str(), "w"); fwrite(u.data(), 1, u.size(), f); fclose(f);
  for (char const* n : {"agg.xml", "agg2.xml"}) {
    AnalysisEngine* e = engine(n);
    std::unique_ptr<CAS> c(e->newCAS());
    c->setDocumentText(UnicodeString("some text"));
    g_log = ""; e->process(*c);
    expect(g_log == "a.process b.process b.process a.process ", (std::string(n) + " " + g_log).c_str());
    e->destroy(); delete e;
  }""")

IX = lambda keys: "<fsIndexCollection><fsIndexes><fsIndexDescription><label>L</label><typeName>t.A</typeName><kind>sorted</kind><keys>%s</keys></fsIndexDescription></fsIndexes></fsIndexCollection>" % \
       "".join("<fsIndexKey><featureName>%s</featureName><comparator>%s</comparator></fsIndexKey>" % k for k in keys)
def indexed(name, keys):
    x = prim(name, types=[typ("t.A").replace("<supertypeName>uima.cas.TOP<", "<supertypeName>uima.tcas.Annotation<")])
    assert "</typeSystemDescription>" in x
    return x.replace("</typeSystemDescription>", "</typeSystemDescription>" + IX(keys))
eng_seed("index-known-label", p="P28", needs="two components that declare an index of the same label differently",
  what="an index whose label is already known is skipped instead of being checked: a definition that contradicts it is accepted silently",
  edits=[("src/framework/casdefinition.cpp", "        icu::UnicodeString const & crIndexLabel = cpIndexDesc->getLabel();\n",
          "        icu::UnicodeString const & crIndexLabel = cpIndexDesc->getLabel();\n        // defined by another component already\n        if (iv_indexDefinition->isValidIndexId(crIndexLabel)) {\n          continue;\n        }\n")],
  files={"a.xml": indexed("a", [("begin", "standard")]), "b.xml": indexed("b", [("begin", "reverse")]), "c.xml": indexed("c", [("begin", "standard")]),
         "bad.xml": agg("agg", [("a", "a.xml"), ("b", "b.xml")]), "good.xml": agg("agg", [("a", "a.xml"), ("c", "c.xml")])}, demo="""
  AnalysisEngine* e = engine("good.xml");
  delete e;
  ErrorInfo err;
  e = Framework::createAnalysisEngine((g_dir + "/bad.xml").c_str(), err);
  expect(!e && err.getErrorId() == UIMA_ERR_INCOMPATIBLE_INDEX_DEFINITIONS, "contradicting definitions of an index are reported");
  delete e;""")

S["lastindexof-past-range"] = dict(p="P26", xml=False, needs="a backward search in a range that ends inside of an occurrence",
  what="the backward search for a string also looks at places of the range where the string does not fit anymore, and finds it partly behind the range",
  edits=[("src/framework/unistrref.cpp", "    length -= srcLength;\n\n    const UChar *array = getBuffer();\n    int32_t pos;\n", "    const UChar *array = getBuffer();\n    int32_t pos;\n")],
  demo="""
  UnicodeString t("abxab");
  UnicodeStringRef r(t);
  expect(r.lastIndexOf(UnicodeStringRef(UnicodeString("ab")), 0, 5) == 3, "in the whole text");
  UnicodeString p("ab");
  expect(r.lastIndexOf(UnicodeStringRef(p), 0, 4) == 0, "in the range abxa");
  expect(r.lastIndexOf(UnicodeStringRef(p), 2, 2) == -1, "in the range xa");""")
S["lastindexof-past-range"]["demo"] = S["lastindexof-past-range"]["demo"].replace('UnicodeStringRef(UnicodeString("ab")), 0, 5', 'UnicodeStringRef(p), 0, 5').replace('  UnicodeStringRef r(t);\n', '  UnicodeStringRef r(t);\n  UnicodeString p("ab");\n').replace('\n  UnicodeString p("ab");\n  expect(r.lastIndexOf(UnicodeStringRef(p), 0, 4)', '\n  expect(r.lastIndexOf(UnicodeStringRef(p), 0, 4)')

S["log-lock-per-logger"] = dict(p="P27", xml=False, needs="two threads that log at the same time to two loggers",
  what="the lock of the log is held for each logger instead of for all: the loggers get the entries of two threads in different orders",
  pre="#include <thread>\n#include <mutex>\n#include \"uima/log.hpp\"\nstruct Rec : Logger { std::string s; void log(LogStream::EnEntryType, std::string, std::string, std::string m, long) { s += m; } };\n",
  edits=[("src/framework/log.cpp", "    apr_thread_mutex_lock(logMutex);\n    string method=\"\";\n", "    string method=\"\";\n"),
         ("src/framework/log.cpp", "        vecLoggers.at(i)->log(enType,this->iv_strOrigin,\n                                     method,cpszMsg,lUserCode);\n      }\n    }\n    apr_thread_mutex_unlock(logMutex);\n",
          "        apr_thread_mutex_lock(logMutex);\n        vecLoggers.at(i)->log(enType,this->iv_strOrigin,\n                                     method,cpszMsg,lUserCode);\n        apr_thread_mutex_unlock(logMutex);\n      }\n    }\n")],
  demo="""
  Rec a, b;
  ResourceManager::getInstance().registerLogger(&a);
  ResourceManager::getInstance().registerLogger(&b);
  LogFacility f(UnicodeString("f"), LogStream::EnMessage);
  std::vector<std::thread> t;
  for (int k = 0; k < 8; k++) t.emplace_back([&, k] { for (int i = 0; i < 20000; i++) f.logMessage(std::string(1, (char) ('A' + k))); });
  for (auto& x : t) x.join();
  expect(a.s.size() == 160000 && b.s.size() == 160000, "every entry once");
  expect(a.s == b.s, "both loggers get the entries in the same order");
  ResourceManager::getInstance().unregisterLogger(&a);
  ResourceManager::getInstance().unregisterLogger(&b);""")

S["dup-context"] = dict(p="P29", xml=False, needs="an exception that two callers one above the other add a context with the same message number to",
  what="a context is dropped if the one before it has the same message number, although its parameters say something else",
  edits=[("src/framework/exceptions.cpp", "    iv_vecContexts.push_back(crclContext);\n", "    // thrown again at the same place\n    if (!iv_vecContexts.empty()\n        && iv_vecContexts.back().getMessage().getMessageID() == crclContext.getMessage().getMessageID()) {\n      return;\n    }\n    iv_vecContexts.push_back(crclContext);\n")],
  demo="""
  try {
    try {
      UIMA_EXC_THROW_NEW(ExcInvalidParameter, UIMA_ERR_USER_ANNOTATOR_COULD_NOT_INIT, ErrorMessage(UIMA_MSG_ID_EXC_UNKNOWN_TYPE_NAME, "t"),
                         ErrorMessage(UIMA_MSG_ID_EXCON_CONSTRUCTING_CLASS, "Inner"), ErrorInfo::unrecoverable);
    } catch (Exception& x) {
      x.getErrorInfo().addContext(ErrorContext(ErrorMessage(UIMA_MSG_ID_EXCON_CONSTRUCTING_CLASS, "Outer"), 0, 0, 0));
      throw;
    }
  } catch (Exception& x) {
    std::string s = x.getErrorInfo().asString();
    expect(x.getErrorInfo().contextCount() == 2, "two contexts");
    expect(s.find("Inner") != std::string::npos && s.find("Outer") != std::string::npos && s.find("Inner") < s.find("Outer"), "both in their order");
    return 0;
  }
  expect(false, "thrown");""")
