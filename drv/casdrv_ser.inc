  // ---------------------------------------------------------------- serialization
  std::map<int, CAS*> allViews(CAS* c) {
    std::map<int, CAS*> m;
    m[1] = c;
    FSIterator it = c->getSofaIterator();
    for (it.moveToFirst(); it.isValid(); it.moveToNext()) {
      SofaFS s(it.get());
      if (s.getSofaRef() != 1) m[s.getSofaRef()] = c->getView(s);
    }
    return m;
  }
  // the graph hanging off the indexes and subjects of a CAS
  json graph(CAS* c, bool handles, std::vector<FeatureStructure>* order = 0) {
    std::map<lowlevel::TyFS, int> num;
    std::vector<FeatureStructure> q;
    auto ref = [&](FeatureStructure const& f) -> int {
      if (!f.isValid()) return 0;
      lowlevel::TyFS a = addr(f);
      auto i = num.find(a);
      if (i != num.end()) return i->second;
      q.push_back(f);
      return num[a] = q.size();
    };
    json vs = json::array();
    std::map<int, CAS*> views = allViews(c);
    for (int v = 1; v <= views.rbegin()->first; v++) {
      json jv = { {"sofa", 0}, {"doc", 0}, {"mem", json::array()}, {"ix", json::array()} };
      if (!views.count(v)) { vs.push_back(jv); continue; }
      CAS* w = views[v];
      SofaFS sf = w->getSofa();
      jv["sofa"] = ref(sf);
      auto& ir = const_cast<lowlevel::IndexRepository&>(uima::internal::CASImpl::promoteCAS(*w).getIndexRepository());
      std::vector<lowlevel::TyFS> ms;
      ir.getIndexedFSs(ms);
      json m = json::array();
      std::set<lowlevel::TyFS> seen;
      for (auto a : ms) if (seen.insert(a).second) m.push_back(ref(uima::internal::FSPromoter::promoteFS(a, *w)));
      jv["mem"] = m;
      json ixs = json::array();
      for (auto& l : C->ix) {
        json one = json::array();
        FSIterator it = w->getIndexRepository().getIndex(l).iterator();
        int fuel = 5000;
        for (it.moveToFirst(); it.isValid() && fuel-- > 0; it.moveToNext()) one.push_back(ref(it.get()));
        ixs.push_back(one);
      }
      jv["ix"] = ixs;
      jv["doc"] = w->getAnnotationIndex(C->ty.at(36)).getSize() > 0 ? ref(w->getDocumentAnnotation()) : 0;
      vs.push_back(jv);
    }
    json nd = json::array(), hs = json::array();
    for (size_t i = 0; i < q.size(); i++) {
      json o = json::array();
      FeatureStructure f = q[i];
      nodeOut(o, f, ref);
      nd.push_back(o);
      if (handles) hs.push_back(std::max(0, handle(f)));
    }
    if (order) *order = q;
    json g = { {"vs", vs}, {"nd", nd} };
    if (handles) g["h"] = hs;
    return g;
  }
  CAS* emptyCas(json const& e, Config* K) {
    ErrorInfo err;
    CAS* c = Framework::createCAS(*K->ts, *K->meta, err);
    if (!c) throw std::runtime_error("createCAS");
    if (e.value("dirty", 0)) {                  // a CAS that has been in use before
      c->setDocumentText(UnicodeStringRef(UnicodeString("earlier content")));
      CAS* w = c->createView("viewA");
      w->setDocumentText(UnicodeStringRef(UnicodeString("more of it")));
      w->getIndexRepository().addFS(w->createAnnotation(K->ty.at(35), 1, 3));
      junk(c, 3);
      c->reset();
    }
    return c;
  }
  std::string toXmi(CAS* c, XmiSerializationSharedData* sh = 0) {
    std::ostringstream os;
    if (sh) { XmiWriter w(*c, true, sh); w.write(os); } else { XmiWriter w(*c, true); w.write(os); }
    return os.str();
  }
  // a document is read from memory or from a file, whose name may be long
  struct InMemory {
    int fd; std::string name; int way;
    InMemory(std::string const& s) : fd(-1), way(s.size() % 4) {
      if (way < 2) return;
      fd = memfd_create("doc", 0);
      name = "/proc/self/" + std::string(s.size() / 4 % 2 ? 1100 + s.size() / 8 % 2600 : 0, '/') + "fd/" + std::to_string(fd);
      if (fd < 0 || write(fd, s.data(), s.size()) != (ssize_t) s.size() || access(name.c_str(), R_OK)) way = 0;
    }
    ~InMemory() { if (fd >= 0) close(fd); }
  };
  void fromXmi(std::string const& s, CAS* c, bool lenient, XmiSerializationSharedData* sh = 0) {
    InMemory f(s);
    if (f.way == 2) {
      if (sh) XmiDeserializer::deserialize(f.name.c_str(), *c, *sh); else XmiDeserializer::deserialize(f.name.c_str(), *c, lenient);
    } else if (f.way == 3) {
      UnicodeString n = u8(f.name);
      if (sh) XmiDeserializer::deserialize(n, *c, *sh); else XmiDeserializer::deserialize(n, *c, lenient);
    } else {
      MemBufInputSource in((const XMLByte*) s.data(), s.size(), "xmi");
      if (sh) XmiDeserializer::deserialize(in, *c, *sh); else XmiDeserializer::deserialize(in, *c, lenient);
    }
  }
  // a blob as a machine of the other byte order writes it
  template<class T> static T* swapped(T* p, size_t n) {
    for (size_t i = 0; i < n; i++) { char* c = (char*) (p + i); std::reverse(c, c + sizeof(T)); }
    return p + n;
  }
  static void swapBlob(char* b) {
    int* p = (int*) b;
    p = swapped(p, 2);
    auto section = [&](size_t unit) {
      int n = *p;
      swapped(p, 1);
      p++;
      if (unit == 4) p = swapped(p, n);
      else if (unit == 1) p = (int*) ((char*) p + n);
      else if (unit == 2) p = (int*) swapped((short*) p, n);
      else p = (int*) swapped((INT64*) p, n);
    };
    section(4); section(2); section(4); section(4); section(1); section(2); section(8);
  }
  // the definitions go over as well: types, features, indexes are resolved anew
  struct Defs { Config* K; uima::internal::CASDefinition* def; };
  std::map<Config*, Defs> defs;
  Defs& received() {
    auto i = defs.find(C);
    if (i != defs.end()) return i->second;
    Defs d;
    std::unique_ptr<uima::internal::CASDefinition> from(uima::internal::CASDefinition::createCASDefinition(*C->meta));
    uima::internal::SerializedCAS sc;
    uima::internal::CASSerializer s(true);
    s.serializeDefinitions(*from, sc);
    AnalysisEngineMetaData empty;
    empty.setTypeSystemDescription(new TypeSystemDescription());
    d.def = uima::internal::CASDefinition::createCASDefinition(empty);
    uima::internal::CASDeserializer r;
    r.deserializeDefinitions(sc, *d.def);
    d.K = new Config(*C);
    TypeSystem& ts = d.def->getTypeSystem();
    for (size_t k = 1; k < d.K->tn.size(); k++) d.K->ty[k] = ts.getType(u8(d.K->tn[k]));
    for (size_t k = 1; k < d.K->fn.size(); k++) d.K->fe[k] = ts.getFeatureByFullName(u8(d.K->fn[k]));
    return defs[C] = d;
  }
  std::string lastDoc;
  // what a component that knows only a part of the type system passes on
  CAS* through(std::string const& doc, json const& e) {
    Config* K = getConfig(e["red"]);
    if (!K->err.empty()) throw std::runtime_error("reduced configuration: " + K->err);
    json no = json::object();
    std::unique_ptr<CAS> part(emptyCas(no, K));
    XmiSerializationSharedData sh;
    fromXmi(doc, part.get(), true, &sh);
    if (e.value("nt", 0)) part->getIndexRepository().addFS(part->createFS(K->ts->getType(u8(C->tn.at(e["nt"])))));
    lastDoc = toXmi(part.get(), &sh);
    CAS* b = emptyCas(e, C);
    try { fromXmi(lastDoc, b, false); } catch (...) { delete b; throw; }
    return b;
  }
  CAS* transfer(std::string const& fmt, json const& e) {
    CAS* b;
    if (fmt == "def") {
      ErrorInfo err;
      b = Framework::createCAS(*received().def, err);
      if (!b) throw std::runtime_error("createCAS");
    } else b = emptyCas(e, C);
    try {
      if (fmt == "xmi") { lastDoc = toXmi(cas); fromXmi(lastDoc, b, false); }
      else if (fmt == "xcas") {
        std::ostringstream os;
        XCASWriter w(*cas, true);
        w.write(os);
        lastDoc = os.str();
        InMemory f(lastDoc);
        if (f.way == 2) XCASDeserializer::deserialize(f.name.c_str(), *b);
        else if (f.way == 3) { UnicodeString n = u8(f.name); XCASDeserializer::deserialize(n, *b); }
        else {
          MemBufInputSource in((const XMLByte*) lastDoc.data(), lastDoc.size(), "xcas");
          XCASDeserializer::deserialize(in, *b);
        }
      } else if (fmt == "blob" || fmt == "swab") {
        uima::internal::CASSerializer s(false);
        size_t n = s.getBlobSize(*cas);
        std::vector<char> buf(n + 64, 0x5a);
        size_t m = s.getBlob(*cas, buf.data(), n);
        if (m == 0 || m > n) throw std::runtime_error("blobsize");
        for (size_t i = n; i < buf.size(); i++) if (buf[i] != 0x5a) throw std::runtime_error("bloboverrun");
        if (n > 0 && s.getBlob(*cas, buf.data(), n - 1) != 0) throw std::runtime_error("blobtoosmall");
        if (fmt == "swab") swapBlob(buf.data());
        uima::internal::CASDeserializer d;
        d.deserializeBlob(buf.data(), *b);
      } else if (fmt == "bin" || fmt == "def") {
        uima::internal::SerializedCAS sc;
        uima::internal::CASSerializer s(true);
        s.serializeData(*cas, sc);
        uima::internal::CASDeserializer d;
        d.deserializeData(sc, *b);
      } else throw std::runtime_error("bad format");
    } catch (...) { delete b; throw; }
    return b;
  }
  json roundTrip(json const& e) {
    std::string doc;
    if (e["fmt"] == "oots") {
      doc = toXmi(cas);
      if (e.value("nt", 0)) {                   // made by the component, as if it had been here already
        FeatureStructure f = cas->createFS(T(e, "nt"));
        fresh(f);
        cas->getIndexRepository().addFS(f);
        clearIts();
      }
    }
    json src = graph(cas, true);
    CAS* b = e["fmt"] == "oots" ? through(doc, e) : transfer(e["fmt"], e);
    std::vector<FeatureStructure> ord;
    json dst;
    Config* here = C;
    if (e["fmt"] == "def") C = received().K;
    try { dst = graph(b, false, &ord); } catch (...) { C = here; delete b; throw; }
    C = here;
    if (e.value("swap", 0)) {
      clearIts();
      delete cas;
      cas = b;
      h.resize(1);
      for (auto& f : ord) h.push_back(f);
      vw.clear();
      vw = allViews(cas);
    } else delete b;
    return json::array({ src, dst });
  }
