  // ---------------------------------------------------------------- opening
  void open() {
    ErrorInfo err;
    cas = Framework::createCAS(*C->ts, *C->meta, err);
    if (!cas) throw std::runtime_error("createCAS");
    vw[1] = cas;
  }
  Type T(json const& e, const char* k = "t") { int i = e[k]; return i == 0 ? Type() : C->ty.at(i); }
  Feature F(json const& e, const char* k = "f") { int i = e[k]; return i == 0 ? Feature() : C->fe.at(i); }
  UnicodeString US(json const& v) { UnicodeStringRef r = S(v); return UnicodeString(r.getBuffer(), r.length()); }
  json units(UnicodeStringRef const& r) {
    json o = json::array();
    for (int i = 0; i < (int) r.length(); i++) o.push_back((int) r.getBuffer()[i]);
    return o;
  }
  int regView(CAS* v) { int n = v->getSofaNum(); vw[n] = v; return n; }
  json sofaDoc(CAS* v) {                       // handles of the view's subject and of its document annotation
    json o = json::array();
    o.push_back(give(v->getSofa()));
    if (v->getDocumentText().length() > 0) o.push_back(give(v->getDocumentAnnotation())); else o.push_back(0);
    return o;
  }
  // ---------------------------------------------------------------- filters
  std::vector<Feature> path(json const& p) {
    std::vector<Feature> r;
    for (auto& x : p) r.push_back(C->fe.at((int) x));
    return r;
  }
  FSFilter* mkFilter(json const& f) {
    FSFilterBuilder const& b = cas->getFSFilterBuilder();
    std::string o = f["o"];
    FSFilter* r = 0;
    if (o == "and") r = b.createANDFilter(mkFilter(f["a"]), mkFilter(f["b"]));
    else if (o == "or") r = b.createORFilter(mkFilter(f["a"]), mkFilter(f["b"]));
    else if (o == "not") r = b.createNOTFilter(mkFilter(f["a"]));
    else if (o == "match") r = b.createMatchFilter(path(f["p"]), mkFilter(f["a"]));
    else if (o == "type") r = b.createTypeFilter(C->ty.at((int) f["t"]), (int) f["sub"] != 0);
    else if (o == "str") { UnicodeStringRef s = S(f["val"]); r = b.createStringFeatureFilter(path(f["p"]), s.getBuffer(), s.length()); }
    else {
      std::string c = f["c"];
      FSFilterBuilder::EnComparisonOperator op = c == "eq" ? FSFilterBuilder::EQUALS : c == "gt" ? FSFilterBuilder::GREATER : FSFilterBuilder::LESS;
      if (o == "int") r = b.createIntFeatureFilter(path(f["p"]), op, (int) f["val"]);
      else if (o == "float") r = b.createFloatFeatureFilter(path(f["p"]), op, decF(f["val"]));
    }
    if (!r) throw std::runtime_error("bad filter");
    return r;
  }
  // ---------------------------------------------------------------- indexes and iterators
  FSIndex getIx(json const& e) {
    CAS* v = V(e);
    int n = e["n"], t = e["t"];
    UnicodeString l = n == 0 ? UnicodeString("NoSuchIndex") : C->ix.at(n - 1);
    if (t == 0) return v->getIndexRepository().getIndex(l);
    return v->getIndexRepository().getIndex(l, C->ty.at(t));
  }
  json mkIter(json const& e) {
    std::string k = e["k"];
    FSIterator it;
    if (k == "anix") it = V(e)->getAnnotationIndex(T(e)).iterator();
    else if (k == "sub" || k == "subu") {
      EnIteratorAmbiguity am = k == "sub" ? enAmbiguous : enUnambiguous;
      if (e.value("viaAnn", 0)) it = AnnotationFS(H(e, "x")).subIterator(T(e), am);
      else it = ANIndex(getIx(e)).subIterator(AnnotationFS(H(e, "x")), am);
    } else {
      FSIndex ix = getIx(e);
      if (k == "plain") it = ix.iterator();
      else if (k == "una") it = ANIndex(ix).unambiguousIterator();
      else if (k == "filter") { FSFilter* f = mkFilter(e["flt"]); flts.push_back(f); it = ix.filteredIterator(f); }
      else if (k == "tset") { std::set<Type> ts; for (auto& t : e["ts"]) ts.insert(C->ty.at((int) t)); it = ix.typeSetIterator(ts); }
      else throw std::runtime_error("bad iterator kind");
    }
    json o = json::array();
    int fuel = 2000;
    for (it.moveToFirst(); it.isValid() && fuel-- > 0; it.moveToNext()) o.push_back(handle(it.get()));
    if (fuel <= 0) o.push_back("endless");
    it.moveToFirst();
    its.push_back(new FSIterator(it));
    return o;
  }
  json cur(FSIterator& it) { return json::array({ it.isValid() ? handle(it.get()) : 0 }); }
  json streamOp(json const& e);

  json apply(json const& e) {
    std::string op = e["op"];
    json none = json::array();
    // --- heap
    if (op == "cr") return json::array({ fresh(V(e)->createFS(T(e))) });
    if (op == "get") {
      K k = kindOf(e["k"]);
      if (k == REF) return json::array({ give(H(e, "x").getFeatureValue(F(e))) });
      return json::array({ getVal(H(e, "x"), F(e), k) });
    }
    if (op == "set") {
      FeatureStructure x = H(e, "x"); Feature f = F(e); json const& v = e["val"];
      switch (kindOf(e["k"])) {
        case INT: x.setIntValue(f, (int) v); break;
        case FLOAT: x.setFloatValue(f, decF(v)); break;
        case STR: if (e.value("ext", 0)) x.setStringValueExternal(f, S(v)); else x.setStringValue(f, S(v)); break;
        case BOOL: x.setBooleanValue(f, (int) v != 0); break;
        case BYTE: x.setByteValue(f, (char)(int) v); break;
        case SHORT: x.setShortValue(f, (short)(int) v); break;
        case LONG: x.setLongValue(f, decL(v)); break;
        case DOUBLE: x.setDoubleValue(f, decD(v)); break;
        default: x.setFeatureValue(f, H(e, "y"));
      }
      return none;
    }
    if (op == "unt") return json::array({ H(e, "x").isUntouchedFSValue(F(e)) ? 1 : 0 });
    if (op == "type") return json::array({ typeId(H(e, "x").getType()) });
    if (op == "clone") return json::array({ fresh(H(e, "x").clone()) });
    if (op == "clone2") return json::array({ fresh(H(e, "x").clone(T(e))) });
    if (op == "same") {
      FeatureStructure a = H(e, "x"), b = H(e, "y");
      return json::array({ a == b ? 1 : 0, a.isValid() ? 1 : 0 });
    }
    if (op == "dump") return dump();
    if (op == "junk") { junk(cas, e["n"]); return none; }
    if (op == "cra") return json::array({ fresh(makeArr(V(e), kindOf(e["k"]), e["n"])) });
    if (op == "sget" || op == "sopen" || op == "sclose" || op == "ssize" || op == "sread" || op == "sseek" || op == "sptr" || op == "sdel" || op == "slive" || op == "sgrow")
      return doStream(e);
    if (op == "alen" || op == "aget" || op == "aset" || op == "acto" || op == "acto2" || op == "acfrom") return doArr(e);
    if (op == "crl") {
      switch (kindOf(e["k"])) {
        case INT: return json::array({ fresh(cas->createIntListFS()) });
        case FLOAT: return json::array({ fresh(cas->createFloatListFS()) });
        case STR: return json::array({ fresh(cas->createStringListFS()) });
        default: return json::array({ fresh(cas->createListFS()) });
      }
    }
    if (op[0] == 'l' && op != "lang") return doList(e);
    // --- views, subjects, text
    if (op == "cv") { CAS* v = cas->createView(US(e["val"])); int n = regView(v); return json::array({ n, give(v->getSofa()) }); }
    if (op == "gv") return json::array({ regView(V(e)->getView(US(e["val"]))) });
    if (op == "gvs") return json::array({ regView(cas->getView(SofaFS(H(e, "x")))) });
    if (op == "vn") return json::array({ encRef(V(e)->getViewName()) });
    if (op == "dtext") {
      CAS* v = V(e);
      UnicodeStringRef s = S(e["val"]);
      int m = e["m"];
      if (m == 0) v->setDocumentText(s);
      else if (m == 1) v->setDocumentText(s.getBuffer(), s.length(), true);
      else v->setDocumentText(s.getBuffer(), s.length(), false);
      clearIts();
      return sofaDoc(v);
    }
    if (op == "sds") { CAS* v = V(e); v->setSofaDataString(S(e["val"]), US(e["mime"])); clearIts(); return sofaDoc(v); }
    if (op == "sda") { CAS* v = V(e); v->setSofaDataArray(H(e, "x"), US(e["mime"])); return json::array({ give(v->getSofa()), 0 }); }
    if (op == "sdu") { CAS* v = V(e); v->setSofaDataURI(US(e["val"]), US(e["mime"])); return json::array({ give(v->getSofa()), 0 }); }
    if (op == "sfs") {                          // through the subject structure itself
      SofaFS s(H(e, "x"));
      int m = e["m"];
      if (m == 0) {
        s.setLocalSofaData(S(e["val"]));
        clearIts();
        return sofaDoc(cas->getView(s));
      }
      else if (m == 1) s.setLocalSofaData(H(e, "y"));
      else s.setRemoteSofaURI(US(e["val"]));
      return none;
    }
    if (op == "gtext") return units(V(e)->getDocumentText());
    if (op == "guri") return json::array({ encRef(V(e)->getSofaDataURI()) });
    if (op == "garr") return json::array({ give(V(e)->getSofaDataArray()) });
    if (op == "gsofa") return json::array({ give(V(e)->getSofa()) });
    if (op == "sofainfo") {
      SofaFS s(H(e, "x"));
      return json::array({ s.getSofaRef(), encRef(s.getSofaID()), encRef(s.getSofaMime()), encRef(s.getSofaURI()),
                           encRef(s.getLocalStringData()), give(s.getLocalFSData()) });
    }
    if (op == "sofas") {
      json o = none;
      FSIterator it = V(e)->getSofaIterator();
      for (it.moveToFirst(); it.isValid(); it.moveToNext()) o.push_back(handle(it.get()));
      return o;
    }
    if (op == "doc") return json::array({ give(V(e)->getDocumentAnnotation()) });
    if (op == "lang") { UnicodeString u(DocumentFS(H(e, "x")).getLanguage().asUnicodeString()); return json::array({ encStr(u.getBuffer(), u.length()) }); }
    if (op == "setlang") { UnicodeString u = US(e["val"]); DocumentFS(H(e, "x")).setLanguage(Language(toU8(u).c_str())); return none; }
    if (op == "can") return json::array({ fresh(V(e)->createAnnotation(T(e), (int) e["b"], (int) e["e"])) });
    if (op == "cov") return units(AnnotationFS(H(e, "x")).getCoveredText());
    if (op == "pos") { AnnotationFS a(H(e, "x")); return json::array({ (int) a.getBeginPosition(), (int) a.getEndPosition(), (int) a.getLength() }); }
    if (op == "aview") return json::array({ AnnotationFS(H(e, "x")).getView()->getSofaNum() });
    if (op == "fcov") return json::array({ give(AnnotationFS(H(e, "x")).getFirstCoveringAnnotation(T(e))) });
    if (op == "reset") {
      clearStreams();
      clearIts();
      h.resize(1);
      TyErrorId r = V(e)->reset();
      for (auto i = vw.begin(); i != vw.end(); ) if (i->first != 1) i = vw.erase(i); else ++i;
      return json::array({ (int) r });
    }
    if (op == "rt") return roundTrip(e);
    // --- indexes
    if (op == "add") { V(e)->getIndexRepository().addFS(H(e, "x")); clearIts(); return none; }
    if (op == "rem") { V(e)->getIndexRepository().removeFS(H(e, "x")); clearIts(); return none; }
    if (op == "size") return json::array({ (int) getIx(e).getSize() });
    if (op == "find") { FeatureStructure r = getIx(e).find(H(e, "x")); return json::array({ handle(r) }); }
    if (op == "validix") {
      FSIndexRepository& r = V(e)->getIndexRepository();
      int n = e["n"], t = e["t"];
      UnicodeString l = n == 0 ? UnicodeString("NoSuchIndex") : C->ix.at(n - 1);
      return json::array({ (t == 0 ? r.isValidIndexID(l) : r.isValidIndexID(l, C->ty.at(t))) ? 1 : 0 });
    }
    if (op == "ixtype") {
      int n = e["n"];
      return json::array({ typeId(V(e)->getIndexRepository().getTypeForIndex(n == 0 ? UnicodeString("NoSuchIndex") : C->ix.at(n - 1))) });
    }
    if (op == "prio") {                          // the order of types, shown by an index keyed on type priority alone
      ErrorInfo err;
      CAS* c2 = Framework::createCAS(*C->ts, *C->meta, err);
      json o = none;
      for (auto& t : e["ts"]) c2->getIndexRepository().addFS(makeAny(c2, t));
      FSIterator it = c2->getIndexRepository().getIndex(C->ix.at((int) e["n"] - 1)).iterator();
      for (it.moveToFirst(); it.isValid(); it.moveToNext()) o.push_back(typeId(it.get().getType()));
      delete c2;
      return o;
    }
    if (op == "idrop") { clearIts(); return none; }
    if (op == "it") return mkIter(e);
    if (op == "inext") { FSIterator& i = *its.at((int) e["i"] - 1); i.moveToNext(); return cur(i); }
    if (op == "iprev") { FSIterator& i = *its.at((int) e["i"] - 1); i.moveToPrevious(); return cur(i); }
    if (op == "ifirst") { FSIterator& i = *its.at((int) e["i"] - 1); i.moveToFirst(); return cur(i); }
    if (op == "ilast") { FSIterator& i = *its.at((int) e["i"] - 1); i.moveToLast(); return cur(i); }
    if (op == "imoveto") { FSIterator& i = *its.at((int) e["i"] - 1); i.moveTo(H(e, "x")); return cur(i); }
    if (op == "iget") return cur(*its.at((int) e["i"] - 1));
    if (op == "ipeekn") return json::array({ handle(its.at((int) e["i"] - 1)->peekNext()) });
    if (op == "ipeekp") return json::array({ handle(its.at((int) e["i"] - 1)->peekPrevious()) });
    if (op == "icopy") { its.push_back(new FSIterator(*its.at((int) e["i"] - 1))); return none; }
    if (op == "irev") {                          // a whole backward pass on a copy
      FSIterator i(*its.at((int) e["i"] - 1));
      json o = none;
      int fuel = 2000;
      for (i.moveToLast(); i.isValid() && fuel-- > 0; i.moveToPrevious()) o.push_back(handle(i.get()));
      return o;
    }
    throw std::runtime_error("bad op " + op);
  }
