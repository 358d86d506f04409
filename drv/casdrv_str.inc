  // ---------------------------------------------------------------- streams over the data of a subject
  std::vector<SofaDataStream*> sms;
  void clearStreams() { for (auto p : sms) delete p; sms.clear(); }
  static int live() {
    static int* p = 0;
    if (!p) { void* l = dlopen(g_handler.c_str(), RTLD_NOW); if (l) p = (int*) dlsym(l, "verif_live"); }
    return p ? *p : -7;
  }
  int base = live();                         // what earlier histories may have left
  json doStream(json const& e) {
    std::string op = e["op"];
    if (op == "sget") {
      SofaDataStream* p = (int) e["x"] == 0 ? V(e)->getSofaDataStream() : SofaFS(H(e, "x")).getSofaDataStream();
      if (!p) return json::array({ 0 });
      sms.push_back(p);
      return json::array({ (int) sms.size(), dynamic_cast<RemoteSofaDataStream*>(p) ? 2 : 1 });
    }
    if (op == "sgrow") { junk(V(e), (int) e["n"]); return json::array(); }
    if (op == "slive") return json::array({ live() - base });
    SofaDataStream*& s = sms.at((int) e["i"] - 1);
    if (op == "sdel") { delete s; s = 0; return json::array(); }
    if (op == "sopen") return json::array({ (int) e["n"] == 0 ? s->open() : s->open((int) e["n"]) });
    if (op == "sclose") { s->close(); return json::array(); }
    if (op == "ssize") { int a = s->getTotalStreamSizeInBytes(); return json::array({ a, (int) s->howManyBytesAvailable() }); }
    if (op == "sseek") return json::array({ s->seek((INT64) (int) e["off"], (int) e["org"]) });
    json o = json::array();
    if (op == "sptr") {
      unsigned char const* p = (unsigned char const*) s->getDataPointer();
      int n = s->getTotalStreamSizeInBytes();
      if (!p && n != 0) return json::array({ -1 });
      o.push_back(n);
      for (int i = 0; i < n; i++) o.push_back((int) p[i]);
      return o;
    }
    if (op == "sread") {
      int es = e["es"], n = e["n"];
      std::vector<unsigned char> b(es * n + 16, 0xa5);
      int r = s->read(b.data() + 8, es, n);
      o.push_back(r);
      for (int i = 0; r > 0 && i < r * es && i < es * n; i++) o.push_back((int) b[8 + i]);
      for (int i = 0; i < 8; i++) if (b[i] != 0xa5 || b[8 + es * n + i] != 0xa5) o.push_back("outside of the buffer");
      return o;
    }
    throw std::runtime_error("bad stream op " + op);
  }
