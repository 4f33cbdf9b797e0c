#include "common.hh"
using namespace drv;
CHECK(C11) {
  auto base = fields({"open_data_app", "unknown_oda", "dab", "transparent_data", "in_house_data"});
  // whether other applications' decoders were invoked at all
  const Project P = [base](const json* l) {
    json j = base(l);
    if (l)
      for (const char* k : {"radiotext_plus", "ert_plus", "enhanced_radiotext", "tmc", "ps", "radiotext", "other_network", "clock_time", "pty_name", "long_ps", "has_linkage", "ta"})
        if (l->contains(k)) j["_decoded"].push_back(k);
    return j;
  };
  Env e0;
  auto step = [](Sys& s, const Ev& e, Worker& w) {
    w.transitions++;
    w.tick();
    if (!s.step(e)) { w.failPath(s); return false; }
    w.outcome(hash64(s.last_line));
    w.state(hash64(s.key()));
    return true;
  };
  // every target type, every AID of the supported ones and others; then every group type
  const std::vector<int> aids{0x0093, 0x4BD7, 0x4BD8, 0x6552, 0xCD46, 0xCD47, 0x0BCB, 0x4AA1, 0xFFFF, 0x0000, 0x1234, 0xE911, 0xC563, 0x125F};
  r.parallel("every assignment and every group type", 32 * aids.size(), [&](size_t it, Worker& w) {
    const int tgt = int(it % 32), aid = aids[it / 32];
    for (int lossy = 0; lossy < 8; lossy++) {
      Sys s(e0, P);
      if (!step(s, oda(kPI, tgt, aid, 0x0041), w)) return;
      for (int c2 = 7; c2 < 39; c2++) {  // 3A, which would assign 5A, comes last
        Ev e = grp(kPI, c2 % 32, 0x0A, 0x3720, 0x4142);
        if (lossy & 1) e = lose(e, 2);
        if (lossy & 2) e = lose(e, 3);
        if ((lossy & 4) && !step(s, grp(kPI, 2, 0, 0, 0), w)) return;
        if (lossy & 4) e = lose(e, 0);
        if (!step(s, e, w)) return;
      }
      w.traces++;
    }
  });
  // any number of types assigned before, in any rotation; then every group type is used
  r.parallel("many assignments at once", 32 * 32, [&](size_t it, Worker& w) {
    const int k = int(it % 32), rot = int(it / 32);
    for (int set = 0; set < 2; set++) {
      Sys s(e0, P);
      for (int i = 0; i < k; i++)
        if (!step(s, oda(kPI, (rot + i * 5) % 32, set ? aids[size_t(i) % aids.size()] : 0x0BCB, 0x0041), w)) return;
      for (int c2 = 7; c2 < 39; c2++)  // 3A, which would assign 5B, comes last
        if (!step(s, grp(kPI, c2 % 32, 0x0B, 0x3720 + c2, 0x4142), w)) return;
      w.traces++;
    }
  });
  r.parallel("all application ids and messages", 256, [&](size_t hi, Worker& w) {
    Sys s(e0, P);
    for (int lo = 0; lo < 256; lo++) {
      const int v = int(hi) << 8 | lo;
      if (lo % 16 == 0) s = Sys(e0, P);
      if (!step(s, oda(kPI, 26, v, v ^ 0x1357), w)) return;
      if (!step(s, grp(kPI, 26, lo & 15, v, 0x1234), w)) return;
      if (!step(s, lose(oda(kPI, 26, 0x0093, v), 2), w)) return;
      if (!step(s, lose(oda(kPI, 26, 0x0093, v), 3), w)) return;
      if (!step(s, oda(kPI, 24, 0x0BCB, v), w)) return;
      if (!step(s, grp(kPI, 24, lo & 31, v, v ^ 0xFFFF), w)) return;
    }
    w.traces++;
  });
  r.parallel("all DAB frequencies", 1024, [&](size_t it, Worker& w) {
    Sys s(e0, P);
    step(s, oda(kPI, 24, 0x0093), w);
    for (int lo = 0; lo < 256; lo++) {
      const int f = int(it & 255) << 8 | lo;
      if (!step(s, grp(kPI, 24, int(it >> 8) | ((lo & 7) << 2), f, (lo * 257) & 0xFFFF), w)) return;
    }
    w.traces++;
  });
  r.parallel("all transparent and in-house data", 256, [&](size_t hi, Worker& w) {
    Sys s(e0, P);
    for (int lo = 0; lo < 256; lo++) {
      const int v = int(hi) << 8 | lo;
      for (int code : {10, 11, 12, 13})
        for (int m = 0; m < 3; m++) {
          Ev e = grp(kPI, code, lo & 31, m == 0 ? v : 0x4344, m == 0 ? 0x4142 : v);
          if (m == 2) e = lose(e, lo & 1 ? 2 : 3);
          if (lo % 8 == 7) e = lose(e, 0);
          if (!step(s, e, w)) return;
        }
      if (lo % 64 == 0) s = Sys(e0, P);
    }
    w.traces++;
  });
  std::vector<Scenario> sc;
  {
    std::vector<Ev> al;
    for (int code : {22, 23, 16, 10}) {
      for (int aid : {0x4BD7, 0x0093, 0x0BCB}) al.push_back(oda(kPI, code, aid, 0x0041));
      al.push_back(grp(kPI, code, 2, 0x3720, 0x4142));
    }
    al.push_back(oda(kPI, 16, 0xCD46, 0x0041));
    al.push_back(lose(oda(kPI, 22, 0x0BCB), 2));
    sc.push_back(sequences("assignment histories", e0, P, {}, al, r.thorough ? 6 : 5));
    std::vector<Ev> a2;
    for (int code : {0, 1, 4, 6, 8, 20, 28, 31, 30, 12, 14, 18, 9}) a2.push_back(oda(kPI, code, 0x0093)), a2.push_back(grp(kPI, code, 2, 0x3720, 0x4142));
    // one group type given to one application after another
    std::vector<Ev> a3;
    for (int aid : {0x4BD7, 0x4BD8, 0x6552, 0xCD46, 0x0093, 0x0BCB, 0x1234, 0}) a3.push_back(oda(kPI, 22, aid, 0x0041));
    a3.push_back(grp(kPI, 22, 9, 0x3720, 0x4142));
    a3.push_back(ev(kPI, blk2(11, true, 9), kPI, 0x4142));
    a3.push_back(oda(kPI, 22, 0x4AA1));
    sc.push_back(sequences("applications taking over a group type", e0, P, {}, a3, r.thorough ? 6 : 5));
    sc.push_back(sequences("fixed purpose groups", e0, P, {}, a2, 3));
  }
  // 128-byte transparent message
  for (int cr : {0, 1, 50, 127}) {
    std::string t;
    for (int i = 0; i < 128; i++) t += char(33 + (i * 5) % 90);
    if (cr) t[size_t(cr)] = '\r';
    std::string t2 = t;
    for (auto& c : t2)
      if (c != '\r') c = char(33 + (c * 3) % 90);
    std::vector<Ev> b;
    auto tdc = [&](int i, const std::string& x) { return grp(kPI, 10, i, ch2(x, size_t(i) * 4), ch2(x, size_t(i) * 4 + 2)); };
    for (int i = 0; i < 32; i++) b.push_back(tdc(i, t));
    for (int i = 0; i < 32; i++) b.push_back(tdc(i, t2));
    DevOps o;
    o.jumps = {0, 32};
    o.lose_blocks = {2, 3};
    o.inserts = {tdc(0, t2), tdc(31, t2), grp(kPI, 11, 3, kPI, 0x4142)};
    sc.push_back(deviations("transparent data message", e0, P, {}, b, o, r.thorough && cr == 0 ? 2 : 1));
    sc.back().max_depth = 140;
  }
  explore(r, sc);
  everywhere(r, P);
  longRun(r, e0, P);
}
