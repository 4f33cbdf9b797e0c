#include "common.hh"
using namespace drv;
CHECK(C07) {
  const Project P = fields({"alt_frequencies_a", "alt_frequencies_b", "partial_alt_frequencies"});
  Env e0, ep;
  ep.opt.partial = true;
  auto af = [](int a, int b) { return ev(kPI, blk2(0, false, 3), (a << 8) | b, 0x4142); };
  auto allowed = [](const Sys& s, const Ev& e) { return e.g.has[2] || !e.g.has[1] || (e.g.b[1] >> 12) != 0 || !s.model.st.af.ambiguousB(); };
  // all 65536 pairs in several states of the list
  const std::vector<std::vector<Ev>> states{{}, {af(0xE2, 10)}, {af(0xE4, 10)}, {af(0xE5, 20), af(20, 10)}, {af(0xE3, 50)}, {af(0xCD, 0xFA)}, {af(0xE2, 0xFA)}, {af(0xE1, 0xFA)}, {af(0xE3, 10), af(10, 0xFA)}, {af(0xE2, 10), af(20, 30)}};
  r.parallel("all code pairs", states.size() * 256, [&](size_t it, Worker& w) {
    const auto& pre = states[it / 256];
    Sys b((it / 256) % 2 ? ep : e0, P);
    for (auto& e : pre)
      if (!b.step(e)) { w.failPath(b); return; }
    for (int lo = 0; lo < 256; lo++) {
      Sys s = b.clone(w.by_replay);
      // the pair, then something that shows the state reached
      for (auto& e : {af(int(it % 256), lo), af(30, 40), af(50, 0xCD)}) {
        w.transitions++;
        w.tick();
        if (!s.step(e)) { w.failPath(s); return; }
        w.outcome(hash64(s.last_line));
      }
      w.traces++;
      w.state(hash64(s.key(), it * 256 + size_t(lo)));
    }
  });
  std::vector<Scenario> sc;
  // code sequences
  {
    const std::vector<int> codes{0xE1, 0xE2, 0xE3, 0xE5, 10, 20, 30, 0xCD, 0xFA, 0xFF, 0xE0};
    std::vector<Ev> al;
    for (int a : codes)
      for (int b : codes) al.push_back(af(a, b));
    al.push_back(lose(af(0xE2, 10), 2));
    al.push_back(ps(kPI, 0, "AB"));
    al.push_back(psB(kPI, 1, "ABCD"));
    Scenario s = sequences("code sequences", e0, P, {}, al, 3);
    s.allowed = allowed;
    sc.push_back(s);
    // a smaller alphabet, deeper, with partial lists shown
    std::vector<Ev> a2{af(0xE3, 10), af(0xE5, 10), af(10, 20), af(20, 10), af(10, 5), af(5, 10), af(20, 30), af(0xCD, 0xCD), af(0xFA, 16), af(10, 0xCD), lose(af(10, 20), 2), lose(lose(af(10, 20), 2), 3)};
    s = sequences("pair sequences", ep, P, {}, a2, r.thorough ? 7 : 6);
    s.allowed = allowed;
    sc.push_back(s);
  }
  // method B, every sequence of pairs
  for (int n : {3, 5, 7, 9}) {
    const int t = 100, f1 = 50, f2 = 150, f3 = 60, f4 = 160;
    std::vector<Ev> al;
    for (auto p : std::vector<std::pair<int, int>>{{t, f1}, {f1, t}, {t, f2}, {f2, t}, {f1, f2}, {t, t}, {f3, t}, {t, f4}, {f4, t}, {t, f3}}) al.push_back(af(p.first, p.second));
    al.push_back(lose(al[0], 2));
    al.push_back(lose(lose(al[1], 2), 3));
    Scenario s = sequences("method B of " + std::to_string(n), n == 5 ? ep : e0, P, {af(224 + n, t)}, al, (n - 1) / 2 + (r.thorough ? 2 : 1));
    s.allowed = allowed;
    sc.push_back(s);
  }
  // every list length, with deviations; method A and method B
  for (int n = 1; n <= 25; n++)
    for (int m = 0; m < 2; m++) {
      if (m == 1 && (n < 3 || n % 2 == 0)) continue;
      std::vector<int> codes{224 + n};
      const int t = 102;
      for (int i = 0; i < n; i++) codes.push_back(m == 0 ? 3 + 7 * i : i == 0 ? t : (i % 4 == 1 || i % 4 == 0) ? t : (i % 3 ? 3 + 4 * i : 204 - 3 * i));
      if (codes.size() % 2) codes.push_back(205);
      std::vector<Ev> base;
      for (int rep = 0; rep < 2; rep++)
        for (size_t i = 0; i < codes.size(); i += 2) base.push_back(af(codes[i], codes[i + 1]));
      DevOps o;
      const int h = int(base.size() / 2);
      o.lose_blocks = {2, 3};
      o.lose_masks = {12, 14, 13};
      o.jumps = {0, h};
      o.inserts = {af(205, 205), af(0xE0, 205), af(205, 201), af(250, 20), af(0, 205), af(224 + n, 7), ps(kPI, 1, "ABCD")};
      o.inserts.push_back(psB(kPI, 1, "ABCD"));
      Scenario s = deviations("list of " + std::to_string(n), n % 2 ? e0 : ep, P, {}, base, o, r.thorough || n < 9 ? 2 : 1);
      s.max_depth = 4 * h + 8;
      s.allowed = allowed;
      sc.push_back(s);
    }
  explore(r, sc);
  everywhere(r, P);
  longRun(r, e0, P);
  // LF/MF lists
  r.parallel("LF/MF lists", 256, [&](size_t c, Worker& w) {
    for (int n = 1; n <= 3; n++) {
      std::vector<int> codes{224 + n};
      for (int i = 0; i < n; i++) {
        codes.push_back(250);
        codes.push_back(i == n - 1 ? int(c) : 20 + i);
      }
      if (codes.size() % 2) codes.push_back(205);
      Sys s(e0, P);
      for (size_t i = 0; i < codes.size(); i += 2) {
        w.transitions++;
        w.tick();
        if (!s.step(af(codes[i], codes[i + 1]))) { w.failPath(s); return; }
        w.outcome(hash64(s.last_line));
        w.state(hash64(s.key()));
      }
      w.traces++;
    }
  });
  r.info("excluded", "a lost block 3 while an even number of at least 4 codes of an odd list is held (the repository leaves this undetermined)");
}
