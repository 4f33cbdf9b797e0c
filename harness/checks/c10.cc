#include "common.hh"
using namespace drv;
CHECK(C10) {
  const Project P = fields({"other_network"});
  Env e0, er;
  er.opt.rbds = true;
  auto step = [](Sys& s, const Ev& e, Worker& w) {
    w.transitions++;
    w.tick();
    if (!s.step(e)) { w.failPath(s); return false; }
    w.outcome(hash64(s.last_line));
    return true;
  };
  r.parallel("all variants and values", 16 * 256, [&](size_t it, Worker& w) {
    const int v = int(it >> 8), hi = int(it & 255);
    Sys s(v & 1 ? er : e0, P);
    for (int lo = 0; lo < 256; lo++) {
      if (v <= 4 && lo % 16 == 0) s = Sys(e0, P);
      if (!step(s, eon(kPI, v, hi << 8 | lo, 0xC2F8, lo & 1), w)) return;
      if (v <= 4 && lo % 5 == 0)
        if (!step(s, eon(kPI, v, 0x4142, 0xC2F9, true), w)) return;
    }
    w.traces++;
    w.state(hash64(s.key(), it));
  });
  r.parallel("all PI codes, 14B and lost blocks", 256, [&](size_t hi, Worker& w) {
    Sys s(e0, P);
    for (int lo = 0; lo < 256; lo++) {
      const int on = int(hi) << 8 | lo;
      for (int f = 0; f < 4; f++) {
        if (!step(s, ev(kPI, blk2(14, true, f << 3), kPI, on), w)) return;
        if (!step(s, ev(kPI, blk2(14, true, f << 3), -1, on), w)) return;
      }
      for (int v : {0, 5, 12, 13}) {
        if (!step(s, lose(eon(kPI, v, 0x8101, on, lo & 1), 2), w)) return;
        if (!step(s, lose(eon(kPI, v, 0x8101, on, lo & 1), 3), w)) return;
        if (!step(s, eon(kPI, v, 0x8101, on, lo & 1), w)) return;
      }
      if (lo % 32 == 31) s = Sys(e0, P);
    }
    w.traces++;
    w.state(hash64(s.key(), hi));
  });
  // AF codes for EON, all pairs in list context
  r.parallel("EON frequency lists", 256, [&](size_t a, Worker& w) {
    for (int b = 0; b < 256; b++) {
      Sys s(e0, P);
      for (auto& e : {eon(kPI, 4, 0xE30A, 0xC001), eon(kPI, 4, int(a) << 8 | b, 0xC001), eon(kPI, 4, 0x1415, 0xC001), eon(kPI, 4, 0xE10B, 0xC001)})
        if (!step(s, e, w)) return;
      w.traces++;
      w.state(hash64(s.key(), a * 256 + size_t(b)));
    }
  });
  // many networks at once: rotation by segment, in both directions, with one network's data lost or
  // repeated at every point
  r.parallel("many networks in rotation", 48, [&](size_t it, Worker& w) {
    const int n = int(it) < 40 ? int(it) + 1 : (int(it) - 39) * 64;
    for (int order = 0; order < 3; order++)
      for (int base : {0xC000, 0x0001, 0xF0F0}) {
        Sys s(e0, P);
        for (int round = 0; round < 2; round++)
          for (int v = 0; v < 6; v++)
            for (int k = 0; k < n; k++) {
              const int i = order == 1 ? n - 1 - k : k;
              const int on = order == 2 ? (base + i * 257) & 0xFFFF : (base + i) & 0xFFFF;
              const int f = 1 + (i * 3) % 190;
              const int info = v < 4 ? 0x4141 + ((i * 5 + v) % 26) * 0x100 + (i + round + v) % 26 : v == 4 ? 0xE300 + f : ((f + 1) << 8) + f + 2;
              if (!step(s, eon(kPI, std::min(v, 4), info, on), w)) return;
              if (i == round && v == 2)
                if (!step(s, eon(kPI, 1, info, on), w)) return;
            }
        w.traces++;
        w.state(hash64(s.key(), it));
      }
  });
  // a network described in its own programme (its PI equals that of the other network)
  r.parallel("a network about itself", 256, [&](size_t hi, Worker& w) {
    for (int rbds = 0; rbds < 2; rbds++) {
      const int pi = int(hi) << 8 | (int(hi) * 37 + 1) % 256;
      Env e;
      e.pi = pi;
      e.opt.rbds = rbds;
      Sys s(e, P);
      for (int on : {pi, pi ^ 0x0100, pi})
        for (int v = 0; v < 16; v++)
          if (!step(s, eon(pi, v, v < 4 ? ch2("BETA FM ", size_t(v) * 2) : v == 4 ? 0xE20A : 0x9234, on, v & 1), w)) return;
      for (int f = 0; f < 4; f++)
        if (!step(s, ev(pi, blk2(14, true, f << 3), pi, pi), w)) return;
      w.traces++;
      w.state(hash64(s.key(), hi));
    }
  });
  std::vector<Scenario> sc;
  // all interleavings of the complete data of 2 networks, with losses
  auto net = [&](int on, const std::string& name, int f) {
    std::vector<Ev> v;
    for (int i = 0; i < 4; i++) v.push_back(eon(kPI, i, ch2(name, size_t(i) * 2), on));
    v.push_back(eon(kPI, 4, 0xE300 + f, on));
    v.push_back(eon(kPI, 4, ((f + 1) << 8) + f + 2, on));
    return v;
  };
  {
    auto a = net(0xC001, "NETWORK1", 10), b = net(0xD002, "other 2.", 90);
    for (int bud = 0; bud < 2; bud++) {
      Scenario s;
      s.name = "interleavings of two networks";
      s.env = e0;
      s.project = P;
      s.budget = bud;
      const int n = int(a.size());
      s.next = [a, b, n](int pos, int) {
        const int i = pos / 16, k = pos % 16;
        std::vector<Choice> c;
        auto add = [&](const Ev& e, int np) {
          c.push_back({{e}, 0, np});
          c.push_back({{}, 1, np});
          c.push_back({{lose(e, 2)}, 1, np});
          c.push_back({{lose(e, 3)}, 1, np});
          c.push_back({{e, e}, 1, np});
        };
        if (i < n) add(a[size_t(i)], pos + 16);
        if (k < n) add(b[size_t(k)], pos + 1);
        return c;
      };
      if (bud == 1) s.budget = r.thorough ? 2 : 1;
      sc.push_back(s);
    }
  }
  {
    std::vector<Ev> al;
    for (int on : {0xC001, 0xC002}) {
      for (int i = 0; i < 4; i++) al.push_back(eon(kPI, i, 0x4141 + i * 0x101 + (on & 2), on));
      al.push_back(eon(kPI, 4, 0xE20A + on % 7, on));
      al.push_back(eon(kPI, 4, 0x141E + on % 7, on));
    }
    sc.push_back(sequences("segment histories of two networks", e0, P, {}, al, r.thorough ? 7 : 6));
    // other variants in between, own PS and AF in between
    std::vector<Ev> a2{al[0], al[1], al[2], al[3], al[4], al[5], al[6], ps(kPI, 0, "OWN NAME", 0xE20A), ps(kPI, 1, "OWN NAME", 0x1415), eon(kPI, 12, 0x8123, 0xC001), eon(kPI, 13, 0x5001, 0xC002), eon(kPI, 14, 0x0842, 0xC001)};
    sc.push_back(sequences("mixed variants", e0, P, {}, a2, r.thorough ? 6 : 5));
  }
  // the same contents in the station's own groups and in those about other networks, one of which has
  // the station's own PI
  {
    std::vector<Ev> al{ev(kPI, blk2(1, false, 0), 0x00E2, 0x0842), ev(kPI, blk2(1, false, 0), 0x3123, 0x0842), ps(kPI, 0, "AABBCCDD", 0xE20A), ps(kPI, 1, "AABBCCDD", 0x1415), ptyn(kPI, 0, 0, "AABBCCDD")};
    for (int on : {kPI, 0xC001}) {
      for (auto x : {std::pair<int, int>{0, 0x4141}, {1, 0x4242}, {4, 0xE20A}, {4, 0x1415}, {5, 0x0A14}, {12, 0x8123}, {13, blk2(0, false, 0) | 0x2800}, {14, 0x0842}, {15, 0x0842}}) al.push_back(eon(kPI, x.first, x.second, on));
    }
    sc.push_back(sequences("own contents repeated for other networks", e0, P, {}, al, r.thorough ? 5 : 4));
    std::vector<Ev> one = learn(kPI, true);
    for (int on : {kPI, 0xC001})
      for (int v : {12, 13, 14, 15, 5}) one.push_back(eon(kPI, v, v == 14 ? 0x0842 : 0x8123, on));
    DevOps o;
    o.inserts = {eon(kPI, 14, 0x0842, kPI), eon(kPI, 14, 0x0842, 0xC001), eon(kPI, 12, 0x8123, 0xC001), eon(kPI, 13, 0x5001, kPI), ev(kPI, blk2(1, false, 0), 0x00E2, 0x0842)};
    sc.push_back(deviations("everything about the station, then other networks", e0, P, {}, one, o, 1));
  }
  // three networks, deviations
  {
    auto a = net(0x1111, "AAAABBBB", 10), b = net(0x1112, "CCCCDDDD", 90), c = net(0x2111, "EEEEFFFF", 150);
    std::vector<Ev> base;
    for (size_t i = 0; i < a.size(); i++) {
      base.push_back(a[i]);
      base.push_back(b[i]);
      base.push_back(c[i]);
    }
    auto base2 = base;
    append(base2, base);
    DevOps o;
    o.jumps = {0, 3, 12};
    o.inserts = {eon(kPI, 0, 0x5A5A, 0x1111), eon(kPI, 4, 0xE1C0, 0x1112)};
    sc.push_back(deviations("three networks in rotation", e0, P, {}, base2, o, r.thorough ? 2 : 1));
    sc.back().max_depth = 60;
  }
  explore(r, sc);
  everywhere(r, P);
  longRun(r, e0, P);
}
