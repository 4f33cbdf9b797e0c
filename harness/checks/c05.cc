#include "common.hh"
using namespace drv;
CHECK(C05) {
  const Project P = fields({"radiotext", "partial_radiotext", "rt_ab"});
  Env e0, ep;
  ep.opt.partial = true;
  std::vector<Scenario> sc;
  const std::string L1 = "The first RadioText message is exactly 64 characters long - yes!";
  const std::string L2 = "Zweite Nachricht, vollkommen anders und auch genau so lang, 64. ";
  auto seg = [&](bool B, int ab, int i, const std::string& t) { return B ? rtB(kPI, ab, i, t) : rtA(kPI, ab, i, t); };
  for (int B = 0; B < 2; B++) {
    const int per = B ? 2 : 4;
    const int full = per * 16;
    // short messages: complete enumeration of histories
    {
      const std::string x = std::string("Ab1\rEf2 ").substr(0, size_t(per) * 2), y = std::string("qRs3tU\r ").substr(0, size_t(per) * 2), z = "mnopQRST";
      std::vector<Ev> al;
      for (int i = 0; i < 2; i++) {
        al.push_back(seg(B, 0, i, y));
        al.push_back(seg(B, 1, i, y));
        al.push_back(seg(B, 0, i, z));
      }
      al.push_back(seg(B, 0, 0, x));
      al.push_back(seg(B, 1, 1, z));
      al.push_back(lose(seg(B, 0, 1, y), 3));
      al.push_back(lose(seg(B, 1, 0, y), 2));
      sc.push_back(sequences(B ? "2B short histories" : "2A short histories", e0, P, {}, al, r.thorough ? 7 : 6));
      sc.push_back(sequences(B ? "2B short histories (partial)" : "2A short histories (partial)", ep, P, {}, al, r.thorough ? 6 : 5));
      // without terminator: repetition rule
      std::vector<Ev> a2;
      const std::string u = "mnopQRSTuvwx", v = "mnopQRzzuvwx";
      for (int i = 0; i < 3; i++) a2.push_back(seg(B, 0, i, u));
      a2.push_back(seg(B, 0, 1, v));
      a2.push_back(seg(B, 1, 0, u));
      a2.push_back(lose(a2[1], 3));
      a2.push_back(lose(a2[0], 3));
      sc.push_back(sequences(B ? "2B repetition" : "2A repetition", e0, P, {}, a2, r.thorough ? 9 : 7));
    }
    // long messages with deviations
    for (int len : {full, full - 1, full - per, full / 2, per + 1, per, 1}) {
      for (int term = 0; term < (len < full ? 2 : 1); term++) {
        std::string a = L1.substr(0, size_t(len)), b = L2.substr(0, size_t(len));
        if (len < full && !term) a += "\r", b += "\r";
        const int n = (int(a.size()) + per - 1) / per;
        std::vector<Ev> base;
        for (int i = 0; i < n; i++) base.push_back(seg(B, 0, i, a));
        for (int i = 0; i < n; i++) base.push_back(seg(B, 0, i, a));
        for (int k = 0; k < 2; k++)
          for (int i = 0; i < n; i++) base.push_back(seg(B, 1, i, b));
        if (n < 10)
          for (int k = 0; k < 3; k++)
            for (int i = 0; i < n; i++) base.push_back(seg(B, 1, i, a));
        DevOps o;
        o.jumps = {0, n, 2 * n, 3 * n};
        o.inserts = {seg(B, 1, 0, b), seg(B, 0, 0, a), seg(B, 1, n - 1, b), ps(kPI, 0, "XX")};
        Scenario s = deviations("RT length " + std::to_string(len), n % 2 ? e0 : ep, P, {}, base, o, r.thorough || n < 6 ? 2 : 1);
        s.max_depth = 6 * n + 20;
        sc.push_back(s);
      }
    }
  }
  // type 2A <-> 2B with the flag
  {
    const std::string x = "Text in 2A \r", y = "2B txt\r";
    std::vector<Ev> base;
    for (int i = 0; i < 3; i++) base.push_back(rtA(kPI, 0, i, x));
    for (int i = 0; i < 4; i++) base.push_back(rtB(kPI, 1, i, y));
    for (int i = 0; i < 3; i++) base.push_back(rtA(kPI, 0, i, L1));
    for (int i = 0; i < 3; i++) base.push_back(rtA(kPI, 0, i, x));
    DevOps o;
    o.drop = false;
    o.jumps = {0};
    sc.push_back(deviations("2A then 2B then 2A", e0, P, {}, base, o, 2));
  }
  // from 2A to full-length 2B and back, after any part of the first, with and without a change of flag
  for (int ab = 0; ab < 2; ab++)
    for (int k : {1, 2, 7, 8, 9, 16})
      for (int term = 0; term < 2; term++) {
        std::string t2 = L2.substr(0, 32);
        if (term) t2[17] = '\r';
        std::vector<Ev> base;
        for (int i = 0; i < k; i++) base.push_back(rtA(kPI, 0, i, L1));
        for (int i = 0; i < 16; i++) base.push_back(rtB(kPI, ab, i, t2));
        for (int i = 0; i < 16; i++) base.push_back(rtA(kPI, 0, i, L2));
        for (int i = 0; i < 16; i++) base.push_back(rtB(kPI, 0, i, L1));
        DevOps o;
        o.jumps = {0, k, k + 16, k + 32};
        Scenario s = deviations("2A, full 2B, 2A", ab ? ep : e0, P, {}, base, o, r.thorough ? 2 : 1);
        s.max_depth = int(base.size()) + 40;
        sc.push_back(s);
      }
  // messages of a few characters, anywhere, shown as they come in
  r.parallel("a lone character", 64, [&](size_t pos, Worker& w) {
    for (int B = 0; B < 2; B++)
      for (int ab = 0; ab < 2; ab++)
        for (int n = 1; n <= 2; n++) {
          if (B && pos >= 32) continue;
          std::string t(B ? 32 : 64, ' ');
          for (int k = 0; k < n && pos + size_t(k) < t.size(); k++) t[pos + size_t(k)] = 'Q';
          Sys s(ep, P);
          for (int i = 0; i < 16; i++)
            for (int l = 0; l < 2; l++) {
              w.transitions++;
              if (!s.step(l ? lose(seg(B, ab, i, t), 2 + i % 2) : seg(B, ab, i, t))) {
                w.failPath(s);
                return;
              }
            }
          w.traces++;
          w.tick();
          w.state(hash64(s.key(), pos));
        }
  });
  // from 2A to 2B at any segment of either
  r.parallel("from 2A to 2B and back at any segment", 256, [&](size_t it, Worker& w) {
    const int from = int(it % 16), to = int(it / 16);
    for (int ab = 0; ab < 2; ab++)
      for (int len : {32, 21}) {
        std::string t2 = L2.substr(0, size_t(len));
        if (len < 32) t2 += '\r';
        Sys s(ab ? ep : e0, P);
        std::vector<Ev> v;
        for (int i = 0; i <= from; i++) v.push_back(rtA(kPI, 0, i, L1));
        for (int i = 0; i < 48; i++) v.push_back(rtB(kPI, ab, (to + i) % 16, t2));
        for (int i = 0; i < 32; i++) v.push_back(rtA(kPI, ab, (to + i) % 16, L2));
        for (int i = 0; i < 4; i++) v.push_back(rtB(kPI, ab, (from + i) % 16, L1));
        for (auto& e : v) {
          w.transitions++;
          if (!s.step(e)) {
            w.failPath(s);
            return;
          }
        }
        w.traces++;
        w.tick();
        w.state(hash64(s.key(), it));
      }
  });
  explore(r, sc);
  everywhere(r, P);
  longRun(r, e0, P);
  // every code at every position, and every position of the terminator
  r.parallel("all character codes", 256, [&](size_t code, Worker& w) {
    for (int B = 0; B < 2; B++)
      for (int p = 0; p < (B ? 32 : 64); p++) {
        std::string t = L1.substr(0, B ? 32 : 64);
        t[size_t(p)] = char(code);
        Sys s(p % 2 ? e0 : ep, P);
        w.traces++;
        for (int i = 0; i < 16; i++) {
          w.transitions++;
          w.tick();
          if (!s.step(seg(B, B, i, t))) {
            w.failPath(s);
            return;
          }
          w.outcome(hash64(s.last_line));
        }
        w.state(hash64(s.key()));
      }
  });
}
