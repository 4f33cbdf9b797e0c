#include "common.hh"
using namespace drv;
// Short names: PS, PTY name, long PS, other networks' PS, TMC service provider.
static const std::vector<std::string> kPaths{"ps", "partial_ps", "pty_name", "long_ps", "partial_long_ps", "other_network/ps", "tmc/service_provider"};

CHECK(C04) {
  const Project P = fields(kPaths);
  Env e0, ep;
  ep.opt.partial = true;
  const std::string X = "ALPHA-12", Y = "beta_34.";
  std::vector<Scenario> sc;
  // --- PS histories
  std::vector<Ev> al;
  for (int i = 0; i < 4; i++) al.push_back(ps(kPI, i, X));
  for (int i = 0; i < 4; i++) al.push_back(ps(kPI, i, Y));
  al.push_back(lose(ps(kPI, 1, X), 3));
  al.push_back(lose(ps(kPI, 2, X), 2));
  al.push_back(psB(kPI, 0, Y));
  al.push_back(psB(kPI, 3, X));
  sc.push_back(sequences("PS segment histories", e0, P, {}, al, r.thorough ? 7 : 6));
  sc.push_back(sequences("PS segment histories, complete name first, partial shown", ep, P, {al[0], al[1], al[2], al[3]}, al, 5));
  sc.push_back(sequences("PS histories, all segments twice", e0, P, {al[0], al[1], al[2], al[3]}, {al[0], al[1], al[2], al[3], al[5], al[7]}, r.thorough ? 9 : 7));
  // --- PTYN
  {
    std::vector<Ev> a;
    for (int ab = 0; ab < 2; ab++)
      for (auto& t : {X, Y})
        for (int i = 0; i < 2; i++) a.push_back(ptyn(kPI, ab, i, t));
    a.push_back(lose(ptyn(kPI, 0, 1, X), 3));
    a.push_back(lose(ptyn(kPI, 0, 0, X), 2));
    a.push_back(lose(ptyn(kPI, 1, 1, Y), 2));
    sc.push_back(sequences("PTYN histories", e0, P, {}, a, r.thorough ? 7 : 6));
  }
  // --- EON PS and TMC service provider
  {
    std::vector<Ev> a;
    for (int i = 0; i < 4; i++) a.push_back(eon(kPI, i, ch2(X, size_t(i) * 2), 0xC001));
    for (int i = 0; i < 4; i++) a.push_back(eon(kPI, i, ch2(Y, size_t(i) * 2), 0xC002));
    a.push_back(lose(a[1], 2));
    a.push_back(lose(a[2], 3));
    sc.push_back(sequences("EON PS histories", e0, P, {}, a, r.thorough ? 7 : 6));
    std::vector<Ev> t;
    auto sp = [&](int seg, const std::string& s) { return grp(kPI, 16, 0x14 + seg, ch2(s, size_t(seg) * 4), ch2(s, size_t(seg) * 4 + 2)); };
    t = {sp(0, X), sp(1, X), sp(0, Y), sp(1, Y), lose(sp(0, X), 2), lose(sp(1, X), 3), oda(kPI, 16, 0xCD46, 0x0041), ps(kPI, 0, X)};
    sc.push_back(sequences("TMC provider name histories", e0, P, {}, t, r.thorough ? 8 : 6));
  }
  // --- long PS: full length, CR-terminated, with up to 2..3 deviations
  for (int partial = 0; partial < 2; partial++)
    for (int len : {32, 3, 4, 9, 14, 30, 31}) {
      std::string a = std::string("A long PS name of 32 characters!").substr(0, size_t(len));
      std::string b = std::string("Zweiter ganz anderer Name hier ?").substr(0, size_t(len));
      if (len < 32) a += "\r", b += "\r";
      const int n = (int(a.size()) + 3) / 4;
      std::vector<Ev> base;
      for (auto& t : {a, b, b})
        for (int i = 0; i < n; i++) base.push_back(lps(kPI, i, t));
      DevOps o;
      o.lose_blocks = {0, 1, 2, 3};
      for (int j = 0; j < n; j += (n > 4 ? 3 : 1)) o.jumps.push_back(j);
      o.jumps.push_back(n);
      o.inserts = {lps(kPI, 0, b), lps(kPI, n - 1, b), lps(kPI, n / 2, b)};
      Scenario s = deviations("long PS length " + std::to_string(len), partial ? ep : e0, P, {}, base, o, r.thorough || len < 10 ? 2 : 1);
      s.max_depth = 6 * n;
      sc.push_back(s);
    }
  {
    std::vector<Ev> a;
    const std::string s1 = "abcdefghi\r", s2 = "ABC\r", s3 = "0123456789AB";
    for (int i = 0; i < 3; i++) a.push_back(lps(kPI, i, s1));
    a.push_back(lps(kPI, 0, s2));
    for (int i = 0; i < 3; i++) a.push_back(lps(kPI, i, s3));
    a.push_back(lose(lps(kPI, 1, s1), 2));
    a.push_back(lose(lps(kPI, 1, s1), 3));
    a.push_back(lose(lose(lps(kPI, 0, s1), 2), 3));
    sc.push_back(sequences("long PS histories", e0, P, {}, a, r.thorough ? 7 : 6));
    sc.push_back(sequences("long PS histories, partial", ep, P, {}, a, r.thorough ? 6 : 5));
  }
  explore(r, sc);
  everywhere(r, P);
  longRun(r, e0, P);

  // --- every character code at every position of every text
  const std::string base32 = "ABCDEFGHIJKLMNOPQRSTUVWXYZ012345";
  r.parallel("all character codes", 256, [&](size_t code, Worker& w) {
    auto go = [&](const std::vector<Ev>& evs, const Env& env) {
      Sys s(env, P);
      w.traces++;
      for (auto& e : evs) {
        w.transitions++;
        w.tick();
        if (!s.step(e)) {
          w.failPath(s);
          return;
        }
        w.outcome(hash64(s.last_line));
      }
      w.state(hash64(s.key()));
    };
    for (int p = 0; p < 8; p++) {
      std::string t = base32.substr(0, 8);
      t[size_t(p)] = char(code);
      std::vector<Ev> v;
      for (int i = 0; i < 4; i++) v.push_back(ps(kPI, i, t));
      go(v, ep);
      v.clear();
      for (int i = 0; i < 4; i++) v.push_back(psB(kPI, i, t));
      go(v, e0);
      v.clear();
      for (int i = 0; i < 2; i++) v.push_back(ptyn(kPI, 1, i, t));
      go(v, e0);
      v.clear();
      for (int i = 0; i < 4; i++) v.push_back(eon(kPI, i, ch2(t, size_t(i) * 2), 0xD123));
      go(v, e0);
      v = {oda(kPI, 16, 0xCD46, 0x0041), grp(kPI, 16, 0x14, ch2(t, 0), ch2(t, 2)), grp(kPI, 16, 0x15, ch2(t, 4), ch2(t, 6))};
      go(v, e0);
      // every pair of adjacent codes, one PS segment
      t = base32.substr(0, 8);
    }
    for (int p = 0; p < 32; p++) {
      std::string t = base32;
      t[size_t(p)] = char(code);
      std::vector<Ev> v;
      for (int i = 0; i < 8; i++) v.push_back(lps(kPI, i, t));
      go(v, e0);
      go(v, ep);
      for (int c2 : {0x20, 0x80, 0x9F, 0xA9, 0xBF, 0xC3, 0xE2, 0x0D}) {
        if (p >= 31) break;
        std::string u = t;
        u[size_t(p) + 1] = char(c2);
        v.clear();
        for (int i = 0; i < 8; i++) v.push_back(lps(kPI, i, u));
        go(v, e0);
      }
    }
  });
  r.info("alphabet", "all segment orders of two names with lost blocks; all 256 codes at all positions");
}
