#include "common.hh"
using namespace drv;
namespace {
// packs (label, value) fields into the free-form bits of up to 4 further groups
const int kLen[16] = {3, 3, 5, 5, 5, 8, 8, 8, 8, 11, 16, 16, 16, 16, 0, 0};
struct F { int label, value; };
std::string pack(const std::vector<F>& f) {
  std::string s;
  auto put = [&](int v, int n) { for (int b = n - 1; b >= 0; b--) s += char('0' + ((v >> b) & 1)); };
  for (auto& x : f) {
    put(x.label, 4);
    put(x.value, kLen[x.label]);
  }
  return s;
}
// a message of 1 + ceil groups
std::vector<Ev> message(int pi, int ci, int event, int loc, int extent, bool neg, bool div, const std::string& bits, int force_groups = 0) {
  std::vector<Ev> v;
  v.push_back(grp(pi, 16, ci, 0x8000 | (neg ? 0x4000 : 0) | (extent << 11) | event, loc));
  (void)div;
  int n = int((bits.size() + 27) / 28);
  if (n < 1) n = 1;
  if (force_groups) n = force_groups;
  if (n > 4) n = 4;
  std::string b = bits;
  b.resize(size_t(n) * 28, '0');
  for (int i = 0; i < n; i++) {
    int y = 0, z = 0;
    for (int k = 0; k < 12; k++) y = 2 * y + (b[size_t(i * 28 + k)] - '0');
    for (int k = 12; k < 28; k++) z = 2 * z + (b[size_t(i * 28 + k)] - '0');
    v.push_back(grp(pi, 16, ci, (i == 0 ? 0x4000 : 0) | ((n - 1 - i) << 12) | y, z));
  }
  return v;
}
}  // namespace
CHECK(C13) {
  const Project P = fields({"tmc"});
  Env e0;
  const std::vector<Ev> sys{oda(kPI, 16, 0xCD46, 0x0041)};
  auto step = [](Sys& s, const Ev& e, Worker& w) {
    w.transitions++;
    w.tick();
    if (!s.step(e)) { w.failPath(s); return false; }
    w.outcome(hash64(s.last_line));
    w.state(hash64(s.key()));
    return true;
  };
  auto all = [&](Sys& s, const std::vector<Ev>& v, Worker& w) {
    for (auto& e : v)
      if (!step(s, e, w)) return false;
    w.traces++;
    return true;
  };
  auto quantOk = [](int event, int label, int v) {
    // the zero value of 8-bit quantifiers is not defined by the standard
    (void)event;
    return !(label == 5 && v == 0);
  };
  // every event code
  r.parallel("every event code", 2048, [&](size_t ev_, Worker& w) {
    const int e = int(ev_);
    Sys s(e0, P);
    if (!all(s, sys, w)) return;
    // single group; direction and extent
    for (int ext : {0, 1, 5, 7})
      for (int neg = 0; neg < 2; neg++)
        for (int div = 0; div < 2; div++)
          if (!step(s, grp(kPI, 16, 8 | (e & 7), (div << 15) | (neg << 14) | (ext << 11) | e, (e * 31) & 0xFFFF), w)) return;
    w.sample(s.last_line.substr(0, 300));
    // every quantifier value of the right and of the wrong size, as first and as additional event
    for (int q = 0; q < 32; q++)
      if (!all(s, message(kPI, 1 + q % 6, e, 1000 + q, 2, false, false, pack({{4, q}})), w)) return;
    for (int q = 1; q < 256; q++)
      if (quantOk(e, 5, q) && !all(s, message(kPI, 1 + q % 6, e, 1000 + q, 2, false, false, pack({{5, q}})), w)) return;
    if (!all(s, message(kPI, 3, 101, 1000, 2, false, false, pack({{9, e}, {4, 7}})), w)) return;
    if (!all(s, message(kPI, 4, 101, 1000, 2, false, false, pack({{9, e}, {5, 77}})), w)) return;
    if (!all(s, message(kPI, 5, e, 1000, 2, true, false, pack({{4, 3}, {9, 101}, {4, 9}})), w)) return;
    if (!all(s, message(kPI, 6, e, 1000, 2, true, false, pack({{1, 0}, {1, 2}})), w)) return;
  });
  // three and four events in one message, each with or without a quantifier of its own
  r.parallel("quantifiers of several events", 5 * 5 * 5, [&](size_t it, Worker& w) {
    Sys s(e0, P);
    if (!all(s, sys, w)) return;
    // codes with a 5-bit, an 8-bit and no quantifier
    const int codes[5] = {201, 403, 101, 108, 1913};
    for (int mask = 0; mask < 16; mask++)
      for (int wide = 0; wide < 4; wide++) {
        std::vector<F> f;
        const int ev_[3] = {codes[it % 5], codes[it / 5 % 5], codes[it / 25]};
        if (mask & 1) f.push_back({wide & 1 ? 5 : 4, 7});
        for (int k = 0; k < 3; k++) {
          f.push_back({9, ev_[k]});
          if (mask & (2 << k)) f.push_back({(wide >> (k & 1)) & 1 ? 5 : 4, 9 + k});
        }
        while (f.size() && pack(f).size() > 112) f.pop_back();
        for (int first : {101, 41, 1861})
          if (!all(s, message(kPI, 1 + mask % 6, first, 1000 + mask, 2, mask & 1, false, pack(f)), w)) return;
      }
  });
  // every value of every field
  r.parallel("every field value", 16, [&](size_t lab, Worker& w) {
    const int label = int(lab);
    Sys s(e0, P);
    if (!all(s, sys, w)) return;
    const int n = 1 << kLen[label];
    for (int v = 0; v < n; v += (n > 4096 ? 7 : 1)) {
      if (label == 5 && v == 0) continue;
      if (label == 9 && v == 0) continue;
      if (!all(s, message(kPI, 1 + v % 6, 101, 4321, 3, v & 1, false, pack({{label, v}})), w)) return;
      if (!all(s, message(kPI, 1 + (v + 1) % 6, 401, 4321, 3, v & 1, false, pack({{6, 5}, {label, v}, {3, 9}, {7, 80}, {8, 210}})), w)) return;
      if (v % 64 == 63) { s = Sys(e0, P); if (!all(s, sys, w)) return; }
    }
  });
  // all sequences of fields from a palette, up to the message size
  const std::vector<F> pal{{1, 0}, {1, 1}, {1, 2}, {1, 6}, {1, 7}, {3, 10}, {4, 4}, {5, 130}, {6, 3}, {7, 33}, {8, 234}, {9, 401}, {10, 777}, {2, 9}, {0, 3}, {1, 5}, {11, 1}, {14, 0}, {0, 0}};
  const size_t np = pal.size();
  r.parallel("field sequences", np * np, [&](size_t it, Worker& w) {
    Sys b(e0, P);
    for (auto& e : sys) b.step(e);
    const int deep = r.thorough ? 5 : 4;
    std::vector<F> cur{pal[it / np], pal[it % np]};
    std::function<bool(int)> rec = [&](int d) {
      const std::string bits = pack(cur);
      if (bits.size() > 112) return true;
      for (int ng : {0}) {
        Sys s = b.clone(w.by_replay);
        if (!all(s, message(kPI, 1 + int(bits.size()) % 6, 701, 54321, 4, false, false, bits, ng), w)) return false;
      }
      if (d >= deep) return true;
      for (auto& f : pal) {
        cur.push_back(f);
        const bool ok = rec(d + 1);
        cur.pop_back();
        if (!ok) return false;
      }
      return true;
    };
    rec(2);
  });
  // tuning and system information
  r.parallel("system and tuning information", 512, [&](size_t it, Worker& w) {
    Sys s(e0, P);
    for (int k = 0; k < 128; k++) {
      const int v = int(it) * 128 + k;
      if (!step(s, oda(kPI, 16, k & 1 ? 0xCD47 : 0xCD46, v), w)) return;
      if (k % 32 == 0) {
        for (int var = 0; var < 16; var++)
          for (auto p : {std::pair<int, int>{v, v ^ 0x5555}, {0, v}, {v, 0}, {v, v}, {0xCDCD, v}})
            if (!step(s, grp(kPI, 16, 16 | var, p.first, p.second), w)) return;
        if (!step(s, grp(kPI, 16, 0, v, v ^ 0xABCD), w)) return;
        if (!all(s, message(kPI, 1, 101, 1000, 2, false, false, pack({{6, 1}})), w)) return;
      }
    }
  });
  // multi-group assembly
  std::vector<Scenario> sc;
  {
    auto m1 = message(kPI, 1, 101, 1111, 2, false, false, pack({{6, 1}, {9, 401}, {6, 2}, {7, 10}}), 3);
    auto m2 = message(kPI, 2, 701, 2222, 3, true, false, pack({{6, 7}, {9, 1}, {6, 9}, {8, 20}}), 3);
    std::vector<Ev> al = m1;
    append(al, m2);
    al.push_back(grp(kPI, 16, 9, 0x0000 | 101, 777));
    al.push_back(lose(m1[0], 2));
    sc.push_back(sequences("parts of two messages", e0, P, sys, al, r.thorough ? 7 : 6));
    auto s1 = message(kPI, 1, 101, 1111, 2, false, false, pack({{6, 1}}), 1);
    auto s3 = message(kPI, 1, 108, 3333, 1, false, false, pack({{6, 4}, {9, 402}}), 2);
    std::vector<Ev> a2 = s1;
    append(a2, s3);
    append(a2, message(kPI, 4, 5, 4444, 1, false, false, pack({{3, 4}}), 1));
    a2.push_back(oda(kPI, 16, 0xCD46, 0x0081));
    a2.push_back(oda(kPI, 16, 0xCD46, 0x0000));
    a2.push_back(grp(kPI, 16, 0, 0x0021, 0x0800));
    sc.push_back(sequences("messages with the same continuity index and service changes", e0, P, {}, a2, r.thorough ? 6 : 5));
  }
  // every continuity index, 0 and 7 included: parts of two messages with the same one, any order
  for (int ci = 0; ci < 8; ci++) {
    auto m1 = message(kPI, ci, 101, 1111, 2, false, false, pack({{6, 1}, {9, 401}, {6, 2}, {7, 10}}), 3);
    auto m2 = message(kPI, ci, 701, 2222, 3, true, false, pack({{6, 7}}), 1);
    std::vector<Ev> al = m1;
    append(al, m2);
    al.push_back(message(kPI, (ci + 1) % 8, 701, 2222, 3, true, false, pack({{6, 7}}), 1)[1]);
    sc.push_back(sequences("continuity index " + std::to_string(ci), e0, P, sys, al, r.thorough ? 7 : 5));
  }
  // the encryption administration group and other groups of the service in mid-message
  for (int enc = 0; enc < 2; enc++)
    for (int n : {1, 3}) {
      auto a = message(kPI, 3, 101, 1111, 2, false, false, pack({{6, 1}, {9, 401}, {6, 2}, {7, 10}}), n), b = message(kPI, 4, 701, 2222, 2, false, false, pack({{6, 1}}), n);
      std::vector<Ev> base{grp(kPI, 16, 0, (5 << 5) | 3, 1 << 10)};
      for (auto* m : {&a, &b, &a}) append(base, *m);
      DevOps o;
      for (int ltn : {0, 1, 2, 63})
        for (int sid : {(5 << 5) | 3, (6 << 5) | 31, 0}) o.inserts.push_back(grp(kPI, 16, 0, sid, ltn << 10 | (ltn == 63 ? 0x3FF : 0)));
      for (int m : {0x0041, 0x0001, 0x4183, 0x0081}) o.inserts.push_back(oda(kPI, 16, 0xCD46, m));
      for (int v : {0x14, 0x15, 0x16, 0x18, 0x19}) o.inserts.push_back(grp(kPI, 16, v, 0x4142, 0x4344));
      sc.push_back(deviations(enc ? "service groups in encrypted messages" : "service groups in messages", e0, P, {oda(kPI, 16, 0xCD46, enc ? 0x0001 : 0x0041)}, base, o, r.thorough || n == 1 ? 2 : 1));
    }
  for (int n = 1; n <= 4; n++) {
    std::vector<F> f;
    while (int(pack(f).size()) + 12 <= n * 28) f.push_back({6, int(f.size()) + 1});
    auto a = message(kPI, 3, 101, 1111, 2, false, false, pack(f), n), b = message(kPI, 4, 701, 2222, 2, false, false, pack(f), n), a2 = message(kPI, 3, 401, 3333, 2, true, false, pack({{3, 5}}), n);
    std::vector<Ev> base;
    for (auto* m : {&a, &a, &b, &a2, &b}) append(base, *m);
    DevOps o;
    const int k = n + 1;
    o.jumps = {0, k, 2 * k, 3 * k};
    o.inserts = {b[0], a2[0], a.back(), b.back(), grp(kPI, 16, 9, 101, 777), ps(kPI, 0, "AB")};
    sc.push_back(deviations("message of " + std::to_string(k) + " groups", e0, P, sys, base, o, r.thorough || n < 3 ? 2 : 1));
    sc.back().max_depth = 9 * k;
  }
  explore(r, sc);
  everywhere(r, P);
  longRun(r, e0, P);
  r.info("excluded", "value 0 of 8-bit quantifiers and event code 0 as an additional event (undefined in the standard)");
}
