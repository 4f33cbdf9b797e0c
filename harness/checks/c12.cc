#include "common.hh"
using namespace drv;
CHECK(C12) {
  const Project P = [](const json* l) {
    json r = json::object();
    if (!l) return r;
    for (const char* k : {"rft", "open_data_app", "stream", "group"})
      if (l->contains(k)) r[k] = (*l)[k];
    if (l->contains("group") && (*l)["group"] == "C") {
      r = *l;
      r.erase("bler");
      r.erase("debug");
    }
    return r;
  };
  const Project PA = allFields();
  Env e0, es;
  es.opt.streams = true;
  auto step = [](Sys& s, const Ev& e, Worker& w) {
    w.transitions++;
    w.tick();
    if (!s.step(e)) { w.failPath(s); return false; }
    w.outcome(hash64(s.last_line));
    w.state(hash64(s.key()));
    return true;
  };
  auto d5 = [](int seed) { std::vector<int> v; for (int i = 0; i < 5; i++) v.push_back((seed * 37 + i * 91 + 5) & 255); return v; };
  // every file size 0..130, then sizes across the whole range at segment boundaries
  std::vector<int> sizes;
  for (int i = 0; i <= 130; i++) sizes.push_back(i);
  for (int k : {255, 256, 257, 1000, 4095, 4096, 5000}) for (int d : {-1, 0, 1}) sizes.push_back(k + d);
  if (r.thorough) for (int k : {32767, 65535, 65540, 131072, 163840, 163841, 262143}) sizes.push_back(k);
  r.parallel("file sizes", sizes.size(), [&](size_t it, Worker& w) {
    const int size = sizes[it], pipe = int(it % 16), st = 1 + int(it % 3);
    const int n = std::min((size + 4) / 5, 32768);
    for (int rev = 0; rev < 2; rev++) {
      Sys s(es, P);
      if (!step(s, rftInfo(st, pipe, 0xFF7F, size, 3, int(it % 64), it & 1), w)) return;
      for (int tog = 0; tog < 2; tog++)
        for (int i = 0; i < n + 1; i++) {
          const int a = rev ? n - i : i;
          if (a < 0) continue;
          w.transitions++;
          w.tick();
          s.path.reserve(size_t(n) * 3);
          if (!s.step(rftSeg(st, pipe, tog, a & 0x7FFF, d5(a + tog * 7)))) { w.failPath(s); return; }
        }
      w.traces++;
      w.state(uint64_t(size * 2 + rev));
    }
  });
  // big files: all but the last segment, backwards, then the last one; and the next file after it
  std::vector<int> big;
  for (int k : {5120, 10240, 20480, 40960, 65536, 81920, 131072, 160000, 163840})
    for (int d : {-6, -5, -4, -1, 0, 1, 4, 5})
      if (k + d <= 163840) big.push_back(k + d);
  r.parallel("sizes of big files", big.size(), [&](size_t it, Worker& w) {
    const int size = big[it], pipe = int(it % 16), st = 1 + int(it % 3);
    const int n = (size + 4) / 5;
    Sys s(es, P);
    s.path.reserve(size_t(n) * 2 + 10);
    auto go = [&](const Ev& e) {
      w.transitions++;
      w.tick();
      if (!s.step(e)) { w.failPath(s); return false; }
      return true;
    };
    if (!go(rftInfo(st, pipe, 0xFF7F, size, 3, int(it % 64), it & 1))) return;
    for (int tog = 0; tog < 2; tog++) {
      for (int a = n - 2; a >= 0; a--)
        if (!go(rftSeg(st, pipe, tog, a, d5(a + tog * 7)))) return;
      if (!go(rftSeg(st, pipe, tog, n - 1, d5(n + tog)))) return;
      w.outcome(hash64(s.last_line));
      if (n < 32768 && !go(rftSeg(st, pipe, tog, n, d5(n + tog)))) return;
      if (!go(rftSeg(st, pipe, tog, 0, d5(n + tog)))) return;
      if (!r.thorough && size > 90000) break;
    }
    w.traces++;
    w.state(hash64("big", uint64_t(size)));
  });
  // all header bytes
  r.parallel("all function headers", 256, [&](size_t b0, Worker& w) {
    Sys b(es, P);
    for (auto& e : {rftInfo(1, 3, 0xFF7F, 12), rftInfo(1, 2, 0x0BCB, 300)}) b.step(e);
    for (int b1 = 0; b1 < 256; b1++)
      for (auto& v : {std::array<int, 3>{0xFF7F, 0x0000, 0x000A}, {0x0BCB, 0x1234, 0x5678}, {0x4BD7, 0x9234, 0xF678}, {0x0105, 0x10FF, 0xFFFF}}) {
        Sys s = b.clone(w.by_replay);
        if (!step(s, c(1 + b1 % 3, int(b0) << 8 | b1, v[0], v[1], v[2]), w)) return;
        if (!step(s, rftSeg(1, 3, 0, 0, d5(1)), w)) return;
        w.traces++;
      }
  });
  // assignment / file information fields
  r.parallel("file information fields", 65536 / 64, [&](size_t it, Worker& w) {
    Sys s(es, P);
    for (int k = 0; k < 64; k++) {
      const int v = int(it) * 64 + k;
      if (!step(s, c(1, 0x8000 | (v & 15), 0xFF7F, v, 0x0102), w)) return;
      if (v % 7 == 0 && !step(s, c(2, 0x8000 | (v & 255), v, 0x0000, 0x1234), w)) return;
      if (v % 16 == 0) s = Sys(es, P);
    }
    w.traces++;
  });
  std::vector<Scenario> sc;
  // every order, repetition and loss of the segments of small files, with toggles
  {
    for (int n : {1, 2, 3}) {
      std::vector<Ev> al;
      for (int i = 0; i < n; i++) al.push_back(rftSeg(1, 5, 0, i, d5(i)));
      for (int i = 0; i < n; i++) al.push_back(rftSeg(1, 5, 1, i, d5(i + 50)));
      al.push_back(rftSeg(1, 5, 0, n, d5(9)));
      al.push_back(rftInfo(1, 5, 0xFF7F, n * 5 - 2));
      al.push_back(rftInfo(1, 5, 0xFF7F, n * 5 + 1));
      al.push_back(rftInfo(1, 5, 0xFF7F, 0));
      al.push_back(lose(rftSeg(1, 5, 0, 0, d5(0)), 2));
      sc.push_back(sequences("segment histories, file of " + std::to_string(n), es, P, {rftInfo(1, 5, 0xFF7F, n * 5 - 2)}, al, r.thorough ? 6 : 5));
    }
    // the file information repeated with another version, number or CRC flag, and checksums of all kinds, in mid-file
    for (int crc0 = 0; crc0 < 2; crc0++) {
      std::vector<Ev> ac;
      for (int i = 0; i < 2; i++) ac.push_back(rftSeg(1, 5, 0, i, d5(i)));
      ac.push_back(rftInfo(1, 5, 0xFF7F, 8, 0, 0, crc0 == 0));
      ac.push_back(rftInfo(1, 5, 0xFF7F, 8, 0, 0, crc0 != 0));
      ac.push_back(rftInfo(1, 5, 0xFF7F, 8, 5, 9, crc0 != 0));
      for (int mode : {0, 1, 7}) ac.push_back(c(1, 0x8005, 0xFF7F, 0x1000 | (mode << 9) | (mode ? 3 : 0), 0xBEEF));
      ac.push_back(c(1, 0x8005, 0xFF7F, 0x11FF, 0x0000));
      ac.push_back(c(1, 0x8005, 0x0BCB, 0x2345, 0x0000));
      sc.push_back(sequences("checksums and information in mid-file", es, P, {rftInfo(1, 5, 0xFF7F, 8, 0, 0, crc0)}, ac, r.thorough ? 6 : 5));
    }
    std::vector<Ev> al;
    for (int i = 0; i < 4; i++) al.push_back(rftSeg(1, 5, 0, i, d5(i)));
    al.push_back(rftSeg(1, 5, 1, 2, d5(77)));
    sc.push_back(sequences("segment histories, file of 4", es, P, {rftInfo(1, 5, 0xFF7F, 18)}, al, r.thorough ? 9 : 7));
    // two pipes and stream 0 groups
    std::vector<Ev> a2;
    for (int i = 0; i < 2; i++) a2.push_back(rftSeg(1, 0, 0, i, d5(i))), a2.push_back(rftSeg(2, 15, 0, i, d5(i + 20))), a2.push_back(rftSeg(3, 0, 1, i, d5(i + 40)));
    a2.push_back(ps(kPI, 0, "ABCDEFGH")), a2.push_back(ps(kPI, 1, "ABCDEFGH")), a2.push_back(ps(0x1234, 1, "ABCDEFGH"));
    sc.push_back(sequences("two pipes and stream 0", es, PA, {rftInfo(1, 0, 0xFF7F, 8), rftInfo(2, 15, 0xFF7F, 10)}, a2, r.thorough ? 7 : 5));
    // upper streams do not disturb stream 0
    std::vector<Ev> a3{ps(kPI, 0, "ABCDEFGH"), ps(kPI, 1, "ABCDEFGH"), ps(kPI, 2, "ABCDEFGH"), ps(kPI, 3, "ABCDEFGH"), c(1, 0x1234, 0x0000, 0x1111, 0x2222), c(2, 0x1234, blk2(0, false, 0), 0xCDCD, 0x5A5A), lose(c(3, 0x1234, 0x0000, 0x1111, 0x2222), 1), c(3, kPI, blk2(3, false, 22), 0, 0x4BD7), grp(kPI, 22, 0, 0, 0), lose(ps(kPI, 1, "ABCDEFGH"), 0)};
    sc.push_back(sequences("stream 0 among type C groups", es, PA, {}, a3, r.thorough ? 6 : 5));
    sc.push_back(sequences("stream 0 among type C groups, unlabelled", e0, PA, {}, a3, r.thorough ? 5 : 4));
  }
  // 16 pipes in rotation
  {
    std::vector<Ev> base;
    for (int p = 0; p < 16; p++) base.push_back(rftInfo(1 + p % 3, p, 0xFF7F, 6 + p));
    for (int i = 0; i < 5; i++)
      for (int p = 0; p < 16; p++) base.push_back(rftSeg(1 + (p + i) % 3, p, 0, i, d5(i * 16 + p)));
    DevOps o;
    o.lose_blocks = {0, 3};
    o.jumps = {16};
    o.inserts = {rftSeg(1, 3, 1, 0, d5(1)), rftInfo(1, 4, 0xFF7F, 3), rftSeg(1, 3, 0, 100, d5(1))};
    sc.push_back(deviations("16 pipes in rotation", es, P, {}, base, o, 1));
    sc.back().max_depth = 120;
  }
  explore(r, sc);
  everywhere(r, P);
  longRun(r, es, P);
}
