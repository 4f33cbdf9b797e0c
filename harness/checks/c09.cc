#include "common.hh"
using namespace drv;
static const std::vector<std::string> kPaths{"group", "tp", "prog_type", "ta", "is_music", "di", "prog_item_number", "prog_item_started", "has_linkage", "country", "language", "tmc_id", "slc_broadcaster_bits", "ews", "callsign", "callsign_uncertain"};
// a group as bits with a chosen offset word for block 3 (2: C, 3: C')
static Ev bitGroup(int b1, int b2, int b3, int b4, int off3, int damage_mask) {
  Ev e;
  e.kind = 'b';
  const int d[4] = {b1, b2, b3, b4}, off[4] = {0, 1, off3, 4};
  for (int i = 0; i < 4; i++) {
    u32 w = orc::encodeBlock(u16(d[i]), off[i]);
    if (damage_mask & (1 << i)) w ^= 0x0A5A5A0;
    for (int b = 25; b >= 0; b--) e.bits += char('0' + ((w >> b) & 1));
  }
  return e;
}
CHECK(C09) {
  const Project P = fields(kPaths);
  auto env = [](bool rbds, bool known, int pi) {
    Env e;
    e.opt.rbds = rbds;
    e.pi = known ? pi : -1;
    return e;
  };
  auto step = [](Sys& s, const Ev& e, Worker& w) {
    w.transitions++;
    w.tick();
    if (!s.step(e)) {
      w.failPath(s);
      return false;
    }
    w.outcome(hash64(s.last_line));
    return true;
  };
  r.parallel("all PI codes", 256, [&](size_t hi, Worker& w) {
    for (int lo = 0; lo < 256; lo++)
      for (int rbds = 0; rbds < 2; rbds++) {
        const int pi = int(hi) << 8 | lo;
        Sys s(env(rbds, true, pi), P);
        // 1A variant 0 with an ECC that depends on the country code
        if (!step(s, ev(pi, blk2(0, false, 0, lo & 31, hi & 1), 0xCDCD, 0x4142), w)) return;
        if (lo < 16)
          for (int ecc = 0; ecc < 256; ecc++)
            if (!step(s, ev(pi, blk2(1, false, 0), ((lo & 1) << 15) | ecc, 0), w)) return;
        w.traces++;
        w.state(hash64(s.key(), size_t(rbds)));
      }
  });
  // all values of block 2, hex and bit input, RDS and RBDS
  r.parallel("all values of block 2", 1024, [&](size_t it, Worker& w) {
    const bool rbds = it & 1, bits = it & 2;
    Env e = env(rbds, true, kPI);
    e.with_bits = bits;
    Sys s(e, P);
    if (bits) {
      for (int i = 0; i < 2; i++)
        if (!step(s, asBits(ev(kPI, blk2(1, false, 0), 0, 0)), w)) return;
    }
    for (int lo = 0; lo < 256; lo++) {
      const int b2 = int(it >> 2) << 8 | lo;
      if (!bits) {
        for (int m : {0, 1, 4, 8, 12, 13})  // lost: none, 1, 3, 4, 3+4, 1+3+4
          {
            Ev x = ev(m & 1 ? -1 : kPI, b2, m & 4 ? -1 : 0x3001, m & 8 ? -1 : 0x0842);
            if (!step(s, x, w)) return;
            if (m & 1)
              if (!step(s, ev(kPI, b2, 0x1234, 0x0000), w)) return;
          }
      } else {
        // matching and mismatching offset words of block 3, and lost blocks
        for (int off : {2, 3})
          for (int m : {0, 4, 8, 2}) {
            if (m && lo % 8) continue;
            if (!step(s, bitGroup(kPI, b2, kPI, 0x0842, off, m), w)) return;
          }
      }
      w.state(hash64(s.key(), it * 256 + size_t(lo)));
    }
    w.traces++;
  });
  // 1A / 1B: all values of blocks 3 and 4
  r.parallel("all values of 1A/1B", 256, [&](size_t hi, Worker& w) {
    Sys s(env(false, true, kPI), P);
    for (int lo = 0; lo < 256; lo++) {
      const int v = int(hi) << 8 | lo;
      for (auto& e : {ev(kPI, blk2(1, false, lo & 31), v, 0), ev(kPI, blk2(1, false, 0), 0x3009, v), ev(kPI, blk2(1, true, 3), kPI, v), ev(kPI, blk2(1, false, 0), v, -1), ev(kPI, blk2(1, false, 0), -1, v), ev(kPI, blk2(1, true, 0), v, -1)})
        if (!step(s, e, w)) return;
    }
    w.state(hash64(s.key(), hi));
    w.traces++;
  });
  // all extended country codes with every country code
  r.parallel("country table", 16, [&](size_t cc, Worker& w) {
    const int pi = int(cc) << 12 | 0x2F8;
    Sys s(env(false, true, pi), P);
    for (int ecc = 0; ecc < 4096; ecc++)
      if (!step(s, ev(pi, blk2(1, false, 0), ecc, 0), w)) return;
    w.traces++;
    w.state(cc);
  });
  // every value in every variant after every extended country code: variants do not influence each other
  r.parallel("slow labelling codes after one another", 256, [&](size_t ecc, Worker& w) {
    for (int rbds = 0; rbds < 2; rbds++) {
      Sys s(env(rbds, true, kPI), P);
      for (int var = 0; var < 8; var++)
        for (int val : {0, 1, 8, 9, 0x0A, 0x20, 0x27, 0x28, 0x45, 0x7F, 0xA0, 0xE0, 0xFF, 0x309, 0xF42, 0xFFF}) {
          if (!step(s, ev(kPI, blk2(1, false, 0), (var & 1) << 15 | int(ecc), 0x0842), w)) return;
          if (!step(s, ev(kPI, blk2(1, false, 0), (val & 1) << 15 | var << 12 | val, 0), w)) return;
        }
      w.traces++;
      w.state(hash64(s.key(), ecc * 2 + size_t(rbds)));
    }
  });
  // histories: nothing depends on what came before, except the PI rule
  std::vector<Scenario> sc;
  {
    std::vector<Ev> al{ev(kPI, blk2(0, false, 0x1C, 9, true), 0xCDCD, 0x4142), ev(kPI, blk2(0, true, 0x13, 3), kPI, 0x4142), ev(kPI, blk2(15, true, 0x0E, 3), kPI, 0x4142), ev(kPI, blk2(1, false, 0), 0x00E1, 0x0842), ev(kPI, blk2(1, false, 0), 0xB009, 0), ev(kPI, -1, 0x1234, 0xF842), ev(kPI, blk2(15, true, 0x09, 1), -1, 0xF842), ev(-1, blk2(1, false, 0), 0x1123, 0)};
    sc.push_back(sequences("histories", env(false, true, kPI), P, {}, al, r.thorough ? 7 : 6));
    Env eb = env(true, true, 0x1000 + 77);
    eb.with_bits = true;
    std::vector<Ev> ab;
    const int pi = eb.pi;
    for (int off : {2, 3})
      for (int m : {0, 2, 4})
        for (int b2 : {blk2(0, false, 5, 4), blk2(15, true, 0x1C, 7), blk2(0, true, 0x1C, 7)}) ab.push_back(bitGroup(pi, b2, pi, b2, off, m));
    sc.push_back(sequences("bit histories", eb, P, {asBits(ev(pi, blk2(1, false, 0), 0, 0))}, ab, r.thorough ? 4 : 3));
  }
  explore(r, sc);
  everywhere(r, P);
}
