#include "cli.hh"
#include "common.hh"
using namespace drv;
namespace {
std::string wordBits(u32 w, int n = 26) {
  std::string s;
  for (int b = n - 1; b >= 0; b--) s += char('0' + ((w >> b) & 1));
  return s;
}
Ev bitsEv(const std::string& b, int stream = 0) {
  Ev e;
  e.kind = 'b';
  e.bits = b;
  e.g.stream = stream;
  return e;
}
int offOf(int pos) { return pos % 4 == 3 ? 4 : pos % 4; }
std::string good(int pos, int d = 0) { return wordBits(orc::encodeBlock(u16(0x2A51 + 0x1357 * pos + d), offOf(pos))); }
std::string bad(int pos) { return wordBits(orc::encodeBlock(u16(0x2A51 + 0x1357 * pos), offOf(pos)) ^ 0x0A5A5A0); }
std::string onebit(int pos) { return wordBits(orc::encodeBlock(u16(0x2A51 + 0x1357 * pos), offOf(pos)) ^ 0x0004000); }
}  // namespace
CHECK(C02) {
  Env e0;
  e0.pi = -1;
  e0.with_bits = true;
  e0.opt.hex_out = true;
  const Project P = allFields();
  Env nofec = e0;
  nofec.opt.fec = false;
  std::vector<Scenario> sc;
  // 1. acquisition and framing: every history of blocks of a transmitter with faults
  for (int kind = 0; kind < 2; kind++) {
    Scenario s;
    s.name = "block histories with faults";
    s.env = kind ? nofec : e0;
    s.project = P;
    s.max_depth = r.thorough ? 9 : 7;
    s.next = [](int pos, int depth) {
      std::vector<Choice> c;
      c.push_back({{bitsEv(good(pos))}, 0, pos + 1});
      c.push_back({{bitsEv(bad(pos))}, 0, pos + 1});
      c.push_back({{bitsEv(onebit(pos))}, 0, pos + 1});
      c.push_back({{bitsEv(good(pos).substr(1))}, 0, pos + 1});        // a bit lost
      c.push_back({{bitsEv("1" + good(pos))}, 0, pos + 1});            // a bit inserted
      c.push_back({{bitsEv(good(pos + 1))}, 0, pos + 2});              // a block skipped
      if (depth > 3) c.push_back({{bitsEv("0110100")}, 0, pos});        // part of a block
      return c;
    };
    sc.push_back(s);
  }
  // the same after synchronisation, with deviations: faults of any kind at any two points
  {
    Scenario s;
    s.name = "two faults in a synchronised stream";
    s.env = e0;
    s.project = P;
    s.budget = r.thorough ? 3 : 2;
    s.max_depth = 26;
    s.next = [](int pos, int) {
      std::vector<Choice> c;
      c.push_back({{bitsEv(good(pos))}, 0, pos + 1});
      c.push_back({{bitsEv(bad(pos))}, 1, pos + 1});
      c.push_back({{bitsEv(good(pos).substr(1))}, 1, pos + 1});
      c.push_back({{bitsEv("1" + good(pos))}, 1, pos + 1});
      c.push_back({{bitsEv(good(pos + 1))}, 1, pos + 2});
      c.push_back({{bitsEv(good(pos, 7) + good(pos))}, 1, pos + 1});
      c.push_back({{bitsEv(good(pos).substr(0, 13)), evFlush()}, 1, pos + 1});
      return c;
    };
    sc.push_back(s);
  }
  // 2. rhythm: every pattern of up to 5 detected offset words at block distances 1..8 (and off-rhythm
  // distances), right and wrong offsets, separated by noise
  {
    Scenario s;
    s.name = "rhythm of offset words";
    s.env = e0;
    s.project = P;
    s.max_depth = r.thorough ? 6 : 5;
    s.next = [](int pos, int depth) {
      std::vector<Choice> c;
      // pos: rhythm position of the previous pulse
      auto noise = [](int bits) {
        std::string n;
        for (int i = 0; i < bits; i++) n += "001011100101"[i % 12];
        return n;
      };
      for (int k : {1, 2, 5, 6, 7})
        for (int rot : {0, 1}) c.push_back({{bitsEv(noise(26 * (k - 1)) + good((pos + k + rot) % 4, k))}, 0, (pos + k + rot) % 4});
      if (depth > 0) {
        c.push_back({{bitsEv(noise(1) + good((pos + 1) % 4))}, 0, (pos + 1) % 4});
        c.push_back({{bitsEv(noise(25) + good((pos + 2) % 4))}, 0, (pos + 2) % 4});
        // a C' offset
        c.push_back({{bitsEv(noise(26 * ((2 - pos + 3) % 4)) + wordBits(orc::encodeBlock(0x4321, 3)))}, 0, 2});
      }
      return c;
    };
    sc.push_back(s);
  }
  // three offset words of any kind at any distance of 1..8 blocks +-1 bit
  explore(r, sc);
  r.parallel("all triples of offset words", 125, [&](size_t it, Worker& w) {
    const int o[3] = {int(it / 25), int(it / 5 % 5), int(it % 5)};
    for (int k1 = 1; k1 <= 8; k1++)
      for (int j1 = -1; j1 <= 1; j1++)
        for (int k2 = 1; k2 <= 8; k2++)
          for (int j2 = -1; j2 <= 1; j2++) {
            const int d1 = 26 * k1 + j1 - 26, d2 = 26 * k2 + j2 - 26;
            if (d1 < 0 || d2 < 0) continue;
            Sys s(e0, P);
            std::string b = wordBits(orc::encodeBlock(0x7301, o[0]));
            for (int i = 0; i < d1; i++) b += "011010010111"[i % 12];
            b += wordBits(orc::encodeBlock(0x1F02, o[1]));
            for (int i = 0; i < d2; i++) b += "011010010111"[i % 12];
            b += wordBits(orc::encodeBlock(0x5503, o[2]));
            // what follows shows whether and how it synchronised
            const int p = o[2] <= 1 ? o[2] : o[2] <= 3 ? 2 : 3;
            for (int i = 1; i <= 5; i++) b += i == 2 ? bad(p + i) : good(p + i);
            w.transitions += b.size();
            w.tick();
            w.traces++;
            if (!s.step(bitsEv(b)) || !s.step(evFlush())) {
              w.failPath(s);
              return;
            }
            w.outcome(hash64(s.last_line));
            w.state(hash64(s.key()));
          }
  });
  // 3. loss of synchronisation: bad^a good^b bad^c, then recovery at another phase
  r.parallel("loss and recovery", 53 * 8, [&](size_t it, Worker& w) {
    const int a = int(it / 8);
    static const int bs[8] = {0, 1, 2, 5, 8, 9, 20, 49};
    const int b = bs[it % 8];
    Sys base(e0, P);
    int pos = 0;
    auto run = [&](Sys& s, const std::string& bits) {
      w.transitions += bits.size();
      w.tick();
      if (!s.step(bitsEv(bits))) { w.failPath(s); return false; }
      w.outcome(hash64(s.last_line));
      w.state(hash64(s.key()));
      return true;
    };
    for (int i = 0; i < 8; i++) if (!run(base, good(pos++))) return;
    for (int i = 0; i < a; i++) if (!run(base, bad(pos++))) return;
    for (int i = 0; i < b; i++) if (!run(base, good(pos++))) return;
    for (int c = 0; c <= 53; c++) {
      if (c) {
        if (!run(base, bad(pos++))) return;
      }
      if (!r.thorough && c > 3 && c < 30 && c % 5) continue;
      for (int slip : {0, 1, 13}) {
        if (slip == 13 && c % 4) continue;
        Sys s = base.clone(w.by_replay);
        std::string x;
        for (int i = 0; i < slip; i++) x += "10"[i & 1];
        if (slip && !run(s, x)) return;
        for (int i = 0; i < 7; i++)
          if (!run(s, good(pos + i))) return;
        if (!s.step(evFlush())) { w.failPath(s); return; }
        w.traces++;
      }
    }
  });
  // periodic error patterns: every pattern of 8 blocks, repeated
  r.parallel("periodic errors", 256, [&](size_t pat, Worker& w) {
    Sys s(e0, P);
    int pos = 0;
    for (int i = 0; i < 8; i++) s.step(bitsEv(good(pos++)));
    for (int i = 0; i < 96; i++) {
      w.transitions += 26;
      w.tick();
      if (!s.step(bitsEv((pat >> (i % 8)) & 1 ? bad(pos) : good(pos)))) { w.failPath(s); return; }
      pos++;
      w.state(hash64(s.key()));
    }
    for (int i = 0; i < 8; i++)
      if (!s.step(bitsEv(good(pos++)))) { w.failPath(s); return; }
    w.traces++;
  });
  // 4. any starting phase and garbage, every cut point, all streams
  r.parallel("starting phases and ends of input", 120 * 4, [&](size_t it, Worker& w) {
    const int skip = int(it / 4), kind = int(it % 4);
    std::string b;
    for (int i = 0; i < skip; i++) b += kind == 0 ? '0' : kind == 1 ? '1' : kind == 2 ? "01"[i & 1] : good(i / 26)[size_t(i % 26)];
    std::string g;
    for (int i = 0; i < 10; i++) g += good(i + skip);
    b += g.substr(size_t(kind == 3 ? skip % 26 : 0));
    const int stream = kind == 2 ? 1 + skip % 3 : 0;
    Sys s(e0, P);
    for (size_t i = 0; i < b.size(); i++) {
      w.transitions++;
      w.tick();
      if (!s.step(bitsEv(b.substr(i, 1), stream))) { w.failPath(s); return; }
      w.state(hash64(s.key()));
      if (i + 110 < b.size() && !r.thorough) continue;
      Sys c = s.clone(w.by_replay);
      if (!c.step(evFlush())) { w.failPath(c); return; }
      w.traces++;
      w.outcome(hash64(c.last_line));
    }
  });
  // 5. long streams with outages and slips at ever other bit positions (past 16 and 20 bit counters)
  r.parallel("long streams", 8, [&](size_t it, Worker& w) {
    Sys s(it & 1 ? nofec : e0, P);
    const size_t total = r.thorough ? 20000000 : 1200000;
    size_t bits = 0;
    int pos = 0;
    for (size_t round = 0; bits < total; round++) {
      std::string b;
      const int run = it < 2 ? 3000 : int(20 + round * (7 + it) % 90), outage = it < 4 ? int(round % 64) : 70;
      for (int i = 0; i < run; i++, pos++) b += i % 23 == 5 ? onebit(pos) : i % 17 == 9 ? bad(pos) : good(pos);
      for (int i = 0; i < outage; i++, pos++) b += bad(pos);
      for (size_t i = 0; i < round % 27; i++) b += "1001110"[i % 7];
      if (!s.step(bitsEv(b))) { w.failPath(s); return; }
      bits += b.size();
      w.transitions += b.size();
      w.tick();
      w.state(hash64(s.key()));
    }
    if (!s.step(evFlush())) { w.failPath(s); return; }
    w.traces++;
  });
  // 6. the command line program: bits cut anywhere give what the receiver gives, to the last block
  r.parallel("bits through the command line, cut anywhere", 26 * 8, [&](size_t it, Worker& w) {
    std::string b;
    const int n = 9;
    for (int i = 0; i < n; i++) b += it % 3 == 1 && i == 5 ? onebit(i) : it % 3 == 2 && i == 6 ? bad(i) : good(i);
    b.resize(size_t(n) * 26 - it % (26 * 8));
    for (int form = 0; form < 4; form++) {
      ImplOpt o;
      o.hex_out = form & 1;
      o.fec = !(form & 2);
      std::vector<std::string> a{"-b"};
      if (o.hex_out) a.push_back("-x");
      if (!o.fec) a.push_back("--no-fec");
      auto m = makeImpl(o, -1);
      for (char c : b) m->bit(c == '1', 0);
      m->flush();
      const std::string want = m->take();
      const auto got = runCli(a, b);
      w.transitions += b.size();
      w.traces++;
      w.tick();
      w.outcome(hash64(want));
      w.state(hash64(want, it));
      if (got.status || got.out != want) return w.fail("the program's output for these bits is not what the receiver gives for them: " + got.out + " instead of " + want, cliReplay(a, b, "compared with the receiver fed the same bits and flushed"));
    }
  });
}
