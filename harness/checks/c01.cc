#include "common.hh"
using namespace drv;
namespace {
// expected data for a word at a block position, by brute force over all error patterns
struct Expect {
  // [fec][position]: syndrome-indexed error pattern, or -1
  std::array<std::array<std::vector<int>, 4>, 2> err;
  std::array<u32, 1 << 13> lo{}, hi{};
  Expect() {
    for (u32 i = 0; i < (1 << 13); i++) {
      lo[i] = rem(i);
      hi[i] = rem(i << 13);
    }
    const u32 off[5] = {0x0FC, 0x198, 0x168, 0x350, 0x1B4};
    for (int f = 0; f < 2; f++)
      for (int p = 0; p < 4; p++) {
        auto& e = err[size_t(f)][size_t(p)];
        e.assign(1024, -1);
        const u32 o = off[p == 3 ? 4 : p];
        if (f) {
          for (int s = 25; s >= 0; s--) e[o ^ rem((3u << s) & 0x3FFFFFF)] = int((3u << s) & 0x3FFFFFF);
          for (int s = 25; s >= 0; s--) e[o ^ rem(1u << s)] = int(1u << s);
        }
        e[o] = 0;
        if (p == 2) e[off[3]] = 0;
      }
  }
  static u32 rem(u32 w) {
    for (int b = 25; b >= 10; b--)
      if (w & (1u << b)) w ^= 0x5B9u << (b - 10);
    return w;
  }
  u32 syn(u32 w) const { return lo[w & 0x1FFF] ^ hi[(w >> 13) & 0x1FFF]; }
  int data(u32 w, int pos, bool fec) const {
    const int e = err[fec][size_t(pos)][syn(w)];
    return e < 0 ? -1 : int((w ^ u32(e)) >> 10);
  }
};
const Expect& X() {
  static const Expect x;
  return x;
}
std::string wordBits(u32 w) {
  std::string s;
  for (int b = 25; b >= 0; b--) s += char('0' + ((w >> b) & 1));
  return s;
}
}  // namespace
CHECK(C01) {
  (void)X();
  Env envs[2];
  for (int f = 0; f < 2; f++) {
    envs[f].pi = -1;
    envs[f].opt.fec = f;
    envs[f].opt.hex_out = true;
    envs[f].with_bits = true;
  }
  const u32 clean[4] = {orc::encodeBlock(0x1111, 0), orc::encodeBlock(0x2222, 1), orc::encodeBlock(0x3333, 2), orc::encodeBlock(0x4444, 4)};
  struct Rx {
    std::unique_ptr<Impl> i;
    bool fec;
    const u32* clean;
    std::string last;
    Rx(const Env& e, const u32* c) : i(makeImpl(e.opt, e.pi)), fec(e.opt.fec), clean(c) {
      for (int k = 0; k < 3; k++) group(clean);
      (void)i->take();
    }
    void group(const u32* w) {
      for (int k = 0; k < 4; k++)
        for (int b = 25; b >= 0; b--) i->bit((w[k] >> b) & 1, 0);
    }
  };
  const Project none = allFields();
  // tests four words, one per position, in one group followed by a clean one
  auto test = [&](Rx& rx, const u32* w4, Worker& wk) {
    wk.transitions += 4;
    wk.evals += 4;
    G g;
    for (int k = 0; k < 4; k++) {
      const int d = X().data(w4[k], k, rx.fec);
      if (d >= 0) {
        g.has[size_t(k)] = true;
        g.b[size_t(k)] = u16(d);
      }
    }
    rx.group(w4);
    const std::string got = rx.i->take();
    rx.last = g.empty() ? "" : orc::hexLine(g) + "\n";
    bool ok = got == rx.last;
    rx.group(rx.clean);
    const std::string g2 = rx.i->take();
    if (ok && g2 != "1111 2222 3333 4444\n") ok = false;
    if (!ok) {
      std::string rep = envs[rx.fec].text() + "\n";
      std::string bits;
      for (int k = 0; k < 3; k++)
        for (int b = 0; b < 4; b++) bits += wordBits(rx.clean[b]);
      for (int b = 0; b < 4; b++) bits += wordBits(w4[b]);
      for (int b = 0; b < 4; b++) bits += wordBits(rx.clean[b]);
      rep += "b 0 " + bits + "\n";
      // replay before report
      Rx f(envs[rx.fec], rx.clean);
      f.group(w4);
      const std::string again = f.i->take();
      if (again == got || again != rx.last)
        wk.fail("expected '" + rx.last + "' but got '" + got + "' (then '" + g2 + "')", rep);
      else
        wk.fail("in a longer history: expected '" + rx.last + "' but got '" + got + "' (then '" + g2 + "')", rep);
      return false;
    }
    return true;
  };
  // 1. every data word, intact, with each offset word at each position
  r.parallel("every intact block", 512, [&](size_t it, Worker& wk) {
    Rx rx(envs[it & 1], clean);
    for (int k = 0; k < 256; k++) {
      const u16 d = u16((it >> 1) * 256 + size_t(k));
      for (int rot = 0; rot < 5; rot++) {
        u32 w[4];
        for (int p = 0; p < 4; p++) w[p] = orc::encodeBlock(u16(d + 977 * p), (p + rot) % 5);
        wk.tick();
        if (!test(rx, w, wk)) return;
      }
      const u32 w[4] = {orc::encodeBlock(d, 0), orc::encodeBlock(d, 1), orc::encodeBlock(d, d & 1 ? 3 : 2), orc::encodeBlock(d, 4)};
      if (!test(rx, w, wk)) return;
      wk.state(it << 32 | d);
    }
    wk.traces++;
    if (it < 2) wk.sample("all intact blocks of data word page " + std::to_string(it >> 1) + " => last group " + rx.last);
  });
  // 2. every burst of one and two bits (and three, four, to be rejected) over every data word
  r.parallel("every burst over every data word", 512, [&](size_t it, Worker& wk) {
    Rx rx(envs[it & 1], clean);
    for (int k = 0; k < 256; k++) {
      const u16 d = u16((it >> 1) * 256 + size_t(k));
      wk.tick();
      for (u32 pat : {1u, 3u, 5u, 7u, 9u, 15u, 0x15u}) {
        if (pat > 3 && (k & 7) != (it & 7) && !r.thorough) continue;
        for (int s = 0; s < 26; s++) {
          const u32 e = (pat << s) & 0x3FFFFFF;
          const u32 w[4] = {orc::encodeBlock(d, 0) ^ e, orc::encodeBlock(u16(d ^ 0x5A5A), 1) ^ e, orc::encodeBlock(u16(d + 1), (k & 1) ? 2 : 3) ^ e, orc::encodeBlock(u16(~d), 4) ^ e};
          if (!test(rx, w, wk)) return;
        }
      }
      wk.state(1ull << 60 | it << 32 | d);
    }
    wk.traces++;
  });
  // 3. every syndrome over many data words: all 2^10 checkwords
  r.parallel("every checkword", 2048, [&](size_t it, Worker& wk) {
    Rx rx(envs[it & 1], clean);
    const u32 chk = u32(it >> 1);
    for (u32 k = 0; k < (r.thorough ? 16384u : 512u); k++) {
      // single bits, pairs of bits, and a sweep
      const u16 d = k < 16 ? u16(1u << k) : k < 256 ? u16((1u << (k & 15)) | (1u << (k >> 4))) : u16(k * 0x9E37 + 1);
      u32 w[4];
      for (int p = 0; p < 4; p++) w[p] = (u32(d) << 10) | ((chk + u32(p) * 255) & 1023);
      if ((k & 15) == 0) wk.tick();
      if (!test(rx, w, wk)) return;
    }
    wk.state(2ull << 60 | it);
    wk.traces++;
  });
  // 4. thorough: all 2^26 words at all four positions
  if (r.thorough)
    r.parallel("all 2^26 words at every position", 2048, [&](size_t it, Worker& wk) {
      Rx rx(envs[it & 1], clean);
      for (u32 k = 0; k < 65536; k++) {
        const u32 v = u32(it >> 1) << 16 | k;
        const u32 w[4] = {v, v, v, v};
        if ((k & 255) == 0) wk.tick();
        if (!test(rx, w, wk)) return;
      }
      wk.state(3ull << 60 | it);
      wk.traces++;
    });
  // 5. lockstep with the synchroniser model: consecutive damaged groups, JSON not involved
  {
    std::vector<Scenario> sc;
    auto blk = [](u16 d, int off, u32 e) { Ev x; x.kind = 'b'; x.bits = wordBits(orc::encodeBlock(d, off) ^ e); return x; };
    for (int f = 0; f < 2; f++) {
      Scenario s;
      s.name = "sequences of damaged blocks";
      s.env = envs[f];
      s.project = none;
      for (int k = 0; k < 8; k++) s.prelude.push_back(blk(u16(0x1000 + k), k % 4 == 3 ? 4 : k % 4, 0));
      s.max_depth = r.thorough ? 10 : 8;
      s.next = [blk](int pos, int) {
        std::vector<Choice> c;
        const int off = pos % 4 == 3 ? 4 : pos % 4;
        for (u32 e : {0u, 1u << 17, 3u << 9, 0x0A5A5A0u}) c.push_back({{blk(u16(0xABC0 + pos), off, e)}, 0, pos + 1});
        if (off == 2) c.push_back({{blk(u16(0xABC0 + pos), 3, 0)}, 0, pos + 1}), c.push_back({{blk(u16(0xABC0 + pos), 3, 1u << 12)}, 0, pos + 1});
        return c;
      };
      sc.push_back(s);
      // right after synchronisation was found: at the very start of the input, after some bits of
      // something else, and after a long loss; from each block on, on each stream
      for (int start = 0; start < 4; start++)
        for (int how = 0; how < 4; how++) {
          Scenario q = s;
          q.name = "blocks right after synchronisation, from block " + std::to_string(start + 1) + (how == 0 ? "" : how == 1 ? ", after 17 bits" : how == 2 ? ", after 300 bits" : ", after a loss");
          q.prelude.clear();
          const int stream = how == 0 ? start : 0;
          if (stream) q.env.opt.streams = true;
          q.env.pi = stream ? kPI : -1;
          Ev junk;
          junk.kind = 'b';
          if (how == 1) junk.bits = "10110011100011110";
          if (how == 2)
            for (int k = 0; k < 300; k++) junk.bits += char('0' + ((k * k + k / 7) & 1));
          if (how == 3) {
            for (int k = 0; k < 8; k++) q.prelude.push_back(blk(u16(0x1000 + k), k % 4 == 3 ? 4 : k % 4, 0));
            for (int k = 0; k < 60; k++) q.prelude.push_back(blk(u16(0x3000 + 77 * k), k % 4 == 3 ? 4 : k % 4, 0x0A5A5A0u));
            junk.bits = "101100111000111";
          }
          if (!junk.bits.empty()) q.prelude.push_back(junk);
          for (int k = start; k < start + 3; k++) q.prelude.push_back(blk(u16(0x2000 + k), k % 4 == 3 ? 4 : k % 4, 0));
          const auto inner = s.next;
          q.next = [inner, start, stream](int pos, int d) {
            auto c = inner(pos + start + 3, d);
            for (auto& x : c) {
              x.next = pos + 1;
              for (auto& e : x.evs) e.g.stream = stream;
            }
            return c;
          };
          for (auto& e : q.prelude) e.g.stream = stream;
          q.max_depth = r.thorough ? 7 : 5;
          sc.push_back(q);
        }
    }
    // poor reception: every number of damaged blocks among the last 50, early, late or evenly spread,
    // then correctable ones until synchronisation is lost or long after
    r.parallel("correction in poor reception", 44 * 3 * 2, [&](size_t it, Worker& w) {
      const int n = int(it % 44), how = int(it / 44 % 3);
      const int at = 26 * 4;
      Sys b(envs[it / 132], none);
      int pos = 0;
      auto step = [&](Sys& s, u32 e) {
        w.transitions++;
        w.tick();
        const int off = pos % 4 == 3 ? 4 : pos % 4;
        if (!s.step(blk(u16(0x5150 + 0x1357 * pos), off, e))) { w.failPath(s); return false; }
        pos++;
        return true;
      };
      for (int k = 0; k < 12; k++) if (!step(b, 0)) return;
      for (int k = 0; k < 50; k++) {
        const bool bad = how == 0 ? k < n : how == 1 ? k >= 50 - n : (k + 1) * n / 50 != k * n / 50;
        if (!step(b, bad ? 0x0A5A5A0u : 0)) return;
      }
      const int p0 = pos;
      for (int e = 0; e < at; e++) {
        pos = p0;
        Sys s = b.clone(w.by_replay);
        const u32 err = ((e & 1 ? 3u : 1u) << (e / 4)) & 0x3FFFFFFu;
        for (int k = 0; k < 12; k++)
          if (!step(s, e & 2 ? (k % 2 ? err : 0) : err)) return;
        w.traces++;
        w.state(hash64(s.key(), it));
      }
    });
    explore(r, sc);
  }
}
