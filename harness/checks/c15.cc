#include "common.hh"
using namespace drv;
namespace {
// a group as bits; lost blocks carry the given garbage pattern over their data
Ev bitGroup(const G& g, int lost, u32 garbage) {
  Ev e;
  e.kind = 'b';
  e.g.stream = g.stream;
  const bool B = g.b[1] & 0x800;
  for (int i = 0; i < 4; i++) {
    const int off = i == 0 ? 0 : i == 1 ? 1 : i == 2 ? (B && g.stream == 0 ? 3 : 2) : 4;
    u32 w = orc::encodeBlock(g.b[size_t(i)], off);
    if (lost & (1 << i)) w ^= garbage;
    for (int b = 25; b >= 0; b--) e.bits += char('0' + ((w >> b) & 1));
  }
  return e;
}
// dates after 2100 are outside what is claimed for clock-time: keep the day number below 65536 in 4A
Ev tg(int code, int low5, int b3, int b4) { return grp(kPI, code, code == 8 ? low5 & ~2 : low5, b3, b4); }
const u32 kGarbage[4] = {0x0A5A5A0, 0x3FF0155, 0x1248A11, 0x2000C03};
}  // namespace
CHECK(C15) {
  const Project P = allFields();
  Env hex, bits, hexp;
  bits.with_bits = true;
  hexp.opt.partial = true;
  hexp.opt.bler = true;
  Env bitsp = bits;
  bitsp.opt.partial = true;
  std::vector<Ev> assign;
  for (auto p : {std::pair<int, int>{22, 0x4BD7}, {24, 0x6552}, {26, 0x0093}, {16, 0xCD46}, {18, 0x0BCB}, {23, 0x4BD8}}) assign.push_back(oda(kPI, p.first, p.second, 0x0041));
  auto step = [](Sys& s, const Ev& e, Worker& w) {
    w.transitions++;
    w.tick();
    if (!s.step(e)) { w.failPath(s); return false; }
    w.outcome(hash64(s.last_line));
    w.state(hash64(s.key()));
    return true;
  };
  // every group type x every subset of lost blocks x several contents, each after a complete group of
  // the same type and followed by complete groups of the same type
  const std::vector<std::array<int, 3>> contents{{0x0A, 0x3720, 0x4142}, {0x00, 0xE30A, 0x4344}, {0x1F, 0xFFFF, 0xFFFF}, {0x15, 0x0000, 0x0000}, {0x01, 0x8123, 0x0842}};
  r.parallel("every group type and loss", 32 * 16 * 2, [&](size_t it, Worker& w) {
    const int code = int(it % 32), lost = int(it / 32 % 16);
    const bool use_bits = it / 512;
    for (size_t ctx = 0; ctx < 2; ctx++)
      for (auto& c1 : contents)
        for (auto& c2 : contents)
          for (int ga = 0; ga < (use_bits ? 4 : 1); ga++) {
            Sys s(use_bits ? (ctx ? bits : bitsp) : (ctx ? hex : hexp), P);
            auto put = [&](const Ev& e, int l) {
              Ev x = e;
              if (use_bits) {
                x = bitGroup(e.g, l, kGarbage[ga]);
              } else {
                for (int i = 0; i < 4; i++)
                  if (l & (1 << i)) x = lose(x, i);
              }
              return step(s, x, w);
            };
            if (use_bits && !put(ev(kPI, blk2(1, false, 0), 0, 0), 0)) return;
            if (ctx)
              for (auto& e : assign)
                if (!put(e, 0)) return;
            if (!put(tg(code, c1[0], c1[1], c1[2]), 0)) return;
            if (!put(tg(code, c2[0], c2[1], c2[2]), lost)) return;
            if (!put(tg(code, (c2[0] + 1) & 31, c2[2], c2[1]), 0)) return;
            if (!put(tg(code, c1[0], c2[1], c1[2]), 0)) return;
            if (!put(tg(code, c2[0], c1[1], c2[2]), 8 | (lost & 4))) return;
            w.traces++;
            if (use_bits && ctx == 0 && ga > 1) break;
          }
  });
  // everything about a station, with every subset of blocks lost at every point
  std::vector<Scenario> sc;
  for (int k = 0; k < 4; k++) {
    auto l = learn(kPI, true), l2 = learn(kPI, false);
    if (k < 2) append(l, l2);
    const bool b = k & 1;
    Scenario s;
    s.name = b ? "station history as bits" : "station history";
    s.env = b ? (k == 3 ? bitsp : bits) : (k == 2 ? hexp : hex);
    s.project = P;
    s.budget = k >= 2 && !b ? 2 : (r.thorough ? 2 : 1);
    auto enc = [b](const Ev& e, int lost, u32 ga) {
      if (b) return bitGroup(e.g, lost, ga);
      Ev x = e;
      for (int i = 0; i < 4; i++)
        if (lost & (1 << i)) x = lose(x, i);
      return x;
    };
    if (b) s.prelude = {enc(ev(kPI, blk2(1, false, 0), 0, 0), 0, 0), enc(ev(kPI, blk2(1, false, 0), 0, 0, 1), 0, 0)};
    const bool few = s.budget > 1;
    s.next = [l, enc, b, few](int pos, int) {
      std::vector<Choice> c;
      if (pos >= int(l.size())) return c;
      const Ev& e = l[size_t(pos)];
      c.push_back({{enc(e, 0, 0)}, 0, pos + 1});
      for (int m = 1; m < 16; m++) {
        if (few && !(m == 1 || m == 2 || m == 4 || m == 8 || m == 12 || m == 5)) continue;
        for (int ga = 0; ga < (b ? 3 : 1); ga++) c.push_back({{enc(e, m, kGarbage[ga])}, 1, pos + 1});
      }
      return c;
    };
    sc.push_back(s);
  }
  explore(r, sc);
  // each feature, with any subset of blocks lost in any of its groups (and in any second one), then
  // continued and repeated, and followed by other contents
  {
    const auto F = features(kPI);
    struct Item { size_t f, at; bool bits; };
    std::vector<Item> items;
    for (size_t f = 0; f < F.size(); f++)
      for (size_t at = 0; at < F[f].setup.size() + F[f].a.size(); at++)
        for (int b = 0; b < 2; b++) items.push_back({f, at, b != 0});
    r.parallel("each feature with losses", items.size(), [&](size_t it, Worker& w) {
      const Item& x = items[it];
      std::vector<Ev> h = F[x.f].setup;
      append(h, F[x.f].a);
      const size_t n = h.size();
      const size_t tail = std::min<size_t>(F[x.f].a.size(), 8);
      h.insert(h.end(), F[x.f].a.begin(), F[x.f].a.begin() + long(tail));
      h.insert(h.end(), F[x.f].b.begin(), F[x.f].b.begin() + long(std::min(tail, F[x.f].b.size())));
      auto run = [&](int m1, size_t at2, int m2, u32 ga, bool partial) {
        Sys s(x.bits ? (partial ? bitsp : bits) : (partial ? hexp : hex), P);
        auto enc = [&](const Ev& e, int lost) {
          if (x.bits) return bitGroup(e.g, lost, ga);
          Ev y = e;
          for (int i = 0; i < 4; i++)
            if (lost & (1 << i)) y = lose(y, i);
          return y;
        };
        if (x.bits && (!step(s, enc(ev(kPI, blk2(1, false, 0), 0, 0), 0), w) || !step(s, enc(ev(kPI, blk2(1, false, 0), 0, 0, 1), 0), w))) return false;
        for (size_t i = 0; i < h.size(); i++)
          if (!step(s, enc(h[i], i == x.at ? m1 : i == at2 ? m2 : 0), w)) return false;
        w.traces++;
        return true;
      };
      for (int m = 1; m < 16; m++)
        for (int ga = 0; ga < (x.bits ? 2 : 1); ga++)
          if (!run(m, n + 999, 0, kGarbage[(size_t(m) + size_t(ga) * 2) % 4], (m + ga) % 2)) return;
      for (size_t at2 = x.at + 1; at2 < n && (r.thorough || at2 < x.at + 5); at2++)
        for (int m1 : {1, 2, 4, 8})
          for (int m2 : {1, 2, 4, 8, 12}) {
            if (!r.thorough && (m1 + m2 + int(at2)) % 2 == int(x.bits)) continue;
            if (!run(m1, at2, m2, kGarbage[at2 % 4], m1 & 3)) return;
          }
    });
  }
  // text inputs: what a damaged hex block or an errored TEF block contains does not matter
  r.parallel("hex and TEF text input", 32 * 2, [&](size_t it, Worker& w) {
    const int code = int(it % 32);
    const bool tef = it / 32;
    std::vector<Ev> h = assign;
    for (auto& c1 : contents) h.push_back(grp(kPI, code, c1[0], c1[1], c1[2]));
    auto text = [&](int lost, int variant) {
      std::string t;
      auto line = [&](const Ev& e, int l) {
        char buf[128];
        if (tef) {
          u16 d[4];
          for (int i = 0; i < 4; i++) d[i] = l & (1 << i) ? u16(e.g.b[size_t(i)] ^ (0x1111 * variant + variant)) : e.g.b[size_t(i)];
          int err = 0;
          const int how = 1 + variant % 3;
          if (l & 2) err |= how << 4;
          if (l & 4) err |= how << 2;
          if (l & 8) err |= how;
          if (!(l & 1)) { snprintf(buf, sizeof buf, "P%04X\n", d[0]); t += buf; }
          snprintf(buf, sizeof buf, "R%04X%04X%04X%02X\n", d[1], d[2], d[3], err);
          t += buf;
        } else {
          static const char* junk[4] = {"----", "12-4", "-FFF", "000x"};
          for (int i = 0; i < 4; i++) {
            if (l & (1 << i)) snprintf(buf, sizeof buf, "%s", junk[variant]);
            else snprintf(buf, sizeof buf, "%04X", e.g.b[size_t(i)]);
            t += buf;
            t += i < 3 ? ' ' : '\n';
          }
        }
      };
      for (int k = 0; k < 3; k++) line(ev(kPI, blk2(1, false, 0), 0, 0), 0);
      for (size_t i = 0; i < h.size(); i++) line(h[i], i % 2 && i >= assign.size() ? lost : 0);
      for (size_t i = assign.size(); i < h.size(); i++) line(h[i], lost & 12), line(h[i], lost & 3), line(h[i], 0);
      return t;
    };
    for (int lost = 1; lost < 16; lost++) {
      std::vector<std::string> args{"-i", tef ? "tef" : "hex", "-p"};
      std::string first;
      for (int v = 0; v < 4; v++) {
        const std::string in = text(lost, v);
        auto c = runCli(args, in);
        w.transitions += 40;
        w.traces++;
        w.tick();
        if (v == 0) {
          first = c.out;
          w.outcome(hash64(first));
          w.state(hash64(in));
        } else if (c.out != first || c.status != 0) {
          w.fail("output depends on the contents of lost blocks: '" + first + "' vs '" + c.out + "'", cliReplay(args, in, "compare with the same input where the lost blocks contain something else"));
          return;
        }
      }
    }
  });
}
