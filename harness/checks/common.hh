// Builders of RDS groups for the drivers. b1 is the PI.
#pragma once
#include "../engine.hh"
namespace drv {
constexpr int kPI = 0x22F8;
inline int blk2(int type, bool B, int low5, int pty = 5, bool tp = false) {
  return (type << 12) | (B ? 0x800 : 0) | (tp ? 0x400 : 0) | (pty << 5) | (low5 & 31);
}
inline int ch2(const std::string& s, size_t i) {
  auto c = [&](size_t k) { return k < s.size() ? int(u8(s[k])) : 0x20; };
  return (c(i) << 8) | c(i + 1);
}
inline Ev ps(int pi, int seg, const std::string& text, int af = 0xCDCD) { return ev(pi, blk2(0, false, seg), af, ch2(text, size_t(seg) * 2)); }
inline Ev psB(int pi, int seg, const std::string& text) { return ev(pi, blk2(0, true, seg), pi, ch2(text, size_t(seg) * 2)); }
inline Ev rtA(int pi, int ab, int seg, const std::string& t) { return ev(pi, blk2(2, false, ab * 16 + seg), ch2(t, size_t(seg) * 4), ch2(t, size_t(seg) * 4 + 2)); }
inline Ev rtB(int pi, int ab, int seg, const std::string& t) { return ev(pi, blk2(2, true, ab * 16 + seg), pi, ch2(t, size_t(seg) * 2)); }
inline Ev oda(int pi, int code, int aid, int msg = 0) { return ev(pi, blk2(3, false, code), msg, aid); }
inline Ev ptyn(int pi, int ab, int seg, const std::string& t) { return ev(pi, blk2(10, false, ab * 16 + seg), ch2(t, size_t(seg) * 4), ch2(t, size_t(seg) * 4 + 2)); }
inline Ev lps(int pi, int seg, const std::string& t) { return ev(pi, blk2(15, false, seg), ch2(t, size_t(seg) * 4), ch2(t, size_t(seg) * 4 + 2)); }
inline Ev eon(int pi, int variant, int info, int on, bool tp = false) { return ev(pi, blk2(14, false, (tp ? 16 : 0) | variant), info, on); }
inline Ev grp(int pi, int code, int low5, int b3, int b4) { return ev(pi, (code << 11) | (5 << 5) | low5, b3, b4); }
// RDS2
inline Ev c(int stream, int b1, int b2, int b3, int b4) { return ev(b1, b2, b3, b4, stream); }
inline Ev rftSeg(int stream, int pipe, int toggle, int addr, const std::vector<int>& d5) {
  return ev(((0x20 | pipe) << 8) | (toggle << 7) | (addr >> 8), ((addr & 255) << 8) | d5[0], (d5[1] << 8) | d5[2], (d5[3] << 8) | d5[4], stream);
}
inline Ev rftInfo(int stream, int ch, int aid, int size, int version = 0, int fid = 0, bool crc = false) {
  return ev((0x80 << 8) | ch, aid, (crc ? 0x800 : 0) | (version << 8) | (fid << 2) | (size >> 16), size & 0xFFFF, stream);
}
inline void append(std::vector<Ev>& v, const std::vector<Ev>& w) { v.insert(v.end(), w.begin(), w.end()); }
inline Ev withPI(Ev e, int pi) {
  if (e.g.stream == 0 && e.g.has[0]) e.g.b[0] = u16(pi);
  return e;
}
// everything that can be learnt about a station, in two wordings
inline std::vector<Ev> learn(int pi, bool first) {
      std::vector<Ev> v;
      const std::string X = first ? "ALPHA FM" : "BETA FM ";
      const std::string rt = (first ? "Artist of Alpha plays this song" : "Bertas band plays another one  ") + std::string("\r");
      v.push_back(oda(pi, 22, 0x4BD7));        // RT+ in 11A
      v.push_back(oda(pi, 24, 0x6552, 1));     // eRT in 12A
      v.push_back(oda(pi, 26, 0x0093));        // DAB in 13A
      v.push_back(oda(pi, 16, 0xCD46, 0x0041));// TMC in 8A, table 1
      v.push_back(oda(pi, 18, first ? 0x0BCB : 0x4AA1));  // 9A: an application shown raw
      for (int i = 0; i < 4; i++) v.push_back(ps(pi, i, X, i == 0 ? 0xE301 : i == 1 ? 0x0203 : 0xCDCD));
      for (int i = 0; i < 8; i++) v.push_back(rtA(pi, 0, i, rt));
      v.push_back(grp(pi, 22, 8, (1 << 13) | (0 << 7) | (5 << 1), (4 << 11) | (1 << 5) | 4));
      for (int i = 0; i < 2; i++) v.push_back(ptyn(pi, 0, i, X));
      for (int i = 0; i < 3; i++) v.push_back(lps(pi, i, "Long name " + std::string(first ? "A\r" : "B\r")));
      for (int i = 0; i < 3; i++) v.push_back(grp(pi, 24, i, ch2("ERT text " + std::string(first ? "A1\r" : "B1\r"), size_t(i) * 4), ch2("ERT text " + std::string(first ? "A1\r" : "B1\r"), size_t(i) * 4 + 2)));
      for (int i = 0; i < 4; i++) v.push_back(eon(pi, i, ch2(X, size_t(i) * 2), 0xC555));
      v.push_back(eon(pi, 4, 0xE20A + (first ? 0 : 5), 0xC555));
      v.push_back(eon(pi, 4, 0x14CD + (first ? 0 : 0x500), 0xC555));
      v.push_back(grp(pi, 26, 0, 0x3720, 0x1234));
      v.push_back(grp(pi, 18, 3, 0x3720, 0x1234));
      v.push_back(grp(pi, 16, 0x14, ch2(X, 0), ch2(X, 2)));
      v.push_back(grp(pi, 16, 0x15, ch2(X, 4), ch2(X, 6)));
      v.push_back(grp(pi, 16, 1, 0x8000 | 101, first ? 1111 : 2222));
      v.push_back(grp(pi, 16, 1, 0x4000, 0));
      v.push_back(rftInfo(1, 3, 0xFF7F, 9));
      v.push_back(rftSeg(1, 3, 0, 0, {first ? 65 : 66, 1, 2, 3, 4}));
      v.push_back(rftSeg(1, 3, 0, 1, {first ? 65 : 66, 1, 2, 3, 4}));
      return v;
}
// one self-contained thing a station can say: what announces it, and the groups that carry it, in two wordings
struct Feature {
  std::string name;
  std::vector<Ev> setup, a, b;
};
inline std::vector<Feature> features(int pi) {
  std::vector<Feature> F;
  auto text = [](const std::string& n, const std::function<Ev(int, const std::string&)>& f, const std::string& A, const std::string& B, int segs, std::vector<Ev> setup = {}) {
    Feature x{n, std::move(setup), {}, {}};
    for (int i = 0; i < segs; i++) x.a.push_back(f(i, A)), x.b.push_back(f(i, B));
    return x;
  };
  auto twice = [](Feature f) {
    auto a = f.a, b = f.b;
    for (int k = 0; k < 2; k++) append(f.a, a), append(f.b, b);
    return f;
  };
  F.push_back(text("PS", [pi](int i, const std::string& t) { return ps(pi, i, t); }, "ALPHA FM", "BETA FM ", 4));
  F.push_back(text("PS 0B", [pi](int i, const std::string& t) { return psB(pi, i, t); }, "ALPHA FM", "BETA FM ", 4));
  F.push_back(text("RT with end", [pi](int i, const std::string& t) { return rtA(pi, 0, i, t); }, "First wording\r", "Another text.\r", 4));
  F.push_back(text("RT flag B", [pi](int i, const std::string& t) { return rtA(pi, 1, i, t); }, "First wording\r", "Another text.\r", 4));
  F.push_back(twice(text("RT without end", [pi](int i, const std::string& t) { return rtA(pi, 0, i, t); }, "No end here ", "Nothing else", 3)));
  F.push_back(twice(text("RT 2B without end", [pi](int i, const std::string& t) { return rtB(pi, 1, i, t); }, "No end", "Not me", 3)));
  F.push_back(text("RT of full length", [pi](int i, const std::string& t) { return rtA(pi, 0, i, t); }, "This RadioText has exactly sixty-four characters, no more of 64.", "Another RadioText of sixty-four characters, that is different 64", 16));
  F.push_back(text("PTYN", [pi](int i, const std::string& t) { return ptyn(pi, 1, i, t); }, "Football", "Baseball", 2));
  F.push_back(text("long PS", [pi](int i, const std::string& t) { return lps(pi, i, t); }, "Long name of A\r", "B: an other one\r", 4));
  F.push_back(text("long PS of full length", [pi](int i, const std::string& t) { return lps(pi, i, t); }, "A long PS name, 32 characters, A", "B also has a long PS name of 32.", 8));
  auto two = [](int pi2, int code, int i, const std::string& t) { return grp(pi2, code, i, ch2(t, size_t(i) * 4), ch2(t, size_t(i) * 4 + 2)); };
  {
    std::string A, B;
    for (int i = 0; i < 128; i++) A += char('A' + i % 26), B += char('a' + i % 25);
    F.push_back(text("transparent data", [pi, two](int i, const std::string& t) { return two(pi, 10, i, t); }, A, B, 32));
  }
  F.push_back(text("eRT", [pi, two](int i, const std::string& t) { return two(pi, 24, i, t); }, "Enhanced A1\r", "Enhanced B2\r", 3, {oda(pi, 24, 0x6552, 1)}));
  {
    // RT+ and eRT+ with both states of toggle and running
    const std::string ta = "Artist of Alpha\r", tb = "Bertas good band\r";
    for (int e = 0; e < 2; e++) {
      Feature x{e ? "eRT+" : "RT+", {}, {}, {}};
      if (e) x.setup.push_back(oda(pi, 24, 0x6552, 1));
      x.setup.push_back(oda(pi, 22, e ? 0x4BD8 : 0x4BD7));
      for (int w = 0; w < 2; w++) {
        auto& v = w ? x.b : x.a;
        const std::string& t = w ? tb : ta;
        const int state = w ? 8 : 24;
        for (int rep = 0; rep < 2; rep++) {
          for (int i = 0; i < (w ? 5 : 4); i++) v.push_back(e ? two(pi, 24, i, t) : rtA(pi, 0, i, t));
          v.push_back(grp(pi, 22, state, (1 << 13) | (0 << 7) | (5 << 1), (4 << 11) | (1 << 5) | 4));
        }
      }
      F.push_back(x);
    }
  }
  // frequencies
  F.push_back({"AF method A", {}, {ps(pi, 0, "", 0xE401), ps(pi, 1, "", 0x0203), ps(pi, 2, "", 0x04CD)}, {ps(pi, 0, "", 0xE40A), ps(pi, 1, "", 0x0B0C), ps(pi, 2, "", 0x0DCD)}});
  F.push_back({"AF method B", {}, {ps(pi, 0, "", 0xE501), ps(pi, 1, "", 0x0102), ps(pi, 2, "", 0x0401)}, {ps(pi, 0, "", 0xE50A), ps(pi, 1, "", 0x0A0B), ps(pi, 2, "", 0x0E0A)}});
  F.push_back({"AF with LF/MF", {}, {ps(pi, 0, "", 0xE201), ps(pi, 1, "", 0xFA05), ps(pi, 2, "", 0xE1FA), ps(pi, 3, "", 0x05CD)}, {ps(pi, 0, "", 0xE2CD), ps(pi, 1, "", 0x09FA), ps(pi, 2, "", 0x0701), ps(pi, 3, "", 0x02CD)}});
  // other networks
  {
    Feature x{"EON", {}, {}, {}};
    for (int w = 0; w < 2; w++) {
      auto& v = w ? x.b : x.a;
      const std::string t = w ? "OTHER B " : "AND AN A";
      for (int i = 0; i < 4; i++) v.push_back(eon(pi, i, ch2(t, size_t(i) * 2), 0xC555));
      v.push_back(eon(pi, 4, w ? 0xE30A : 0xE305, 0xC555));
      v.push_back(eon(pi, 4, w ? 0x0B0C : 0xFA07, 0xC555));
      v.push_back(eon(pi, 4, w ? 0xE1FA : 0x08CD, 0xC555));
    }
    F.push_back(x);
  }
  // open data
  F.push_back({"ODA raw", {}, {oda(pi, 18, 0x0BCB), oda(pi, 23, 0x4AA1), grp(pi, 18, 3, 0x3720, 0x1234), grp(pi, 23, 3, pi, 0x1234)}, {oda(pi, 18, 0x4AA1), oda(pi, 23, 0x0BCB), grp(pi, 18, 4, 0x3721, 0x1235), grp(pi, 23, 4, pi, 0x1235)}});
  F.push_back({"DAB", {oda(pi, 26, 0x0093)}, {grp(pi, 26, 0, 0x3720, 0x1234)}, {grp(pi, 26, 4, 0x2AB5, 0x4321)}});
  // TMC
  const std::vector<Ev> tmc{oda(pi, 16, 0xCD46, 0x0041), oda(pi, 16, 0xCD46, 0x4183)};
  for (int len = 2; len <= 5; len++) {
    Feature x{"TMC message of " + std::to_string(len) + " groups", tmc, {}, {}};
    for (int w = 0; w < 2; w++) {
      auto& v = w ? x.b : x.a;
      v.push_back(grp(pi, 16, 2, 0x8000 | (w ? 0x4800 : 0x1000) | (w ? 101 : 1), w ? 2222 : 1111));
      for (int k = 1; k < len; k++) v.push_back(grp(pi, 16, 2, (k == 1 ? 0x4000 : 0) | ((len - 1 - k) << 12) | (w ? 0x0698 : 0x0362 + k), w ? 0x9876 : 0x6A31));
    }
    append(x.a, x.a);
    append(x.b, x.b);
    F.push_back(x);
  }
  F.push_back({"TMC single", tmc, {grp(pi, 16, 8 | 1, 0x0800 | 101, 1111)}, {grp(pi, 16, 8 | 2, 0x4800 | 802, 2222)}});
  F.push_back({"TMC in 7A", {oda(pi, 14, 0xCD47, 0x00C1)}, {grp(pi, 14, 8 | 1, 0x0800 | 101, 1111), grp(pi, 14, 0x14, 0x4142, 0x4344), grp(pi, 14, 0x15, 0x4546, 0x4748)}, {grp(pi, 14, 8 | 2, 0x4800 | 802, 2222), grp(pi, 14, 0x14, 0x6162, 0x6364), grp(pi, 14, 0x15, 0x6566, 0x6768)}});
  F.push_back({"TMC encrypted", {oda(pi, 16, 0xCD46, 0x0001)}, {grp(pi, 16, 0, (5 << 5) | 3, 1 << 10), grp(pi, 16, 8 | 1, 0x0800 | 101, 1111)}, {grp(pi, 16, 0, (6 << 5) | 4, 2 << 10), grp(pi, 16, 8 | 1, 0x0800 | 101, 2222)}});
  F.push_back({"TMC system information", {}, {oda(pi, 16, 0xCD46, 0x0041), oda(pi, 16, 0xCD46, 0x4181), oda(pi, 16, 0xCD46, 0x80E0)}, {oda(pi, 16, 0xCD46, 0x0081), oda(pi, 16, 0xCD46, 0x4242), oda(pi, 16, 0xCD46, 0x80E1)}});
  F.push_back({"TMC provider", tmc, {grp(pi, 16, 0x14, 0x4142, 0x4344), grp(pi, 16, 0x15, 0x4546, 0x4748)}, {grp(pi, 16, 0x14, 0x6162, 0x6364), grp(pi, 16, 0x15, 0x6566, 0x6768)}});
  // slow labelling
  F.push_back({"slow labelling", {}, {ev(pi, blk2(1, false, 0), 0x00E2, 0x0801), ev(pi, blk2(1, false, 0), 0x1123, 0), ev(pi, blk2(1, false, 0), 0x3009, 0x1802)}, {ev(pi, blk2(1, false, 0), 0x80E0, 0x1803), ev(pi, blk2(1, false, 0), 0x9321, 0), ev(pi, blk2(1, false, 0), 0xB00F, 0x2004)}});
  // groups that stand alone: clock-time, flags, in-house and transparent data, the other B versions, DAB service table
  F.push_back({"clock-time", {}, {ev(pi, blk2(4, false, 1), 0xD4C0, 0xC784), ev(pi, blk2(4, false, 1), 0xD4C1, 0x07A5)}, {ev(pi, blk2(4, false, 0), 0xFFFE, 0x1280), ev(pi, blk2(4, false, 1), 0xD4C0, 0xC7C0)}});
  F.push_back({"basic flags", {}, {ev(pi, blk2(15, true, 0x1C, 7, true), pi, blk2(15, true, 0x1C, 7, true)), ev(pi, blk2(0, true, 0x0F, 29), pi, 0x4142), ev(pi, blk2(1, true, 3, 31), pi, 0x0842)}, {ev(pi, blk2(15, true, 0x03, 9), pi, blk2(15, true, 0x03, 9)), ev(pi, blk2(0, true, 0x10, 1, true), pi, 0x4344), ev(pi, blk2(1, false, 3, 31), 0x6123, 0x0842)}});
  F.push_back({"in-house and transparent", {}, {grp(pi, 12, 0x0A, 0x3720, 0x4142), grp(pi, 13, 0x15, pi, 0x4142), grp(pi, 10, 3, 0x4142, 0x4344), grp(pi, 11, 3, pi, 0x4344)}, {grp(pi, 12, 0x15, 0x3721, 0x4143), grp(pi, 13, 0x0A, pi, 0x4143), grp(pi, 10, 0, 0x4142, 0x0D44), grp(pi, 11, 9, pi, 0x4348)}});
  F.push_back({"EON items", {}, {eon(pi, 5, 0x0A14, 0xC555), eon(pi, 12, 0x8123, 0xC555), eon(pi, 13, 0x5001, 0xC555, true), eon(pi, 14, 0x0842, 0xC556), eon(pi, 15, 0x1234, 0xC555), ev(pi, blk2(14, true, 0x18), pi, 0xC555), ev(pi, blk2(14, true, 0x08), pi, 0xC556)}, {eon(pi, 9, 0x0A15, 0xC555), eon(pi, 12, 0x0123, 0xC555), eon(pi, 13, 0xE800, 0xC555), ev(pi, blk2(14, true, 0x10), pi, 0xC555)}});
  F.push_back({"DAB service table", {oda(pi, 26, 0x0093)}, {grp(pi, 26, 16, 0x3720, 0x1234), grp(pi, 26, 0x0C, 0x3720, 0x1234)}, {grp(pi, 26, 0x1F, 0x2AB5, 0x4321)}});
  // files
  for (int tg = 0; tg < 2; tg++) {
    Feature x{tg ? "RFT toggle 1" : "RFT toggle 0", {}, {}, {}};
    for (int w = 0; w < 2; w++) {
      auto& v = w ? x.b : x.a;
      v.push_back(rftInfo(1, 3, w ? 0xFF80 : 0xFF7F, w ? 12 : 14));
      for (int k = 0; k < 3; k++) v.push_back(rftSeg(1, 3, tg, k, {w ? 66 : 65, k, 2, 3, 4}));
    }
    F.push_back(x);
  }
  return F;
}
// the seven yes/no options in the eight rows of an orthogonal array (every pair of options in all four combinations)
inline void optionRow(Env& e, int row) {
  const int a = row & 1, b = row >> 1 & 1, c = row >> 2 & 1;
  e.opt.rbds = a;
  e.opt.partial = b;
  e.opt.raw = c;
  e.opt.bler = a ^ b;
  e.opt.streams = a ^ c;
  e.opt.fec = b ^ c;
  e.opt.multichannel = a ^ b ^ c;
}
// every feature, at every point of which a group loses any of its blocks, under every pair of options, as
// groups and as bits, with and without the PI of the group before; and every feature interrupted at
// every point by every other one
inline void everywhere(Run& r, const Project& p) {
  if (r.failed()) return;
  const auto F = features(kPI);
  struct Item { size_t f, i; };
  std::vector<Item> items;
  for (size_t f = 0; f < F.size(); f++)
    for (size_t i = 0; i < F[f].setup.size() + F[f].a.size(); i++)
      if (i < 12 || r.thorough) items.push_back({f, i});
  auto go = [](Sys& s, const Ev& e, Worker& w) {
    w.transitions++;
    if (s.step(e)) return true;
    w.failPath(s);
    return false;
  };
  r.parallel("every loss in every feature under all options", items.size() * 8, [&](size_t it, Worker& w) {
    const Feature& f = F[items[it / 8].f];
    const size_t at = items[it / 8].i;
    std::vector<Ev> all = f.setup;
    append(all, f.a);
    append(all, f.b);
    // something to hear before, so that a group that lost its PI can be shown
    const Ev hello = ev(kPI, blk2(1, false, 0), 0, 0);
    const size_t end = r.thorough ? all.size() : std::min(all.size(), f.setup.size() + f.a.size() + 4);
    for (int kind = 0; kind < 4; kind++) {
      Env env;
      optionRow(env, int(it % 8));
      env.with_bits = kind & 1;
      for (int mask = 0; mask < 16; mask++) {
        Sys s(env, p);
        if (!(kind & 2) && at == 0 && !go(s, env.with_bits ? asBits(hello) : hello, w)) return;
        for (size_t i = 0; i < end; i++) {
          Ev e = all[i];
          if (i == at)
            for (int b = 0; b < 4; b++)
              if (mask >> b & 1) e = lose(e, b);
          if ((kind & 2) && i + 1 == at) e = lose(e, 0);
          if (env.with_bits && e.g.stream == 0) e = asBits(e);
          if (!go(s, e, w)) return;
        }
        w.traces++;
        w.outcome(hash64(s.last_line));
      }
      w.tick();
      w.state(it * 4 + size_t(kind));
    }
  });
  r.parallel("every feature interrupted by every other", F.size() * F.size(), [&](size_t it, Worker& w) {
    const Feature &f = F[it / F.size()], &g = F[it % F.size()];
    const size_t n = f.a.size(), stride = r.thorough || n < 12 ? 1 : n / 6;
    for (size_t cut = 0; cut <= n; cut += stride)
      for (int how = 0; how < 4; how++) {
        Env env;
        optionRow(env, int((cut + size_t(how) + it) % 8));
        Sys s(env, p);
        std::vector<Ev> path = f.setup;
        if (how == 3) {  // both in their second wording
          append(path, g.setup);
          path.insert(path.end(), f.b.begin(), f.b.begin() + long(std::min(cut, f.b.size())));
          append(path, g.b);
          path.insert(path.end(), f.b.begin() + long(std::min(cut, f.b.size())), f.b.end());
          for (const Ev& e : path)
            if (!go(s, e, w)) return;
          continue;
        }
        if (how == 1) append(path, g.setup);
        path.insert(path.end(), f.a.begin(), f.a.begin() + long(cut));
        if (how != 1) append(path, g.setup);
        append(path, g.a);
        if (how == 2) append(path, f.setup);
        path.insert(path.end(), f.a.begin() + long(cut), f.a.end());
        append(path, how == 0 ? g.b : f.b);
        for (const Ev& e : path)
          if (!go(s, e, w)) return;
        w.traces++;
        w.outcome(hash64(s.last_line));
        w.state(hash64(s.key(), cut * 4 + size_t(how)));
      }
    w.tick();
  });
}
// one long reception of a station (more groups than a 16-bit counter holds) that keeps changing what it
// says, in eight orders and loss patterns; every line is compared
inline void longRun(Run& r, const Env& base, const Project& p, size_t n = 0) {
  if (!n) n = r.thorough ? 300000 : 67000;
  r.parallel("long reception", 8, [&](size_t it, Worker& w) {
    Env env = base;
    env.with_bits = it == 7;
    const auto A = learn(kPI, true), B = learn(kPI, false);
    Sys s(env, p);
    const size_t m = it == 7 ? n / 4 : n;
    std::vector<Ev> pre(4, ev(kPI, 0x1540, 0, 0));
    for (size_t i = 0; i < m; i++) {
      const size_t round = i / A.size();
      static const size_t steps[] = {1, 1, 1, 1, 7, 11, 23, 1};
      size_t k = i * steps[it] % A.size();
      Ev e = i < pre.size() ? pre[i] : (round >> (it & 3)) & 1 ? B[k] : A[k];
      if (i >= pre.size()) {
        const int type = e.g.b[1] >> 12;
        if (e.g.stream == 0 && type == 2 && (round >> 2) & 1) e.g.b[1] ^= 0x10;           // another message
        if (e.g.stream == 0 && (type == 0 || type == 2 || type == 10 || type == 15)) e.g.b[3] = u16(e.g.b[3] ^ (round % 5 == 4 ? 0x0003 : 0));
        if (e.g.stream && (round >> 1) & 1 && (e.g.b[0] >> 12) == 2) e.g.b[0] ^= 0x80;   // another file
        if (it & 1 && i % 19 == 3) e = lose(e, int(i / 19 % 4));
        if (it == 6 && i % 5 == 3) e = lose(e, int(i / 5 % 4));
      }
      if (it == 7 && e.g.stream == 0) e = asBits(e);
      w.transitions++;
      if (!s.step(e)) {
        w.failPath(s);
        return;
      }
      if (i % 4096 == 0) {
        w.state(hash64(s.key(), i));
        w.tick();
      }
      if (i % 256 == 0) w.tick();
    }
    w.traces++;
  });
}
}  // namespace drv
