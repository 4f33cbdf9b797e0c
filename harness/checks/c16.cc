#include "cli.hh"
using namespace drv;
namespace {
bool printableLine(const std::string& l) {
  for (unsigned char c : l)
    if (c < 32) return false;
  return true;
}
// everything about two stations, with some damage and all kinds of groups
std::vector<Ev> history() {
  std::vector<Ev> v;
  for (int i = 0; i < 3; i++) v.push_back(ps(kPI, 0, "ALPHA FM", 0xE301));
  append(v, learn(kPI, true));
  append(v, learn(kPI, false));
  for (int code = 0; code < 32; code++) {
    v.push_back(grp(kPI, code, 0x05, 0x3720, 0x4142));
    v.push_back(lose(grp(kPI, code, 0x06, 0x1234, 0x5678), code % 4));
    v.push_back(lose(lose(grp(kPI, code, 0x07, 0xFFFF, 0x0000), (code + 1) % 4), 3));
  }
  for (int s = 1; s < 4; s++) {
    v.push_back(rftInfo(s, s, 0xFF7F, 9));
    v.push_back(rftSeg(s, s, 0, 0, {1, 2, 3, 4, 5}));
    v.push_back(rftSeg(s, s, 0, 1, {6, 7, 8, 9, 10}));
    v.push_back(lose(c(s, 0x4000, 1, 2, 3), s));
  }
  for (int i = 0; i < 4; i++) v.push_back(ps(0xD318, i, "OTHER ST", 0xE302));
  v.push_back(lps(0xD318, 0, "bad\xFF"));
  v.push_back(lps(0xD318, 1, std::string(4, '\r') + "\r\r\r\r"));
  return v;
}
std::string textOf(const std::vector<Ev>& v) {
  std::string s;
  for (auto& e : v) s += hexText(e.g);
  return s;
}
}  // namespace
CHECK(C16) {
  const Project P = allFields();
  auto step = [](Sys& s, const Ev& e, Worker& w) {
    w.transitions++;
    w.tick();
    if (!s.step(e)) { w.failPath(s); return false; }
    w.outcome(hash64(s.last_line));
    w.state(hash64(s.key()));
    return true;
  };
  const std::vector<Ev> H = history();
  // ---- every combination of output options, every group of the history with every subset of lost blocks
  r.parallel("output options and lost blocks", 256, [&](size_t it, Worker& w) {
    Env e;
    e.pi = -1;
    e.opt.rbds = it & 1;
    e.opt.partial = it & 2;
    e.opt.raw = it & 4;
    e.opt.streams = it & 8;
    e.opt.bler = it & 16;
    e.opt.multichannel = it & 32;
    e.opt.channel = it & 32 ? int(it % 5) : 0;
    e.opt.hex_out = it & 64;
    const bool second = it & 128;
    Sys base(e, P);
    for (size_t i = 0; i < H.size(); i++) {
      for (int m = 1; m < 16; m++) {
        Sys s = base.clone(w.by_replay);
        Ev x = H[i];
        for (int b = 0; b < 4; b++)
          if (m & (1 << b)) x = lose(x, b);
        if (!step(s, x, w)) return;
        if (second)
          for (size_t k = i; k < std::min(H.size(), i + 3); k++)
            if (!step(s, H[k], w)) return;
        w.traces++;
      }
      if (!step(base, H[i], w)) return;
    }
  });
  // ---- every pair of bytes in texts that are transmitted as UTF-8
  r.parallel("every pair of bytes in UTF-8 texts", 256, [&](size_t it, Worker& w) {
    Env e;
    e.opt.partial = it & 1;
    for (int b = 0; b < 256; b++)
      for (int kind = 0; kind < 2; kind++) {
        Sys s(e, P);
        std::string t = "a";
        t += char(it);
        t += char(b);
        t += "z\r\r\r\r";
        if (kind == 0) {
          for (int i = 0; i < 2; i++)
            if (!step(s, lps(kPI, i, t), w)) return;
        } else {
          if (!step(s, oda(kPI, 24, 0x6552, 1), w)) return;
          for (int i = 0; i < 2; i++)
            if (!step(s, grp(kPI, 24, i, ch2(t, size_t(i) * 4), ch2(t, size_t(i) * 4 + 2)), w)) return;
        }
        if (!step(s, ps(kPI, 0, "AB"), w)) return;
        w.traces++;
      }
  });
  const std::vector<std::string> seqs{"\xC3\xA4", "\xE2\x82\xAC", "\xF0\x9F\x98\x80", "\xED\xA0\x80", "\xC0\x80", "\xF4\x90\x80\x80", "\xE2\x82", "\xFE\xFF", "\"\\\b\f\n\t", std::string("\0\x01\x1F", 3), "\x7F\x80\xA0"};
  r.parallel("sequences of bytes in UTF-8 texts", seqs.size() * seqs.size(), [&](size_t it, Worker& w) {
    for (int kind = 0; kind < 2; kind++)
      for (int pad = 0; pad < 4; pad++) {
        Env e;
        Sys s(e, P);
        std::string t = std::string(size_t(pad), 'x') + seqs[it / seqs.size()] + seqs[it % seqs.size()] + "\r";
        while (t.size() % 4) t += '\r';
        if (kind == 1 && !step(s, oda(kPI, 24, 0x6552, 1), w)) return;
        for (int i = 0; i < int(t.size() / 4); i++)
          if (!step(s, kind ? grp(kPI, 24, i, ch2(t, size_t(i) * 4), ch2(t, size_t(i) * 4 + 2)) : lps(kPI, i, t), w)) return;
        w.traces++;
      }
  });
  // ---- program level: options add only their own fields
  r.parallel("options add only their own fields", 64, [&](size_t it, Worker& w) {
    const std::string in = textOf(H);
    for (int p = 0; p < 4; p++) {
      std::vector<std::string> base{"-h"};
      if (p & 1) base.push_back("-p");
      if (p & 2) base.push_back("-u");
      const auto c0 = runCli(base, in);
      auto a = base;
      std::set<std::string> own;
      if (it & 1) { a.push_back("-R"); own.insert("raw_data"); }
      if (it & 2) { a.push_back("-E"); own.insert("bler"); }
      if (it & 4) { a.push_back("-t"); a.push_back("%Y"); own.insert("rx_time"); }
      if (it & 8) { a.push_back("-s"); own.insert("stream"); }
      if (it & 16) { a.push_back("--no-fec"); }
      if (it & 32) { a.push_back("-e"); }
      const auto c1 = runCli(a, in);
      w.transitions += 2 * H.size();
      w.traces++;
      w.tick();
      auto fail = [&](const std::string& why) { w.fail(why, cliReplay(a, in, "compare with the same options without -R -E -t -s -e")); };
      if (c0.status || c1.status) return fail("exit status");
      const auto l0 = splitLines(c0.out), l1 = splitLines(it & 32 ? c1.err : c1.out);
      if (l0.size() != l1.size()) return fail("different number of lines");
      size_t last_nl = (it & 32 ? c1.err : c1.out).size();
      if (last_nl && (it & 32 ? c1.err : c1.out).back() != '\n') return fail("last line is not terminated");
      for (size_t i = 0; i < l0.size(); i++) {
        json x = json::parse(l0[i], nullptr, false), y = json::parse(l1[i], nullptr, false);
        if (!x.is_object() || !y.is_object() || !printableLine(l0[i]) || !printableLine(l1[i])) return fail("not one JSON object per line: " + l1[i]);
        if (x.size() == 1 && x.contains("debug")) { if (!(y.size() == 1 && y.contains("debug"))) return fail("debug line expected: " + l1[i]); continue; }
        for (auto& k : own) {
          if (!y.contains(k)) return fail("no " + k + " in " + l1[i]);
          y.erase(k);
        }
        if (x != y) return fail("expected " + x.dump() + " besides the added fields but got " + l1[i]);
        w.outcome(hash64(l1[i]));
        w.state(hash64(l1[i], 9));
      }
    }
  });
  // ---- hex output is lossless: fed back, it gives the same hex and the same JSON
  r.parallel("hex output fed back", H.size(), [&](size_t it, Worker& w) {
    for (int m = 0; m < 16; m++)
      for (int how = 0; how < 3; how++) {
        auto v = H;
        for (int b = 0; b < 4; b++)
          if (m & (1 << b)) v[it] = lose(v[it], b);
        std::string in;
        std::vector<std::string> fmt{"-h"};
        if (how == 2) {
          if (m & 1 || it % 3) continue;  // TEF: no streams, and a line for each group
          fmt = {"-i", "tef"};
          for (auto& e : v) {
            const G& g = e.g;
            if (g.stream) continue;
            char b[64];
            if (g.has[0]) { snprintf(b, sizeof b, "P%04X\n", g.b[0]); in += b; }
            snprintf(b, sizeof b, "R%04X%04X%04X%02X\n", g.b[1], g.b[2], g.b[3], (g.has[1] ? 0 : 0x10) | (g.has[2] ? 0 : 8) | (g.has[3] ? 0 : 3));
            in += b;
          }
        } else {
          in = textOf(v);
        }
        auto opt = std::vector<std::string>{"-p", "-R"};
        auto a1 = fmt;
        a1.push_back("-x");
        if (how == 1) { a1.push_back("-t"); a1.push_back("@%H:%M:%S.%f abc"); }
        bool any_empty = false;
        for (auto& e : v) any_empty |= e.g.empty();
        const auto h1 = runCli(a1, in);
        const auto h2 = runCli({"-h", "-x"}, h1.out);
        auto aj = fmt;
        for (auto& o : opt) aj.push_back(o);
        const auto j1 = runCli(aj, in);
        const auto j2 = runCli({"-h", "-p", "-R"}, h1.out);
        w.transitions += 4 * v.size();
        w.traces++;
        w.tick();
        std::string plain = h1.out;
        if (how == 1) {
          plain.clear();
          for (auto& l : splitLines(h1.out)) plain += l.substr(0, l.find(" @")) + "\n";
        }
        if (h1.status || h2.status || j1.status || j2.status || plain != h2.out) return w.fail("hex output changed when fed back: '" + h1.out.substr(0, 2000) + "' vs '" + h2.out.substr(0, 2000) + "'", cliReplay(a1, in, "its output fed back with -h -x"));
        // a group of which nothing was received is not printed at all
        if (!any_empty && j1.out != j2.out) return w.fail("JSON differs when decoded from the hex output", cliReplay(a1, in, "its output fed back with -h -p -R, compared with JSON output of the input"));
        if (how == 0) {
          std::string want;
          for (auto& e : v)
            if (!e.g.empty()) want += hexText(e.g);
          if (want != h1.out) return w.fail("expected hex output '" + want.substr(0, 3000) + "' but got '" + h1.out.substr(0, 3000) + "'", cliReplay(a1, in, "whole program"));
        }
        w.outcome(hash64(h1.out));
        w.state(hash64(j1.out));
      }
  });
  // ---- the same for each feature, as hex and as error-free bits
  {
    const auto F = features(kPI);
    r.parallel("each feature fed back", F.size() * 2, [&](size_t it, Worker& w) {
      const Feature& f = F[it / 2];
      std::vector<Ev> v(4, ev(kPI, blk2(1, false, 0), 0, 0));
      append(v, f.setup);
      append(v, f.a);
      append(v, f.b);
      append(v, f.a);
      bool upper = false;
      for (auto& e : v) upper |= e.g.stream != 0;
      if (upper && it % 2) return;
      for (size_t at = 3; at <= v.size(); at++)
        for (int m : {1, 2, 4, 8, 14}) {
          auto u = v;
          if (at < v.size())
            for (int b = 0; b < 4; b++)
              if (m & (1 << b)) u[at] = lose(u[at], b);
          if (it % 2 && at < v.size()) break;  // lost blocks change what is known of the version
          std::string in;
          for (auto& e : u) in += it % 2 ? groupBits(e.g) : hexText(e.g);
          const std::string fmt = it % 2 ? "-b" : "-h";
          const auto h1 = runCli({fmt, "-x"}, in), h2 = runCli({"-h", "-x"}, h1.out), j1 = runCli({fmt, "-p", "-R"}, in), j2 = runCli({"-h", "-p", "-R"}, h1.out);
          w.transitions += 4 * u.size();
          w.traces++;
          w.tick();
          w.outcome(hash64(h1.out));
          w.state(hash64(j1.out));
          if (h1.status || h2.status || j1.status || j2.status || h1.out != h2.out || h1.out.empty()) return w.fail(f.name + ": hex output changed when fed back", cliReplay({fmt, "-x"}, in, "its output fed back with -h -x"));
          if (j1.out != j2.out) return w.fail(f.name + ": JSON differs when decoded from the hex output", cliReplay({fmt, "-x"}, in, "its output fed back with -h -p -R, compared with JSON output of the input"));
        }
    });
  }
  // ---- the same for error-free bits, starting anywhere
  r.parallel("hex output of bits fed back", 104, [&](size_t it, Worker& w) {
    std::string bits;
    for (int i = 0; i < 4; i++) bits += groupBits(ps(kPI, i, "ALPHA FM", 0xE301).g);
    bits = bits.substr(it);
    for (int round = 0; round < 2; round++)
      for (auto& e : H)
        if (e.g.stream == 0 && e.g.has[0] && e.g.has[1] && e.g.has[2] && e.g.has[3]) bits += groupBits(e.g);
    const auto h1 = runCli({"-b", "-x"}, bits);
    const auto h2 = runCli({"-h", "-x"}, h1.out);
    const auto j1 = runCli({"-b", "-R"}, bits);
    const auto j2 = runCli({"-h", "-R"}, h1.out);
    w.transitions += bits.size() / 104 * 4;
    w.traces++;
    w.tick();
    w.outcome(hash64(h1.out));
    w.state(hash64(j1.out));
    if (h1.status || h2.status || h1.out != h2.out || h1.out.empty()) return w.fail("hex output of bits changed when fed back", cliReplay({"-b", "-x"}, bits, "its output fed back with -h -x"));
    if (j1.out != j2.out) return w.fail("JSON differs when decoded from the hex output of bits", cliReplay({"-b", "-x"}, bits, "its output fed back with -h -R, compared with -b -R"));
  });
}
