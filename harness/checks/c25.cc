// Output keeps up with the input, and does not depend on what is yet to come.
#include <cmath>
#include "../mpx.hh"
#include "cli.hh"
using namespace drv;
namespace {
struct Input {
  std::string name, text;
  std::vector<std::string> args;
  std::vector<size_t> cuts;  // prefixes that matter
  std::vector<bool> inside;  // is the cut inside a group?
  bool bits = false;
};
size_t countLines(const std::string& s) { return size_t(std::count(s.begin(), s.end(), '\n')); }
std::string firstLines(const std::string& s, size_t n) {
  size_t a = 0;
  while (n-- && a != std::string::npos) {
    a = s.find('\n', a);
    if (a != std::string::npos) a++;
  }
  return s.substr(0, a);
}
// the lines of each stream (the order of the streams within one buffer may change with its size)
std::vector<std::string> perStream(const std::string& s, bool hex) {
  std::vector<std::string> v(4);
  for (auto& l : splitLines(s)) {
    int k = 0;
    if (hex) k = l.compare(0, 2, "#S") == 0 ? l[2] - '0' : 0;
    else {
      json j = json::parse(l, nullptr, false);
      if (j.is_object()) k = j.value("stream", 0);
    }
    v[size_t(k) & 3] += l + "\n";
  }
  return v;
}
bool startsWith(const std::string& s, const std::string& p) { return s.compare(0, p.size(), p) == 0; }
}  // namespace
CHECK(C25) {
  const std::vector<std::vector<std::string>> options{{}, {"-p", "-R"}, {"-E", "-u"}, {"-x"}, {"-s", "-R"}};
  const auto F = features(kPI);
  // one history per feature; upper streams only where they can be expressed
  auto history = [&](size_t f, bool streams) {
    std::vector<G> h;
    for (int i = 0; i < 3; i++) h.push_back(mk(kPI, blk2(8, true, i), kPI, 0x1234));
    for (auto* v : {&F[f].setup, &F[f].a, &F[f].b})
      for (auto& e : *v)
        if (streams || e.g.stream == 0) h.push_back(e.g);
    if (h.size() > 26 && !r.thorough) h.resize(26);
    return h;
  };
  auto make = [&](size_t f, int format, const std::vector<std::string>& opt) {
    Input in;
    in.name = F[f].name;
    in.args = {format == 0 ? "-h" : format == 1 ? "-itef" : "-b"};
    in.args.insert(in.args.end(), opt.begin(), opt.end());
    in.bits = format == 2;
    if (in.bits) in.text = std::string("1011000101101").substr(0, 1 + f % 13);  // groups end anywhere
    for (auto& g : history(f, format == 0)) {
      const size_t at = in.text.size();
      if (format == 0) in.text += hexText(g);
      else if (format == 1) {
        char b[64];
        snprintf(b, sizeof b, "P%04X\nR%04X%04X%04X00\n", g.b[0], g.b[1], g.b[2], g.b[3]);
        in.text += b;
        in.cuts.push_back(at + 6);
        in.inside.push_back(true);
      } else {
        in.text += groupBits(g);
        for (size_t q : {1, 25, 26, 27, 52, 77, 79, 103}) {
          in.cuts.push_back(at + q);
          in.inside.push_back(true);
        }
      }
      in.cuts.push_back(in.text.size());
      in.inside.push_back(false);
    }
    return in;
  };
  // ---- every prefix of a text input
  r.parallel("every prefix of text inputs", F.size() * 3 * options.size(), [&](size_t it, Worker& w) {
    const Input in = make(it % F.size(), int(it / F.size() % 3), options[it / F.size() / 3]);
    if (in.args[0] != "-h" && in.args[1 % in.args.size()] == "-s") return;  // these formats have no other streams
    const std::string whole = runCli(in.args, in.text).out;
    std::string before;
    for (size_t n = 0; n < in.cuts.size(); n++) {
      const size_t cut = in.cuts[n];
      const auto c = runCli(in.args, in.text.substr(0, cut));
      w.tick();
      w.transitions++;
      w.traces++;
      w.outcome(hash64(c.out));
      w.state(hash64(in.name, it * 100000 + cut));
      std::string o = c.out;
      // a group of which only a part has been received is reported at the end of the input
      if (!startsWith(whole, o) && (in.inside[n] || in.bits) && countLines(o)) o = firstLines(o, countLines(o) - 1);
      if (c.status || !startsWith(whole, o)) return w.fail(in.name + ": what is printed for the first " + std::to_string(cut) + " characters of the input is changed by what follows: " + c.out.substr(0, 3000) + " / " + whole.substr(0, 3000), cliReplay(in.args, in.text, "the prefix has " + std::to_string(cut) + " characters"));
    }
  });
  // ---- the same inputs arriving bit by bit and line by line, while the input stays open
  r.parallel("text inputs while they arrive", F.size() * 3 * options.size(), [&](size_t it, Worker& w) {
    const size_t f = it % F.size();
    const int format = int(it / F.size() % 3);
    const auto& opt = options[it / F.size() / 3];
    if (format && !opt.empty() && opt[0] == "-s") return;
    for (int echo = 0; echo < 2; echo++) {
      if (echo && it % 3 && !r.thorough) continue;
      Input in = make(f, format, opt);
      if (echo) in.args.push_back("-e");
      std::vector<std::string> pieces;
      std::vector<size_t> due;  // lines that are due after each piece
      size_t last = 0;
      auto plain = in.args;
      if (echo) plain.pop_back();
      size_t complete = 0;
      for (size_t k = 0; k < in.cuts.size(); k++) {
        const size_t cut = in.cuts[k];
        pieces.push_back(in.text.substr(last, cut - last));
        last = cut;
        if (!in.inside[k]) complete = countLines(runCli(plain, in.text.substr(0, cut)).out);
        due.push_back(complete);
      }
      w.tick();
      const auto live = runLive(in.args, pieces, echo ? 2 : 1, [&](size_t k, const std::string& s) { return countLines(s) >= due[k]; });
      w.tick();
      w.transitions += pieces.size();
      w.traces++;
      w.state(hash64(in.name, it * 2 + size_t(echo)));
      w.outcome(hash64(live.out));
      if (live.late || live.status) return w.fail(in.name + ": after piece " + std::to_string(live.piece) + " of the input " + std::to_string(due[live.piece]) + " lines were due, but only " + std::to_string(countLines(live.at_piece)) + " were printed before more input arrived", cliReplay(in.args, in.text, "through a pipe that stays open; pieces end at the ends of lines, or after some bits"));
    }
  });
  // ---- signals
  struct Signal { int channels; std::vector<std::string> opt; double fs; };
  std::vector<Signal> sig;
  for (double fs : {171000., 192000., 250000.})
    for (int c : {1, 2, 3})
      for (auto o : std::vector<std::vector<std::string>>{{}, {"-x"}, {"-s", "-R"}, {"-s", "-x"}, {"-E", "-p"}}) {
        if (c > 1 && !o.empty() && o.back() == "-x") continue;  // lines of different channels cannot be told apart
        sig.push_back({c, o, fs});
      }
  auto content = [&](const Signal& g) {
    std::array<std::string, 4> bits{"", "", "", ""};
    for (int i = 0; i < (r.thorough ? 40 : 26); i++) {
      bits[0] += groupBits((i % 3 == 2 ? rtA(kPI, 0, i / 3 % 4, "Some radiotext\r") : ps(kPI, i % 4, "ALPHA FM")).g);
      if (!g.opt.empty() && g.opt[0] == "-s")
        for (int k = 1; k < 4; k++) bits[size_t(k)] += groupBits(rftSeg(k, k, 0, i, {i, k, 2, 3, 4 * i}).g);
    }
    std::vector<std::vector<int16_t>> ch;
    for (int c = 0; c < g.channels; c++) {
      mpx::Sig s;
      s.fs = g.fs;
      s.phase = 0.9 * c;
      s.bit_phase = 0.3 * c;
      s.lead = 0.02 * c;
      ch.push_back(mpx::synth(s, bits));
      if (c) ch.back().resize(ch[0].size());
    }
    return mpx::bytes(g.channels == 1 ? ch[0] : mpx::interleave(ch));
  };
  const size_t kBuffer = 8192;
  auto argsOf = [&](const Signal& g) {
    std::vector<std::string> a{"-r", std::to_string(int(g.fs))};
    if (g.channels > 1) a.push_back("-c" + std::to_string(g.channels));
    a.insert(a.end(), g.opt.begin(), g.opt.end());
    return a;
  };
  auto split = [&](const Signal& g, const std::string& out) {
    const bool hex = !g.opt.empty() && g.opt.back() == "-x";
    if (g.channels == 1) return perStream(out, hex);
    std::vector<std::string> v(size_t(g.channels) * 4);
    for (auto& l : splitLines(out)) {
      json j = json::parse(l, nullptr, false);
      const size_t k = j.is_object() ? j.value("channel", 0u) * 4 + j.value("stream", 0u) : 0;
      v[k % v.size()] += l + "\n";
    }
    return v;
  };
  r.parallel("every prefix of signals", sig.size() * 8, [&](size_t it, Worker& w) {
    const Signal& g = sig[it / 8];
    const std::string in = content(g), rep = cliReplay(argsOf(g), "", "synthesised signal");
    const auto whole = split(g, runCli(argsOf(g), in).out);
    const size_t frame = 2 * size_t(g.channels), step = r.thorough ? 2311 : 7001;
    for (size_t k = it % 8; k * step * frame < in.size(); k += 8) {
      // full buffers every other time
      size_t cut = k * step * frame;
      if (k & 8) cut -= cut % (kBuffer / size_t(g.channels) * frame);
      const auto c = runCli(argsOf(g), in.substr(0, cut));
      w.tick();
      w.transitions++;
      w.traces++;
      w.state(hash64(c.out, cut + it));
      const auto part = split(g, c.out);
      for (size_t q = 0; q < part.size(); q++) {
        w.outcome(hash64(part[q]));
        std::string o = part[q];
        if (!startsWith(whole[q], o) && countLines(o)) o = firstLines(o, countLines(o) - 1);
        if (c.status || !startsWith(whole[q], o)) return w.fail("what is printed for the first " + std::to_string(cut / frame) + " samples of a signal is changed by what follows: " + part[q].substr(0, 2000) + " / " + whole[q].substr(0, 2000), rep);
      }
    }
  });
  r.parallel("signals while they arrive", sig.size() * 2, [&](size_t it, Worker& w) {
    const Signal& g = sig[it / 2];
    const bool echo = it & 1;
    auto args = argsOf(g);
    if (echo && g.channels > 1) return;
    const std::string in = content(g), rep = cliReplay(args, "", "synthesised signal through a pipe that stays open");
    // the number of values in a buffer is the same for any number of channels, but for whole frames
    const size_t frame = 2 * size_t(g.channels), buffer = kBuffer / size_t(g.channels) * frame;
    std::vector<std::string> pieces;
    std::vector<size_t> due;
    for (size_t at = 0; at < in.size(); at += buffer) {
      pieces.push_back(in.substr(at, buffer));
      if (!r.thorough && pieces.size() % 3 != 2) {  // asking about every third buffer
        due.push_back(due.empty() ? 0 : due.back());
        continue;
      }
      // what has been received but for the last two buffers; the end of the input adds a line for each stream
      const auto part = split(g, at > buffer ? runCli(args, in.substr(0, at - buffer)).out : "");
      size_t n = 0;
      for (auto& p : part) n += countLines(p) ? countLines(p) - 1 : 0;
      due.push_back(n);
      w.tick();
    }
    if (echo) args.push_back("-e");
    const auto live = runLive(args, pieces, echo ? 2 : 1, [&](size_t k, const std::string& s) { return countLines(s) >= due[k]; });
    w.tick();
    w.transitions += pieces.size();
    w.traces++;
    w.state(it);
    w.outcome(hash64(live.out));
    if (live.late || live.status) return w.fail("after " + std::to_string(live.piece + 1) + " buffers of signal " + std::to_string(due[live.piece]) + " lines were due, but only " + std::to_string(countLines(live.at_piece)) + " were printed before more input arrived", rep);
  });
  r.info("latency", "text: none; signals: two buffers of 8192 values");
}
