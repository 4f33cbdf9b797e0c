#include <algorithm>
#include "../mpx.hh"
#include "loctab.hh"
using namespace drv;
namespace {
std::string le16(size_t n) { return std::string(2 * n, '\0'); }
// a short programme that shows the effect of every option
std::vector<G> groups(bool streams) {
  std::vector<G> v;
  const int pi = 0x5ABC;  // has an RBDS call sign
  for (int round = 0; round < 2; round++) {
    for (int i = 0; i < 4; i++) v.push_back(ps(pi, i, round ? "NEW NAME" : "OLD NAME", i == 0 ? 0xE20A : i == 1 ? 0x14CD : 0xCDCD).g);
    v.push_back(rtA(pi, 0, 0, "Some text\r").g);
    v.push_back(rtA(pi, 0, 1, "Some text\r").g);
    v.push_back(lose(ps(pi, 1, "NEW NAME"), 3).g);
    v.push_back(rtA(pi, 0, 2, "Some text\r").g);
    v.push_back(lps(pi, 0, "Long name\r").g);
    v.push_back(lose(rtA(pi, 0, 2, "Some text\r"), 0).g);
    if (streams) v.push_back(rftSeg(1, 1, 0, round, {1, 2, 3, 4, 5}).g);
    v.push_back(ps(pi, 0, "NEW NAME", 0xE30A).g);
  }
  return v;
}
const std::vector<std::string> kFlags{"-E", "-p", "-R", "-s", "-u", "-x", "-t", "--no-fec", "-e", "-c2", "-r"};
bool has(int set, const char* f) {
  for (size_t i = 0; i < kFlags.size(); i++)
    if (kFlags[i] == f) return set >> i & 1;
  return false;
}
std::vector<std::string> argsOf(int set) {
  std::vector<std::string> a;
  for (size_t i = 0; i < kFlags.size(); i++)
    if (set >> i & 1) {
      a.push_back(kFlags[i]);
      if (kFlags[i] == "-t") a.push_back("T@");
      if (kFlags[i] == "-r") a.push_back("171000");
    }
  return a;
}
orc::Opt optOf(int set) {
  orc::Opt o;
  o.bler = has(set, "-E");
  o.partial = has(set, "-p");
  o.raw = has(set, "-R");
  o.streams = has(set, "-s");
  o.rbds = has(set, "-u");
  o.fec = !has(set, "--no-fec");
  return o;
}
// lines expected for a sequence of groups
std::vector<std::string> lines(const std::vector<G>& gs, int set, int channel = -1) {
  std::vector<std::string> v;
  orc::Opt o = optOf(set);
  if (channel >= 0) {
    o.multichannel = true;
    o.channel = channel;
  }
  orc::Oracle model(o);
  for (auto& g : gs) {
    if (has(set, "-x")) {
      if (g.empty()) continue;
      std::string t = hexText(g);
      t.pop_back();
      v.push_back(t + (has(set, "-t") ? " T@" : ""));
      continue;
    }
    auto j = model.step(g);
    if (!j) continue;
    if (has(set, "-t")) (*j)["rx_time"] = "T@";
    v.push_back(CliBatch::dump(*j));
  }
  return v;
}
std::vector<std::string> normal(const std::vector<std::string>& in, bool hex, bool drop_bler = false) {
  std::vector<std::string> v;
  for (auto& l : in) {
    if (hex) {
      v.push_back(l);
      continue;
    }
    json j = json::parse(l, nullptr, false);
    if (j.is_object() && drop_bler && j.contains("bler")) j["bler"] = 0;
    v.push_back(j.is_object() ? CliBatch::dump(j) : "(bad) " + l);
  }
  return v;
}
std::string differ(const std::vector<std::string>& got, const std::vector<std::string>& want) {
  for (size_t i = 0; i < got.size() || i < want.size(); i++) {
    if (i >= got.size()) return "missing line " + want[i];
    if (i >= want.size()) return "unexpected line " + got[i];
    if (got[i] != want[i]) return "expected " + want[i] + " but got " + got[i];
  }
  return "";
}
std::string join(const std::vector<std::string>& a) {
  std::string s;
  for (auto& x : a) s += " " + x;
  return s;
}
G parseHex(const std::string& l) {
  G g;
  std::string t = l;
  if (t.compare(0, 2, "#S") == 0) {
    g.stream = t[2] - '0';
    t = t.substr(4);
  }
  for (size_t i = 0; i < 4; i++) {
    const std::string b = t.substr(i * 5, 4);
    if (b == "----") continue;
    g.has[i] = true;
    g.b[i] = u16(strtol(b.c_str(), nullptr, 16));
  }
  return g;
}
}  // namespace
CHECK(C23) {
  auto rejected = [](const CliResult& c) { return c.status > 0 && c.status < 128 && !(c.err.empty() && c.out.empty()) && c.out.find("\"pi\"") == std::string::npos && !c.timeout; };
  auto note = [](Worker& w, const CliResult& c, const std::vector<std::string>& a) {
    w.tick();
    w.traces++;
    w.transitions++;
    w.state(hash64(join(a) + c.out));
    w.outcome(hash64(c.out, uint64_t(c.status)));
  };
  // signals for raw and file input
  std::array<std::string, 4> bits;
  for (int i = 0; i < 20; i++) {
    const int pi = 0x5ABC;
    bits[0] += groupBits((i % 4 == 3 ? rtA(pi, 0, i / 4 % 3, "Some text\r") : ps(pi, i % 4, "SOMENAME", i % 4 ? 0x14CD : 0xE20A)).g);
    bits[1] += groupBits(rftSeg(1, 1, 0, i, {i, 2, 3, 4, 5}).g);
  }
  mpx::Sig sig;
  const auto sg = mpx::synth(sig, bits);
  const std::string mono = mpx::bytes(sg), duo = mpx::bytes(mpx::interleave({sg, sg}));
  char tmp[] = "/tmp/c23_XXXXXX";
  if (!mkdtemp(tmp)) throw std::runtime_error("mkdtemp");
  const std::string dir = tmp, wavfile = dir + "/mono.wav", wav2 = dir + "/duo.wav";
  writeFile(wavfile, mpx::wav(sg, 171000, 1, 0));
  writeFile(wav2, mpx::wav(mpx::interleave({sg, sg}), 171000, 2, 0));
  // ---- every combination of options with every input
  const std::vector<std::vector<std::string>> inputs{{"-i", "hex"}, {"-i", "bits"}, {"-i", "tef"}, {"-i", "mpx"}, {"-f", wavfile}};
  const std::vector<G> gh = groups(true), gn = groups(false);
  std::string hexin, tefin, bitin;
  std::vector<G> gb, gbn, gt;
  for (auto& g : gh) hexin += hexText(g);
  {
    std::string b;
    for (int i = 0; i < 2; i++)
      for (auto& g : gn) b += groupBits(g);
    // single-bit errors, which only error correction can undo
    for (size_t i = 104 * 5 + 40; i < b.size(); i += 104 * 3 + 26) b[i] ^= 1;
    bitin = b;
    orc::BitSync s1, s2;
    s2.fec = false;
    for (char c : b) {
      if (auto g = s1.push(c == '1')) gb.push_back(*g);
      if (auto g = s2.push(c == '1')) gbn.push_back(*g);
    }
    if (!s1.held().empty()) gb.push_back(s1.held());
    if (!s2.held().empty()) gbn.push_back(s2.held());
    for (auto& g : gn) {
      if (!g.has[0]) continue;
      char t[64];
      snprintf(t, sizeof t, "P%04X\nR%04X%04X%04X%02X\n", g.b[0], g.b[1], g.b[2], g.b[3], g.has[3] ? 0 : 3);
      tefin += t;
      gt.push_back(g);
    }
  }
  const int nsets = 1 << kFlags.size();
  r.parallel("every combination of options with every input", size_t(nsets), [&](size_t it, Worker& w) {
    const int set = int(it);
    static std::map<std::pair<int, int>, std::vector<G>> heard;  // what a signal contains, per --streams and --no-fec
    for (size_t k = 0; k < inputs.size(); k++) {
      const bool mpx = k == 3, file = k == 4;
      auto a = inputs[k];
      const auto fl = argsOf(set);
      if (it % 2) a.insert(a.begin(), fl.begin(), fl.end());
      else a.insert(a.end(), fl.begin(), fl.end());
      const bool reject = (has(set, "-c2") && !mpx && !file) || (has(set, "-s") && (k == 1 || k == 2)) || (has(set, "-e") && file);
      if (has(set, "-e") && !reject && !mpx) continue;  // feed-through is for raw PCM
      const std::string& in = k == 0 ? hexin : k == 1 ? bitin : k == 2 ? tefin : mpx ? (has(set, "-c2") ? duo : mono) : hexin;
      const auto c = runCli(a, in);
      note(w, c, a);
      const std::string rep = cliReplay(a, mpx ? "" : in, mpx || file ? "synthesised signal" : "");
      if (reject) {
        if (!rejected(c)) return w.fail("options" + join(a) + " must be rejected but ended with status " + std::to_string(c.status) + " and output " + c.out.substr(0, 200), rep);
        continue;
      }
      if (c.status) return w.fail("options" + join(a) + ": exit status " + std::to_string(c.status) + " " + c.err.substr(0, 300), rep);
      const bool x = has(set, "-x");
      std::string text = c.out;
      if (has(set, "-e")) {
        if (c.out != in) return w.fail("options" + join(a) + ": the input is not echoed", rep);
        text = c.err;
        while (text.compare(0, 8, "warning:") == 0) text = text.substr(text.find('\n') + 1);
      }
      auto got = normal(splitLines(text), x, mpx || file);
      std::string why;
      if (!mpx && !file) {
        const auto& gs = k == 0 ? gh : k == 2 ? gt : has(set, "--no-fec") ? gbn : gb;
        why = differ(got, lines(gs, set));
      } else {
        auto& gs = heard[{has(set, "-s"), has(set, "--no-fec")}];
        if (gs.empty()) {
          std::vector<std::string> b{"-r171000", "-x"};
          if (has(set, "-s")) b.push_back("-s");
          if (has(set, "--no-fec")) b.push_back("--no-fec");
          for (auto& l : splitLines(runCli(b, mono).out)) gs.push_back(parseHex(l));
          size_t n1 = 0;
          for (auto& g : gs) n1 += g.stream == 1;
          if (gs.size() < 15 || (has(set, "-s") ? n1 < 15 : n1 > 0)) return w.fail("the signal is not decoded: " + std::to_string(gs.size()) + " groups, " + std::to_string(n1) + " of stream 1", rep);
        }
        if (mpx && has(set, "-c2")) {
          // hex lines do not name the channel; JSON lines do
          std::vector<std::string> all;
          if (x) {
            all = got;
            auto want = lines(gs, set);
            auto w2 = want;
            want.insert(want.end(), w2.begin(), w2.end());
            std::sort(want.begin(), want.end());
            std::sort(all.begin(), all.end());
            why = differ(all, want);
          } else {
            for (int chn = 0; chn < 2 && why.empty(); chn++) {
              std::vector<std::string> mine;
              for (auto& l : got)
                if (l.find("\"channel\":" + std::to_string(chn) + ",") != std::string::npos) mine.push_back(l);
              why = differ(mine, normal(lines(gs, set, chn), false, true));
              if (mine.size() * 2 != got.size()) why = "the channels have different numbers of lines";
            }
          }
        } else {
          why = differ(got, normal(lines(gs, set), x, true));
        }
        if (why.empty() && !x && has(set, "-E"))
          for (auto& l : splitLines(text)) {
            json j = json::parse(l, nullptr, false);
            if (!j["bler"].is_number_integer() || j["bler"] < 0 || j["bler"] > 100) why = "bad bler in " + l;
          }
        if (why.empty() && file && !has(set, "-r") && !has(set, "-c2") && !c.err.empty()) why = "unexpected message " + c.err;
      }
      if (!why.empty()) return w.fail("options" + join(a) + ": " + why, rep);
    }
  });
  // ---- location tables: however often and wherever given, with every input and output
  const std::string tab1 = dir + "/tab1", tab2 = dir + "/tab2";
  loctab::save(tab1, loctab::files(loctab::network(1, 1)));
  loctab::save(tab2, loctab::files(loctab::network(2, 2)));
  {
    std::vector<G> gs;
    for (int i = 0; i < 3; i++) gs.push_back(mk(0x5ABC, blk2(1, false, 0), 0, 0));
    for (int ltn : {1, 2, 3, 1}) {
      gs.push_back(oda(0x5ABC, 16, 0xCD46, (ltn << 6) | 1).g);
      gs.push_back(grp(0x5ABC, 16, 8, (1 << 11) | 101, 102).g);
    }
    std::string hex, bin, tef;
    for (int i = 0; i < 5; i++) bin += groupBits(gs[0]);
    for (auto& g : gs) {
      hex += hexText(g);
      bin += groupBits(g);
      char t[64];
      snprintf(t, sizeof t, "P%04X\nR%04X%04X%04X00\n", g.b[0], g.b[1], g.b[2], g.b[3]);
      tef += t;
    }
    for (int i = 0; i < 5; i++) bin += groupBits(gs[0]);
    const auto sig2 = mpx::synth(mpx::Sig(), {bin, "", "", ""});
    const std::string raw = mpx::bytes(sig2), wavf = dir + "/tmc.wav";
    writeFile(wavf, mpx::wav(sig2, 171000, 1, 0));
    const std::vector<std::vector<std::string>> ins{{"-h"}, {"-b"}, {"-i", "tef"}, {"-r171k"}, {"-f", wavf}, {"-e", "-r", "171000"}};
    const std::vector<std::vector<std::string>> tabs{{}, {"-l", tab1}, {"-l" + tab1}, {"--loctable", tab1}, {"--loctable=" + tab1}, {"-l", tab2}, {"-l", tab1, "-l", tab2}, {"--loctable", tab2, "-l" + tab1}, {"-l", tab2, "-l", dir + "/none", "-l", tab1}};
    const std::vector<unsigned> loaded{0, 1, 1, 1, 1, 2, 3, 3, 3};
    const std::vector<std::vector<std::string>> outs{{}, {"-x"}, {"-p", "-R"}, {"-u", "-E"}, {"-t", "T@"}};
    r.parallel("location tables", ins.size() * tabs.size() * outs.size() * 2, [&](size_t it, Worker& w) {
      const size_t k = it % ins.size(), t = it / ins.size() % tabs.size(), o = it / ins.size() / tabs.size() % outs.size();
      const std::vector<std::vector<std::string>> parts{ins[k], tabs[t], outs[o]};
      std::vector<std::string> a;
      for (size_t q = 0; q < 3; q++)
        for (auto& s : parts[it % 2 ? 2 - q : q]) a.push_back(s);
      const auto c = runCli(a, k == 0 ? hex : k == 1 ? bin : k == 2 ? tef : raw);
      note(w, c, a);
      const std::string rep = cliReplay(a, k == 0 ? hex : "", "location tables");
      if (c.status) return w.fail("options" + join(a) + ": exit status " + std::to_string(c.status) + " " + c.err.substr(0, 200), rep);
      if (k == 5 && c.out != raw) return w.fail("options" + join(a) + ": the input is not echoed", rep);
      unsigned placed = 0;
      size_t said = 0, lines = 0;
      for (auto& l : splitLines(k == 5 ? c.err : c.out)) {
        if (l.find("\"location_table_info\"") != std::string::npos) {
          said++;
          continue;
        }
        lines++;
        if (o == 1) continue;
        const json j = json::parse(l, nullptr, false);
        if (!j.is_object()) return w.fail("options" + join(a) + ": not a JSON object: " + l, rep);
        if (!j.contains("tmc") || !j["tmc"].contains("message") || !j["tmc"]["message"].contains("coordinates")) continue;
        const long lat = loctab::bucket(j["tmc"]["message"]["coordinates"][0]["lat"].get<double>());
        placed |= lat == loctab::bucket(59.99208) ? 1 : lat == loctab::bucket(59.98208) ? 2 : 4;
      }
      if (lines < 8) return w.fail("options" + join(a) + ": only " + std::to_string(lines) + " lines", rep);
      if (said != (t == 8 ? 3u : t >= 6 ? 2u : t ? 1u : 0u)) return w.fail("options" + join(a) + ": " + std::to_string(said) + " location tables announced", rep);
      if (o != 1 && placed != (loaded[t])) return w.fail("options" + join(a) + ": messages are located with table set " + std::to_string(placed) + " instead of " + std::to_string(loaded[t]), rep);
    });
    unlink(wavf.c_str());
  }
  loctab::wipe(tab1);
  loctab::wipe(tab2);
  // ---- spellings
  struct Opt { std::vector<std::vector<std::string>> ways; };
  const std::vector<Opt> in_ways{
      {{{"-b"}, {"--input-bits"}, {"-i", "bits"}, {"-ibits"}, {"--input", "bits"}, {"--input=bits"}}},
      {{{"-h"}, {"--input-hex"}, {"-i", "hex"}, {"-ihex"}, {"--input", "hex"}, {"--input=hex"}}},
      {{{"-i", "tef"}, {"-itef"}, {"--input", "tef"}, {"--input=tef"}}},
      {{{"-i", "mpx"}, {"-impx"}, {"--input", "mpx"}, {"--input=mpx"}, {}}},
      {{{"-f", wavfile}, {"-f" + wavfile}, {"--file", wavfile}, {"--file=" + wavfile}}}};
  const std::vector<Opt> opt_ways{
      {{{"-E"}, {"--bler"}}},
      {{{"-o", "hex"}, {"-ohex"}, {"--output", "hex"}, {"--output=hex"}, {"-x"}, {"--output-hex"}}},
      {{{"-o", "json"}, {"-ojson"}, {"--output", "json"}, {"--output=json"}, {}}},
      {{{"-p"}, {"--show-partial"}}},
      {{{"-R"}, {"--show-raw"}}},
      {{{"-t", "T@"}, {"-tT@"}, {"--timestamp", "T@"}, {"--timestamp=T@"}}},
      {{{"-u"}, {"--rbds"}}},
      {{{"--no-fec"}}},
      {{{"-s"}, {"--streams"}}},
      {{{"-r", "171000"}, {"-r171000"}, {"--samplerate", "171000"}, {"--samplerate=171000"}, {"-r", "171k"}, {"-r171K"}, {"--samplerate=0.171M"}, {"-r", "171.0k"}, {"-r", "1.71e5"}}},
      {{{"-c", "1"}, {"-c1"}, {"--channels", "1"}, {"--channels=1"}}}};
  r.parallel("spellings", in_ways.size() * (opt_ways.size() + 1) * (opt_ways.size() + 1), [&](size_t it, Worker& w) {
    const size_t k = it % in_ways.size(), o1 = it / in_ways.size() % (opt_ways.size() + 1), o2 = it / in_ways.size() / (opt_ways.size() + 1);
    if (o2 > o1 || (o1 == o2 && o1 < opt_ways.size())) return;
    if ((o1 == 1 && o2 == 2) || (o1 == 2 && o2 == 1)) return;  // contradict each other
    const std::string& in = k == 0 ? bitin : k == 1 ? hexin : k == 2 ? tefin : k == 3 ? mono : hexin;
    std::string first;
    int status = 0;
    bool any = false;
    const std::vector<std::vector<std::string>> none{{}};
    const auto& w1 = o1 < opt_ways.size() ? opt_ways[o1].ways : none;
    const auto& w2 = o2 < opt_ways.size() ? opt_ways[o2].ways : none;
    for (auto& i : in_ways[k].ways)
      for (auto& x : w1)
        for (auto& y : w2) {
          if (k >= 3 && !r.thorough && (&i - &in_ways[k].ways[0]) && (&x - &w1[0]) && (&y - &w2[0])) continue;
          std::vector<std::string> a;
          const int order = int((size_t(&x - &w1[0]) + size_t(&y - &w2[0])) % 3);
          const std::vector<std::string>* parts[3] = {&i, &x, &y};
          for (int q = 0; q < 3; q++)
            for (auto& s : *parts[(q + order) % 3]) a.push_back(s);
          const auto c = runCli(a, in);
          note(w, c, a);
          if (!any) {
            any = true;
            first = c.out;
            status = c.status;
          }
          if (c.out != first || c.status != status) return w.fail("options" + join(a) + " do not give the same as their other spellings", cliReplay(a, k >= 3 ? "" : in, ""));
        }
    const bool want_reject = (o1 == 8 || o2 == 8) && (k == 0 || k == 2);
    if (want_reject != (status != 0)) w.fail("combination of input " + std::to_string(k) + " and options " + std::to_string(o1) + "," + std::to_string(o2) + ": exit status " + std::to_string(status), "see above\n");
  });
  // ---- order
  const std::vector<std::vector<std::string>> five{{"-h"}, {"-p"}, {"-R"}, {"-u"}, {"-E"}}, five2{{"-b"}, {"--no-fec"}, {"-t", "T@"}, {"-p"}, {"--show-raw"}}, five3{{"-i", "mpx"}, {"-s"}, {"-c", "2"}, {"-r", "171k"}, {"-E"}}, five4{{"-f", wavfile}, {"-s"}, {"-R"}, {"-u"}, {"-p"}}, bundle{{"-h"}, {"-p"}, {"-R"}, {"-u"}, {"-E"}};
  r.parallel("order of options", 5, [&](size_t it, Worker& w) {
    auto v = it == 0 ? five : it == 1 ? five2 : it == 2 ? five3 : it == 3 ? five4 : bundle;
    const std::string& in = it == 0 || it == 4 ? hexin : it == 1 ? bitin : it == 2 ? duo : hexin;
    std::vector<size_t> p{0, 1, 2, 3, 4};
    std::string first;
    bool any = false;
    do {
      std::vector<std::string> a;
      if (it == 4) {
        a = {"-"};
        for (size_t q : p) a[0] += v[q][0].substr(1);
      } else {
        for (size_t q : p)
          for (auto& s : v[q]) a.push_back(s);
      }
      const auto c = runCli(a, in);
      note(w, c, a);
      if (!any) first = c.out;
      any = true;
      if (c.status || c.out.empty() || c.out != first) return w.fail("the order of options matters:" + join(a), cliReplay(a, it == 2 ? "" : in, ""));
    } while (std::next_permutation(p.begin(), p.end()));
  });
  // ---- channel counts
  std::vector<std::string> counts;
  for (int i = -40; i <= 300; i++) counts.push_back(std::to_string(i));
  for (auto s : {"1000", "4096", "65535", "65536", "65537", "65568", "2147483647", "2147483648", "4294967295", "4294967296", "4294967297", "4294967328", "18446744073709551615", "18446744073709551616", "18446744073709551617", "-18446744073709551615", "-4294967295", "99999999999999999999999", "", "abc", "x2", "-", "channels"}) counts.push_back(s);
  r.parallel("channel counts", counts.size(), [&](size_t it, Worker& w) {
    const std::string& n = counts[it];
    char* end = nullptr;
    errno = 0;
    const long v = strtol(n.c_str(), &end, 10);
    const bool good = !n.empty() && !*end && errno == 0 && v >= 1 && v <= 32;
    for (int way = 0; way < 4; way++) {
      std::vector<std::string> a = way == 0 ? std::vector<std::string>{"-r171k", "-c", n} : way == 1 ? std::vector<std::string>{"--channels=" + n} : way == 2 ? std::vector<std::string>{"--channels", n, "-x"} : std::vector<std::string>{"-h", "-c" + n};
      if (way == 3 && n.empty()) continue;
      const auto c = runCli(a, way == 3 ? hexin : le16(640));
      note(w, c, a);
      const bool accept = good && (way < 3 || v == 1);
      if (accept ? c.status != 0 : !rejected(c)) return w.fail("channel count '" + n + "' must be " + (accept ? "accepted" : "rejected") + " but the program ended with status " + std::to_string(c.status), cliReplay(a, "", ""));
    }
  });
  // ---- sample rates
  struct Rate { std::string s; double v; };
  std::vector<Rate> rates;
  for (double v : {0., 1., 100., 8000., 44100., 57000., 96000., 114000., 127000., 127990., 127999., 128000., 128001., 129000., 150000., 170999., 171000., 171001., 192000., 250000., 999999., 1e6, 2.4e6, 34199999., 34200000., 34200004., 35e6, 39999996., 40e6, 40000100., 40001000., 41e6, 1e8, 2147483647., 4294967296., 4295138296., 1e10, 1e15, 1e30, -1., -128000., -171000., -1e9}) {
    char b[64];
    snprintf(b, sizeof b, "%.0f", v);
    rates.push_back({b, v});
    if (v >= 1000 && v <= 4.1e7) {
      snprintf(b, sizeof b, "%.6gk", v / 1e3);
      if (strtod(b, nullptr) * 1e3 == v) { rates.push_back({b, v}); b[strlen(b) - 1] = 'K'; rates.push_back({b, v}); }
      snprintf(b, sizeof b, "%.7gM", v / 1e6);
      if (strtod(b, nullptr) * 1e6 == v) rates.push_back({b, v});
    }
  }
  for (auto s : {"", "abc", "k", "M", "nan", "NaN", "-nan", "nank", "1e-50", "-inf", "inf", "1e400", "-k", "hz", "."}) rates.push_back({s, 0});
  r.parallel("sample rates", rates.size(), [&](size_t it, Worker& w) {
    const Rate& q = rates[it];
    const bool good = q.v >= 128000 && q.v <= 40e6;
    for (int way = 0; way < 4; way++) {
      std::vector<std::string> a = way == 0 ? std::vector<std::string>{"-r", q.s} : way == 1 ? std::vector<std::string>{"--samplerate=" + q.s, "-x"} : way == 2 ? std::vector<std::string>{"-s", "-r", q.s} : std::vector<std::string>{"-h", "-r", q.s};
      const auto c = runCli(a, way == 3 ? hexin : le16(20000));
      note(w, c, a);
      const bool accept = good && (way != 2 || q.v >= 171000);
      if (way == 3 && !good) {
        if (c.status >= 128) return w.fail("sample rate '" + q.s + "': status " + std::to_string(c.status), cliReplay(a, hexin, ""));
        continue;
      }
      if (accept ? c.status != 0 : !rejected(c)) return w.fail("sample rate '" + q.s + "' (" + join(a) + ") must be " + (accept ? "accepted" : "rejected") + " but the program ended with status " + std::to_string(c.status) + " " + c.err.substr(0, 200), cliReplay(a, "", ""));
    }
  });
  // ---- formats
  const std::vector<std::string> names{"", "hex", "HEX", "Hex", "he", "hexx", " hex", "hex ", "bits", "bit", "bitss", "BITS", "tef", "TEF", "tef6686", "mpx", "MPX", "mp", "json", "JSON", "jso", "wav", "-", "0", "raw", "xml", "hex,json", "ascii", "rds", "\xC3\xA4"};
  r.parallel("formats", names.size(), [&](size_t it, Worker& w) {
    const std::string& n = names[it];
    for (int way = 0; way < 4; way++) {
      const bool input = way < 2;
      std::vector<std::string> a = way == 0 ? std::vector<std::string>{"-i", n} : way == 1 ? std::vector<std::string>{"--input=" + n} : way == 2 ? std::vector<std::string>{"-h", "-o", n} : std::vector<std::string>{"-h", "--output=" + n};
      const bool good = input ? n == "hex" || n == "bits" || n == "tef" || n == "mpx" : n == "hex" || n == "json";
      const auto c = runCli(a, !input || n == "hex" ? hexin : n == "bits" ? bitin : n == "tef" ? tefin : mono);
      note(w, c, a);
      if (good ? c.status != 0 || c.out.empty() : !rejected(c)) return w.fail("format '" + n + "' (" + join(a) + ") must be " + (good ? "accepted" : "rejected") + " but the program ended with status " + std::to_string(c.status), cliReplay(a, hexin, ""));
    }
  });
  // ---- files
  struct File { std::string name, content; std::vector<std::string> extra; bool good; };
  std::vector<File> files;
  for (uint32_t rate : {8000u, 44100u, 96000u, 127999u, 128000u, 170999u, 171000u, 192000u, 40000000u, 40000001u, 48000000u, 100000000u})
    for (int ch : {1, 2, 3}) {
      const std::string c = mpx::wav(std::vector<int16_t>(3000, 7), rate, ch, 0);
      files.push_back({"a.wav", c, {}, rate >= 128000 && rate <= 40000000});
      files.push_back({"a.wav", c, {"-s"}, rate >= 171000 && rate <= 40000000});
      files.push_back({"a.wav", c, {"-r", "171k"}, rate >= 128000 && rate <= 40000000});
      files.push_back({"a.wav", c, {"-c", "2"}, rate >= 128000 && rate <= 40000000});
      files.push_back({"a.wav", c, {"-e"}, false});
    }
  files.push_back({"empty.wav", "", {}, false});
  files.push_back({"garbage.wav", std::string(5000, 'x'), {}, false});
  files.push_back({"trunc.wav", "RIFF\x10", {}, false});
  files.push_back({"text.wav", hexin, {}, false});
  r.parallel("files", files.size() + 3, [&](size_t it, Worker& w) {
    char t[] = "/tmp/c23f_XXXXXX";
    if (!mkdtemp(t)) throw std::runtime_error("mkdtemp");
    const std::string d = t;
    std::vector<std::string> a;
    bool good = false;
    std::string f;
    if (it < files.size()) {
      f = d + "/" + files[it].name;
      writeFile(f, files[it].content);
      a = {"-f", f};
      a.insert(a.end(), files[it].extra.begin(), files[it].extra.end());
      good = files[it].good;
    } else {
      a = {"--file", it == files.size() ? d + "/does not exist" : it == files.size() + 1 ? d : ""};
    }
    const auto c = runCli(a, "");
    note(w, c, a);
    if (!f.empty()) unlink(f.c_str());
    rmdir(t);
    if (good ? c.status != 0 : !rejected(c)) w.fail("file" + join(a) + " must be " + (good ? "accepted" : "rejected") + " but the program ended with status " + std::to_string(c.status) + " " + c.err.substr(0, 200), cliReplay(a, "", ""));
  });
  // a file gives its own rate and channels: -r and -c change nothing
  r.parallel("rate and channels of files", 4, [&](size_t it, Worker& w) {
    const std::string f = it % 2 ? wav2 : wavfile;
    const auto c0 = runCli({"-f", f, "-R"}, "");
    for (auto& ex : std::vector<std::vector<std::string>>{{"-r", "250k"}, {"-c", it % 2 ? "1" : "2"}, {"-r171k", "-c3"}, {"-r128000"}}) {
      std::vector<std::string> a{"-R"};
      if (it / 2) a.insert(a.end(), ex.begin(), ex.end());
      a.push_back("-f");
      a.push_back(f);
      if (!(it / 2)) a.insert(a.end(), ex.begin(), ex.end());
      const auto c = runCli(a, "");
      note(w, c, a);
      if (c.status || c.out != c0.out || splitLines(c.out).size() < 12) return w.fail("options" + join(a) + " change how a file is decoded", cliReplay(a, "", ""));
    }
  });
  // ---- help, version, surplus arguments
  const std::vector<std::vector<std::string>> others{{}, {"-h"}, {"-x"}, {"-p", "-R"}, {"-r", "171k"}, {"-s"}, {"-E", "-u"}, {"-i", "bits"}, {"-f", wavfile}, {"-c", "2"}};
  r.parallel("help, version, surplus arguments", others.size(), [&](size_t it, Worker& w) {
    std::string usage, version;
    auto go = [&](std::vector<std::string> a) {
      const auto c = runCli(a, hexin);
      note(w, c, a);
      return c;
    };
    for (int front = 0; front < 2; front++) {
      auto with = [&](const std::vector<std::string>& x) {
        auto a = others[it];
        a.insert(front ? a.begin() : a.end(), x.begin(), x.end());
        return a;
      };
      const auto help = go(with({"--help"}));
      if (help.status || help.out.find("--samplerate") == std::string::npos || help.out.find("\"pi\"") != std::string::npos) return w.fail("--help with" + join(others[it]) + ": status " + std::to_string(help.status), cliReplay(with({"--help"}), "", ""));
      for (auto& v : {std::string("-v"), std::string("--version")}) {
        const auto c = go(with({v}));
        if (c.status || c.out.find("redsea") != 0 || splitLines(c.out).size() != 1) return w.fail("version with" + join(others[it]) + ": status " + std::to_string(c.status) + " " + c.out.substr(0, 200), cliReplay(with({v}), "", ""));
      }
      for (auto& v : std::vector<std::vector<std::string>>{{"surplus"}, {"a", "b"}, {"--", "x"}}) {
        if (front && v[0] == "--") continue;
        const auto c = go(with(v));
        if (!rejected(c)) return w.fail("surplus argument with" + join(others[it]) + ": status " + std::to_string(c.status), cliReplay(with(v), hexin, ""));
      }
    }
  });
  unlink(wavfile.c_str());
  unlink(wav2.c_str());
  rmdir(tmp);
}
