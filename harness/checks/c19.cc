#include <cmath>
#include "../mpx.hh"
#include "cli.hh"
using namespace drv;
namespace {
// groups within which decoding must become exact: when the signal is there from the start (2.8 s), and
// after a pause (3.9 s; the gain control has to come back from silence)
constexpr size_t kAcquire = 32, kResume = 45;
// Varied groups: no pattern in them looks like a block in another position (verified below)
struct Data {
  std::string bits;
  std::vector<std::string> lines;
};
G varied(int pi, int i, int salt) {
  uint32_t x = uint32_t(i * 7919 + salt * 104729 + 12345);
  auto rnd = [&] {
    x ^= x << 13;
    x ^= x >> 17;
    x ^= x << 5;
    return int(x >> 7) & 0xFFFF;
  };
  for (int k = 0; k < 4; k++) rnd();
  static const int types[] = {0, 2, 0, 8, 0, 5, 0, 11, 2, 6};
  const int t = types[size_t(i) % 10];
  return mk(pi, blk2(t, t != 8 && i % 7 == 3, rnd() & 31, i % 2, rnd() & 31), rnd(), rnd());
}
Data data(int pi, int n, int salt, int stream = 0) {
  Data d;
  for (int i = 0; i < n; i++) {
    G g = varied(pi, i, salt);
    if (stream) {
      g = varied((salt * 977 + i * 31337) & 0x3FFF, i, salt + 17);
      g.stream = stream;
    }
    // version B repeats the PI
    if (!stream && (g.b[1] & 0x800)) g.b[2] = g.b[0];
    d.bits += groupBits(g);
    std::string t = hexText(g);
    t.pop_back();
    d.lines.push_back(t);
  }
  return d;
}
// wherever reception begins, the block synchroniser (reference) finds the right framing in a few groups
void assertUnambiguous(const Data& d) {
  for (size_t off = 0; off < 104 * 12; off++) {
    orc::BitSync s;
    size_t good = 0;
    std::vector<std::string> got;
    for (size_t i = off; i < d.bits.size(); i++)
      if (auto g = s.push(d.bits[i] == '1')) got.push_back(orc::hexLine(*g));
    while (good < got.size() && good < d.lines.size() && d.lines[d.lines.size() - 1 - good].find(got[got.size() - 1 - good]) != std::string::npos) good++;
    if (good + off / 104 + 6 < d.lines.size()) throw std::runtime_error("ambiguous data at offset " + std::to_string(off) + " good " + std::to_string(good));
  }
}
// "" or what is wrong; lost: groups before decoding became exact
std::string tail(const std::vector<std::string>& got, const std::vector<std::string>& sent, size_t& lost, size_t bound = kAcquire, size_t extra = 8) {
  size_t ok = 0;
  while (ok < got.size() && ok < sent.size() && got[got.size() - 1 - ok] == sent[sent.size() - 1 - ok]) ok++;
  lost = sent.size() - ok;
  if (lost > bound) {
    if (got.empty()) return "nothing was decoded";
    return "only the last " + std::to_string(ok) + " of " + std::to_string(sent.size()) + " groups were decoded exactly; before them came " + (ok < got.size() ? got[got.size() - 1 - ok] : "nothing") + " instead of " + sent[sent.size() - 1 - ok];
  }
  if (got.size() > sent.size() + extra) return "too many groups: " + std::to_string(got.size());
  return "";
}
std::string show(const mpx::Sig& s) {
  char b[200];
  snprintf(b, sizeof b, "rate %.0f level %g phase %.3f bit phase %.3f ppm %g noise %g pilot %g audio %g", s.fs, s.level, s.phase, s.bit_phase, s.ppm, s.noise, s.pilot, s.audio);
  return b;
}
}  // namespace
CHECK(C19) {
  const Data d0 = data(kPI, 45, 1);
  assertUnambiguous(d0);
  auto note = [&](Worker& w, const CliResult& c, size_t lost, size_t n) {
    w.tick();
    w.traces++;
    w.transitions += n;
    w.state(hash64(c.out, lost));
    w.outcome(lost);
  };
  auto one = [&](Worker& w, const mpx::Sig& s, const Data& d, bool fec, const std::string& rate = "", size_t bound = kAcquire) {
    const auto sig = mpx::synth(s, {d.bits, "", "", ""});
    std::vector<std::string> a{"-r", rate.empty() ? std::to_string(long(s.fs)) : rate, "-x"};
    if (!fec) a.push_back("--no-fec");
    CliOpt co;
    co.timeout_s = 120;
    const auto c = runCli(a, mpx::bytes(sig), co);
    size_t lost = 0;
    std::string why = c.status ? "exit status " + std::to_string(c.status) + " " + c.err.substr(0, 300) : tail(splitLines(c.out), d.lines, lost, bound, bound > kAcquire ? 400 : 8);
    note(w, c, lost, d.lines.size());
    if (getenv("C19_SHOW")) fprintf(stderr, "LOST %zu %s\n", lost, show(s).c_str());
    if (why.empty()) return true;
    w.fail(show(s) + (fec ? "" : ", no error correction") + ": " + why, cliReplay(a, "", "synthesised signal: " + show(s)));
    return false;
  };
  const std::vector<double> rates{128000, 129000, 130000, 131072, 133333, 135000, 137000, 140000, 144000, 150000, 152000, 156250, 160000, 165000, 168000, 170000, 170500, 170999, 171000, 171001, 171500, 172000, 176400, 180000, 186000, 190000, 192000, 200000, 210000, 216000, 220500, 228000, 240000, 242000, 250000, 256000, 264600, 288000, 300000, 320000, 342000, 352800, 384000, 400000, 456000, 480000, 500000};
  // ---- fast rates first (they take the longest)
  {
    const Data d = data(kPI, 40, 3);
    assertUnambiguous(d);
    const std::vector<double> fast{40000000, 20000000, 10000000, 8000000, 6400000, 5000000, 4000000, 3200000, 2560000, 2400000, 2048000, 2000000, 1920000, 1536000, 1200000, 1024000, 1000000, 960000, 768000, 705600};
    r.parallel("fast sample rates", fast.size(), [&](size_t it, Worker& w) {
      mpx::Sig s;
      s.fs = fast[it];
      s.phase = 0.7 * double(it);
      s.bit_phase = 0.37 * double(it % 3);
      one(w, s, d, false, it % 3 == 1 && long(fast[it]) % 1000 == 0 ? std::to_string(long(fast[it] / 1000)) + "k" : "");
    });
  }
  const size_t np = r.thorough ? 24 : 6, nb = r.thorough ? 8 : 2;
  r.parallel("sample rates x carrier phase x bit phase", rates.size() * np * nb, [&](size_t it, Worker& w) {
    mpx::Sig s;
    s.fs = rates[it % rates.size()];
    s.phase = 2 * M_PI * double(it / rates.size() % np) / double(np);
    s.bit_phase = double(it / rates.size() / np) / double(nb);
    one(w, s, d0, false);
  });
  const std::vector<double> levels{0.0002, 0.0003, 0.0005, 0.001, 0.002, 0.005, 0.01, 0.02, 0.05, 0.1, 0.2, 0.3, 0.45};
  r.parallel("levels", levels.size() * np * 2, [&](size_t it, Worker& w) {
    mpx::Sig s;
    s.level = levels[it % levels.size()];
    s.phase = 2 * M_PI * double(it / levels.size() % np) / double(np);
    if (it / levels.size() / np) s.fs = 240000;
    if (s.level > 0.2) s.audio = 0.05;
    one(w, s, d0, false);
  });
  const std::vector<double> ppms{-200, -150, -100, -70, -50, -30, -20, -10, -5, 5, 10, 20, 30, 50, 70, 100, 150, 200};
  r.parallel("clock errors", ppms.size() * np * 2, [&](size_t it, Worker& w) {
    mpx::Sig s;
    s.ppm = ppms[it % ppms.size()];
    s.phase = 2 * M_PI * double(it / ppms.size() % np) / double(np);
    if (it / ppms.size() / np) s.fs = 192000;
    one(w, s, d0, false);
  });
  const std::vector<double> noises{0.001, 0.003, 0.01, 0.02, 0.03};
  r.parallel("noise", noises.size() * np * 2, [&](size_t it, Worker& w) {
    mpx::Sig s;
    s.noise = noises[it % noises.size()];
    s.phase = 2 * M_PI * double(it / noises.size() % np) / double(np);
    s.noise_seed = uint32_t(it) + 1;
    if (it / noises.size() / np) s.fs = 192000;
    one(w, s, d0, true);
  });
  // ---- programme content: no pilot, no audio, strong audio
  r.parallel("programme", 3 * 4 * np, [&](size_t it, Worker& w) {
    mpx::Sig s;
    s.pilot = it % 3 == 0 ? 0 : 0.09;
    const double au[] = {0, 0.1, 0.3, 0.5};
    s.audio = au[it / 3 % 4];
    s.phase = 2 * M_PI * double(it / 12) / double(np);
    one(w, s, d0, false);
  });
  const Data dl = data(kPI, 90, 2);
  assertUnambiguous(dl);
  // ---- start phase: nothing, noise or programme before the subcarrier begins
  r.parallel("late start", 3 * 6 * np, [&](size_t it, Worker& w) {
    mpx::Sig s;
    const double leads[] = {0.01, 0.1, 0.5, 1.3, 4, 16};
    s.lead = leads[it / 3 % 6];
    s.phase = 2 * M_PI * double(it / 18) / double(np);
    if (it % 3 == 1) s.pilot = s.audio = 0;
    if (it % 3 == 2) s.noise = 0.003;
    one(w, s, dl, it % 3 == 2, "", kResume);
  });
  r.parallel("late start at any level", levels.size() * 3 * np, [&](size_t it, Worker& w) {
    mpx::Sig s;
    const double leads[] = {0.3, 0.8, 2.5};
    s.level = levels[it % levels.size()];
    s.lead = leads[it / levels.size() % 3];
    s.phase = 2 * M_PI * double(it / levels.size() / 3) / double(np);
    s.pilot = s.audio = 0;
    one(w, s, dl, false, "", kResume);
  });
  // ---- sound files
  const std::vector<double> frates{128000, 171000, 176400, 192000, 228000, 250000, 384000};
  r.parallel("sound files", frates.size() * 4 * 3, [&](size_t it, Worker& w) {
    mpx::Sig s;
    s.fs = frates[it % frates.size()];
    const int kind = int(it / frates.size() % 4), ch = int(it / frates.size() / 4) + 1;
    s.phase = double(it);
    std::vector<std::vector<int16_t>> v;
    std::vector<Data> d;
    for (int c = 0; c < ch; c++) {
      d.push_back(data(0x1111 * (c + 1), 45, c + 5));
      v.push_back(mpx::synth(s, {d.back().bits, "", "", ""}));
    }
    char tmp[] = "/tmp/c19_XXXXXX";
    if (!mkdtemp(tmp)) throw std::runtime_error("mkdtemp");
    const std::string f = std::string(tmp) + "/a.wav", bytes = mpx::wav(mpx::interleave(v), uint32_t(s.fs), ch, kind);
    writeFile(f, bytes);
    for (int viaStdin = 0; viaStdin < 2; viaStdin++) {
      std::vector<std::string> a{"-R", viaStdin ? "--file=-" : "-f" + f};
      const auto c = runCli(a, viaStdin ? bytes : "");
      std::vector<std::vector<std::string>> got(static_cast<size_t>(ch));
      std::string why = c.status ? "exit status " + std::to_string(c.status) + " " + c.err.substr(0, 300) : "";
      for (auto& l : splitLines(c.out)) {
        json j = json::parse(l, nullptr, false);
        if (!j.is_object() || j.contains("channel") != (ch > 1) || !j.contains("raw_data")) { why = "bad line " + l; break; }
        const int k = ch > 1 ? j["channel"].get<int>() : 0;
        if (k < 0 || k >= ch) { why = "bad channel in " + l; break; }
        got[size_t(k)].push_back(j["raw_data"].get<std::string>());
      }
      size_t lost = 0;
      for (int k = 0; k < ch && why.empty(); k++) {
        why = tail(got[size_t(k)], d[size_t(k)].lines, lost);
        if (!why.empty()) why = "channel " + std::to_string(k) + ": " + why;
      }
      note(w, c, lost, 45 * size_t(ch));
      if (!why.empty()) {
        w.fail("sound file, sample format " + std::to_string(kind) + ", " + std::to_string(ch) + " channels, " + show(s) + ": " + why, cliReplay(a, "", "synthesised file"));
        break;
      }
    }
    unlink(f.c_str());
    rmdir(tmp);
  });
  // ---- RDS2 subcarriers
  std::array<Data, 4> ds;
  for (int k = 0; k < 4; k++) {
    ds[size_t(k)] = data(kPI, 45, 11 + k, k);
    assertUnambiguous(ds[size_t(k)]);
  }
  const std::vector<double> srates{171000, 172000, 176400, 180000, 192000, 200000, 228000, 240000, 250000, 256000, 300000, 384000};
  r.parallel("RDS2 streams", srates.size() * np * 15 / (r.thorough ? 1 : 3), [&](size_t it, Worker& w) {
    mpx::Sig s;
    s.fs = srates[it % srates.size()];
    s.phase = 2 * M_PI * double(it / srates.size() % np) / double(np);
    s.bit_phase = 0.17 * double(it / srates.size() % 5);
    // which subcarriers exist
    const int set = r.thorough ? int(it / srates.size() / np) + 1 : std::array<int, 5>{15, 1, 3, 5, 9}[it / srates.size() / np];
    std::array<std::string, 4> b;
    for (int k = 0; k < 4; k++)
      if (set >> k & 1) b[size_t(k)] = ds[size_t(k)].bits;
    const auto sig = mpx::synth(s, b);
    const std::vector<std::string> a{"-r", std::to_string(long(s.fs)), "-x", "-s", "--no-fec"};
    const auto c = runCli(a, mpx::bytes(sig));
    std::array<std::vector<std::string>, 4> got;
    std::string why = c.status ? "exit status " + std::to_string(c.status) + " " + c.err.substr(0, 300) : "";
    for (auto& l : splitLines(c.out)) {
      const int k = l.compare(0, 2, "#S") ? 0 : l[2] - '0';
      if (k < 0 || k > 3) why = "bad line " + l;
      else got[size_t(k)].push_back(l);
    }
    size_t lost = 0, most = 0;
    for (int k = 0; k < 4 && why.empty(); k++) {
      if (!(set >> k & 1)) continue;
      why = tail(got[size_t(k)], ds[size_t(k)].lines, lost);
      most = std::max(most, lost);
      if (!why.empty()) why = "stream " + std::to_string(k) + ": " + why;
    }
    note(w, c, most, 45 * 4);
    if (!why.empty()) w.fail("subcarriers " + std::to_string(set) + ", " + show(s) + ": " + why, cliReplay(a, "", "synthesised signal with subcarriers " + std::to_string(set) + ": " + show(s)));
  });
  // ---- loss of signal, then another station
  const Data d2 = data(0xC0DE, 90, 21);
  assertUnambiguous(d2);
  r.parallel("loss and another station", 4 * 4 * np * 2, [&](size_t it, Worker& w) {
    mpx::Sig a, b, q;
    const double gaps[] = {1, 6, 12, 25};
    q.lead = gaps[it / 4 % 4];
    switch (it % 4) {
      case 0: q.noise = 0.05; q.pilot = q.audio = 0; break;
      case 1: break;  // programme without RDS
      case 2: q.pilot = q.audio = 0; break;  // digital silence
      default: q.noise = 0.005; q.audio = 0;
    }
    b.phase = 2 * M_PI * double(it / 16 % np) / double(np);
    b.bit_phase = 0.31;
    b.ppm = a.ppm = it / 16 / np ? 30 : 0;
    a.tail = b.tail;
    auto v = mpx::synth(a, {d0.bits, "", "", ""});
    for (auto x : mpx::synth(q, {"", "", "", ""})) v.push_back(x);
    for (auto x : mpx::synth(b, {d2.bits, "", "", ""})) v.push_back(x);
    const std::string in = mpx::bytes(v);
    size_t lost = 0;
    {
      const std::vector<std::string> ar{"-r", "171k", "-x"};
      const auto c = runCli(ar, in);
      std::string why = c.status ? "exit status " + std::to_string(c.status) + " " + c.err.substr(0, 300) : tail(splitLines(c.out), d2.lines, lost, kResume, 1000);
      note(w, c, lost, 105);
    if (getenv("C19_SHOW")) fprintf(stderr, "LOST %zu %s\n", lost, show(b).c_str());
      if (!why.empty()) return w.fail("gap of " + std::to_string(int(q.lead)) + " s of kind " + std::to_string(it % 4) + ", then " + show(b) + ": " + why, cliReplay(ar, "", "synthesised signal"));
    }
    {
      const std::vector<std::string> ar{"-r", "171k", "-R"};
      const auto c = runCli(ar, in);
      // every line of the second station, as the reference decoder sees that station alone
      std::map<std::string, size_t> where;
      const auto l = splitLines(c.out);
      size_t n = 0;
      for (auto& x : l) {
        json j = json::parse(x, nullptr, false);
        if (j.is_object() && j.value("pi", "") == "0xC0DE") n++;
      }
      note(w, c, n, 105);
      if (n + kResume + 4 < 90) return w.fail("after a gap of " + std::to_string(int(q.lead)) + " s only " + std::to_string(n) + " groups of the new station were decoded", cliReplay(ar, "", "synthesised signal: " + show(b)));
      json last = json::parse(l.back(), nullptr, false);
      if (last.value("pi", "") != "0xC0DE" || last.value("raw_data", "") != d2.lines.back()) return w.fail("the last line is " + l.back(), cliReplay(ar, "", "synthesised signal: " + show(b)));
    }
  });
  // ---- after a long loss nothing received before is used, whichever station follows
  r.parallel("fresh start after a long loss", 4 * 2 * 2 * 2, [&](size_t it, Worker& w) {
    const bool same = it & 1, partial = it & 2;
    const int nch = it & 4 ? 2 : 1;
    auto story = [](int pi, const std::string& name, const std::string& text, int from, int n) {
      std::string b;
      for (int i = from; i < from + n; i++) b += groupBits((i % 3 == 0 ? rtA(pi, 0, i / 3 % 6, text) : i % 3 == 1 ? ptyn(pi, 0, i / 3 % 2, "Pop hits") : ps(pi, i / 3 % 4, name)).g);
      return b;
    };
    mpx::Sig a, b, q;
    q.lead = 18 + double(it % 3);
    if (it / 8 == 0) q.pilot = q.audio = 0;
    if (it / 8 == 1) q.audio = 0;
    b.phase = 1.3;
    b.bit_phase = 0.4;
    const int pi2 = same ? kPI : 0xC0DE;
    auto v = mpx::synth(a, {story(kPI, "ALPHA FM", "The text of old\rThe end", 0, 72), "", "", ""});
    for (auto x : mpx::synth(q, {"", "", "", ""})) v.push_back(x);
    const size_t first_part = v.size();
    for (auto x : mpx::synth(b, {story(pi2, "BETA FM ", "A new text comes\rhere", 7, 70), "", "", ""})) v.push_back(x);
    std::vector<int16_t> first(v.begin(), v.begin() + long(first_part));
    const size_t at = it / 8 % 2;  // the channel that carries it
    auto input = [&](std::vector<int16_t> x) {
      if (nch == 1) return mpx::bytes(x);
      std::vector<std::vector<int16_t>> m(2, std::vector<int16_t>(x.size(), 0));
      m[at] = x;
      return mpx::bytes(mpx::interleave(m));
    };
    std::vector<std::string> ar{"-r", "171k"}, ah{"-h", "-R"};
    if (nch > 1) ar.push_back("-c2");
    ar.push_back("-R");
    if (partial) ar.push_back("-p"), ah.push_back("-p");
    CliOpt co;
    co.timeout_s = 120;
    auto received = [&](const std::vector<int16_t>& x) {
      std::vector<json> j;
      for (auto& l : splitLines(runCli(ar, input(x), co).out)) j.push_back(json::parse(l, nullptr, false));
      return j;
    };
    const auto before = received(first);
    auto lines = received(v);
    w.traces += 3;
    w.tick();
    const std::string rep = cliReplay(ar, "", "synthesised signal with a gap of " + std::to_string(q.lead) + " s");
    if (lines.size() < 65 + 40 || lines.size() > 72 + 70 + 12) return w.fail(std::to_string(lines.size()) + " lines instead of about 140", rep);
    size_t cut = 0;
    while (cut < before.size() && cut < lines.size() && before[cut] == lines[cut]) cut++;
    if (cut + 12 < before.size()) return w.fail("what was received before the gap depends on what follows it", rep);
    // what was received after the gap, given to a decoder that has not received anything else
    std::string text;
    for (size_t i = 0; i < lines.size(); i++) {
      auto& j = lines[i];
      if (!j.is_object() || !j.contains("raw_data") || (nch > 1 && j.value("channel", -1) != int(at))) return w.fail("line " + j.dump(), rep);
      if (i >= cut) text += j["raw_data"].get<std::string>() + "\n";
      j.erase("channel");
    }
    const auto expect = splitLines(runCli(ah, text).out);
    w.transitions += lines.size();
    w.outcome(hash64(text, lines.size()));
    if (getenv("C19_SHOW")) fprintf(stderr, "FRESH %zu cut=%zu lines=%zu expect=%zu\n", it, cut, lines.size(), expect.size());
    // the first groups tell the PI; the decoder keeps to the old one until then
    if (expect.size() > lines.size() - cut || expect.size() + 12 < lines.size() - cut) return w.fail("PI confirmed after " + std::to_string(long(lines.size() - cut) - long(expect.size())) + " groups", rep);
    for (size_t i = 0; i < expect.size(); i++) {
      const std::string e = CliBatch::dump(json::parse(expect[i], nullptr, false)), g = CliBatch::dump(lines[lines.size() - expect.size() + i]);
      if (e != g) return w.fail("after a gap of " + std::to_string(q.lead) + " s: expected " + e + " but got " + g, rep);
    }
    w.state(hash64(text, it));
  });
  // ---- a station of another level after a gap
  const std::vector<double> jl{0.0005, 0.003, 0.01, 0.06, 0.2, 0.45};
  r.parallel("levels of successive stations", jl.size() * jl.size() * 3 * np / 3, [&](size_t it, Worker& w) {
    mpx::Sig a, b, q;
    const double gaps[] = {0.02, 0.9, 3};
    a.level = jl[it % jl.size()];
    b.level = jl[it / jl.size() % jl.size()];
    q.lead = gaps[it / jl.size() / jl.size() % 3];
    q.pilot = q.audio = 0;
    a.audio = b.audio = 0.05;
    b.phase = 0.4 + 2 * M_PI * double(it / jl.size() / jl.size() / 3) * 3 / double(np);
    b.bit_phase = 0.43;
    auto v = mpx::synth(a, {d0.bits, "", "", ""});
    for (auto x : mpx::synth(q, {"", "", "", ""})) v.push_back(x);
    for (auto x : mpx::synth(b, {d2.bits, "", "", ""})) v.push_back(x);
    size_t lost = 0;
    const std::vector<std::string> ar{"-r", "171k", "-x"};
    const auto c = runCli(ar, mpx::bytes(v));
    std::string why = c.status ? "exit status " + std::to_string(c.status) + " " + c.err.substr(0, 300) : tail(splitLines(c.out), d2.lines, lost, kResume, 1000);
    note(w, c, lost, 135);
    if (getenv("C19_SHOW")) fprintf(stderr, "LOST %zu %s\n", lost, show(b).c_str());
    if (!why.empty()) return w.fail("station of level " + std::to_string(a.level) + ", gap of " + std::to_string(q.lead) + " s, then " + show(b) + ": " + why, cliReplay(ar, "", "synthesised signal"));
  });
  r.info("acquisition_bound_groups", kAcquire);
  r.info("acquisition_bound_groups_after_pause", kResume);
}
