#include <cmath>
#include <ctime>
#include "../clock.hh"
#include "../mpx.hh"
#include "cli.hh"
using namespace drv;
namespace {
constexpr long long kMs = 1000000, kSec = 1000 * kMs;
// what the line says
std::string rxTime(const std::string& line) {
  json j = json::parse(line, nullptr, false);
  if (!j.is_object() || !j.contains("rx_time") || !j["rx_time"].is_string()) return "(none)";
  return j["rx_time"].get<std::string>();
}
std::string format(long long ns, std::string f) {
  const time_t s = time_t(ns / kSec);
  const long long h = ns % kSec / (10 * kMs);
  std::string out;
  for (size_t i = 0; i < f.size(); i++) {
    if (f.compare(i, 2, "%f") == 0) {
      out += char('0' + h / 10);
      out += char('0' + h % 10);
      i++;
    } else {
      out += f[i];
    }
  }
  char b[512];
  struct tm t;
  localtime_r(&s, &t);
  return strftime(b, sizeof b, out.c_str(), &t) ? b : "?";
}
long long parseTime(const std::string& s) {  // "%s.%f"
  long long a = -1;
  int h = -1;
  if (sscanf(s.c_str(), "%lld.%2d", &a, &h) != 2) return -1;
  return a * 100 + h;
}
Env stamped(const std::string& f, bool hex = false, int pi = kPI) {
  Env e;
  e.pi = pi;
  e.opt.timestamp = true;
  e.opt.time_format = f;
  e.opt.hex_out = hex;
  return e;
}
std::string stampOf(const std::string& line, bool hex) {
  if (!hex) return rxTime(line);
  std::string l = line;
  while (!l.empty() && l.back() == '\n') l.pop_back();
  return l.size() > 20 ? l.substr(20) : "(none)";
}
void useTZ(const std::string& tz) {
  setenv("TZ", tz.c_str(), 1);
  tzset();
}
std::string describe(const std::vector<long long>& v) {
  std::string s;
  for (auto x : v) s += " " + std::to_string(x);
  return s;
}
const long long kBase = 1767225600LL * kSec;  // 2026-01-01T00:00:00Z
}  // namespace
CHECK(C22) {
  if (!fake::available()) throw std::runtime_error("C22 needs the interposed clock");
  const G g0 = ps(kPI, 0, "AB").g;
  // ---- formats: every conversion, every zone, instants around all kinds of boundaries
  const std::vector<std::string> zones{"UTC", "EET-2EEST,M3.5.0/3,M10.5.0/4", "EST5EDT,M3.2.0,M11.1.0", "XXX-5:45", "YYY9:30", "ZZZ-14", "LHST-10:30LHDT-11,M10.1.0,M4.1.0"};
  std::vector<std::string> formats;
  for (char c : std::string("aAbBcCdDeFgGhHIjmMpPrRsSTuUVwWxXyYzZ")) {
    formats.push_back(std::string("%") + c);
    formats.push_back(std::string("<%") + c + ".%f>");
    formats.push_back(std::string("%f %") + c);
  }
  for (auto f : {"%Y-%m-%dT%H:%M:%S.%f", "%c", "%f", "plain", "%%", "%Y-%m-%dT%H:%M:%S%z", "%d.%m.%Y \"%H\"", "100%% %f", "%H\\%M"}) formats.push_back(f);
  std::vector<long long> instants;
  for (long long s : {1767225599LL, 1767225600LL, 1709164799LL, 1709164800LL, 1709251199LL, 1709251200LL, 1774746000LL, 1774745999LL, 1792886400LL, 0LL, 1LL, 86399LL, 2147483647LL, 2147483648LL, 4102444799LL, 1718000000LL, 951782399LL, 951868800LL})
    for (long long f : {0LL, 1LL, 9999999LL, 10000000LL, 499999999LL, 500000000LL, 989999999LL, 990000000LL, 994999999LL, 995000000LL, 999000000LL, 999999999LL}) instants.push_back(s * kSec + f);
  r.parallel("formats", zones.size() * formats.size(), [&](size_t it, Worker& w) {
    const std::string tz = zones[it % zones.size()], f = formats[it / zones.size()];
    useTZ(tz);
    for (int hex = 0; hex < 2; hex++)
      for (auto t : instants) {
        fake::set(t);
        auto im = makeImpl(stamped(f, hex).opt, kPI);
        im->take();
        im->group(g0);
        const std::string got = stampOf(im->take(), hex);
        fake::off();
        const std::string want = format(t, f);
        w.transitions++;
        w.traces++;
        w.tick();
        w.outcome(hash64(want));
        w.state(hash64(want, uint64_t(t)));
        if (got != want) return w.fail("TZ=" + tz + " format '" + f + "' time " + std::to_string(t) + ": expected '" + want + "' but got '" + got + "'", "timestamp of one group, see above\n");
      }
  });
  useTZ("UTC");
  // ---- every hundredth (and its edges) of a second
  r.parallel("every fraction of a second", 1000, [&](size_t it, Worker& w) {
    for (long long sub : {0LL, 1LL, 499999LL, 500000LL, 999999LL})
      for (long long s : {1767225599LL, 1767225659LL, 1234567890LL}) {
        const long long t = s * kSec + (long long)it * kMs + sub;
        fake::set(t);
        const std::string f = "%Y-%m-%d %H:%M:%S.%f";
        auto im = makeImpl(stamped(f).opt, kPI);
        im->take();
        im->group(g0);
        const std::string got = rxTime(im->take()), want = format(t, f);
        fake::off();
        w.transitions++;
        w.traces++;
        w.outcome(hash64(want));
        w.state(uint64_t(t));
        if (got != want) return w.fail("time " + std::to_string(t) + ": expected '" + want + "' but got '" + got + "'", "timestamp of one group, see above\n");
      }
    w.tick();
  });
  // ---- every history of the system clock, groups one by one
  const std::vector<long long> steps{0, 10 * kMs, kSec, -10 * kMs, -kSec, -3600 * kSec, 86400 * kSec};
  const int depth = r.thorough ? 8 : 6;
  size_t total = 1;
  for (int i = 0; i < depth - 2; i++) total *= steps.size();
  r.parallel("every history of the clock", steps.size() * steps.size(), [&](size_t it, Worker& w) {
    const std::vector<G> kinds{g0, ps(kPI, 1, "ABCD").g, mk(kPI, -1, -1, -1), rftSeg(1, 1, 0, 0, {1, 2, 3, 4, 5}).g};
    for (size_t k = 0; k < total; k++)
      for (int hex = 0; hex < 2; hex++) {
        auto im = makeImpl(stamped("%s.%f", hex).opt, kPI);
        im->take();
        long long now = kBase, last = -1;
        std::vector<long long> readings;
        size_t q = k;
        for (int d = 0; d < depth; d++) {
          const size_t s = d == 0 ? it / steps.size() : d == 1 ? it % steps.size() : q % steps.size();
          if (d >= 2) q /= steps.size();
          now += steps[s];
          readings.push_back(now);
          fake::set(now);
          im->group(kinds[size_t(d) % (hex ? 3 : 4)]);
          fake::off();
          const long long got = parseTime(stampOf(im->take(), hex));
          last = std::max(last, now);
          const long long want = last / (10 * kMs);
          w.transitions++;
          w.outcome(uint64_t(want - kBase / (10 * kMs)));
          if (got != want) return w.fail("clock readings" + describe(readings) + ": expected " + std::to_string(want) + " but got " + std::to_string(got) + " hundredths", "groups processed at these clock readings (ns)\n");
        }
        w.state(hash64(describe(readings)));
        w.traces++;
      }
    w.tick();
  });
  // ---- buffered bits
  std::string bits;
  for (int i = 0; i < 12; i++) bits += groupBits(ps(kPI, i % 4, "ALPHA FM").g);
  std::string bits2;
  for (int i = 0; i < 12; i++) bits2 += groupBits(rftSeg(1, 1, 0, i, {1, 2, 3, 4, i}).g);
  struct Pace { const char* name; double rate; double jump; };
  const std::vector<Pace> paces{{"real time", 1, 0}, {"ten times too fast", 0.1, 0}, {"all at once", 0, 0}, {"twice too slow", 2, 0}, {"clock set back in the middle", 1, -5}, {"clock set forward in the middle", 1, 7}, {"clock set back a little", 1, -0.05}, {"clock set back a lot while too fast", 0.1, -3600}};
  r.parallel("buffered bits", paces.size() * 160, [&](size_t it, Worker& w) {
    const Pace& pc = paces[it / 160];
    // buffer sizes: fixed 1..130, or two alternating sizes
    const size_t k = it % 160;
    for (int streams = 1; streams <= 2; streams++)
      for (int hex = 0; hex < 2; hex++) {
        if (streams == 2 && hex) continue;
        auto im = makeImpl(stamped("%s.%f", hex, kPI).opt, kPI);
        im->take();
        std::array<orc::BitSync, 2> sync;
        orc::Oracle model{orc::Opt{}, u16(kPI)};
        double now = double(kBase);
        double last = 0, any = 0;
        size_t at = 0, n = 0;
        std::string trail;
        while (at < bits.size()) {
          size_t len = k < 130 ? k + 1 : (n % 2 ? (k - 129) * 37 % 301 + 1 : (k - 129) * 11 + 1);
          len = std::min(len, bits.size() - at);
          now += double(len) / 1187.5 * 1e9 * pc.rate;
          if (at <= bits.size() / 2 && at + len > bits.size() / 2) now += pc.jump * 1e9;
          std::vector<int> b[4];
          for (size_t i = 0; i < len; i++) {
            b[0].push_back(bits[at + i] == '1');
            if (streams == 2) b[1].push_back(bits2[at + i] == '1');
          }
          const long long t = (long long)now;
          fake::set(t);
          std::vector<std::string> lines;
          im->buffer(b, t, streams);
          fake::off();
          lines = splitLines(im->take());
          size_t li = 0;
          for (int st = 0; st < streams; st++)
            for (size_t i = 0; i < len; i++) {
              auto g = sync[size_t(st)].push((st ? bits2 : bits)[at + i] == '1');
              if (!g) continue;
              g->stream = st;
              const bool printed = model.step(*g).has_value();
              const double exact = double(t) - double(len - 1 - i) / 1187.5 * 1e9;
              any = std::max(any, exact);  // groups that are not printed have a time, too
              if (g->empty() || !(printed || hex)) continue;
              const double want = std::max(last, exact), latest = std::max(want, any);
              if (li >= lines.size()) return w.fail("no line for a group", std::string("pace ") + pc.name + "\n");
              const long long got = parseTime(stampOf(lines[li++], hex));
              const double gotns = double(got) * 1e7;
              w.transitions++;
              w.outcome(hash64(std::to_string(got)));
              trail += " " + std::to_string(got);
              if (!(gotns <= latest + 11e6 && gotns >= want - 22e6)) return w.fail(std::string("pace: ") + pc.name + ", buffers of " + std::to_string(len) + " bits, streams " + std::to_string(streams) + ": a group ended at bit " + std::to_string(i) + " of a buffer received at " + std::to_string(t) + " ns, expected about " + std::to_string((long long)(want / 1e7)) + " but got " + std::to_string(got) + " hundredths", "see above\n");
              last = gotns;
            }
          if (li != lines.size()) return w.fail("more lines than groups", std::string("pace ") + pc.name + "\n");
          // exact monotonicity of what is printed
          at += len;
          n++;
        }
        long long prev = -1;
        std::stringstream ss(trail);
        for (long long v; ss >> v;) {
          if (v < prev) return w.fail(std::string("times decrease: ") + trail, std::string("pace ") + pc.name + "\n");
          prev = v;
        }
        w.state(hash64(trail));
        w.traces++;
      }
    w.tick();
  });
  // ---- whole program: text inputs, every history of clock readings
  const int cdepth = r.thorough ? 5 : 4;
  size_t ctotal = 1;
  for (int i = 0; i < cdepth; i++) ctotal *= 5;
  const std::vector<long long> csteps{0, 15 * kMs, 2 * kSec, -20 * kMs, -100 * kSec};
  r.parallel("text inputs and clock readings", ctotal, [&](size_t it, Worker& w) {
    std::string hexin, tefin, bitin;
    for (int i = 0; i < cdepth + 6; i++) {
      const G g = ps(kPI, i % 4, "ALPHA FM").g;
      hexin += hexText(g);
      char b[64];
      snprintf(b, sizeof b, "P%04X\nR%04X%04X%04X00\n", g.b[0], g.b[1], g.b[2], g.b[3]);
      tefin += b;
      bitin += groupBits(g);
    }
    std::vector<long long> plan{kBase, kBase + 5 * kMs, kBase};
    std::set<long long> maxima;
    size_t q = it;
    for (int d = 0; d < cdepth; d++) {
      plan.push_back(plan.back() + csteps[q % 5]);
      q /= 5;
    }
    plan.push_back(plan.back() - kSec);
    plan.push_back(plan.back() + kSec + kSec / 2);
    long long m = 0;
    for (auto x : plan) {
      m = std::max(m, x);
      maxima.insert(m / (10 * kMs));
    }
    for (int f = 0; f < 3; f++)
      for (int hex = 0; hex < 2; hex++) {
        std::vector<std::string> a{f == 0 ? "-h" : f == 1 ? "-itef" : "-b", "-t", "%s.%f"};
        if (hex) a.push_back("-x");
        fake::schedule(plan);
        const auto c = runCli(a, f == 0 ? hexin : f == 1 ? tefin : bitin);
        fake::off();
        w.tick();
        w.traces++;
        long long prev = -1;
        const auto lines = splitLines(c.out);
        if (c.status || lines.size() < size_t(cdepth)) return w.fail("too few lines", cliReplay(a, f == 0 ? hexin : f == 1 ? tefin : bitin, "clock readings" + describe(plan)));
        for (auto& l : lines) {
          const long long t = parseTime(stampOf(l, hex));
          w.transitions++;
          w.outcome(hash64(std::to_string(t)));
          if (t < prev || !maxima.count(t)) return w.fail("time " + std::to_string(t) + " after " + std::to_string(prev) + " with clock readings" + describe(plan), cliReplay(a, f == 0 ? hexin : f == 1 ? tefin : bitin, "clock readings" + describe(plan)));
          prev = t;
        }
        w.state(hash64(c.out));
      }
  });
  // ---- whole program: groups that arrive slowly, on the real clock: none bears a time before its arrival
  r.parallel("groups arriving slowly", 4 * 2 * 4, [&](size_t it, Worker& w) {
    const bool tef = it & 1, hex = it & 2, crlf = it & 4;
    const int cut = int(it / 8);  // where lines are cut: at their ends, in the middle, ...
    std::string in;
    CliOpt o;
    o.pipe_in = true;
    o.gap_ms = 150;
    std::vector<long long> when;
    o.written = &when;
    const int n = 7;
    std::vector<size_t> line_end, piece_end;
    for (int i = 0; i < n; i++) {
      const G g = ps(kPI, i % 4, "ALPHA FM").g;
      char b[64];
      snprintf(b, sizeof b, "P%04X\nR%04X%04X%04X00\n", g.b[0], g.b[1], g.b[2], g.b[3]);
      std::string l = tef ? b : hexText(g);
      if (crlf) {
        std::string m;
        for (char c : l) m += c == '\n' ? "\r\n" : std::string(1, c);
        l = m;
      }
      in += l;
      line_end.push_back(in.size());
    }
    for (int i = 0; i + 1 < n; i++) piece_end.push_back(cut == 0 ? line_end[size_t(i)] : cut == 1 ? line_end[size_t(i)] - 1 : cut == 2 ? line_end[size_t(i)] - 4 : line_end[size_t(i)] + 3);
    for (size_t i = 0; i < piece_end.size(); i++) o.pieces.push_back(piece_end[i] - (i ? piece_end[i - 1] : 0));
    piece_end.push_back(in.size());
    std::vector<std::string> a{tef ? "-itef" : "-h", "-t", "%s.%f"};
    if (hex) a.push_back("-x");
    const auto c = runCli(a, in, o);
    w.tick();
    w.traces++;
    // a line is complete when its last digit is there
    std::vector<long long> arrival;
    for (size_t i = 0; i < line_end.size(); i++)
      for (size_t q = 0; q < piece_end.size(); q++)
        if (piece_end[q] >= line_end[i] - (crlf ? 2 : 1)) {
          arrival.push_back(q < when.size() ? when[q] : 0);
          break;
        }
    const auto lines = splitLines(c.out);
    const std::string rep = cliReplay(a, in, "every line is written 150 ms after the one before has been read; written at (ns)" + describe(when));
    if (c.status || lines.size() < size_t(n) - 3 || lines.size() > size_t(n)) return w.fail("too few lines: " + std::to_string(lines.size()), rep);
    // the first of them are used up to learn the PI
    const size_t skip = size_t(n) > lines.size() ? size_t(n) - lines.size() : 0;
    for (size_t i = 0; i < lines.size() && i + skip < arrival.size(); i++) {
      const long long t = parseTime(stampOf(lines[i], hex));
      w.transitions++;
      if (t * 10 * kMs < arrival[i + skip] - 30 * kMs) return w.fail("group " + std::to_string(i) + " bears the time " + std::to_string(t) + " (hundredths) but arrived at " + std::to_string(arrival[i + skip] / (10 * kMs)), rep);
    }
    w.outcome(lines.size());
    w.state(it);
  });
  // ---- whole program: signals of 1..4 channels, the clock standing still or jumping
  r.parallel("signals and clock readings", 4 * 6, [&](size_t it, Worker& w) {
    const int nch = int(it % 4) + 1, mode = int(it / 4);
    std::string bits;
    for (int i = 0; i < 24; i++) bits += groupBits(ps(kPI, i % 4, "ALPHA FM").g);
    mpx::Sig s;
    const auto one = mpx::synth(s, {bits, "", "", ""});
    const std::string in = mpx::bytes(mpx::interleave(std::vector<std::vector<int16_t>>(size_t(nch), one)));
    std::vector<long long> plan;
    long long lo = kBase, hi = kBase;
    if (mode >= 1)
      for (int k = 0; k < 2000; k++) {
        const long long step[] = {0, 47 * kMs, 5 * kMs, 47 * kMs, 200 * kMs, 1 * kMs};
        long long t = kBase + k * step[mode];
        if (mode == 3 && k > 20) t -= 30 * kSec;
        if (mode == 5 && k % 3 == 1) t -= 3600 * kSec;
        plan.push_back(t);
        lo = std::min(lo, t);
        hi = std::max(hi, t);
      }
    for (int hex = 0; hex < 2; hex++) {
      std::vector<std::string> a{"-r171k", "-c", std::to_string(nch), "-t", "%s.%f"};
      if (hex) a.push_back("-x");
      if (mode == 0) fake::set(kBase);
      else fake::schedule(plan);
      const auto c = runCli(a, in);
      fake::off();
      w.tick();
      w.traces++;
      std::map<std::string, long long> prev;
      const auto lines = splitLines(c.out);
      const std::string rep = cliReplay(a, "", "signal of 24 groups on every channel");
      if (c.status || lines.size() < size_t(10 * nch)) return w.fail("too few lines: " + std::to_string(lines.size()), rep);
      for (auto& l : lines) {
        json j = hex ? json() : json::parse(l, nullptr, false);
        const std::string ch = j.is_object() && j.contains("channel") ? j["channel"].dump() : "";
        const long long t = parseTime(stampOf(l, hex));
        w.transitions++;
        w.outcome(hash64(std::to_string(t) + ch));
        // a buffer holds less than 48 ms of signal
        if (t * 10 * kMs < lo - 60 * kMs || t * 10 * kMs > hi) return w.fail(std::to_string(nch) + " channels: time " + std::to_string(t) + " while the clock ran from " + std::to_string(lo) + " to " + std::to_string(hi) + " ns", rep);
        if (hex && nch > 1) continue;  // lines of different channels cannot be told apart
        if (prev.count(ch) && t < prev[ch]) return w.fail("time " + std::to_string(t) + " after " + std::to_string(prev[ch]) + " on channel " + ch, rep);
        prev[ch] = t;
      }
      w.state(hash64(c.out));
    }
  });
  r.info("clock_history_depth", depth);
}
