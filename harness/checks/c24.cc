#include "../mpx.hh"
#include "loctab.hh"
using namespace drv;
namespace {
std::string le16(const std::vector<int>& v) {
  std::string s;
  for (int x : v) {
    s += char(x & 255);
    s += char(x >> 8 & 255);
  }
  return s;
}
std::string where(const std::string& got, const std::string& want) {
  size_t i = 0;
  while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
  return "output of " + std::to_string(got.size()) + " bytes differs from the input of " + std::to_string(want.size()) + " bytes at byte " + std::to_string(i);
}
}  // namespace
CHECK(C24) {
  auto run = [&](Worker& w, std::vector<std::string> a, const std::string& in, const CliOpt& co, const std::string& what) {
    const auto c = runCli(a, in, co);
    w.tick();
    w.traces++;
    w.transitions += in.size() / 2;
    w.state(hash64(in));
    w.outcome(hash64(c.out));
    std::string why;
    if (c.status) why = "exit status " + std::to_string(c.status) + (c.timeout ? " (timeout)" : "") + " " + c.err.substr(0, 300);
    // an odd byte at the end is not a sample
    else if (c.out != in && !(in.size() % 2 && c.out == in.substr(0, in.size() - 1))) why = where(c.out, in);
    if (!why.empty()) w.fail(what + ": " + why, cliReplay(a, in.substr(0, 4000), what));
    return why.empty();
  };
  // ---- every sample value, in several orders, at several rates and channel counts
  const std::vector<std::string> rates{"171000", "128k", "192k", "250000", "2.4M", "40M"};
  r.parallel("every sample value", rates.size() * 32, [&](size_t it, Worker& w) {
    const int ch = int(it / rates.size()) + 1;
    if (!r.thorough && ch > 4 && it % rates.size() > 1) return;
    for (int order = 0; order < 3; order++) {
      std::vector<int> v;
      for (int i = 0; i < 65536; i++) v.push_back(order == 0 ? i : order == 1 ? 65535 - i : (i * 40503) & 0xFFFF);
      v.insert(v.end(), 8192, 0x7FFF);
      v.insert(v.end(), 8192, 0x8000);
      v.insert(v.end(), 100, 1);
      std::vector<std::string> a{"-e", "-r", rates[it % rates.size()]};
      if (ch > 1) {
        a.push_back("-c");
        a.push_back(std::to_string(ch));
      }
      if (!run(w, a, le16(v), {}, "every sample value, order " + std::to_string(order) + ", " + std::to_string(ch) + " channels")) return;
    }
  });
  // ---- every length around the buffer size and its multiples
  std::vector<size_t> bytes;
  for (size_t n = 1; n <= 66; n++) bytes.push_back(n);
  for (size_t m : {4096u, 8192u, 16384u, 24576u, 40960u})
    for (int d = -34; d <= 34; d++) bytes.push_back(size_t(int(2 * m) + d));
  const std::vector<int> counts{1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 31, 32};
  r.parallel("every length", bytes.size() * counts.size(), [&](size_t it, Worker& w) {
    const size_t n = bytes[it % bytes.size()];
    const int ch = counts[it / bytes.size()];
    if (!r.thorough && ch > 3 && (ch != 7 && ch != 32 || n % 17 > 3)) return;
    // lengths around this channel count's own buffer size as well
    const size_t own = size_t(8192 / ch * ch) * 2;
    for (size_t len : {n, n >= 8000 ? n / (8192 * 2) * own + n % (8192 * 2) : n}) {
      if (len == 0) continue;
      std::string in;
      for (size_t i = 0; i < len; i++) in += char(i * 73 + i / 256 * 11 + n);
      std::vector<std::string> a{"-e", "-r171k", "-c" + std::to_string(ch)};
      if (!run(w, a, in, {}, std::to_string(len) + " bytes, " + std::to_string(ch) + " channels")) return;
      if (len == own) break;
    }
  });
  // ---- through a pipe in pieces
  r.parallel("pieces", 60, [&](size_t it, Worker& w) {
    std::string in;
    for (size_t i = 0; i < 50000 + it * 13; i++) in += char(i * 37 + i / 256 * 7 + it);
    CliOpt co;
    co.pipe_in = true;
    for (size_t k = 0; k < 14; k++) co.pieces.push_back((k * 331 + it * 97) % 5000 + 1);
    run(w, {"-e", "-r", it % 2 ? "171k" : "192k", "-c", std::to_string(it % 5 + 1)}, in, co, "input in pieces");
  });
  // ---- the text formats: cut anywhere, every line end, every byte value, anything in between
  auto lines = [&](int fmt, const std::string& end, int junk) {
    std::string in;
    for (int i = 0; i < 8; i++) {
      const G g = ps(kPI, i % 4, "ALPHA FM").g;
      char b[64];
      snprintf(b, sizeof b, "P%04X", g.b[0]);
      if (fmt == 1) in += b + end;
      snprintf(b, sizeof b, "R%04X%04X%04X00", g.b[1], g.b[2], g.b[3]);
      if (fmt == 1) in += b + end;
      if (fmt == 0) in += hexText(g).substr(0, hexText(g).size() - 1) + end;
      if (fmt == 2) in += groupBits(g) + end;
      if (i == 3 && junk >= 0) in += std::string("#") + char(junk) + end + end + char(junk);
      if (i == 5 && junk >= 0) in += end;
    }
    return in;
  };
  const std::vector<std::string> forms[3] = {{"-h"}, {"-i", "tef"}, {"-b"}};
  auto text = [&](Worker& w, int fmt, const std::string& in, bool hexout, const std::string& what) {
    auto b = forms[fmt], f = b;
    if (hexout) b.push_back("-x"), f.push_back("-x");
    f.insert(f.begin() + (hexout ? long(f.size()) : 0), "-e");
    const auto plain = runCli(b, in), fed = runCli(f, in);
    w.tick();
    w.traces += 2;
    w.transitions += in.size();
    w.state(hash64(in, size_t(fmt)));
    w.outcome(hash64(fed.err));
    std::string why;
    if (plain.status || fed.status) why = "exit status " + std::to_string(plain.status) + " without and " + std::to_string(fed.status) + " with feed-through";
    else if (fed.out != in) why = where(fed.out, in);
    else if (fed.err != plain.err + plain.out) why = "standard error with feed-through differs from the decoded groups without it: " + fed.err.substr(0, 300);
    if (!why.empty()) w.fail(what + ": " + why, cliReplay(f, in, what));
    return why.empty();
  };
  r.parallel("text formats: every cut", 3 * 3, [&](size_t it, Worker& w) {
    const int fmt = int(it % 3);
    const std::string in = lines(fmt, it / 3 == 0 ? "\n" : it / 3 == 1 ? "\r\n" : "\n\n", -1);
    for (size_t n = 0; n <= in.size(); n += (fmt == 2 && !r.thorough ? 3 : 1))
      if (!text(w, fmt, in.substr(0, n), n % 2, "input cut after " + std::to_string(n) + " bytes")) return;
  });
  r.parallel("text formats: every byte value", 256, [&](size_t v, Worker& w) {
    for (int fmt = 0; fmt < 3; fmt++)
      for (int k = 0; k < 4; k++) {
        const std::string in = lines(fmt, k & 1 ? "\r\n" : "\n", int(v)) + (k & 2 ? std::string(3, char(v)) : "");
        if (!text(w, fmt, in, k & 1, "byte " + std::to_string(v) + " between the groups")) return;
      }
  });
  char cwd[4096];
  const std::string tables = std::string(getcwd(cwd, sizeof cwd) ? cwd : ".") + "/feed_table";
  loctab::save(tables, loctab::files(loctab::network(1, 1)));
  // ---- a real signal: groups only on stderr, and the same as without feed-through
  std::vector<std::vector<std::string>> extra{{}, {"-x"}, {"-R"}, {"-p"}, {"-E"}, {"-u"}, {"-s"}, {"-o", "json"}, {"--no-fec"}, {"-R", "-s", "-E", "-p", "-u"}, {"-x", "-s"}, {"-l", tables}, {"--loctable=" + tables, "-x"}, {"-l", tables, "-l", tables, "-R"}};
  const std::vector<double> srates{171000, 192000, 250000};
  r.parallel("signals", extra.size() * srates.size() * 3, [&](size_t it, Worker& w) {
    const auto& ex = extra[it % extra.size()];
    mpx::Sig s;
    s.fs = srates[it / extra.size() % srates.size()];
    const int ch = int(it / extra.size() / srates.size()) + 1;
    std::string bits, b1;
    for (int i = 0; i < 24; i++) {
      bits += groupBits(ps(kPI, i % 4, "ALPHA FM").g);
      b1 += groupBits(rftSeg(1, 1, 0, i, {1, 2, 3, 4, i}).g);
    }
    const auto one = mpx::synth(s, {bits, b1, "", ""});
    std::vector<std::vector<int16_t>> v;
    for (int c = 0; c < ch; c++) v.push_back(one);
    const std::string in = mpx::bytes(mpx::interleave(v));
    std::vector<std::string> a{"-r", std::to_string(int(s.fs)), "-c", std::to_string(ch)}, b = a;
    for (auto& x : ex) {
      a.push_back(x);
      b.push_back(x);
    }
    b.insert(b.begin() + (it % 2 ? 0 : long(b.size())), it % 3 ? "--feed-through" : "-e");
    const auto plain = runCli(a, in), fed = runCli(b, in);
    w.tick();
    w.traces += 2;
    w.transitions += in.size() / 2;
    w.state(hash64(fed.err));
    w.outcome(hash64(fed.out));
    const std::string rep = cliReplay(b, "", "synthesised signal");
    if (plain.status || fed.status) return w.fail("exit status " + std::to_string(plain.status) + " without and " + std::to_string(fed.status) + " with feed-through: " + fed.err.substr(0, 300), rep);
    if (fed.out != in) return w.fail(where(fed.out, in), rep);
    if (splitLines(plain.out).size() < 15) return w.fail("nothing decoded without feed-through", rep);
    if (fed.err != plain.err + plain.out) return w.fail("standard error with feed-through differs from the decoded groups without it: " + fed.err.substr(0, 300), rep);
  });
  loctab::wipe(tables);
}
