#include <cmath>
#include <cstring>
#include "../mpx.hh"
#include "loctab.hh"
using namespace drv;
using namespace drv::loctab;
namespace {
// After whatever came before, a new station must be decoded as if nothing had happened.
std::string probe(Impl& im) {
  im.take();
  const int pi = 0x7E57;
  for (int i = 0; i < 3; i++) im.group(mk(pi, 0x7000, 0, 0));
  std::string last;
  im.take();
  for (int i = 0; i < 4; i++) {
    im.group(ps(pi, i, "PROBE OK").g);
    last = im.take();
  }
  json j = json::parse(last, nullptr, false);
  if (j.is_object() && j.contains("ps") && j["ps"] == "PROBE OK") return "";
  return "a station received later is not decoded: " + last;
}
std::string probeText() {
  std::string s = "\n";
  const int pi = 0x7E57;
  for (int i = 0; i < 3; i++) s += hexText(mk(pi, 0x7000, 0, 0));
  for (int i = 0; i < 4; i++) s += hexText(ps(pi, i, "PROBE OK").g);
  return s;
}
std::string probeTef() {
  std::string s = "\n";
  for (int i = 0; i < 7; i++) {
    const G g = i < 3 ? mk(0x7E57, 0x7000, 0, 0) : ps(0x7E57, i - 3, "PROBE OK").g;
    char b[64];
    snprintf(b, sizeof b, "P%04X\nR%04X%04X%04X00\n", g.b[0], g.b[1], g.b[2], g.b[3]);
    s += b;
  }
  return s;
}
std::string badEnd(const CliResult& c) {
  if (c.timeout) return "the program did not end";
  if (c.status >= 128) return "the program was ended by signal " + std::to_string(c.status - 128) + ": " + c.err.substr(0, 1500);
  if (c.err.find("runtime error") != std::string::npos || c.err.find("Sanitizer") != std::string::npos) return "undefined behaviour: " + c.err.substr(0, 1500);
  if (c.status != 0 && c.status != 1) return "exit status " + std::to_string(c.status) + ": " + c.err.substr(0, 1500);
  return "";
}
std::vector<Ev> apps() {
  std::vector<Ev> v;
  for (auto p : {std::pair<int, int>{22, 0x4BD7}, {24, 0x6552}, {26, 0x0093}, {16, 0xCD46}, {18, 0x0BCB}, {23, 0x4BD8}}) v.push_back(oda(kPI, p.first, p.second, 0x0041));
  return v;
}
}  // namespace
CHECK(C18) {
  ImplOpt full;
  full.streams = full.bler = full.raw = full.partial = true;
  // ---- every group type with extreme contents and every loss, twice in a row
  const std::vector<int> edge{0x0000, 0xFFFF, 0x8000, 0x7FFF, 0xE0E0, 0xF9FA, 0xCDCD, 0x0D0D, 0x4142, 0x1F0F, 0xFFFE, 0x2001};
  r.parallel("every group type, extreme contents", 32 * 32, [&](size_t it, Worker& w) {
    const int code = int(it % 32), low = int(it / 32);
    for (int v = 0; v < 3; v++) {
      ImplOpt o = v == 1 ? full : ImplOpt{};
      o.rbds = v == 2;
      auto im = makeImpl(o, kPI);
      for (auto& e : apps()) im->group(e.g);
      for (int b3 : edge)
        for (int b4 : edge)
          for (int lost = 0; lost < 16; lost += (v == 0 ? 1 : 5)) {
            G g = grp(kPI, code, low, b3, b4).g;
            for (int i = 0; i < 4; i++)
              if (lost >> i & 1) g.has[size_t(i)] = false;
            im->group(g);
            w.transitions++;
            w.evals++;
          }
      im->flush();
      const std::string why = probe(*im);
      w.traces++;
      w.tick();
      w.state(hash64(std::to_string(it), uint64_t(v)));
      if (!why.empty()) return w.fail(why, "after group type " + std::to_string(code) + " with low bits " + std::to_string(low) + "\n");
    }
  });
  // ---- clock-time and other arithmetic: every value of the fields that are calculated with
  r.parallel("every clock-time, PIN and frequency code", 256, [&](size_t it, Worker& w) {
    auto im = makeImpl(full, kPI);
    for (auto& e : apps()) im->group(e.g);
    for (int k = 0; k < 512; k++) {
      const int mjd = int(it) * 512 + k;
      for (int rest : {0x0000, 0xFFFF, 0x7EFF, 0x1820}) im->group(ev(kPI, blk2(4, false, mjd >> 15), (mjd & 0x7FFF) << 1 | (rest & 1), rest).g);
      w.transitions += 4;
    }
    for (int k = 0; k < 256; k++) {
      im->group(ev(kPI, blk2(1, false, 0), 0x4000 | k, int(it) << 8 | k).g);
      im->group(ps(kPI, k & 3, "ABCDEFGH", int(it) << 8 | k).g);
      im->group(eon(kPI, int(it) & 15, int(it) << 8 | k, 0x1234 + (k & 3)).g);
      im->group(ev(kPI, blk2(3, false, 16), int(it) << 8 | k, 0xCD46).g);
      im->group(grp(kPI, 26, k & 31, int(it) << 8 | k, 0xFFFF).g);
      w.transitions += 5;
    }
    const std::string why = probe(*im);
    w.traces++;
    w.tick();
    w.state(it);
    if (!why.empty()) return w.fail(why, "see phase\n");
  });
  // ---- every function header and address of RDS2 groups, every announced size class
  r.parallel("RDS2 groups", 256, [&](size_t it, Worker& w) {
    auto im = makeImpl(full, kPI);
    for (int size : {0, 1, 4, 5, 6, 255, 65535, 163839, 163840, 163841, 262143}) {
      for (int st = 0; st < 4; st++) {
        im->group(rftInfo(st ? st : 1, int(it) & 63, 0xFF7F, size).g);
        for (int b1 = 0; b1 < 256; b1 += 17)
          for (int x : {0x0000, 0xFFFF, 0xFF00, 0x00FF, 0xFF7F}) {
            im->group(mk(int(it) << 8 | b1, x, ~x & 0xFFFF, x, st));
            w.transitions++;
          }
      }
    }
    for (int a : {0, 1, 2, 32766, 32767, 16384, 3}) im->group(rftSeg(1, int(it) & 15, int(it) >> 7, a, {255, 255, 255, 255, 255}).g);
    const std::string why = probe(*im);
    w.traces++;
    w.tick();
    w.state(it);
    if (!why.empty()) return w.fail(why, "see phase\n");
  });
  // a file with every one of its 32768 segments received, forwards and backwards
  r.parallel("RDS2 control groups", 256, [&](size_t it, Worker& w) {
    auto im = makeImpl(full, kPI);
    std::vector<int> b1s{0, 7, 15, 16, 63, 64, 128, 255};
    if (r.thorough) {
      b1s.clear();
      for (int b = 0; b < 256; b++) b1s.push_back(b);
    }
    for (int b1 : b1s)
      for (int low = 0; low < 256; low++) {
        im->group(mk(0x8000 | b1, 0xFF7F, int(it) << 8 | low, low << 8 | int(it), 1 + b1 % 3));
        w.transitions++;
        if (low == 255) { im->take(); w.tick(); }
      }
    const std::string why = probe(*im);
    w.traces++;
    w.state(it);
    if (!why.empty()) return w.fail(why, "see phase\n");
  });
  // ---- every value of block 3 and of block 4 in every group type; with the five bits of block 2
  // every pair (bits, either byte of the block) occurs
  r.parallel("every block value in every group type", 32 * 64, [&](size_t it, Worker& w) {
    auto im = makeImpl(full, kPI);
    for (auto& e : apps()) im->group(e.g);
    const int code = int(it % 32);
    for (int k = 0; k < 1024; k++) {
      const int v = int(it / 32) * 1024 + k;
      for (int which = 0; which < 2; which++)
        for (int rot = 0; rot < (r.thorough ? 32 : 1); rot++) {
          const int low = ((v ^ v >> 5 ^ v >> 8) + rot) & 31, o = int(unsigned(v) * 40503u & 0xFFFF);
          im->group(mk(kPI, code << 11 | low, which ? v : o, which ? o : v));
          w.transitions++;
        }
      if (k % 64 == 0) { im->take(); w.tick(); }
    }
    const std::string why = probe(*im);
    w.traces++;
    w.state(it);
    if (!why.empty()) return w.fail(why, "see phase\n");
  });
  r.parallel("largest files", 4, [&](size_t it, Worker& w) {
    auto im = makeImpl(full, kPI);
    im->group(rftInfo(1, 3, 0xFF7F, it % 2 ? 163840 : 262143).g);
    for (int i = 0; i < 32768; i++) {
      im->group(rftSeg(1, 3, 0, it / 2 ? 32767 - i : i, {i & 255, 1, 2, 3, 4}).g);
      w.transitions++;
      if (i % 512 == 0) { w.tick(); im->take(); }
    }
    const std::string why = probe(*im);
    w.traces++;
    w.state(it);
    if (!why.empty()) return w.fail(why, "see phase\n");
  });
  // ---- all sequences over groups that carry lengths, addresses, counts and flags
  std::vector<Ev> al;
  for (int s : {0, 3}) al.push_back(ps(kPI, s, "A\r\xFF\x80" "BCDE", s ? 0xF9FA : 0xE001));
  for (int s : {0, 1, 15}) al.push_back(rtA(kPI, s & 1, s, std::string(61, 'x') + "\xE4\r\r"));
  for (int s : {0, 15}) al.push_back(rtB(kPI, 0, s, std::string(30, 'y') + "\r "));
  for (int s : {0, 7}) al.push_back(lps(kPI, s, "\xF0\x9F\x98\x80\xC3\r" + std::string(26, '\xE2')));
  al.push_back(oda(kPI, 24, 0x6552, 0));
  al.push_back(oda(kPI, 24, 0x6552, 1));
  for (int s : {0, 1, 31}) al.push_back(grp(kPI, 24, s, 0x00C3, s ? 0x0D0D : 0xD83D));
  al.push_back(oda(kPI, 22, 0x4BD7));
  al.push_back(oda(kPI, 23, 0x4BD8));
  for (int s : {0, 8, 31}) al.push_back(grp(kPI, 22, s, 0x3FFF, 0xFFFF));
  al.push_back(grp(kPI, 22, 8, 0x2000, 0x081F));
  al.push_back(grp(kPI, 23, 8, 0x2000, 0x081F));
  al.push_back(oda(kPI, 16, 0xCD46, 0x0041));
  al.push_back(oda(kPI, 16, 0xCD46, 0x4400));
  for (int x : {1, 6}) al.push_back(grp(kPI, 16, x, 0x8000 | 101, 1111));
  for (int g : {0, 1, 2, 3, 7}) al.push_back(grp(kPI, 16, 1, g << 12 | 0xFFF, 0xFFFF));
  al.push_back(grp(kPI, 16, 1, 0x4FFF, 0x0000));
  al.push_back(grp(kPI, 16, 8, 0xFFFF, 0xFFFF));
  for (int x = 0x14; x < 0x1C; x += 2) al.push_back(grp(kPI, 16, x, 0xFFFF, 0xFFFF));
  for (int s : {0, 31}) al.push_back(grp(kPI, 10, s, 0x0D41, 0xFFFF));
  for (int s : {0, 1}) al.push_back(ptyn(kPI, s, s, "\x0D\xFF\x80" "\x01x\ty\n"));
  for (int v : {0, 3, 4}) al.push_back(eon(kPI, v, 0xE919, 0x9999));
  al.push_back(rftInfo(1, 3, 0xFF7F, 9));
  for (int a : {0, 1, 32767}) al.push_back(rftSeg(1, 3, a & 1, a, {255, 0, 255, 0, 255}));
  al.push_back(ev(0x1111, 0x7000, 0, 0));
  al.push_back(mk(-1, -1, -1, -1).b[0] ? ev(-1, -1, -1, -1) : ev(-1, -1, -1, -1));
  al.push_back(lose(lose(ps(kPI, 1, "ABCDEFGH"), 0), 2));
  const size_t n = al.size();
  const int depth = r.thorough ? 4 : 3;
  r.parallel("all sequences of awkward groups", n * n, [&](size_t it, Worker& w) {
    const std::vector<ImplOpt> opts{full, ImplOpt{}};
    for (size_t o = 0; o < (r.thorough ? 2u : 1u); o++) {
      size_t total = 1;
      for (int d = 2; d < depth; d++) total *= n;
      for (size_t k = 0; k < total; k++) {
        auto im = makeImpl(opts[o], kPI);
        im->group(al[it / n].g);
        im->group(al[it % n].g);
        for (size_t q = k, d = 2; d < size_t(depth); d++, q /= n) im->group(al[q % n].g);
        w.transitions += uint64_t(depth);
        w.traces++;
        if (k % 64 == 0) {
          const std::string why = probe(*im);
          if (!why.empty()) return w.fail(why, "see phase\n");
          w.tick();
        }
      }
    }
    w.state(it);
  });
  // ---- bits: every periodic pattern, and slips at every position
  r.parallel("periodic bit patterns", 1 << 13, [&](size_t it, Worker& w) {
    for (int fec = 0; fec < 2; fec++) {
      ImplOpt o = full;
      o.fec = fec;
      for (int period : {13, 9, 5}) {
        if (it >> period) continue;
        auto im = makeImpl(o, -1);
        for (int i = 0; i < 400; i++) im->bit(it >> (i % period) & 1, 0);
        im->flush();
        w.transitions += 400;
        w.traces++;
      }
    }
    w.tick();
    w.state(it);
  });
  r.parallel("bit streams cut and joined anywhere", 104 * 4, [&](size_t it, Worker& w) {
    std::string bits;
    for (auto& e : learn(kPI, true))
      if (e.g.stream == 0) bits += groupBits(e.g);
    const int st = int(it / 104);
    for (int cut = 0; cut < 104; cut++) {
      auto im = makeImpl(full, -1);
      for (size_t i = it % 104; i < bits.size(); i++) {
        if (i % 1040 == size_t(cut)) continue;
        im->bit(bits[i] == '1', st);
        if (i % 2080 == size_t(cut) + 50) im->bit(bits[i] == '1', st);
        w.transitions++;
      }
      im->flush();
      w.traces++;
      const std::string why = probe(*im);
      if (!why.empty()) return w.fail(why, "see phase\n");
      if (!r.thorough) cut += 7;
    }
    w.tick();
    w.state(it);
  });
  // ---- text lines: every string over an alphabet of significant characters, as lines of long inputs
  const std::string chars{"0F- \t#SP1R\r\0\xFFg", 14};
  const size_t len = r.thorough ? 5 : 4;
  for (int fmt = 0; fmt < 3; fmt++) {
    r.parallel(fmt == 0 ? "all short hex lines" : fmt == 1 ? "all short TEF lines" : "all short bit texts", chars.size() * chars.size(), [&](size_t it, Worker& w) {
      size_t total = 1;
      for (size_t i = 2; i < len; i++) total *= chars.size();
      std::string in;
      for (int ctx = 0; ctx < 3; ctx++)
        for (size_t k = 0; k < total; k++) {
          std::string s{chars[it / chars.size()], chars[it % chars.size()]};
          for (size_t q = k, i = 2; i < len; i++, q /= chars.size()) s += chars[q % chars.size()];
          // alone, within an otherwise good line, at the end of a good line
          if (fmt == 0) in += ctx == 0 ? s : ctx == 1 ? "22F8 " + s + " E301 4142" : "#S1 22F8 0408 E301 " + s;
          else if (fmt == 1) in += ctx == 0 ? s : ctx == 1 ? "P" + s : "R0408" + s + "414200";
          else in += s;
          in += '\n';
          w.transitions++;
        }
      const std::string p = fmt == 0 ? probeText() : fmt == 1 ? probeTef() : "";
      const std::vector<std::string> a{fmt == 0 ? "-h" : fmt == 1 ? "-itef" : "-b", "-p"};
      CliOpt co;
      co.timeout_s = 60;
      const auto c = runCli(a, in + p, co);
      w.tick();
      w.traces++;
      w.state(hash64(c.out));
      std::string why = badEnd(c);
      if (why.empty() && c.status) why = "exit status " + std::to_string(c.status);
      if (why.empty() && fmt < 2 && c.out.find("PROBE OK") == std::string::npos) why = "later groups are not decoded";
      if (!why.empty()) return w.fail(why, cliReplay(a, in.substr(0, 20000), ""));
      // the same text as the end of the input
      const std::string end{chars[it / chars.size()], chars[it % chars.size()]};
      for (auto& pre : {std::string(), std::string("22F8 0408 E301 4142\n"), std::string("22F8 0408 E30"), std::string("P22F8\nR0408"), std::string("R")}) {
        const auto e = runCli(a, pre + end, co);
        why = badEnd(e);
        w.tick();
        w.traces++;
        if (!why.empty()) return w.fail(why, cliReplay(a, pre + end, ""));
      }
    });
  }
  // ---- very long lines and inputs without line ends
  r.parallel("long lines", 3 * 6, [&](size_t it, Worker& w) {
    std::string in;
    const int fmt = int(it % 3);
    switch (it / 3) {
      case 0: in = std::string(300000, '0'); break;
      case 1: in = std::string(300000, '\n'); break;
      case 2: in = std::string(300000, '\0'); break;
      case 3: for (int i = 0; i < 60000; i++) in += "22F8 "; break;
      case 4: for (int i = 0; i < 60000; i++) in += "P22F8R0408"; break;
      default: for (int i = 0; i < 60000; i++) in += "#S3 -"; break;
    }
    const std::vector<std::string> a{fmt == 0 ? "-h" : fmt == 1 ? "-itef" : "-b"};
    const auto c = runCli(a, in + (fmt == 0 ? probeText() : fmt == 1 ? probeTef() : ""));
    w.tick();
    w.traces++;
    w.transitions++;
    w.state(it);
    std::string why = badEnd(c);
    if (why.empty() && fmt < 2 && c.out.find("PROBE OK") == std::string::npos) why = "later groups are not decoded";
    if (!why.empty()) w.fail(why, cliReplay(a, in.substr(0, 2000), "continued likewise"));
  });
  // ---- location tables: every damage of every column of every file
  const Table tab = network(1, 1);
  const Files good = files(tab);
  std::vector<std::string> names;
  for (auto& x : good.f) names.push_back(x.first);
  const std::vector<std::string> junk{"", "0", "-1", "65535", "65536", "99999999999999999999", "-99999999999999999999", "abc", "1e999", "nan", "\"", "\"abc", "a\"b", "\\", "\xFF\xFE", std::string("\0", 1), std::string(70000, '7'), "+", "-", " 5 ", ";", ";;;;;;;;;;;;;;;;;;;;;;;;", "\r", "\n", "\n\n58;1", "2147483648", "-2147483649", "0x10", "1.5"};
  // every change runs the short list; the thorough tier runs all of them
  const std::vector<std::string> junkq = r.thorough ? junk : std::vector<std::string>{"", "-1", "65536", "99999999999999999999", "abc", "nan", "\"", "a\"b", "\xFF\xFE", std::string("\0", 1), std::string(70000, '7'), " 5 ", ";;;;;;;;;;;;;;;;;;;;;;;;", "\r", "\n\n58;1"};
  std::string msgs;
  {
    msgs += hexText(mk(kPI, 0x7000, 0, 0)) + hexText(mk(kPI, 0x7000, 0, 0)) + hexText(mk(kPI, 0x7000, 0, 0));
    msgs += hexText(oda(kPI, 16, 0xCD46, 0x0041).g);
    for (int l : {0, 1, 101, 102, 103, 104, 105, 111, 112, 113, 121, 122, 123, 150, 65535})
      for (int e = 0; e < 8; e += 7)
        for (int d = 0; d < 2; d++) msgs += hexText(grp(kPI, 16, 8 | 1, d << 14 | e << 11 | 101, l).g);
    msgs += probeText();
  }
  r.parallel("damaged location tables", names.size() * junkq.size(), [&](size_t it, Worker& w) {
    const std::string& file = names[it % names.size()];
    const std::string& j = junkq[it / names.size()];
    char t[] = "/tmp/c18_XXXXXX";
    if (!mkdtemp(t)) throw std::runtime_error("mkdtemp");
    const std::string base = t, dir = base + "/tab";
    const auto& rows = good.f.at(file);
    const size_t cols = size_t(std::count(rows[0].begin(), rows[0].end(), ';')) + 1;
    for (int header = 0; header < 2; header++)
      for (size_t c = 0; c <= cols; c++) {
        Files f = good;
        if (file == "NAMES.DAT" && c % 2) f.nl = "\r\n";
        auto& rw = f.f[file];
        for (size_t i = header ? 0 : 1; i < (header ? 1 : rw.size()); i++) {
          if (c == cols) {  // the whole line
            rw[i] = j;
            continue;
          }
          std::vector<std::string> v;
          std::string cur;
          for (char ch : rw[i] + ";") {
            if (ch == ';') { v.push_back(cur); cur.clear(); }
            else cur += ch;
          }
          v[c] = j;
          rw[i].clear();
          for (size_t q = 0; q < v.size(); q++) rw[i] += (q ? ";" : "") + v[q];
        }
        save(dir, f);
        const std::vector<std::string> a{"-h", "-l", dir};
        CliOpt co;
        co.cwd = base;
        const auto res = runCli(a, msgs, co);
        wipe(dir);
        w.tick();
        w.traces++;
        w.transitions++;
        w.state(hash64(res.out));
        std::string why = badEnd(res);
        if (why.empty() && res.status == 0 && res.out.find("PROBE OK") == std::string::npos) why = "later groups are not decoded";
        if (!why.empty()) {
          rmdir(t);
          return w.fail(file + ": column " + std::to_string(c) + (header ? " of the header" : "") + " replaced by '" + j.substr(0, 40) + "': " + why, cliReplay(a, msgs, "table with this damage"));
        }
      }
    rmdir(t);
  });
  // ---- files that are missing, empty, cut anywhere, or directories
  r.parallel("cut location tables", names.size() * 4, [&](size_t it, Worker& w) {
    const std::string& file = names[it % names.size()];
    char t[] = "/tmp/c18_XXXXXX";
    if (!mkdtemp(t)) throw std::runtime_error("mkdtemp");
    const std::string base = t, dir = base + "/tab";
    std::string whole;
    for (auto& l : good.f.at(file)) whole += l + "\n";
    for (size_t cut = it / names.size(); cut <= whole.size() + 8; cut += r.thorough ? 4 : 20) {
      save(dir, good);
      const std::string p = dir + "/" + file;
      unlink(p.c_str());
      if (cut <= whole.size()) writeFile(p, whole.substr(0, cut));
      else if (it / names.size() == 1) mkdir(p.c_str(), 0700);
      const std::vector<std::string> a{"-h", "-l", dir};
      CliOpt co;
      co.cwd = base;
      const auto res = runCli(a, msgs, co);
      rmdir(p.c_str());
      wipe(dir);
      w.tick();
      w.traces++;
      w.transitions++;
      w.state(hash64(res.out));
      std::string why = badEnd(res);
      if (why.empty() && res.status == 0 && res.out.find("PROBE OK") == std::string::npos) why = "later groups are not decoded";
      if (!why.empty()) {
        rmdir(t);
        return w.fail(file + " cut at byte " + std::to_string(cut) + ": " + why, cliReplay(a, msgs, "table with this damage"));
      }
    }
    rmdir(t);
  });
  // ---- key files
  r.parallel("key files", junkq.size() * junkq.size(), [&](size_t it, Worker& w) {
    char t[] = "/tmp/c18_XXXXXX";
    if (!mkdtemp(t)) throw std::runtime_error("mkdtemp");
    const std::string base = t;
    for (int c = 0; c < 4; c++) {
      std::string row;
      for (int k = 0; k < 4; k++) row += (k ? "," : "") + (k == c ? junkq[it % junkq.size()] : k == (c + 1) % 4 ? junkq[it / junkq.size()] : std::string("3"));
      writeFile(base + "/service_key_table.csv", row + "\n3," + junkq[it % junkq.size()] + "," + junkq[it / junkq.size()] + ",7\n" + row);
      std::string in = hexText(mk(kPI, 0x7000, 0, 0)) + hexText(mk(kPI, 0x7000, 0, 0)) + hexText(mk(kPI, 0x7000, 0, 0));
      for (int enc : {0, 1, 3, 31}) {
        in += hexText(oda(kPI, 16, 0xCD46, 0x0000).g) + hexText(grp(kPI, 16, 0, enc << 5, 0x1234).g);
        for (int l : {0, 1, 0x8000, 65535}) in += hexText(grp(kPI, 16, 8 | 1, 101, l).g);
      }
      CliOpt co;
      co.cwd = base;
      const std::vector<std::string> a{"-h"};
      const auto res = runCli(a, in + probeText(), co);
      w.tick();
      w.traces++;
      w.transitions++;
      w.state(hash64(res.out, it));
      std::string why = badEnd(res);
      if (why.empty() && res.out.find("PROBE OK") == std::string::npos) why = "later groups are not decoded";
      if (!why.empty()) {
        unlink((base + "/service_key_table.csv").c_str());
        rmdir(t);
        return w.fail("key file with the row " + row.substr(0, 100) + ": " + why, cliReplay(a, in, row.substr(0, 200)));
      }
    }
    unlink((base + "/service_key_table.csv").c_str());
    rmdir(t);
  });
  // ---- command-line values
  std::vector<std::string> vals = junk;
  for (auto s : {"%", "%%", "%f", "%f%f%f%f", "%E", "%O", "%Ey", "%5Y", "%-d", "%Q", "%1000000Y", "%_", "%+", "%c%c%c%c%c%c%c", "%Z%z%s%n%t", "\xC3\xA4 %H", "-inf", "inf", "nan", "NAN", "1e38", "1e39", "1e-45", "128000", "40000000", "40M", "40000001", "171000", "171k", "1k", "k", "M", "32", "33", "1", "hex", "json", "/", "/dev/null", ".", "..", "-", "--", "-f"}) vals.push_back(s);
  vals.push_back(std::string(5000, '%'));
  vals.push_back(std::string(5000, 'x'));
  const std::vector<std::string> opts{"-c", "-r", "-t", "-i", "-o", "-l", "-f", "--channels", "--samplerate"};
  r.parallel("command-line values", vals.size() * opts.size(), [&](size_t it, Worker& w) {
    std::string v = vals[it % vals.size()];
    v = v.substr(0, v.find('\0'));
    const std::string& o = opts[it / vals.size()];
    char t[] = "/tmp/c18_XXXXXX";
    if (!mkdtemp(t)) throw std::runtime_error("mkdtemp");
    for (auto& more : std::vector<std::vector<std::string>>{{"-h"}, {}, {"-h", "-x", "-s"}, {"-b", "-E"}, {"-s"}, {"-c2", "-x"}}) {
      std::vector<std::string> a{o, v};
      a.insert(a.end(), more.begin(), more.end());
      CliOpt co;
      co.cwd = t;
      const std::string in = more.empty() || more[0] == "-s" || more[0] == "-c2" ? std::string(40000, '\1') : msgs;
      const auto c = runCli(a, in, co);
      w.tick();
      w.traces++;
      w.transitions++;
      w.state(hash64(c.out, it));
      const std::string why = badEnd(c);
      if (!why.empty()) {
        rmdir(t);
        return w.fail("option " + o + " '" + v.substr(0, 60) + "': " + why, cliReplay(a, in.substr(0, 3000), ""));
      }
    }
    rmdir(t);
  });
  // ---- signals: contents, lengths, channels, rates, options
  r.parallel("raw signals", 10 * 12, [&](size_t it, Worker& w) {
    const std::vector<std::string> rates{"171000", "128000", "128001", "171001", "192k", "250k", "1M", "34.2M", "34200004", "39999996", "40M", "170999"};
    const std::string& rate = rates[it / 10];
    std::string in;
    uint32_t x = 12345;
    for (int i = 0; i < (it / 10 > 5 ? 400000 : 120000); i++) {
      int v = 0;
      switch (it % 10) {
        case 0: v = 0; break;
        case 1: v = 32767; break;
        case 2: v = -32768; break;
        case 3: v = i % 2 ? 32767 : -32768; break;
        case 4: v = i / 3 % 2 ? 32767 : -32768; break;
        case 5: x = x * 1664525 + 1013904223; v = int(x >> 16) - 32768; break;
        case 6: v = i < 60000 ? 0 : i % 3 ? 32767 : -32768; break;
        case 7: v = i < 60000 ? (i % 3 ? 32767 : -32768) : 0; break;
        case 8: v = i % 9973 == 0 ? 32767 : 0; break;
        default: v = i & 0x7FFF;
      }
      in += char(v & 255);
      in += char(v >> 8 & 255);
    }
    for (auto& more : std::vector<std::vector<std::string>>{{}, {"-c3", "-e"}, {"-s", "-E", "-c2"}}) {
      if (!more.empty() && more[0] == "-s" && (rate == "128000" || rate == "128001" || rate == "170999")) continue;
      std::vector<std::string> a{"-r", rate};
      a.insert(a.end(), more.begin(), more.end());
      CliOpt co;
      co.timeout_s = 120;
      const auto c = runCli(a, in, co);
      w.tick();
      w.traces++;
      w.transitions += in.size() / 2;
      w.state(hash64(c.out, it));
      std::string why = badEnd(c);
      if (why.empty() && c.status) why = "exit status " + std::to_string(c.status) + " " + c.err.substr(0, 300);
      if (!why.empty()) return w.fail("signal of kind " + std::to_string(it % 10) + " at " + rate + ": " + why, cliReplay(a, "", ""));
    }
  });
  r.parallel("signal lengths", 33 * 3, [&](size_t it, Worker& w) {
    const int ch = int(it % 33);
    if (ch == 0) return;
    std::vector<int> around{0, 1, 2, 3, ch * 2 - 1, ch * 2, ch * 2 + 1, 8192 / ch * ch * 2 - 1, 8192 / ch * ch * 2, 8192 / ch * ch * 2 + 2, 16384, 16386, 8192 / ch * ch * 4 + ch * 2};
    if (!r.thorough) around = {ch * 2 - 1, ch * 2 + 1, 8192 / ch * ch * 2 - 1, 8192 / ch * ch * 2, 8192 / ch * ch * 2 + 2, 16384, 8192 / ch * ch * 4 + ch * 2};
    for (int len : around) {
      std::vector<std::string> a{"-c" + std::to_string(ch), "-r", it / 33 == 0 ? "171k" : it / 33 == 1 ? "128k" : "40M"};
      const auto c = runCli(a, std::string(size_t(len), '\x55'));
      w.tick();
      w.traces++;
      w.transitions++;
      w.state(hash64(std::to_string(len), it));
      const std::string why = badEnd(c);
      if (!why.empty()) return w.fail(std::to_string(len) + " bytes: " + why, cliReplay(a, "", ""));
    }
  });
  // ---- sound files: float samples that are no numbers, many channels, odd headers
  r.parallel("sound files", 8 * 9, [&](size_t it, Worker& w) {
    const std::vector<int> chs{1, 2, 3, 32, 33, 64, 255, 256, 1024};
    const int ch = chs[it / 8];
    if (!r.thorough && ch > 64 && it % 8 != 1 && it % 8 != 7) return;
    char t[] = "/tmp/c18_XXXXXX";
    if (!mkdtemp(t)) throw std::runtime_error("mkdtemp");
    const std::string f = std::string(t) + "/a.wav";
    std::string s = mpx::wav(std::vector<int16_t>(ch > 64 ? 3000 : r.thorough ? 40000 : 16000, 1000), 171000, ch, 3);
    const size_t head = 44;
    for (size_t i = head; i + 3 < s.size(); i += 4) {
      float v = 0;
      const size_t k = (i - head) / 4;
      switch (it % 8) {
        case 0: v = NAN; break;
        case 1: v = INFINITY; break;
        case 2: v = k % 2 ? 1e38f : -1e38f; break;
        case 3: v = 1e-42f; break;
        case 4: v = k == 5000 ? NAN : 0.1f; break;
        case 5: v = k % 100 == 99 ? -INFINITY : 0.1f; break;
        case 6: v = k < 10000 ? 3e38f : 0.01f; break;
        default: v = 0.5f;
      }
      memcpy(&s[i], &v, 4);
    }
    for (int damage = 0; damage < 4; damage++) {
      std::string d = s;
      if (damage == 1) d[22] = d[23] = 0;        // no channels
      if (damage == 2) d = d.substr(0, head + 37);
      if (damage == 3) d[40] = d[41] = d[42] = d[43] = char(0xFF);
      writeFile(f, d);
      for (auto& more : std::vector<std::vector<std::string>>{{}, {"-s", "-x"}}) {
        if ((ch > 64 || (!r.thorough && damage)) && !more.empty()) continue;
        std::vector<std::string> a{"-f", f};
        a.insert(a.end(), more.begin(), more.end());
        CliOpt co;
        co.timeout_s = 120;
        const auto c = runCli(a, "", co);
        w.tick();
        w.traces++;
        w.transitions++;
        w.state(hash64(c.err, it));
        const std::string why = badEnd(c);
        if (!why.empty()) {
          unlink(f.c_str());
          rmdir(t);
          return w.fail("sound file with samples of kind " + std::to_string(it % 8) + ", " + std::to_string(ch) + " channels, header damage " + std::to_string(damage) + ": " + why, cliReplay(a, "", ""));
        }
      }
    }
    unlink(f.c_str());
    rmdir(t);
  });
  // ---- long reception
  r.parallel("long histories", 8, [&](size_t it, Worker& w) {
    ImplOpt o = it & 1 ? full : ImplOpt{};
    auto im = makeImpl(o, kPI);
    auto a = learn(kPI, true), b = learn(0x1234, false);
    const size_t total = r.thorough ? 400000 : 30000;
    for (size_t i = 0; i < total; i++) {
      Ev e = (it & 2 && i / 97 % 2) ? b[i % b.size()] : a[i % a.size()];
      if (it & 4) {
        // every other network is a new one
        e = eon(kPI, int(i % 5), 0xE20A + int(i % 7), int(i * 7 & 0xFFFF));
      }
      if (i % 11 == 3) e = lose(e, int(i / 11 % 4));
      im->group(e.g);
      w.transitions++;
      if (i % 256 == 0) { im->take(); w.tick(); }
    }
    const std::string why = probe(*im);
    w.traces++;
    w.state(it);
    if (!why.empty()) w.fail(why, "see phase\n");
  });
  r.info("sequence_depth", depth);
  r.info("alphabet_of_awkward_groups", n);
}
