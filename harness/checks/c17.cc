#include "cli.hh"
using namespace drv;
namespace {
std::string h4(int v, bool lower = false) {
  char b[8];
  snprintf(b, sizeof b, lower ? "%04x" : "%04X", v);
  return b;
}
std::vector<G> bitGroups(const std::string& text) {
  orc::BitSync s;
  std::vector<G> v;
  for (char c : text)
    if (c == '0' || c == '1') {
      auto g = s.push(c == '1');
      if (g) v.push_back(*g);
    }
  if (!s.held().empty()) v.push_back(s.held());
  return v;
}
}  // namespace
CHECK(C17) {
  const Project P = allFields();
  const std::vector<std::string> hexhex{"-h", "-x"};
  orc::Opt raw;
  raw.raw = true;
  auto bad = [](Worker& w, const std::string& why, const std::vector<std::string>& args, const std::string& in) {
    if (why.empty()) return false;
    w.fail(why, cliReplay(args, in, "whole program"));
    return true;
  };
  // ---- every value of every block, in both cases
  r.parallel("hex: every block value", 4 * 2 * 4, [&](size_t it, Worker& w) {
    const int pos = int(it % 4);
    const bool lower = it / 4 % 2;
    std::string in;
    std::vector<G> gs;
    for (int v = int(it / 8) * 16384; v < int(it / 8 + 1) * 16384; v++) {
      int b[4] = {0x22F8, 0x0408, v ^ 0x5A5A, 0x4142};
      b[pos] = v;
      gs.push_back(mk(b[0], b[1], b[2], b[3]));
      in += h4(b[0], lower) + " " + h4(b[1], lower) + " " + h4(b[2], lower) + " " + h4(b[3], lower) + "\n";
    }
    bad(w, cliExpect(w, hexhex, in, gs, raw, true, P), hexhex, in);
  });
  // ---- every way of spacing the sixteen digits
  r.parallel("hex: every spacing", 128, [&](size_t it, Worker& w) {
    std::string in;
    std::vector<G> gs;
    const std::string digits = "22F8A5C31D0E9B47";
    for (size_t m = it * 256; m < (it + 1) * 256; m++) {
      for (int kind = 0; kind < 4; kind++) {
        std::string l = kind == 1 ? "  " : kind == 2 ? "#S2 " : "";
        for (size_t i = 0; i < 16; i++) {
          l += digits[i];
          if (i < 15 && (m >> i) & 1) l += kind == 3 ? "   " : " ";
        }
        gs.push_back(mk(0x22F8, 0xA5C3, 0x1D0E, 0x9B47, kind == 2 ? 2 : 0));
        in += l + (m % 3 == 0 ? "\n" : m % 3 == 1 ? "\r\n" : " @2026/11/18 12:00:00.00\n");
      }
    }
    bad(w, cliExpect(w, hexhex, in, gs, raw, true, P), hexhex, in);
  });
  // ---- every character in the place of every digit; every truncation; annotations
  r.parallel("hex: damaged lines", 16, [&](size_t it, Worker& w) {
    for (int form = 0; form < 3; form++)
      for (int order = 0; order < 2; order++) {
        std::string in;
        std::vector<G> gs;
        const G good = mk(0x1234, 0x5678, 0x9ABC, 0xDEF0, form == 2 ? 3 : 0);
        const std::string base = form == 0 ? "1234 5678 9ABC DEF0" : form == 1 ? "123456789ABCDEF0" : "#S3 1234 5678 9ABC DEF0";
        std::vector<size_t> at;
        for (size_t i = form == 2 ? 4 : 0; i < base.size(); i++)
          if (base[i] != ' ') at.push_back(i);
        for (int c = 1; c < 256; c++) {
          if (isspace(c)) continue;
          std::string l = base;
          l[at[it]] = char(c);
          G g = good;
          const std::string hexd = "0123456789ABCDEFabcdef";
          if (c < 128 && hexd.find(char(c)) != std::string::npos) {
            const int nib = c <= '9' ? c - '0' : (c | 32) - 'a' + 10;
            const int sh = 12 - 4 * int(it % 4);
            g.b[it / 4] = u16((g.b[it / 4] & ~(15 << sh)) | (nib << sh));
          } else {
            g.has[it / 4] = false;
            g.b[it / 4] = 0;
          }
          if (order) { in += base + "\n"; gs.push_back(good); }
          in += l + "\n";
          gs.push_back(g);
        }
        in += base + "\n";
        gs.push_back(good);
        if (bad(w, cliExpect(w, hexhex, in, gs, raw, true, P), hexhex, in)) return;
      }
  });
  // every pair of damaged digits, and every subset of damaged blocks
  r.parallel("hex: several damaged digits", 16, [&](size_t it, Worker& w) {
    std::string in;
    std::vector<G> gs;
    const std::string digits = "123456789ABCDEF0";
    for (size_t m = it * 4096; m < (it + 1) * 4096; m++) {
      std::string l;
      G g = mk(0x1234, 0x5678, 0x9ABC, 0xDEF0);
      for (size_t i = 0; i < 16; i++) {
        l += (m >> i) & 1 ? "-.xG?_"[(m + i) % 6] : digits[i];
        if (i % 4 == 3 && i < 15) l += ' ';
        if ((m >> i) & 1) { g.has[i / 4] = false; g.b[i / 4] = 0; }
      }
      in += l + "\n";
      gs.push_back(g);
    }
    bad(w, cliExpect(w, hexhex, in, gs, raw, true, P), hexhex, in);
  });
  r.parallel("hex: truncation", 2, [&](size_t it, Worker& w) {
    for (int pre = 0; pre < 2; pre++)
      for (int nl = 0; nl < 3; nl++) {
        const std::string base = it ? "123456789ABCDEF0" : "1234 5678 9ABC DEF0";
        for (size_t n = 0; n <= base.size(); n++) {
          const std::string cutl = base.substr(0, n);
          std::vector<G> gs{mk(0x1111, 0x2222, 0x3333, 0x4444)};
          std::string in = "1111 2222 3333 4444\n" + cutl + (nl == 2 ? "" : nl == 1 ? "\r\n" : "\n");
          if (nl == 1 && n == 15) continue;  // the carriage return makes it 16 long: all that counts is the next line
          // fewer than 16 characters: not a group line
          if (n >= 16) {
            G g;
            size_t pos = 0;
            for (int b = 0; b < 4; b++) {
              std::string d;
              while (pos < cutl.size() && d.size() < 4) {
                if (cutl[pos] != ' ') d += cutl[pos];
                pos++;
              }
              if (d.size() == 4) { g.has[size_t(b)] = true; g.b[size_t(b)] = u16(std::stoi(d, nullptr, 16)); }
            }
            gs.push_back(g);
          }
          if (nl != 2) {
            in += "AAAA BBBB CCCC DDDD";
            if (pre) in += "\n";
            gs.push_back(mk(0xAAAA, 0xBBBB, 0xCCCC, 0xDDDD));
          }
          if (bad(w, cliExpect(w, hexhex, in, gs, raw, true, P), hexhex, in)) return;
        }
      }
  });
  // ---- all sequences of kinds of lines, decoded to JSON
  struct Line { std::string text; std::vector<G> g; };
  const std::vector<Line> kinds{
      {"22F8 0408 E301 414C", {mk(0x22F8, 0x0408, 0xE301, 0x414C)}},
      {"22f80409cdcd5048", {mk(0x22F8, 0x0409, 0xCDCD, 0x5048)}},
      {"22F8 040A CDCD 4120 @2026/11/18 12:34:56.78", {mk(0x22F8, 0x040A, 0xCDCD, 0x4120)}},
      {"22F8 040B CDCD 464D\r", {mk(0x22F8, 0x040B, 0xCDCD, 0x464D)}},
      {"22F8 0408 ---- 4245", {mk(0x22F8, 0x0408, -1, 0x4245)}},
      {"---- 0408 CDCD 4245", {mk(-1, 0x0408, 0xCDCD, 0x4245)}},
      {"", {}},
      {"\r", {}},
      {"% a comment", {}},
      {"<recorder=\"RDS Spy\" date>", {mk(-1, -1, -1, -1)}},
      {"#S1 2003 0141 4243 4445", {mk(0x2003, 0x0141, 0x4243, 0x4445, 1)}},
      {"22F8 040", {}},
      {"33F8 0408 CDCD 4142", {mk(0x33F8, 0x0408, 0xCDCD, 0x4142)}},
  };
  const size_t K = kinds.size();
  r.parallel("hex: sequences of lines", K * K, [&](size_t it, Worker& w) {
    for (size_t k = 0; k < (r.thorough ? K * K : K); k++)
      for (int ending = 0; ending < 2; ending++)
        for (int pipe = 0; pipe < (k == 0 ? 2 : 1); pipe++) {
          std::string in;
          std::vector<G> gs;
          auto put = [&](const Line& l) { in += l.text + "\n"; for (auto& g : l.g) gs.push_back(g); };
          for (int i = 0; i < 3; i++) put(kinds[1]);
          put(kinds[it / K]);
          put(kinds[it % K]);
          put(kinds[k % K]);
          if (r.thorough) put(kinds[k / K]);
          for (int i = 0; i < 4; i++) put(kinds[size_t(i)]);
          if (ending) in.pop_back();
          CliOpt co;
          if (pipe) { co.pipe_in = true; co.pieces = {1, 2, 3, 17, 1, 30}; }
          const std::vector<std::string> a{"-h", "-R"};
          if (bad(w, cliExpect(w, a, in, gs, raw, false, P, co), a, in)) return;
          w.sample(in.substr(0, 120));
        }
  });
  // ---- TEF
  const std::vector<std::string> tefhex{"-i", "tef", "-x"};
  r.parallel("TEF: every block value", 4 * 2 * 2, [&](size_t it, Worker& w) {
    const int pos = int(it % 4);
    const bool lower = it / 4 % 2;
    std::string in;
    std::vector<G> gs;
    for (int v = int(it / 8) * 32768; v < int(it / 8 + 1) * 32768; v++) {
      int b[4] = {0x22F8, 0x0408, v ^ 0x5A5A, 0x4142};
      b[pos] = v;
      gs.push_back(mk(b[0], b[1], b[2], b[3]));
      in += "P" + h4(b[0], lower) + (v % 2 ? "\n" : "\r\n") + "R" + h4(b[1], lower) + h4(b[2], lower) + h4(b[3], lower) + "00" + (v % 3 ? "\n" : "\r\n");
    }
    bad(w, cliExpect(w, tefhex, in, gs, raw, true, P), tefhex, in);
  });
  r.parallel("TEF: every error pattern", 4, [&](size_t it, Worker& w) {
    std::string in;
    std::vector<G> gs;
    for (int e = 0; e < 64; e++)
      for (int pi = 0; pi < 2; pi++)
        for (int v : {0x0000, 0xFFFF, 0x1234, 0x8001}) {
          char b[8];
          snprintf(b, sizeof b, it & 1 ? "%02x" : "%02X", e);
          if (pi) in += "P22F8\n";
          if (it & 2) in += "\nX123\n";
          in += "R" + h4(v) + h4(v ^ 0xFFFF) + h4(v ^ 0x0F0F) + b + "\n";
          gs.push_back(mk(pi ? 0x22F8 : -1, e & 0x30 ? -1 : v, e & 0x0C ? -1 : v ^ 0xFFFF, e & 0x03 ? -1 : v ^ 0x0F0F));
        }
    bad(w, cliExpect(w, tefhex, in, gs, raw, true, P), tefhex, in);
  });
  struct Tef { std::string text; int pi = -2; G g; bool has = false; };
  const std::vector<Tef> tk{
      {"P22F8", 0x22F8, {}, false},
      {"R0408E301414C00", -2, mk(-1, 0x0408, 0xE301, 0x414C), true},
      {"R0409cdcd504800\r", -2, mk(-1, 0x0409, 0xCDCD, 0x5048), true},
      {"R040ACDCD412003", -2, mk(-1, 0x040A, 0xCDCD, -1), true},
      {"R04084142434420 trailing", -2, mk(-1, -1, 0x4142, 0x4344), true},
      {"", -2, {}, false},
      {"\r", -2, {}, false},
      {"Sm55,12", -2, {}, false},
      {"T1234", -2, {}, false},
      {"P", -2, {}, false},
      {"R0408", -2, {}, false},
      {"P33F8", 0x33F8, {}, false},
  };
  r.parallel("TEF: sequences of lines", tk.size() * tk.size(), [&](size_t it, Worker& w) {
    const size_t n = tk.size();
    for (size_t k = 0; k < n * (r.thorough ? n * n : n); k++) {
      std::string in;
      std::vector<G> gs;
      int pi = -1;
      auto put = [&](const Tef& t) {
        in += t.text + "\n";
        if (t.pi >= -1) pi = t.pi;
        if (t.has) {
          G g = t.g;
          if (pi >= 0) { g.has[0] = true; g.b[0] = u16(pi); }
          pi = -1;
          gs.push_back(g);
        }
      };
      for (int i = 0; i < 3; i++) { put(tk[0]); put(tk[1]); }
      put(tk[it / n]);
      put(tk[it % n]);
      put(tk[k % n]);
      put(tk[k / n % n]);
      if (r.thorough) put(tk[k / n / n]);
      put(tk[0]);
      put(tk[2]);
      const std::vector<std::string> a{"-i", "tef", "-R"};
      if (bad(w, cliExpect(w, a, in, gs, raw, false, P), a, in)) return;
    }
  });
  // ---- ASCII bits
  std::string bits;
  for (auto& e : {ps(kPI, 0, "REDSEA12", 0xE301), ps(kPI, 1, "REDSEA12"), ps(kPI, 2, "REDSEA12"), ps(kPI, 3, "REDSEA12"), rtA(kPI, 0, 0, "Hi\r"), psB(kPI, 0, "REDSEA12")}) bits += groupBits(e.g);
  r.parallel("bits: other characters", 254, [&](size_t it, Worker& w) {
    const char c = char(it < 48 ? it : it + 2);
    if (c == '0' || c == '1') return;
    for (int where = 0; where < 5; where++) {
      std::string in;
      if (where == 0) in = std::string(5, c) + bits;
      if (where == 1) in = bits + std::string(3, c);
      if (where == 2) for (char b : bits) { in += b; in += c; }
      if (where == 3) { in = bits; in.insert(313, std::string(40, c)); }
      if (where == 4) for (size_t i = 0; i < bits.size(); i++) { in += bits[i]; if (i % 26 == 25) in += std::string(1, c) + "\n"; }
      const std::vector<std::string> a{"-b", "-R"};
      if (bad(w, cliExpect(w, a, in, bitGroups(in), raw, false, P), a, in)) return;
    }
  });
  r.parallel("bits: every end and every start", bits.size() + 1, [&](size_t it, Worker& w) {
    const std::vector<std::string> a{"-i", "bits", "-R"};
    for (int k = 0; k < 3; k++) {
      std::string in = k == 0 ? bits.substr(0, it) : k == 1 ? bits.substr(it) + bits : bits + bits.substr(0, it);
      CliOpt co;
      co.pipe_in = it % 2;
      co.pieces = {it % 7 + 1, it % 13, 100};
      if (bad(w, cliExpect(w, a, in, bitGroups(in), raw, false, P, co), a, in)) return;
      const std::vector<std::string> ax{"-i", "bits", "-o", "hex"};
      if (bad(w, cliExpect(w, ax, in, bitGroups(in), raw, true, P, co), ax, in)) return;
    }
  });
  r.info("hex", "all values of all blocks, all spacings, all characters in all digit places, all truncations, all sequences of line kinds");
}
