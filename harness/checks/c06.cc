#include "common.hh"
using namespace drv;
CHECK(C06) {
  const Project P = fields({"radiotext_plus", "ert_plus", "enhanced_radiotext"});
  Env e0;
  const int kRT = 22, kERT = 24, kERTP = 26;  // 11A, 12A, 13A
  auto tag = [](int code, int tog, int run, int ct1, int s1, int l1, int ct2, int s2, int l2) {
    return grp(kPI, code, (tog << 4) | (run << 3) | (ct1 >> 3), ((ct1 & 7) << 13) | (s1 << 7) | (l1 << 1) | (ct2 >> 5), ((ct2 & 31) << 11) | (s2 << 5) | l2);
  };
  auto ert = [&](int i, const std::string& t) { return grp(kPI, kERT, i, ch2(t, size_t(i) * 4), ch2(t, size_t(i) * 4 + 2)); };
  const std::vector<Ev> assign{oda(kPI, kRT, 0x4BD7), oda(kPI, kERT, 0x6552, 1), oda(kPI, kERTP, 0x4BD8)};
  const std::string full = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+-";
  // texts with characters outside ASCII (RDS codes; several become 2 and 3 byte UTF-8)
  std::string latin = full;
  for (size_t i = 0; i < latin.size(); i += 3) latin[i] = char(0x80 + (i * 7) % 0x7F);
  latin[1] = char(0xA9);
  latin[5] = char(0xA9);
  const std::vector<std::string> texts{full, "Short text\r", latin, latin.substr(0, 20) + "\r", "With trailing      \r"};
  auto rtEvents = [&](const std::string& t) {
    std::vector<Ev> v;
    for (int i = 0; i < int(t.size() + 3) / 4; i++) v.push_back(rtA(kPI, 0, i, t));
    return v;
  };
  r.parallel("all start/length pairs", texts.size() * 64 * 2, [&](size_t item, Worker& w) {
    const auto& t = texts[item / 128];
    const int start = int(item % 64);
    const bool second = (item / 64) % 2;
    Sys b(e0, P);
    for (auto& e : assign) b.step(e);
    for (auto& e : rtEvents(t)) b.step(e);
    for (int len = 0; len < (second ? 32 : 64); len++) {
      Sys s = b.clone(w.by_replay);
      w.transitions++;
      w.traces++;
      w.tick();
      const Ev e = second ? tag(kRT, 0, 0, 1, 0, 0, 4, start, len) : tag(kRT, 0, 0, 4, start, len, 0, 0, 0);
      if (!s.step(e)) {
        w.failPath(s);
        return;
      }
      w.outcome(hash64(s.last_line));
      w.state(hash64(s.key(), uint64_t(start * 64 + len)));
      if (start == 3 && len == 4) w.sample(e.text() + " => " + s.last_line);
    }
  });
  // all content types in both tags, all toggle/running combinations
  r.parallel("all content types", 64, [&](size_t ct, Worker& w) {
    Sys b(e0, P);
    for (auto& e : assign) b.step(e);
    for (auto& e : rtEvents(full)) b.step(e);
    for (int ct2 = 0; ct2 < 64; ct2++)
      for (int tr = 0; tr < 4; tr++) {
        Sys s = b.clone(w.by_replay);
        for (int k = 0; k < 4; k++) {
          w.transitions++;
          w.tick();
          // ordinary tags; then tags of the first character, where all bits but the content type are zero
          if (!s.step(k < 2 ? tag(kRT, tr >> 1, tr & 1, int(ct), 2, 5, ct2, 10, 6) : k == 2 ? tag(kRT, tr >> 1, tr & 1, int(ct), 2, 5, ct2, 0, 0) : tag(kRT, tr >> 1, tr & 1, int(ct), 0, 0, ct2, 10, 6))) {
            w.failPath(s);
            return;
          }
          w.outcome(hash64(s.last_line));
          if (k == 0)
            for (auto& e : rtEvents("Another text to be tagged\r"))
              if (!s.step(e)) { w.failPath(s); return; }
        }
        w.traces++;
        w.state(hash64(s.key(), ct * 64 + size_t(ct2)));
      }
  });
  // eRT lengths, multi-byte contents, tags over it
  std::string u;
  for (const char* c : {"Ä", "b", "€", "d", "é", "𝄞", "z", "ß"})
    for (int k = 0; k < 3; k++) u += c;
  std::string big;
  while (big.size() < 128) big += "enhanced-";
  big.resize(128);
  r.parallel("eRT of every length", 129, [&](size_t len, Worker& w) {
    for (int kind = 0; kind < 2; kind++) {
      std::string t = kind == 0 ? big.substr(0, len) : (u + u + u).substr(0, len);
      if (len < 128) t += "\r";
      Sys s(e0, P);
      std::vector<Ev> v = assign;
      for (int rep = 0; rep < 2; rep++)
        for (int i = 0; i < int(t.size() + 3) / 4; i++) v.push_back(ert(i, t));
      for (int start : {0, 1, 5, 20, 40, 60, 63})
        for (int l : {0, 1, 3, 10, 30, 63}) v.push_back(tag(kERTP, 0, 0, 4, start, l, 1, start, l & 31));
      v.push_back(tag(kERTP, 1, 0, 4, 0, 0, 1, 0, 0));
      v.push_back(tag(kERTP, 1, 0, 4, 0, 0, 1, 0, 0));
      for (int i = 0; i < int(t.size() + 3) / 4; i++) v.push_back(ert(i, t));
      v.push_back(tag(kERTP, 1, 0, 4, 0, 0, 1, 0, 0));
      for (auto& e : v) {
        w.transitions++;
        w.tick();
        if (!s.step(e)) {
          w.failPath(s);
          return;
        }
        w.outcome(hash64(s.last_line));
        w.state(hash64(s.key()));
      }
      w.traces++;
    }
  });
  // announced as UCS-2 first, then as UTF-8 (and announced again), at any point of the text
  r.parallel("eRT encoding announced again", 16 * 2, [&](size_t it, Worker& w) {
    const std::string t = "Encoded as UTF-8: Ä, €, 𝄞 and so on, 61 bytes.\r";
    const int n = int(t.size() + 3) / 4, cut = int(it % 16);
    for (int cut2 = 0; cut2 < n; cut2++)
      for (int from = 0; from <= 1; from++) {
        Sys s(e0, P);
        std::vector<Ev> v{oda(kPI, kERT, 0x6552, it < 16 ? 0 : 1)};
        for (int i = 0; i < std::min(cut, n - 1); i++) v.push_back(ert(i, t));  // never complete
        v.push_back(oda(kPI, kERT, 0x6552, 1));
        // the same coding announced with other table numbers, directions and reserved bits
        const int again = 1 | ((cut2 * 7 + cut * 3 + from) % 32) << 1 | (cut2 % 3 == 2 ? 0xFFC0 : 0);
        for (int i = from ? std::min(cut, n - 1) : 0; i < n; i++) {
          if (i == cut2) v.push_back(oda(kPI, kERT, 0x6552, again));
          v.push_back(ert(i, t));
        }
        for (int i = 0; i < n; i++) v.push_back(ert(i, t));
        for (auto& e : v) {
          w.transitions++;
          w.tick();
          if (!s.step(e)) {
            w.failPath(s);
            return;
          }
          w.outcome(hash64(s.last_line));
          w.state(hash64(s.key()));
        }
        w.traces++;
      }
  });
  // UCS-2: every character, alone and followed by others; every length; texts with 0D and 00 in one of
  // the two bytes
  auto wide = [](const std::vector<int>& cs) {
    std::string t;
    for (int c : cs) t += char(c >> 8), t += char(c & 255);
    return t;
  };
  auto ucs = [&](int i, const std::string& t) {  // past the end: blanks
    auto at = [&](size_t k) { return k + 1 < t.size() + 1 && k < t.size() ? u8(t[k]) * 256 + u8(t[k + 1]) : 0x0020; };
    return grp(kPI, kERT, i, at(size_t(i) * 4), at(size_t(i) * 4 + 2));
  };
  const std::vector<Ev> assign2{oda(kPI, kRT, 0x4BD7), oda(kPI, kERT, 0x6552, 0), oda(kPI, kERTP, 0x4BD8)};
  r.parallel("eRT in UCS-2: every character", 256, [&](size_t hi, Worker& w) {
    for (int lo = 0; lo < 256; lo++) {
      const int c = int(hi) * 256 + lo;
      if (lo % 64 && c >= 0xD800 && c < 0xE000) continue;  // not characters
      Sys s(e0, P);
      std::vector<Ev> v = assign2;
      for (auto& t : {wide({c, 0x0D}), wide({'A', c, 0x20AC, 0x0D})}) {
        for (int i = 0; i < int(t.size() + 3) / 4; i++) v.push_back(ucs(i, t));
        v.push_back(tag(kERTP, 0, 0, 4, 1, 0, 1, 0, 1));
      }
      for (auto& e : v) {
        w.transitions++;
        w.tick();
        if (!s.step(e)) { w.failPath(s); return; }
        w.outcome(hash64(s.last_line));
      }
      w.state(hash64(s.key()));
      w.traces++;
    }
  });
  r.parallel("eRT in UCS-2: every length", 65, [&](size_t len, Worker& w) {
    for (int kind = 0; kind < 4; kind++) {
      std::vector<int> cs;
      for (size_t i = 0; i < len; i++) cs.push_back(kind == 0 ? 'a' + int(i % 26) : kind == 1 ? 0x0D00 + int(i * 37 % 256) : kind == 2 ? 0x410D + int(i % 8) * 0x100 : 0x4E00 + int(i) * 7);
      if (len < 64) cs.push_back(0x0D);
      const std::string t = wide(cs);
      const int n = int(t.size() + 3) / 4;
      for (int lost = -1; lost < n; lost++) {
        Sys s(e0, P);
        std::vector<Ev> v = assign2;
        for (int rep = 0; rep < 3; rep++)
          for (int i = 0; i < n; i++) v.push_back(rep == 0 && i == lost ? lose(ucs(i, t), 2 + (i & 1)) : ucs(i, t));
        for (int start : {0, 1, 20, 63}) v.push_back(tag(kERTP, 0, 0, 4, start, 3, 1, start, 0));
        for (auto& e : v) {
          w.transitions++;
          w.tick();
          if (!s.step(e)) { w.failPath(s); return; }
          w.outcome(hash64(s.last_line));
        }
        w.state(hash64(s.key()));
        w.traces++;
      }
    }
  });
  // histories
  std::vector<Scenario> sc;
  {
    const std::string x = wide({'e', 0xC4, 0x420D, 0x0D}), y = wide({0x0D42, 'T', 0x20AC, 0x4E0D, 'x', 0x0D}), z = wide({'1', 0x0D, '2', '3'});
    std::vector<Ev> al{ucs(0, x), ucs(1, x), ucs(0, y), ucs(1, y), ucs(2, y), ucs(0, z), tag(kERTP, 0, 1, 1, 0, 3, 4, 2, 1), lose(ucs(1, x), 2), lose(ucs(0, x), 3), oda(kPI, kERT, 0x6552, 0), rtA(kPI, 0, 0, "RTx\r")};
    sc.push_back(sequences("eRT histories in UCS-2", e0, P, {assign2[1], assign2[2]}, al, r.thorough ? 7 : 6));
    al.push_back(oda(kPI, kERT, 0x6552, 1));
    al.push_back(ert(0, "u8\r"));
    sc.push_back(sequences("eRT histories in both encodings", e0, P, {assign2[1], assign2[2]}, al, r.thorough ? 6 : 5));
  }
  {
    const std::string x = "Song A\r", y = "Title B\r";
    std::vector<Ev> al{rtA(kPI, 0, 0, x), rtA(kPI, 0, 1, x), rtA(kPI, 1, 0, y), rtA(kPI, 1, 1, y), tag(kRT, 0, 1, 1, 0, 3, 4, 2, 1), tag(kRT, 1, 1, 1, 0, 3, 4, 5, 0), tag(kRT, 0, 0, 1, 5, 0, 0, 0, 0), lose(tag(kRT, 0, 1, 1, 0, 3, 4, 2, 1), 2), lose(tag(kRT, 0, 1, 1, 0, 3, 4, 2, 1), 3), oda(kPI, kRT, 0x4BD8), oda(kPI, kRT, 0x4BD7)};
    sc.push_back(sequences("RT+ histories", e0, P, {assign[0]}, al, r.thorough ? 7 : 6));
  }
  {
    const std::string x = "eA Äx\r", y = "Title€\r";
    std::vector<Ev> al{ert(0, x), ert(1, x), ert(0, y), ert(1, y), tag(kERTP, 0, 1, 1, 0, 3, 4, 2, 1), tag(kERTP, 1, 1, 1, 0, 3, 4, 5, 0), lose(ert(1, x), 2), lose(ert(0, x), 3), lose(lose(ert(1, x), 2), 3), oda(kPI, kERT, 0x0BCB), oda(kPI, kERT, 0x6552, 1), rtA(kPI, 0, 0, "RTx\r")};
    sc.push_back(sequences("eRT histories", e0, P, {assign[1], assign[2]}, al, r.thorough ? 7 : 5));
  }
  for (int len : {128, 100, 65, 64, 17}) {
    std::string t = big.substr(0, size_t(len)), t2 = (u + u + u).substr(0, size_t(len));
    if (len < 128) t += "\r", t2 += "\r";
    std::vector<Ev> base;
    const int n = int(t.size() + 3) / 4;
    for (auto& s : {t, t2})
      for (int i = 0; i < n; i++) base.push_back(ert(i, s));
    DevOps o;
    o.jumps = {0, n};
    o.lose_blocks = {1, 2, 3};
    o.inserts = {ert(0, t2), ert(n - 1, t2)};
    sc.push_back(deviations("eRT length " + std::to_string(len), e0, P, assign, base, o, r.thorough || n < 8 ? 2 : 1));
    sc.back().max_depth = 5 * n;
  }
  // the group type matters
  {
    std::vector<Ev> al;
    for (int code : {11, 22, 23, 24, 26}) al.push_back(tag(code, 0, 0, 4, 0, 3, 1, 4, 2));
    for (int code : {22, 24}) for (int aid : {0x4BD7, 0x4BD8, 0x6552}) al.push_back(oda(kPI, code, aid, 1));
    al.push_back(rtA(kPI, 0, 0, "abcd")), al.push_back(rtA(kPI, 0, 1, "EFGHI\r\r\r"));
    sc.push_back(sequences("assignment and use", e0, P, {rtA(kPI, 0, 0, "abc\r")}, al, r.thorough ? 6 : 5));
  }
  explore(r, sc);
  everywhere(r, P);
  longRun(r, e0, P);
}
