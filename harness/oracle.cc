#include "oracle.hh"
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <stdexcept>
#include "../golden/tables.hh"

namespace orc {

std::string hexN(u32 v, int n) {
  char buf[32];
  snprintf(buf, sizeof buf, "%0*X", n, v);
  return buf;
}
static std::string hex0x(u32 v) { return "0x" + hexN(v, 4); }
static std::string trimr(std::string s) {
  while (!s.empty() && s.back() == ' ') s.pop_back();
  return s;
}
static std::string two(int v) {
  char b[16];
  snprintf(b, sizeof b, "%02d", v);
  return b;
}
template <class T>
static std::string at(const std::map<T, std::string>& m, T k, const char* dflt) {
  auto i = m.find(k);
  return i == m.end() ? std::string(dflt) : i->second;
}
static std::string country(u32 cc, u32 ecc) {
  auto i = golden::country.find(u16(ecc));
  if (i == golden::country.end() || cc == 0) return "--";
  return i->second.at(cc - 1);
}

// ---------------------------------------------------------------- text
size_t Text::wanted() const {
  if (enc == Ucs2) {  // 16-bit characters, high byte first
    for (size_t i = 0; i + 1 < d.size(); i += 2)
      if (d[i] * 256 + d[i + 1] == 0x000D) return i + 2;
    return d.size();
  }
  for (size_t i = 0; i < d.size(); i++)
    if (d[i] == 0x0D) return i + 1;
  return d.size();
}
bool Text::anyCR() const {
  for (u8 c : d)
    if (c == 0x0D) return true;
  return false;
}
std::string Text::str() const {
  std::string s;
  const size_t n = wanted();
  if (enc == Ucs2) {
    for (size_t i = 0; i + 1 < n; i += 2) {
      unsigned c = i + 1 < run ? d[i] * 256u + d[i + 1] : 0x20;
      if (c == 0 || c == 0x0D) c = 0x20;
      if (c < 0x80)
        s += char(c);
      else if (c < 0x800)
        s += char(0xC0 | (c >> 6)), s += char(0x80 | (c & 63));
      else
        s += char(0xE0 | (c >> 12)), s += char(0x80 | ((c >> 6) & 63)), s += char(0x80 | (c & 63));
    }
    return s;
  }
  for (size_t i = 0; i < n; i++) {
    u8 c = i < run ? d[i] : 0x20;
    if (c == 0 || c == 0x0D) c = 0x20;
    if (enc == Basic)
      s += golden::charset[c];
    else
      s += char(c);
  }
  return s;
}
void Text::put(size_t pos, u8 byte) {
  if (pos >= d.size()) return;
  d[pos] = byte;
  if (pos == 0)
    run = 1;
  else if (run == pos && last + 1 == pos)
    run = pos + 1;
  if (isComplete() && (enc != Ucs2 || pos % 2)) {
    bool bad = false;  // not characters: nothing of this text is used
    if (enc == Ucs2)
      for (size_t i = 0; i + 1 < std::min(run, wanted()); i += 2) bad = bad || (d[i] & 0xF8) == 0xD8;
    if (bad) return clear();
    complete = str();
  }
  last = pos;
}
std::string Text::sub(size_t start, size_t len) const {
  std::vector<std::string> ch;
  for (char c : complete) {
    if (!ch.empty() && (u8(c) & 0xC0) == 0x80)
      ch.back() += c;
    else
      ch.push_back(std::string(1, c));
  }
  if (start + len > ch.size()) return "";
  std::string r;
  for (size_t i = start; i < start + len; i++) r += ch[i];
  return r;
}
void Text::key(std::string& k) const {
  k.append(reinterpret_cast<const char*>(d.data()), d.size());
  k += char(run);
  k += char(last);
  k += char(enc);
  k += complete;
  k += '|';
}

// ---------------------------------------------------------------- AF
std::optional<int> afKHz(int code, bool lfmf) {
  if (!lfmf) {
    if (code >= 1 && code <= 204) return 87500 + 100 * code;
  } else {
    if (code >= 1 && code <= 15) return 153 + 9 * (code - 1);
    if (code >= 16 && code <= 135) return 531 + 9 * (code - 16);
  }
  return std::nullopt;
}
void AF::put(int code) {
  const bool l = lf;
  lf = false;
  const auto f = afKHz(code, l);
  if (f && want > 0) {
    if (int(got.size()) < want)
      got.push_back(*f);
    else
      clear();
  } else if (code == 205 || code == 224) {
  } else if (code >= 225 && code <= 249) {
    want = code - 224;
    got.clear();
  } else if (code == 250) {
    lf = true;
  } else {
    clear();
  }
}
bool AF::methodB() const {
  if (want % 2 == 0 || got.size() < 3) return false;
  for (size_t i = 1; i + 1 < got.size(); i += 2)
    if (got[i] != got[0] && got[i + 1] != got[0]) return false;
  return true;
}
bool AF::ambiguousB() const {
  return want % 2 == 1 && got.size() >= 3 && got.size() % 2 == 0;
}
void AF::key(std::string& k) const {
  k += std::to_string(want) + (lf ? "L" : "l");
  for (int f : got) k += std::to_string(f) + ",";
}

// ---------------------------------------------------------------- names
std::string callsign(u16 pi) {
  // NRSC-4-B D.7
  u32 p = pi;
  if (p >= 0xAFA0 && p <= 0xAFA9)
    p = (p & 0xF) << 12;
  else if (p >= 0xAF00 && p <= 0xAFFF)
    p = (p & 0xFF) << 8;
  else if (p >= 0xA000 && p <= 0xAFFF)
    p = ((p & 0xF00) << 4) | (p & 0xFF);
  if (p >= 0x9950 && p <= 0x9EFF) return at<u16>(golden::call3, u16(p), "");
  const u32 top = p >> 12;
  if (top == 0xB || top == 0xD || top == 0xE) return at<u16>(golden::linked, u16(p & 0xF0FF), "");
  if (p >= 0x1000 && p <= 0x994F) {
    std::string s = p < 0x54A8 ? "K" : "W";
    u32 v = p < 0x54A8 ? p - 0x1000 : p - 0x54A8;
    s += char('A' + (v / 676) % 26);
    s += char('A' + (v / 26) % 26);
    s += char('A' + v % 26);
    return s;
  }
  return "";
}
std::string typeName(int code) {
  if (code == 32) return "C";
  return std::to_string(code >> 1) + ((code & 1) ? "B" : "A");
}
std::string hexLine(const G& g) {
  std::string s;
  for (int i = 0; i < 4; i++) {
    if (i) s += " ";
    s += g.has[i] ? hexN(g.b[i], 4) : "----";
  }
  return s;
}
std::string base64(const std::vector<u8>& v) {
  static const char* tab = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  std::string s;
  u32 acc = 0;
  int nb = 0;
  for (u8 c : v) {
    acc = (acc << 8) | c;
    nb += 8;
    while (nb >= 6) {
      nb -= 6;
      s += tab[(acc >> nb) & 63];
    }
  }
  if (nb) s += tab[(acc << (6 - nb)) & 63];
  while (s.size() % 4) s += '=';
  return s;
}
bool pinOk(u16 pin) { return bits(pin, 15, 11) >= 1 && bits(pin, 10, 6) <= 24 && bits(pin, 5, 0) <= 59; }
void pinJson(u16 pin, json& j) {
  j["prog_item_number"] = pin;
  j["prog_item_started"] = {{"day", bits(pin, 15, 11)}, {"time", two(bits(pin, 10, 6)) + ":" + two(bits(pin, 5, 0))}};
}
int groupType(const G& g) {
  if (g.stream != 0) return 32;
  if (!g.has[1]) return -1;
  const int code = bits(g.b[1], 15, 11);
  if ((code & 1) == 0) return code;
  if (!g.offsets) return code;
  return (g.has[2] && g.cprime) ? code : -1;
}

// Gregorian calendar by counting; independent of any library
static void civil(long mjd, int& Y, int& M, int& D) {
  // 1900-01-01 is MJD 15020
  long n = mjd - 15020;
  int y = 1900;
  auto leap = [](int yy) { return (yy % 4 == 0 && yy % 100 != 0) || yy % 400 == 0; };
  static const int ml[12] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  while (n >= (leap(y) ? 366 : 365)) { n -= leap(y) ? 366 : 365; y++; }
  int m = 0;
  while (true) {
    int len = ml[m] + (m == 1 && leap(y));
    if (n < len) break;
    n -= len;
    m++;
  }
  Y = y; M = m + 1; D = int(n) + 1;
}
std::optional<std::string> clockTime(u16 b2, u16 b3, u16 b4) {
  const long mjd = (long(b2 & 3) << 15) | (b3 >> 1);
  const int hour = ((b3 & 1) << 4) | (b4 >> 12);
  const int min = bits(b4, 11, 6);
  const int half = b4 & 31;
  const bool neg = b4 & 32;
  if (mjd < 15079 || hour > 23 || min > 59 || half / 2 > 14) return std::nullopt;
  long t = mjd * 1440 + hour * 60 + min + (neg ? -1 : 1) * half * 30;
  int Y, M, D;
  civil(t / 1440, Y, M, D);
  char buf[64];
  int n = snprintf(buf, sizeof buf, "%04d-%02d-%02dT%02d:%02d:00", Y, M, D, int(t % 1440) / 60, int(t % 60));
  if (half == 0)
    snprintf(buf + n, sizeof buf - n, "Z");
  else
    snprintf(buf + n, sizeof buf - n, "%c%02d:%02d", neg ? '-' : '+', half / 2, (half % 2) * 30);
  return std::string(buf);
}

// ---------------------------------------------------------------- station
bool PiFilter::push(u16 pi) {
  bool changed = false;
  if (prev && p1 == p2 && pi == p1) {
    changed = pi != confirmed;
    confirmed = pi;
  }
  if (prev && pi != confirmed && p1 != confirmed && pi != p1) {
    confirmed = 0;
    prev = false;
    p2 = 0;
  } else {
    prev = true;
    p2 = p1;
  }
  p1 = pi;
  return changed;
}

Oracle::Oracle(Opt o_, const std::map<int, LocTable>* t, const std::map<int, Key>* k) : o(o_), tables(t), keys(k) {
  reset(0);
  st.known = false;
}
Oracle::Oracle(Opt o_, u16 known_pi, const std::map<int, LocTable>* t, const std::map<int, Key>* k) : o(o_), tables(t), keys(k) {
  reset(known_pi);
  pf.push(known_pi);
  pf.push(known_pi);
}
void Oracle::reset(u16 pi) {
  st = Station();
  st.pi = pi;
  st.known = true;
  st.ert.resize(128);
  st.tmc.tables = tables;
  st.tmc.keys = keys;
}

std::string Station::key() const {
  std::string k;
  k += std::to_string(pi) + (known ? "K" : "k") + (last_had_pi ? "P" : "p");
  for (const Text* t : {&ps, &rt, &ert, &ptyn, &lps, &tdc}) t->key(k);
  k += char('0' + rt_ab * 2 + ptyn_ab);
  k += rt_candidate + "|";
  k += char('0' + rtp_toggle + 2 * rtp_running + 4 * ertp_toggle + 8 * ertp_running);
  af.key(k);
  for (auto& e : oda) k += std::to_string(e.first) + ":" + std::to_string(e.second) + ";";
  k += "#";
  for (auto& e : oda_pipe) k += std::to_string(e.first) + ":" + std::to_string(e.second) + ";";
  for (auto& e : eon_ps) { k += std::to_string(e.first); e.second.key(k); }
  for (auto& e : eon_af) { k += std::to_string(e.first); e.second.key(k); }
  tmc.key(k);
  for (auto& e : rft) {
    k += "R" + std::to_string(e.first) + "," + std::to_string(e.second.size) + "," + std::to_string(e.second.toggle);
    for (auto s : e.second.got) {
      k += "," + std::to_string(s) + "=";
      for (u8 c : e.second.seg.at(s)) k += char(c);
    }
  }
  return k;
}
std::string Oracle::key() const {
  std::string k = std::to_string(pf.confirmed) + "," + std::to_string(pf.p1) + "," + std::to_string(pf.p2) + (pf.prev ? "y" : "n");
  k += st.key();
  if (o.bler) {
    for (size_t i = errs.size() > 12 ? errs.size() - 12 : 0; i < errs.size(); i++) k += char('0' + errs[i]);
  }
  return k;
}

std::optional<json> Oracle::step(const G& g) {
  debug_line = false;
  errs.push_back(g.errors());
  if (errs.size() > 64) errs.erase(errs.begin(), errs.begin() + 32);
  if (g.hasPI() && pf.push(g.pi())) reset(pf.confirmed);
  if (!st.known) return std::nullopt;

  json j = json::object();
  const int type = groupType(g);
  if (o.streams) j["stream"] = g.stream;
  if (type != 32) {
    if (g.hasPI())
      st.last_had_pi = true;
    else if (st.last_had_pi)
      st.last_had_pi = false;
    else
      return std::nullopt;
    if (g.empty()) return std::nullopt;
    j["pi"] = hex0x(st.pi);
    if (o.rbds) {
      const std::string c = callsign(st.pi);
      if (!c.empty()) j[(st.pi >> 12) == 1 ? "callsign_uncertain" : "callsign"] = c;
    }
  }
  if (o.bler) {
    int k = 0;
    for (size_t i = errs.size() > 12 ? errs.size() - 12 : 0; i < errs.size(); i++) k += errs[i];
    j["bler"] = (50 * k + 12) / 24;  // round half up of 100*k/48
  }
  if (o.multichannel) j["channel"] = o.channel;
  if (o.raw) j["raw_data"] = hexLine(g);

  basics(g, type, j);
  const bool B = type & 1;
  switch (type) {
    case -1: break;
    case 32: typeC(g, j); break;
    case 0: case 1: t0(g, B, j); break;
    case 2: case 3: t1(g, B, j); break;
    case 4: case 5: t2(g, B, j); break;
    case 6: t3A(g, j); break;
    case 8: t4A(g, j); break;
    case 20: t10A(g, j); break;
    case 28: case 29: t14(g, B, j); break;
    case 31: t15B(g, j); break;
    default:
      if (st.oda.count(type)) {
        odaGroup(g, type, j);
      } else if (type == 10 || type == 11) {
        t5(g, B, j);
      } else if (type == 12 || type == 13) {
        t6(g, B, j);
      } else if (type == 14 || type == 18) {
        // paging, EWS: nothing decoded
      } else if (type == 16) {
        if (g.has[2] && g.has[3]) st.tmc.user(g.b[1] & 31, g.b[2], g.b[3], j);
      } else if (type == 30) {
        t15A(g, j);
      } else {
        odaGroup(g, type, j);
      }
  }
  try {
    (void)j.dump();
  } catch (const std::exception&) {
    debug_line = true;
    return json{{"debug", "*"}};
  }
  return j;
}

void Oracle::basics(const G& g, int type, json& j) {
  if (type == 32) {
    j["group"] = "C";
    return;
  }
  if (!g.has[1]) return;
  if (type >= 0) j["group"] = typeName(type);
  j["tp"] = bool(g.b[1] & 0x400);
  const u32 pty = bits(g.b[1], 9, 5);
  j["prog_type"] = o.rbds ? golden::pty_rbds[pty] : golden::pty[pty];
}
static const char* kDI[4] = {"dynamic_pty", "compressed", "artificial_head", "stereo"};
static void flags(u16 w, json& j) {
  j["ta"] = bool(w & 16);
  j["is_music"] = bool(w & 8);
  j["di"] = json{{kDI[w & 3], bool(w & 4)}};
}
void Oracle::t0(const G& g, bool B, json& j) {
  flags(g.b[1], j);
  if (!g.has[2]) {
    if (st.af.methodB()) st.af.clear();
    return;
  }
  if (!B) {
    st.af.put(g.b[2] >> 8);
    st.af.put(g.b[2] & 255);
    if (st.af.complete()) {
      const auto& l = st.af.got;
      if (st.af.methodB()) {
        std::vector<int> same, reg;
        for (size_t i = 1; i < l.size(); i += 2) {
          const int other = l[i] == l[0] ? l[i + 1] : l[i];
          (l[i] < l[i + 1] ? same : reg).push_back(other);
        }
        std::set<int> a(same.begin(), same.end()), b(reg.begin(), reg.end());
        if (a.size() + b.size() == l.size() / 2) {
          j["alt_frequencies_b"]["tuned_frequency"] = l[0];
          if (!same.empty()) j["alt_frequencies_b"]["same_programme"] = same;
          if (!reg.empty()) j["alt_frequencies_b"]["regional_variants"] = reg;
        }
      } else {
        j["alt_frequencies_a"] = l;
      }
      st.af.clear();
    } else if (o.partial) {
      if (!st.af.got.empty()) j["partial_alt_frequencies"] = st.af.got;
    }
  }
  if (!g.has[3]) return;
  st.ps.put2((g.b[1] & 3) * 2, g.b[3]);
  if (st.ps.isComplete())
    j["ps"] = st.ps.complete;
  else if (o.partial)
    j["partial_ps"] = st.ps.str();
}
void Oracle::t1(const G& g, bool B, json& j) {
  if (!g.has[2] || !g.has[3]) return;
  const u16 b3 = g.b[2];
  if (g.b[3] != 0 && pinOk(g.b[3])) pinJson(g.b[3], j);
  if (B) return;
  j["has_linkage"] = bool(b3 & 0x8000);
  switch (bits(b3, 14, 12)) {
    case 0:
      if (b3 & 255) j["country"] = country(st.pi >> 12, b3 & 255);
      break;
    case 1: j["tmc_id"] = b3 & 0xFFF; break;
    case 3: {
      const u32 l = b3 & 255;
      j["language"] = l < golden::languages.size() ? golden::languages[l] : "";
      break;
    }
    case 6: j["slc_broadcaster_bits"] = "0x" + hexN(b3 & 0x7FF, 3); break;
    case 7: j["ews"] = b3 & 0xFFF; break;
    default: break;
  }
}
void Oracle::t2(const G& g, bool B, json& j) {
  if (!g.has[2] || !g.has[3]) return;
  const size_t pos = (g.b[1] & 15) * (B ? 2 : 4);
  const int ab = (g.b[1] >> 4) & 1;
  const bool flip = ab != st.rt_ab;
  st.rt_ab = ab;
  if (o.partial) j["rt_ab"] = ab ? "B" : "A";
  bool repeated = false;
  std::string cand;
  if (pos == 0 && st.rt.run > 1 && !st.rt.isComplete() && !st.rt.anyCR()) {
    cand = trimr(st.rt.str());
    repeated = cand == st.rt_candidate;
    st.rt_candidate = cand;
  }
  if (flip) st.rt.clear();
  if (!B) {
    st.rt.resize(64);
    st.rt.put2(pos, g.b[2]);
    st.rt.put2(pos + 2, g.b[3]);
  } else {
    st.rt.resize(32);
    st.rt.put2(pos, g.b[3]);
  }
  if (st.rt.isComplete()) {
    j["radiotext"] = trimr(st.rt.complete);
  } else if (repeated) {
    j["radiotext"] = cand;
  } else if (o.partial) {
    const std::string s = st.rt.str();
    if (!trimr(s).empty()) j["partial_radiotext"] = s;
  }
}
void Oracle::t3A(const G& g, json& j) {
  if (!g.has[2] || !g.has[3]) return;
  const int tgt = g.b[1] & 31;
  const u16 aid = g.b[3], msg = g.b[2];
  st.oda[tgt] = aid;
  j["open_data_app"]["oda_group"] = typeName(tgt);
  j["open_data_app"]["app_name"] = at<u16>(golden::apps, aid, "(Unknown)");
  switch (aid) {
    case 0x0093: case 0x4BD7: case 0x4BD8: break;
    case 0x6552: st.ert.enc = (msg & 1) ? Text::Utf8 : Text::Ucs2; break;
    case 0xCD46: case 0xCD47: st.tmc.system(msg, j); break;
    default: j["open_data_app"]["message"] = msg; break;
  }
}
void Oracle::t4A(const G& g, json& j) {
  if (!g.has[2] || !g.has[3]) return;
  if (auto s = clockTime(g.b[1], g.b[2], g.b[3])) j["clock_time"] = *s;
}
void Oracle::t5(const G& g, bool B, json& j) {
  const u32 addr = g.b[1] & 31;
  j["transparent_data"]["address"] = addr;
  if (!g.has[3] || (!B && !g.has[2])) return;
  std::vector<u8> by;
  if (!B) { by.push_back(g.b[2] >> 8); by.push_back(g.b[2] & 255); }
  by.push_back(g.b[3] >> 8);
  by.push_back(g.b[3] & 255);
  std::string raw;
  for (u8 c : by) raw += (raw.empty() ? "" : " ") + hexN(c, 2);
  j["transparent_data"]["raw"] = raw;
  Text t(by.size());
  for (size_t i = 0; i < by.size(); i++) t.put(i, by[i]);
  j["transparent_data"]["as_text"] = t.str();
  if (!B) {
    for (size_t i = 0; i < 4; i++) st.tdc.put(addr * 4 + i, by[i]);
    if (st.tdc.isComplete()) {
      j["transparent_data"]["full_text"] = st.tdc.str();
      std::string fr;
      for (size_t i = 0; i < st.tdc.wanted(); i++) {
        u8 c = st.tdc.d[i];
        if (c == 0 || c == 0x0D) c = 0x20;
        fr += (i ? " " : "") + hexN(c, 2);
      }
      j["transparent_data"]["full_raw"] = fr;
    }
  }
}
void Oracle::t6(const G& g, bool B, json& j) {
  json a = json::array({g.b[1] & 31});
  if (!B) {
    if (g.has[2]) {
      a.push_back(g.b[2]);
      if (g.has[3]) a.push_back(g.b[3]);
    }
  } else if (g.has[3]) {
    a.push_back(g.b[3]);
  }
  j["in_house_data"] = a;
}
void Oracle::t10A(const G& g, json& j) {
  if (!g.has[2] || !g.has[3]) return;
  const int ab = (g.b[1] >> 4) & 1;
  if (ab != st.ptyn_ab) st.ptyn.clear();
  st.ptyn_ab = ab;
  const size_t p = (g.b[1] & 1) * 4;
  st.ptyn.put2(p, g.b[2]);
  st.ptyn.put2(p + 2, g.b[3]);
  if (st.ptyn.isComplete()) j["pty_name"] = st.ptyn.complete;
}
void Oracle::t14(const G& g, bool B, json& j) {
  if (!g.has[3]) return;
  const u16 on = g.b[3], w = g.b[2];
  json& n = j["other_network"];
  n["pi"] = hex0x(on);
  n["tp"] = bool(g.b[1] & 16);
  if (B) {
    n["ta"] = bool(g.b[1] & 8);
    return;
  }
  if (!g.has[2]) return;
  const u32 v = g.b[1] & 15;
  if (v <= 3) {
    Text& t = st.eon_ps[on];
    t.put2(2 * v, w);
    if (t.isComplete()) n["ps"] = t.complete;
  } else if (v == 4) {
    AF& a = st.eon_af[on];
    a.put(w >> 8);
    a.put(w & 255);
    if (a.complete()) {
      n["alt_frequencies"] = a.got;
      a.clear();
    }
  } else if (v >= 5 && v <= 9) {
    if (auto f = afKHz(w & 255, false)) n["kilohertz"] = *f;
  } else if (v == 12) {
    n["has_linkage"] = bool(w & 0x8000);
    if ((w & 0x8000) && (w & 0xFFF)) n["linkage_set"] = w & 0xFFF;
  } else if (v == 13) {
    const u32 pty = bits(w, 15, 11);
    n["prog_type"] = o.rbds ? golden::pty_rbds[pty] : golden::pty[pty];
    n["ta"] = bool(w & 1);
  } else if (v == 14) {
    if (w != 0 && pinOk(w)) pinJson(w, n);
  } else if (v == 15) {
    n["broadcaster_data"] = hexN(w, 4);
  }
}
void Oracle::t15A(const G& g, json& j) {
  const size_t p = (g.b[1] & 7) * 4;
  if (g.has[2]) st.lps.put2(p, g.b[2]);
  if (g.has[3]) st.lps.put2(p + 2, g.b[3]);
  if ((g.has[2] || g.has[3]) && st.lps.isComplete())
    j["long_ps"] = trimr(st.lps.complete);
  else if (o.partial)
    j["partial_long_ps"] = st.lps.str();
}
void Oracle::t15B(const G& g, json& j) { flags(g.b[1], j); }

void Oracle::rtplus(const G& g, Text& t, bool& tog, bool& run, json& el) {
  const bool nt = g.b[1] & 16, nr = g.b[1] & 8;
  if (nt != tog || nr != run) t.clear();
  tog = nt;
  run = nr;
  el["item_running"] = nr;
  el["item_toggle"] = nt ? 1 : 0;
  auto tag = [&](u32 ct, u32 start, u32 len) {
    const std::string s = t.sub(start, len);
    if (s.empty() || ct == 0) return;
    el["tags"].push_back(json{{"content-type", golden::rtplus[ct]}, {"data", trimr(s)}});
  };
  if (!g.has[2]) return;
  tag(((g.b[1] & 7) << 3) | (g.b[2] >> 13), bits(g.b[2], 12, 7), bits(g.b[2], 6, 1) + 1);
  if (!g.has[3]) return;
  tag(((g.b[2] & 1) << 5) | (g.b[3] >> 11), bits(g.b[3], 10, 5), bits(g.b[3], 4, 0) + 1);
}
void Oracle::odaGroup(const G& g, int type, json& j) {
  auto it = st.oda.find(type);
  const std::string raw = hexN(g.b[1] & 31, 2) + " " + (g.has[2] ? hexN(g.b[2], 4) : "----") + " " + (g.has[3] ? hexN(g.b[3], 4) : "----");
  if (it == st.oda.end()) {
    j["unknown_oda"]["raw_data"] = raw;
    return;
  }
  switch (it->second) {
    case 0x0093: {
      if (g.b[1] & 16) break;
      static const char* modes[4] = {"unspecified", "I", "II or III", "IV"};
      j["dab"]["mode"] = modes[bits(g.b[1], 3, 2)];
      if (!g.has[2] || !g.has[3]) break;
      const u32 khz = 16 * (((g.b[1] & 3u) << 16) | g.b[2]);
      j["dab"]["kilohertz"] = khz;
      const std::string ch = at<u32>(golden::dab, khz, "");
      if (!ch.empty()) j["dab"]["channel"] = ch;
      j["dab"]["ensemble_id"] = hex0x(g.b[3]);
      break;
    }
    case 0x4BD7: rtplus(g, st.rt, st.rtp_toggle, st.rtp_running, j["radiotext_plus"]); break;
    case 0x4BD8: rtplus(g, st.ert, st.ertp_toggle, st.ertp_running, j["ert_plus"]); break;
    case 0x6552: {
      const size_t p = (g.b[1] & 31) * 4;
      if (g.has[2]) st.ert.put2(p, g.b[2]);
      if (g.has[3]) st.ert.put2(p + 2, g.b[3]);
      if (st.ert.isComplete()) j["enhanced_radiotext"] = trimr(st.ert.complete);
      break;
    }
    case 0xCD46: case 0xCD47:
      if (g.has[2] && g.has[3]) st.tmc.user(g.b[1] & 31, g.b[2], g.b[3], j);
      break;
    default:
      j["unknown_oda"]["app_id"] = hexN(it->second, 4);
      j["unknown_oda"]["app_name"] = at<u16>(golden::apps, it->second, "(Unknown)");
      j["unknown_oda"]["raw_data"] = raw;
  }
}

void Oracle::typeC(const G& g, json& j) {
  for (bool h : g.has)
    if (!h) return;
  std::vector<int> by;
  for (u16 w : g.b) { by.push_back(w >> 8); by.push_back(w & 255); }
  const int fid = by[0] >> 6, fn = by[0] & 63;
  auto slice = [&](int from) { return std::vector<int>(by.begin() + from, by.end()); };
  if (fid == 0 && fn == 0) return;
  if (fid == 0 && (fn >> 4) == 2) {
    const int pipe = fn & 15;
    const int tog = by[1] >> 7;
    const u32 addr = ((by[1] & 127) << 8) | by[2];
    if (st.oda_pipe.count(pipe)) j["open_data_app"]["app_name"] = at<u16>(golden::apps, st.oda_pipe[pipe], "(Unknown)");
    json& d = j["rft"]["data"];
    d["pipe"] = pipe;
    d["toggle"] = tog;
    d["byte_address"] = addr * 5;
    d["segment_data"] = slice(3);
    Rft& r = st.rft[pipe];
    if (tog != r.toggle) r.got.clear();
    r.toggle = tog;
    std::array<u8, 5> s{};
    for (int i = 0; i < 5; i++) s[i] = u8(by[3 + i]);
    r.seg[addr] = s;
    r.got.insert(addr);
    if (r.size > 0) {
      const u32 n = (r.size + 4) / 5;
      bool all = r.got.size() >= n;
      for (u32 i = 0; all && i < n; i++) all = r.got.count(i) != 0;
      if (all) {
        std::vector<u8> f;
        for (u32 i = 0; i < n; i++)
          for (u8 c : r.seg[i]) f.push_back(c);
        f.resize(r.size);
        d["file_contents"] = base64(f);
        r.got.clear();
      }
    }
  } else if (fid == 1) {
    j["open_data_app"]["channel"] = fn;
    j["open_data_app"]["app_data"] = slice(1);
  } else if (fid == 2 && fn == 0) {
    const int method = (by[1] >> 6) + 1, ch = by[1] & 63;
    if (method != 1) return;
    j["open_data_app"]["channel"] = ch;
    j["open_data_app"]["oda_aid"] = g.b[1];
    j["open_data_app"]["app_name"] = at<u16>(golden::apps, g.b[1], "(Unknown)");
    st.oda_pipe[ch] = g.b[1];
    if (ch >= 16) {
      j["open_data_app"]["app_data"] = slice(4);
      return;
    }
    const int variant = g.b[2] >> 12;
    const u32 w = (u32(g.b[2]) << 16) | g.b[3];
    if (variant == 0) {
      const u32 size = w & 0x3FFFF;
      if (size <= 32768 * 5) st.rft[ch].size = size;
      j["rft"]["file_info"] = {{"version", bits(g.b[2], 10, 8)}, {"id", bits(g.b[2], 7, 2)}, {"size", size}, {"has_crc", bool(g.b[2] & 0x800)}};
    } else if (variant == 1) {
      const u32 mode = bits(g.b[2], 11, 9);
      if (mode == 0)
        j["rft"]["crc_info"]["file_crc16"] = g.b[3];
      else if (mode != 6)
        j["rft"]["crc_info"] = {{"chunk_crc16", g.b[3]}, {"chunk_address", g.b[2] & 0x1FF}, {"crc_mode", mode}};
    } else if (variant >= 8) {
      j["open_data_app"]["non_file_oda_data"] = hexN(w & 0xFFFFFFF, 7);
    } else {
      j["open_data_app"]["file_oda_data"] = hexN(w & 0xFFFFFFF, 7);
    }
  } else {
    j["open_data_app"]["data"] = slice(2);
  }
}

// ---------------------------------------------------------------- TMC
static std::vector<std::string> split(const std::string& s, char d) {
  std::vector<std::string> r(1);
  for (char c : s) {
    if (c == d) r.emplace_back();
    else r.back() += c;
  }
  return r;
}
static std::vector<std::string> goldenLines(const char* name) {
  const char* dir = getenv("VERIF_GOLDEN");
  std::ifstream f(std::string(dir ? dir : "/verif/golden") + "/" + name);
  if (!f) throw std::runtime_error("golden file missing");
  std::vector<std::string> v;
  for (std::string l; std::getline(f, l);) v.push_back(l);
  return v;
}
const std::map<int, TmcEvent>& tmcEvents() {
  static const std::map<int, TmcEvent> m = [] {
    std::map<int, TmcEvent> r;
    auto lines = goldenLines("tmc_events.txt");
    for (size_t i = 1; i < lines.size(); i++) {
      auto f = split(lines[i], ';');
      TmcEvent e;
      e.desc = f[1];
      e.descq = f[2];
      e.qtype = f[4].empty() ? 0 : atoi(f[4].c_str());
      e.both = f[6] == "2";
      e.urgency = f[7] == "U" ? 1 : f[7] == "X" ? 2 : 0;
      e.cls = atoi(f[8].c_str());
      e.q = !e.descq.empty();
      r[atoi(f[0].c_str())] = e;
    }
    return r;
  }();
  return m;
}
const std::map<int, std::string>& tmcSuppl() {
  static const std::map<int, std::string> m = [] {
    std::map<int, std::string> r;
    for (auto& l : goldenLines("tmc_suppl.txt")) {
      auto f = split(l, ';');
      r.insert({atoi(f[0].c_str()), f[1]});
    }
    return r;
  }();
  return m;
}
static std::string cap(std::string s) {
  if (!s.empty() && s[0] >= 'a' && s[0] <= 'z') s[0] = char(s[0] - 32);
  return s;
}
std::string tmcTime(int f) {
  static const char* mon[12] = {"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"};
  if (f <= 95) return two(f / 4) + ":" + two(f % 4 * 15);
  if (f <= 200) {
    const int d = (f - 96) / 24, h = (f - 96) % 24;
    return (d == 0 ? std::string("at ") : "after " + std::to_string(d) + (d == 1 ? " day at " : " days at ")) + two(h) + ":00";
  }
  if (f <= 231) return "day " + std::to_string(f - 200) + " of the month";
  return std::string((f - 232) % 2 ? "end of " : "mid-") + mon[(f - 232) / 2];
}
static bool q5(int t) { return t <= 5; }
std::string tmcQuant(const TmcEvent& e, int q) {
  std::string t;
  auto S = [](int v) { return std::to_string(v); };
  auto deci = [&](const char* unit) {
    const int v = q <= 100 ? q : 100 + (q - 100) * 5;
    return S(v / 10) + "." + S(v % 10) + unit;
  };
  if (q5(e.qtype) && q == 0) q = 32;
  switch (e.qtype) {
    case 0: t = S(q <= 28 ? q : 2 * q - 28); break;
    case 1: t = S(q <= 4 ? q : q <= 14 ? (q - 4) * 10 : (q - 12) * 50); break;
    case 2: t = "less than " + S(q * 10) + " metres"; break;
    case 3: t = S(q == 32 ? 0 : q * 5) + " %"; break;
    case 4: t = "of up to " + S(q * 5) + " km/h"; break;
    case 5: t = q <= 10 ? "of up to " + S(q * 5) + " minutes" : "of up to " + S(q <= 22 ? q - 10 : (q - 20) * 6) + " hours"; break;
    case 6: t = S(q - 51) + " degrees Celsius"; break;
    case 7: { const int m = (q - 1) * 10; t = two(m / 60) + ":" + two(m % 60); break; }
    case 8: t = deci(" tonnes"); break;
    case 9: t = deci(" metres"); break;
    case 10: t = "of up to " + S(q) + " millimetres"; break;
    case 11: if (auto f = afKHz(q, false)) t = S(*f / 1000) + "." + S(*f % 1000 / 100) + " MHz"; else t = "N/A"; break;
    case 12: if (auto f = afKHz(q, true)) t = S(*f) + " kHz"; else t = "N/A"; break;
  }
  std::string d = e.descq;
  for (size_t p = 0; (p = d.find("(Q)", p)) != std::string::npos; p += t.size()) d.replace(p, 3, t);
  return d;
}
static std::vector<std::string> scopes(u32 m) {
  std::vector<std::string> v;
  if (m & 8) v.push_back("inter-road");
  if (m & 4) v.push_back("national");
  if (m & 2) v.push_back("regional");
  if (m & 1) v.push_back("urban");
  return v;
}
void Tmc::system(u16 m, json& j) {
  const u32 variant = m >> 14;
  if (variant == 3) return;
  if (variant == 0) {
    json& s = j["tmc"]["system_info"];
    init = true;
    const int l = bits(m, 11, 6);
    if (enc != (l == 0)) {
      // a message begun in clear text does not go on encrypted, or the other way round
      for (auto& p : part) p.reset();
      ci = 0;
      msg_enc = l == 0;
    }
    enc = l == 0;
    s["is_encrypted"] = enc;
    if (!enc) {
      ltn = l;
      s["location_table"] = l;
    }
    s["is_on_alt_freqs"] = bool(m & 32);
    if (m & 15) s["scope"] = scopes(m & 15);
  } else if (variant == 1) {
    json& s = j["tmc"]["system_info"];
    static const int gap[4] = {3, 5, 8, 11};
    s["service_id"] = bits(m, 11, 6);
    s["gap"] = gap[bits(m, 13, 12)];
    ltcc = m & 15;
    if (ltcc) s["ltcc"] = ltcc;
  } else {
    const u32 e = m & 255;
    if (e) {
      json& s = j["tmc"]["system_info"];
      s["ltecc"] = e;
      if (ltcc) s["country"] = country(ltcc, e);
    }
  }
}
void Tmc::key(std::string& k) const {
  k += "T" + std::to_string(init + 2 * enc + 4 * has_encid + 8 * msg_enc) + "," + std::to_string(ltn) + "," + std::to_string(encid) + "," + std::to_string(ltcc) + "," + std::to_string(ci);
  for (auto& p : part)
    k += p ? ":" + std::to_string((*p)[0]) + "-" + std::to_string((*p)[1]) : std::string(":_");
  sp.key(k);
}
void Tmc::emit(json& msg, json& j, bool encrypted, u16 loc) {
  bool clear_loc = !encrypted;
  if (encrypted) {
    msg["encrypted_location"] = loc;
    // a message begun while the service was encrypted is not decrypted after it announced clear text
    if (keys && enc) {
      auto k = keys->find(encid);
      if (k != keys->end()) {
        const u16 x = u16(loc ^ u16(u32(k->second.x) << k->second.start));
        const int r = k->second.rot & 15;
        loc = r ? u16((x << r) | (x >> (16 - r))) : x;
        clear_loc = true;
      }
    }
  }
  if (clear_loc) msg["location"] = loc;
  if (clear_loc && tables) {
    auto ti = tables->find(ltn);
    if (ti != tables->end() && ti->second.ltn == ltn && ltn != 0) {
      const LocTable& T = ti->second;
      auto pi = T.points.find(loc);
      if (pi != T.points.end()) {
        const std::string ext = msg["extent"].get<std::string>();
        const int e = atoi(ext.c_str());
        std::vector<const Point*> path;
        int cur = loc;
        for (int i = 0; i <= std::abs(e); i++) {
          auto q = T.points.find(cur);
          if (q == T.points.end()) break;
          path.push_back(&q->second);
          cur = e >= 0 ? q->second.pos : q->second.neg;
        }
        for (auto* p : path) msg["coordinates"].push_back(json{{"lat", double(p->lat)}, {"lon", double(p->lon)}});
        if (path.size() > 1 && !path.front()->name1.empty() && !path.back()->name1.empty()) {
          msg["span_from"] = path.front()->name1;
          msg["span_to"] = path.back()->name1;
        }
        auto ro = T.roads.find(pi->second.roa);
        if (ro != T.roads.end()) {
          if (!ro->second.number.empty()) msg["road_number"] = ro->second.number;
          if (!ro->second.name.empty()) msg["road_name"] = ro->second.name;
          else if (!pi->second.road_name.empty()) msg["road_name"] = pi->second.road_name;
        }
      }
    }
  }
  j["tmc"]["message"] = msg;
}
static const char* kUrg[3] = {"none", "U", "X"};
static void wording(const std::vector<int>& ev, const std::map<size_t, int>& quant, const std::vector<int>& sup, json& m) {
  const auto& E = tmcEvents();
  const auto& S = tmcSuppl();
  m["event_codes"] = ev;
  if (!sup.empty()) m["supplementary_codes"] = sup;
  std::vector<std::string> out;
  for (size_t i = 0; i < ev.size(); i++) {
    auto e = E.find(ev[i]);
    if (e == E.end()) continue;
    auto q = quant.find(i);
    out.push_back(cap(q == quant.end() ? e->second.desc : tmcQuant(e->second, q->second)));
  }
  auto e0 = E.find(ev[0]);
  if (e0 != E.end()) m["update_class"] = e0->second.cls;
  for (int c : sup) {
    auto s = S.find(c);
    if (s != S.end()) out.push_back(cap(s->second));
  }
  if (!out.empty()) {
    std::string d;
    for (auto& s : out) d += (d.empty() ? "" : ". ") + s;
    m["description"] = d + ".";
  }
}
void Tmc::user(u16 x, u16 y, u16 z, json& j) {
  if (!init) return;
  const auto& E = tmcEvents();
  auto ev = [&](int c) { auto i = E.find(c); return i == E.end() ? TmcEvent() : i->second; };
  if ((x & 31) == 0) {
    encid = y & 31;
    ltn = z >> 10;
    has_encid = true;
    j["tmc"]["system_info"] = {{"service_id", bits(y, 10, 5)}, {"encryption_id", encid}, {"location_table", ltn}};
    return;
  }
  if (x & 16) {
    const u32 v = x & 15;
    if (v == 4 || v == 5) {
      sp.put2(4 * (v - 4), y);
      sp.put2(4 * (v - 4) + 2, z);
      if (sp.isComplete()) j["tmc"]["service_provider"] = sp.complete;
    } else if (v == 6) {
      json& n = j["tmc"]["other_network"];
      n["pi"] = hex0x(z);
      for (int c : {y >> 8, y & 255})
        if (auto f = afKHz(c, false)) n["frequencies_khz"].push_back(*f);
    } else if (v == 8) {
      json& n = j["tmc"]["other_network"];
      if (y == 0 || z == 0 || y == z) n["pi"] = hex0x(y);
      else n["pi_codes"] = {hex0x(y), hex0x(z)};
    } else if (v == 9) {
      json& n = j["tmc"]["other_network"];
      n["pi"] = hex0x(z);
      n["service_id"] = y & 63;
      n["location_table"] = y >> 10;
      if (bits(y, 9, 6)) n["scope"] = scopes(bits(y, 9, 6));
    }
    return;
  }
  if (enc && !has_encid) return;
  if (x & 8) {
    json m;
    const int code = y & 0x7FF;
    const TmcEvent e = ev(code);
    wording({code}, {}, {}, m);
    m["direction"] = e.both ? "both" : "single";
    m["extent"] = std::string((y & 0x4000) ? "-" : "+") + std::to_string(bits(y, 13, 11));
    m["urgency"] = kUrg[e.urgency];
    emit(m, j, enc, z);
    return;
  }
  const int nci = x & 7;
  if (nci != ci) {
    for (auto& p : part) p.reset();
    msg_enc = enc;
  }
  ci = nci;
  const bool first = y & 0x8000, second = y & 0x4000;
  const int gsi = bits(y, 13, 12);
  int idx = first ? 0 : second ? 1 : 4 - gsi;
  part[idx] = std::array<u16, 2>{y, z};
  if (first || gsi != 0) return;
  // last group
  auto P = part;
  for (auto& p : part) p.reset();
  ci = 0;
  if (!P[0]) return;
  const u16 y0 = (*P[0])[0];
  std::vector<int> events{y0 & 0x7FF}, sup, div;
  std::map<size_t, int> quant;
  const TmcEvent e0 = ev(events[0]);
  bool both = e0.both;
  int urg = e0.urgency, extent = bits(y0, 13, 11);
  std::optional<int> speed, t_start, t_stop;
  if (P[1]) {
    std::string fb;  // free-form bits
    auto add = [&](const std::array<u16, 2>& p) {
      for (int b = 11; b >= 0; b--) fb += char('0' + ((p[0] >> b) & 1));
      for (int b = 15; b >= 0; b--) fb += char('0' + ((p[1] >> b) & 1));
    };
    add(*P[1]);
    const int rest = bits((*P[1])[0], 13, 12);
    for (int i = 5 - rest; i < 5; i++) {
      if (!P[i]) break;
      add(*P[i]);
    }
    static const int len[16] = {3, 3, 5, 5, 5, 8, 8, 8, 8, 11, 16, 16, 16, 16, 0, 0};
    size_t pos = 0;
    auto take = [&](int n) { int v = 0; while (n--) v = 2 * v + (fb[pos++] - '0'); return v; };
    while (fb.size() - pos > 4) {
      const int label = take(4);
      if (fb.size() - pos < size_t(len[label])) break;
      const int v = take(len[label]);
      if (label == 0 && v == 0) break;
      switch (label) {
        case 1:
          if (v == 0) urg = (urg + 1) % 3;
          else if (v == 1) urg = (urg + 2) % 3;
          else if (v == 2) both = !both;
          else if (v == 6) extent += 8;
          else if (v == 7) extent += 16;
          break;
        case 3: speed = v * 5; break;
        case 4: case 5: {
          const TmcEvent e = ev(events.back());
          if (!quant.count(events.size() - 1) && e.q && q5(e.qtype) == (label == 4)) quant[events.size() - 1] = v;
          break;
        }
        case 6: sup.push_back(v); break;
        case 7: t_start = v; break;
        case 8: t_stop = v; break;
        case 9: events.push_back(v); break;
        case 10: div.push_back(v); break;
        default: break;
      }
    }
  }
  json m;
  wording(events, quant, sup, m);
  if (!div.empty()) m["diversion_route"] = div;
  if (speed) m["speed_limit"] = std::to_string(*speed) + " km/h";
  m["direction"] = both ? "both" : "single";
  m["extent"] = std::string((y0 & 0x4000) ? "-" : "+") + std::to_string(extent);
  if (t_start) m["starts"] = tmcTime(*t_start);
  if (t_stop) m["until"] = tmcTime(*t_stop);
  m["urgency"] = kUrg[urg];
  emit(m, j, msg_enc, (*P[0])[1]);
}

// ---------------------------------------------------------------- bit level
static const u32 kOff[5] = {0x0FC, 0x198, 0x168, 0x350, 0x1B4};
static u32 remainder10(u32 word26) {
  // division by g(x) = x^10+x^8+x^7+x^5+x^4+x^3+1
  for (int b = 25; b >= 10; b--)
    if (word26 & (1u << b)) word26 ^= 0x5B9u << (b - 10);
  return word26;
}
u32 encodeBlock(u16 data, int offset) {
  const u32 w = u32(data) << 10;
  return w | (remainder10(w) ^ kOff[offset]);
}
int offsetOf(u32 w) {
  const u32 r = remainder10(w & 0x3FFFFFF);
  for (int o = 0; o < 5; o++)
    if (r == kOff[o]) return o;
  return -1;
}
std::optional<u32> correct(u32 word, int offset) {
  if (offset == 3) return std::nullopt;
  for (u32 burst : {1u, 3u})
    for (int s = 0; s < 26; s++) {
      const u32 e = (burst << s) & 0x3FFFFFF;
      if (remainder10(word ^ e) == kOff[offset]) return word ^ e;
    }
  return std::nullopt;
}
static int blockOf(int off) { return off <= 1 ? off : off <= 3 ? 2 : 3; }
static int nextOff(int off) { return off == 0 ? 1 : off == 1 ? 2 : off == 4 ? 0 : 4; }
std::optional<G> BitSync::push(bool bit) {
  reg = ((reg << 1) | (bit ? 1 : 0)) & 0x3FFFFFF;
  count++;
  if (--wait > 0) return std::nullopt;
  std::optional<G> out;
  const int off = offsetOf(reg);
  if (!sync && off >= 0) {
    pulses.push_back({off, count});
    if (pulses.size() > 4) pulses.erase(pulses.begin());
    auto follows = [](const Pulse& a, const Pulse& b) {
      const uint64_t dist = b.at - a.at;
      return dist % 26 == 0 && dist / 26 <= 6 && (blockOf(a.off) + dist / 26) % 4 == uint64_t(blockOf(b.off));
    };
    const Pulse& c = pulses.back();
    bool found = false;
    for (size_t i = 0; i + 1 < pulses.size(); i++)
      for (size_t k = i + 1; k + 1 < pulses.size(); k++)
        if (follows(pulses[i], pulses[k]) && follows(pulses[k], c)) found = true;
    if (found) {
      sync = true;
      expect = off;
      cur = G();
      cur.offsets = true;
    }
  }
  if (sync) {
    int want = expect;
    if (want == 2 && off == 3) want = 3;
    const bool err = off != want;
    window.push_back(err);
    if (window.size() > 50) window.erase(window.begin());
    int n = 0;
    for (bool b : window) n += b;
    if (n > 42) {
      sync = false;
      window.clear();
      wait = 1;
      return out;
    }
    std::optional<u32> word;
    if (!err)
      word = reg;
    else if (fec)
      word = correct(reg, want);
    if (word) {
      const int b = blockOf(want);
      cur.has[b] = true;
      cur.b[b] = u16(*word >> 10);
      cur.err[b] = err;
      if (b == 2) cur.cprime = want == 3;
    }
    expect = nextOff(want);
    if (expect == 0) {
      out = cur;
      cur = G();
      cur.offsets = true;
    }
  }
  wait = sync ? 26 : 1;
  return out;
}
std::string BitSync::key() const {
  std::string k = std::to_string(reg) + "," + std::to_string(sync) + "," + std::to_string(wait) + "," + std::to_string(expect) + ";";
  for (auto& p : pulses) k += std::to_string(p.off) + "@" + std::to_string(count - p.at > 200 ? 200 : count - p.at) + ";";
  for (bool b : window) k += b ? '1' : '0';
  k += hexLine(cur) + (cur.cprime ? "'" : "");
  return k;
}
}  // namespace orc
