// Independent reference decoder. It is the model against which every explored execution of the
// real decoder is compared. It deliberately shares no code with the tree under test.
#pragma once
#include <array>
#include <cstdint>
#include <cstdio>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <vector>
#include <nlohmann/json.hpp>

namespace orc {
using json = nlohmann::json;
using u8 = uint8_t;
using u16 = uint16_t;
using u32 = uint32_t;

inline u32 bits(u32 w, int hi, int lo) { return (w >> lo) & ((1u << (hi - lo + 1)) - 1u); }

struct Opt {
  bool rbds = false, partial = false, raw = false, streams = false, bler = false, fec = true;
  bool multichannel = false;
  int channel = 0;
};

// One received group as the environment delivered it.
struct G {
  std::array<u16, 4> b{};
  std::array<bool, 4> has{};
  std::array<bool, 4> err{};  // error before correction (meaningful with offsets)
  bool cprime = false;        // block 3 arrived with offset C'
  bool offsets = false;       // bit-level input
  int stream = 0;
  bool empty() const { return !(has[0] || has[1] || has[2] || has[3]); }
  bool hasPI() const { return stream == 0 && (has[0] || (has[2] && cprime)); }
  u16 pi() const { return has[0] ? b[0] : b[2]; }
  int errors() const {
    int n = 0;
    for (int i = 0; i < 4; i++) n += (!has[i] || err[i]);
    return n;
  }
};

// ---------------------------------------------------------------- text
struct Text {
  std::vector<u8> d;
  size_t run = 0;       // length of the unbroken in-order run from position 0
  size_t last = 0;      // last written position
  enum Enc { Basic, Utf8, Ucs2 } enc = Basic;
  std::string complete;  // last complete text

  explicit Text(size_t n = 8, Enc e = Basic) : d(n, 0), enc(e) {}
  size_t wanted() const;
  bool isComplete() const { return run >= wanted(); }
  bool anyCR() const;
  std::string str() const;
  void put(size_t pos, u8 byte);
  void put2(size_t pos, u16 w) { put(pos, u8(w >> 8)); put(pos + 1, u8(w & 255)); }
  void clear() { run = 0; complete.clear(); }
  void resize(size_t n) { d.resize(n, 0x20); }
  std::string sub(size_t start, size_t len) const;
  void key(std::string& k) const;
};

// ---------------------------------------------------------------- AF
std::optional<int> afKHz(int code, bool lfmf);
struct AF {
  int want = 0;
  std::vector<int> got;
  bool lf = false;
  void put(int code);
  bool complete() const { return want > 0 && int(got.size()) == want; }
  bool methodB() const;         // only meaningful with fully received pairs
  bool ambiguousB() const;      // unpaired last entry in a maybe-B list
  void clear() { want = 0; got.clear(); }
  void key(std::string& k) const;
};

// ---------------------------------------------------------------- TMC
struct TmcEvent { std::string desc, descq; int qtype = 0; bool dynamic = true; bool both = false; int urgency = 0; int cls = 0; bool q = false; };
const std::map<int, TmcEvent>& tmcEvents();
const std::map<int, std::string>& tmcSuppl();
struct Point { int roa = 0, seg = 0, neg = 0, pos = 0; float lon = 0, lat = 0; std::string name1, road_name; };
struct Road { std::string number, name; };
struct LocTable { int ltn = 0; std::map<int, Point> points; std::map<int, Road> roads; };
struct Key { int x = 0, start = 0, rot = 0; };
struct Tmc {
  bool init = false, enc = false, has_encid = false;
  int ltn = 0, encid = 0, ltcc = 0;
  int ci = 0;  // continuity index of the message being assembled
  std::array<std::optional<std::array<u16, 2>>, 5> part;
  bool msg_enc = false;  // encryption state when the message being assembled was started
  Text sp{8};
  const std::map<int, LocTable>* tables = nullptr;
  const std::map<int, Key>* keys = nullptr;
  void system(u16 m, json& j);
  void user(u16 x, u16 y, u16 z, json& j);
  void key(std::string& k) const;
 private:
  void emit(json& msg, json& j, bool encrypted, u16 loc);
};
std::string tmcTime(int f);
std::string tmcQuant(const TmcEvent& e, int q);

// ---------------------------------------------------------------- RFT
struct Rft {
  u32 size = 0;
  int toggle = 0;
  std::map<u32, std::array<u8, 5>> seg;
  std::set<u32> got;
};

// ---------------------------------------------------------------- station
struct Station {
  u16 pi = 0;
  bool known = false;
  bool last_had_pi = false;
  Text ps{8}, rt{64}, ert{64}, ptyn{8}, lps{32, Text::Utf8}, tdc{128};
  int rt_ab = 0, ptyn_ab = 0;
  std::string rt_candidate;
  bool rtp_toggle = false, rtp_running = false, ertp_toggle = false, ertp_running = false;
  AF af;
  std::map<int, u16> oda;       // group type code (5 bits) -> AID
  std::map<int, u16> oda_pipe;  // RDS2 channel -> AID
  std::map<u16, Text> eon_ps;
  std::map<u16, AF> eon_af;
  Tmc tmc;
  std::map<int, Rft> rft;
  std::string key() const;
};

struct PiFilter {
  u16 confirmed = 0, p1 = 0, p2 = 0;
  bool prev = false;
  bool push(u16 pi);  // true: (new) station confirmed
};

struct Oracle {
  Opt o;
  PiFilter pf;
  Station st;
  std::vector<int> errs;  // block errors of all groups so far (last 12 matter)
  const std::map<int, LocTable>* tables = nullptr;
  const std::map<int, Key>* keys = nullptr;

  explicit Oracle(Opt o_ = {}, const std::map<int, LocTable>* t = nullptr, const std::map<int, Key>* k = nullptr);
  Oracle(Opt o_, u16 known_pi, const std::map<int, LocTable>* t = nullptr, const std::map<int, Key>* k = nullptr);
  // nullopt: no line. A line that cannot be represented as JSON is {"debug":...}.
  std::optional<json> step(const G& g);
  std::string key() const;
  bool debug_line = false;

 private:
  void reset(u16 pi);
  void basics(const G& g, int type, json& j);
  void t0(const G&, bool B, json&);
  void t1(const G&, bool B, json&);
  void t2(const G&, bool B, json&);
  void t3A(const G&, json&);
  void t4A(const G&, json&);
  void t5(const G&, bool B, json&);
  void t6(const G&, bool B, json&);
  void t10A(const G&, json&);
  void t14(const G&, bool B, json&);
  void t15A(const G&, json&);
  void t15B(const G&, json&);
  void odaGroup(const G&, int type, json&);
  void typeC(const G&, json&);
  void rtplus(const G&, Text& t, bool& tog, bool& run, json& el);
};

std::string callsign(u16 pi);
std::string hexLine(const G& g);
std::string hexN(u32 v, int n);
std::string base64(const std::vector<u8>& v);
bool pinOk(u16 pin);
void pinJson(u16 pin, json& j);
std::string typeName(int code);
int groupType(const G& g);  // 5-bit code, -1 unknown, 32 = C
std::optional<std::string> clockTime(u16 b2, u16 b3, u16 b4);

// ---------------------------------------------------------------- bit level
u32 encodeBlock(u16 data, int offset);  // offset: 0 A, 1 B, 2 C, 3 C', 4 D
int offsetOf(u32 word26);               // -1 if none matches
struct BitSync {
  bool fec = true;
  u32 reg = 0;
  uint64_t count = 0;
  bool sync = false;
  int wait = 1;
  int expect = 0;  // offset expected next (0,1,2,4)
  struct Pulse { int off; uint64_t at; };
  std::vector<Pulse> pulses;  // last 4
  std::vector<bool> window;   // last 50
  G cur;
  bool cur_any = false;
  std::optional<G> push(bool bit);
  G held() const { return cur; }
  std::string key() const;
};
// Burst correction: returns corrected word or nullopt
std::optional<u32> correct(u32 word, int offset);
}  // namespace orc
