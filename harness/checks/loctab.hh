// Abstract location tables and the files that carry them.
#pragma once
#include "cli.hh"
namespace drv {
namespace loctab {
// An abstract location table. A coordinate is a multiple of 0.001 degrees followed by the decimals 08 (so -25.00108):
// all five decimals count, yet the value lies in the middle of a 0.00005 degree bucket, and the comparison, which is by
// bucket, does not depend on whether the decoder computes in float or double.
inline int fiveDecimals(int v) { return v == 0 ? 0 : v < 0 ? v * 100 - 8 : v * 100 + 8; }
inline long bucket(double degrees) { return long(std::floor(std::fabs(degrees) * 20000 + 0.01)) * (degrees < 0 ? -1 : 1); }
struct P { int lcd, n1 = 0, rn = 0, roa = 0, seg = 0; bool has_xy = true; int x = 0, y = 0; int neg = 0, pos = 0; bool has_off = true; };
struct R { int lcd; std::string number; int rn = 0; };
struct S { int lcd, roa; };
struct Table {
  int ltn = 1;
  std::map<int, std::string> names;  // UTF-8
  std::vector<R> roads;
  std::vector<S> segs;
  std::vector<P> points;
};
struct Files {
  std::map<std::string, std::vector<std::string>> f;  // lines of each file
  std::string nl = "\n";
  bool final_nl = true;
};
inline std::string num(int v) { return v ? std::to_string(v) : std::string(); }
inline std::string coord(int v) {
  char b[32];
  snprintf(b, sizeof b, "%c%08d", v < 0 ? '-' : '+', std::abs(fiveDecimals(v)));
  return b;
}
inline Files files(const Table& t, const std::string& charset = "UTF-8") {
  const std::string L = std::to_string(t.ltn);
  Files r;
  r.f["LOCATIONDATASETS.DAT"] = {"CID;TABCD;DCOMMENT;VERS;VERSDESC", "58;" + L + ";test;1.0;"};
  r.f["README.DAT"] = {"CID;TABCD;RELEASE;DATE;CHARSET", "58;" + L + ";1.0;20200101;" + charset};
  auto& n = r.f["NAMES.DAT"];
  n = {"CID;LID;NID;NAME;NCOMMENT"};
  for (auto& x : t.names) n.push_back("58;1;" + std::to_string(x.first) + ";" + x.second + ";");
  auto& ro = r.f["ROADS.DAT"];
  ro = {"CID;TABCD;LCD;CLASS;TCD;STCD;ROADNUMBER;RNID;N1ID;N2ID;POL_LCD;PES_LEV"};
  for (auto& x : t.roads) ro.push_back("58;" + L + ";" + std::to_string(x.lcd) + ";L;1;1;" + x.number + ";" + num(x.rn) + ";;;;0");
  auto& se = r.f["SEGMENTS.DAT"];
  se = {"CID;TABCD;LCD;CLASS;TCD;STCD;ROADNUMBER;RNID;N1ID;N2ID;ROA_LCD;SEG_LCD;POL_LCD"};
  for (auto& x : t.segs) se.push_back("58;" + L + ";" + std::to_string(x.lcd) + ";L;3;0;;;;;" + num(x.roa) + ";;");
  auto& p = r.f["POINTS.DAT"];
  p = {"CID;TABCD;LCD;CLASS;TCD;STCD;JUNCTIONNUMBER;RNID;N1ID;N2ID;POL_LCD;OTH_LCD;SEG_LCD;ROA_LCD;INPOS;INNEG;XCOORD;YCOORD;URBAN"};
  auto& o = r.f["POFFSETS.DAT"];
  o = {"CID;TABCD;LCD;NEG_OFF_LCD;POS_OFF_LCD"};
  for (auto& x : t.points) {
    p.push_back("58;" + L + ";" + std::to_string(x.lcd) + ";P;1;11;;" + num(x.rn) + ";" + num(x.n1) + ";;;;" + num(x.seg) + ";" + num(x.roa) + ";1;1;" + (x.has_xy ? coord(x.x) + ";" + coord(x.y) : std::string(";")) + ";0");
    if (x.has_off) o.push_back("58;" + L + ";" + std::to_string(x.lcd) + ";" + num(x.neg) + ";" + num(x.pos));
  }
  r.f["ADMINISTRATIVEAREA.DAT"] = {"CID;TABCD;LCD;CLASS;TCD;STCD;NID;POL_LCD", "58;" + L + ";9000;A;3;0;1;"};
  return r;
}
inline void save(const std::string& dir, const Files& f) {
  mkdir(dir.c_str(), 0700);
  for (auto& x : f.f) {
    std::string s;
    for (size_t i = 0; i < x.second.size(); i++) s += x.second[i] + (i + 1 < x.second.size() || f.final_nl ? f.nl : "");
    writeFile(dir + "/" + x.first, s);
  }
}
inline void wipe(const std::string& dir) {
  for (auto n : {"LOCATIONDATASETS", "README", "NAMES", "ROADS", "SEGMENTS", "POINTS", "POFFSETS", "ADMINISTRATIVEAREA"}) unlink((dir + "/" + n + ".DAT").c_str());
  rmdir(dir.c_str());
}
inline orc::LocTable meaning(const Table& t) {
  orc::LocTable r;
  r.ltn = t.ltn;
  auto name = [&](int id) { auto i = t.names.find(id); return i == t.names.end() ? std::string() : i->second; };
  for (auto& x : t.roads) r.roads[x.lcd] = {x.number, name(x.rn)};
  for (auto& x : t.points) {
    orc::Point p;
    p.roa = x.roa;
    if (!p.roa)
      for (auto& s : t.segs)
        if (s.lcd == x.seg) p.roa = s.roa;
    p.name1 = name(x.n1);
    p.road_name = name(x.rn);
    if (x.has_xy) {
      p.lon = float(fiveDecimals(x.x) / 1e5);
      p.lat = float(fiveDecimals(x.y) / 1e5);
    }
    if (x.has_off) {
      p.neg = x.neg;
      p.pos = x.pos;
    }
    r.points[x.lcd] = p;
  }
  return r;
}
// a realistic little table; `k` makes the contents of tables with the same codes differ
inline Table network(int ltn, int k) {
  Table t;
  t.ltn = ltn;
  t.names = {{1, "North " + std::to_string(k)}, {2, "Mid \"quoted\" " + std::to_string(k)}, {3, "S\xC3\xBC\x64 \\ " + std::to_string(k)}, {4, "Ring road " + std::to_string(k)}, {5, "Old street"}, {6, "Exit"}};
  t.roads = {{1000, "A" + std::to_string(k), 4}, {1001, "", 0}, {1002, "B" + std::to_string(k + 5), 0}};
  t.segs = {{2000, 1000}, {2001, 1002}};
  const int d = 10 * k;
  // a chain on road 1000, its ends open
  t.points.push_back({101, 1, 0, 1000, 0, true, 25000 + d, 60000 + d, 0, 102});
  t.points.push_back({102, 2, 0, 1000, 2000, true, 25001 + d, 60002 - d, 101, 103});
  t.points.push_back({103, 0, 0, 0, 2000, true, -25002 - d, -60004 + d, 102, 104});
  t.points.push_back({104, 3, 0, 1000, 0, false, 0, 0, 103, 105});
  t.points.push_back({105, 6, 5, 1002, 0, true, 179999, -89999, 104, 150});  // next point missing
  // a ring on road 1002
  t.points.push_back({111, 1, 5, 0, 2001, true, 1 + d, 2, 113, 112});
  t.points.push_back({112, 0, 5, 1002, 0, true, -3, 4 + d, 111, 113});
  t.points.push_back({113, 3, 0, 1002, 2001, true, 5, -6 - d, 112, 111});
  // without a road, with an unknown road, with an unnamed road, without offsets, pointing at itself
  t.points.push_back({121, 1, 5, 0, 0, true, 7000, 8000, 101, 105});
  t.points.push_back({122, 2, 5, 4444, 0, true, 7001, 8001, 121, 121});
  t.points.push_back({123, 3, 5, 1001, 0, true, 7002, 8002, 0, 0, false});
  t.points.push_back({65535, 6, 0, 1000, 0, true, 7003, 8003, 65535, 101});
  t.points.push_back({1, 1, 0, 1000, 0, true, 7004, 8004, 65535, 65535});
  return t;
}
}  // namespace loctab
}  // namespace drv
