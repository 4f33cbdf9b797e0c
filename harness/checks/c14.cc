#include "loctab.hh"
using namespace drv;
using namespace drv::loctab;
namespace {
Project project() {
  return [](const json* line) {
    json r = json::object();
    if (!line || !line->contains("tmc") || !(*line)["tmc"].contains("message")) return r;
    r = (*line)["tmc"]["message"];
    if (r.contains("coordinates"))
      for (auto& c : r["coordinates"])
        for (auto k : {"lat", "lon"})
          if (c.contains(k) && c[k].is_number()) c[k] = bucket(c[k].get<double>());
    return r;
  };
}
// messages
Ev sys(int ltn) { return oda(kPI, 16, 0xCD46, (ltn << 6) | 1); }
Ev admin(int encid, int ltn) { return grp(kPI, 16, 0, (3 << 5) | encid, ltn << 10); }
Ev single(int loc, bool neg, int extent, int event = 101, int low3 = 1) { return grp(kPI, 16, 8 | low3, (neg ? 0x4000 : 0) | (extent << 11) | event, loc); }
Ev multi1(int ci, int loc, bool neg, int extent, int event = 101) { return grp(kPI, 16, ci, 0x8000 | (neg ? 0x4000 : 0) | (extent << 11) | event, loc); }
// second and last group with free-format data: pairs of label 1 (control code)
Ev multi2(int ci, std::vector<int> control) {
  uint32_t d = 0;
  int used = 0;
  for (int c : control) {
    d |= (1u << (28 - used - 4)) | 0;
    d |= uint32_t(c) << (28 - used - 7);
    used += 7;
  }
  return grp(kPI, 16, ci, 0x4000 | (d >> 16), d & 0xFFFF);
}
std::vector<std::string> withTables(std::vector<std::string> a, const std::vector<std::string>& dirs) {
  for (auto& d : dirs) {
    a.push_back("-l");
    a.push_back(d);
  }
  return a;
}
// the line that announces a table
std::string info(const Table& t) {
  std::set<int> p, r;
  for (auto& x : t.points) p.insert(x.lcd);
  for (auto& x : t.roads) r.insert(x.lcd);
  return CliBatch::dump(json{{"location_table_info", {{"ltn", t.ltn}, {"num_names", t.names.size()}, {"num_points", p.size()}, {"num_roads", r.size()}}}});
}
std::string here() {
  char b[4096];
  return getcwd(b, sizeof b) ? std::string(b) : std::string(".");
}
std::string scratchDir(const std::string& n) {
  const std::string d = here() + "/" + n + std::to_string(getpid());
  mkdir(d.c_str(), 0700);
  return d;
}
}  // namespace
CHECK(C14) {
  const auto Pj = project();
  const std::vector<int> locs{101, 102, 103, 104, 105, 111, 112, 113, 121, 122, 123, 65535, 1, 0, 2, 100, 106, 150, 1000, 1001, 2000, 4444, 9000, 32869, 65534, 357};
  auto messages = [&](CliBatch& b, bool big) {
    for (int loc : locs)
      for (int neg = 0; neg < 2; neg++)
        for (int ext = 0; ext < 8; ext++) {
          b.addAt(single(loc, neg, ext));
          if (big && (ext == 0 || ext == 3 || ext == 7))
            for (auto& c : {std::vector<int>{6}, std::vector<int>{7}, std::vector<int>{6, 7}, std::vector<int>{7, 6, 6}, std::vector<int>{}}) {
              b.addAt(multi1(1, loc, neg, ext));
              b.addAt(multi2(1, c));
            }
        }
  };
  // ---- which tables are loaded, in which order, and which one the service uses
  const std::vector<int> ltns{1, 9, 17, 63};
  std::map<int, orc::LocTable> all;
  for (size_t k = 0; k < ltns.size(); k++) all[ltns[k]] = meaning(network(ltns[k], int(k) + 1));
  std::vector<std::vector<int>> loads{{}};
  for (int a = 0; a < 4; a++) {
    loads.push_back({a});
    for (int b = 0; b < 4; b++)
      if (b != a) {
        loads.push_back({a, b});
        for (int c = 0; c < 4; c++)
          if (c != a && c != b) {
            loads.push_back({a, b, c});
            loads.push_back({a, b, c, 6 - a - b - c});
          }
      }
  }
  r.parallel("loaded tables", loads.size(), [&](size_t it, Worker& w) {
    const std::string base = scratchDir("lt");
    std::vector<std::string> dirs;
    std::map<int, orc::LocTable> loaded;
    for (int k : loads[it]) {
      dirs.push_back(base + "/t" + std::to_string(k));
      save(dirs.back(), files(network(ltns[size_t(k)], k + 1)));
      loaded[ltns[size_t(k)]] = all[ltns[size_t(k)]];
    }
    CliBatch b(withTables({"-h"}, dirs), {}, Pj, &loaded);
    b.co.cwd = base;
    for (int k : loads[it]) b.infos.push_back(info(network(ltns[size_t(k)], k + 1)));
    for (int ltn : {1, 9, 17, 63, 2, 33}) {
      b.fresh();
      b.addAt(sys(ltn));
      messages(b, it % 7 == 0 || r.thorough);
      // change of table in the middle of a message
      for (int l2 : {1, 9, 17, 2}) {
        b.addAt(sys(ltn));
        b.addAt(multi1(2, 101, false, 3));
        b.addAt(sys(l2));
        b.addAt(multi2(2, {6}));
        b.addAt(single(111, true, 4));
      }
    }
    w.sample(b.text.substr(0, 200));
    b.run(w);
    for (auto& d : dirs) wipe(d);
    rmdir(base.c_str());
  });
  // ---- the same table number in several directories: the last one counts
  r.parallel("same table number again", 27, [&](size_t it, Worker& w) {
    const std::string base = scratchDir("sn");
    std::vector<std::string> dirs;
    std::map<int, orc::LocTable> loaded;
    std::vector<std::string> infos;
    // three directories, each with one of two table numbers, and contents of its own; or not there at all
    for (size_t k = 0, c = it; k < 3; k++, c /= 3) {
      dirs.push_back(base + "/t" + std::to_string(k));
      if (c % 3 == 2) continue;
      const Table t = network(c % 3 ? 9 : 1, int(k) + 2);
      save(dirs.back(), files(t));
      loaded[t.ltn] = meaning(t);
    }
    CliBatch b(withTables({"-h"}, dirs), {}, Pj, &loaded);
    b.co.cwd = base;
    for (int ltn : {1, 9, 2}) {
      b.fresh();
      b.addAt(sys(ltn));
      messages(b, false);
    }
    b.run(w);
    for (auto& d : dirs) wipe(d);
    rmdir(base.c_str());
  });
  // ---- every location code
  r.parallel("every location code", 8, [&](size_t it, Worker& w) {
    const std::string base = scratchDir("lc");
    Table t = network(5, 3);
    save(base + "/t", files(t));
    std::map<int, orc::LocTable> loaded{{5, meaning(t)}};
    CliBatch b(withTables({"-h"}, {base + "/t"}), {}, Pj, &loaded);
    b.co.cwd = base;
    b.fresh();
    b.addAt(sys(5));
    for (int loc = int(it) * 8192; loc < int(it + 1) * 8192; loc++) {
      b.addAt(single(loc, it & 1, loc & 7));
      if (r.thorough) b.addAt(single(loc, !(it & 1), 7));
    }
    b.run(w);
    wipe(base + "/t");
    rmdir(base.c_str());
  });
  // ---- every way three points can be chained
  r.parallel("every chain of three points", 125 * 125 / 25, [&](size_t it, Worker& w) {
    const std::string base = scratchDir("ch");
    for (size_t sub = 0; sub < 25; sub++) {
      size_t k = it * 25 + sub;
      Table t;
      t.ltn = 7;
      t.names = {{1, "One"}, {2, "Two"}, {3, "Three"}};
      t.roads = {{50, "E7", 0}};
      static const int off[5] = {0, 11, 12, 13, 99};
      for (int p = 0; p < 3; p++) {
        P x{11 + p, (k + size_t(p)) % 4 == 3 ? 0 : p + 1, 0, 50, 0, true, p + 1, -p - 1};
        x.pos = off[k % 5];
        k /= 5;
        x.neg = off[k % 5];
        k /= 5;
        t.points.push_back(x);
      }
      save(base + "/t", files(t));
      std::map<int, orc::LocTable> loaded{{7, meaning(t)}};
      CliBatch b(withTables({"-h"}, {base + "/t"}), {}, Pj, &loaded);
      b.co.cwd = base;
      b.fresh();
      b.addAt(sys(7));
      for (int loc : {11, 12, 13, 99})
        for (int neg = 0; neg < 2; neg++)
          for (int e : {0, 1, 2, 3, 7}) b.addAt(single(loc, neg, e));
      if (!b.run(w)) break;
    }
    wipe(base + "/t");
    rmdir(base.c_str());
  });
  // ---- what the rows of a point, its road and segment contain
  r.parallel("row contents", 3 * 3 * 3 * 4 * 2, [&](size_t it, Worker& w) {
    const std::string base = scratchDir("rc");
    size_t k = it;
    const int n1 = std::array<int, 3>{0, 1, 77}[k % 3];
    k /= 3;
    const int rn = std::array<int, 3>{0, 2, 78}[k % 3];
    k /= 3;
    const int roa = std::array<int, 3>{0, 50, 51}[k % 3];
    k /= 3;
    const int seg = std::array<int, 4>{0, 60, 61, 62}[k % 4];
    k /= 4;
    const bool xy = k & 1;
    for (int q = 0; q < 18; q++) {
      Table t;
      t.ltn = 7;
      t.names = {{1, "Name one"}, {2, "Road two"}, {3, "Road three"}};
      t.roads = {{50, q & 1 ? "A50" : "", std::array<int, 3>{0, 3, 79}[size_t(q) / 2 % 3]}};
      if (q / 6 == 1) t.roads.push_back({52, "B52", 2});
      t.segs = {{60, 50}, {61, 50}};
      if (q / 6 == 1) t.segs.push_back({62, 52});
      t.points = {{11, n1, rn, roa, seg, xy, 1000, 2000, 0, 12}, {12, 1, 0, 50, 0, true, 3000, 4000, 11, 0}};
      if (q / 6 == 2) t.points[1].n1 = 0;
      save(base + "/t", files(t));
      std::map<int, orc::LocTable> loaded{{7, meaning(t)}};
      CliBatch b(withTables({"-h"}, {base + "/t"}), {}, Pj, &loaded);
      b.co.cwd = base;
      b.fresh();
      b.addAt(sys(7));
      for (int loc : {11, 12})
        for (int neg = 0; neg < 2; neg++)
          for (int e : {0, 1, 2}) b.addAt(single(loc, neg, e));
      if (!b.run(w)) break;
    }
    wipe(base + "/t");
    rmdir(base.c_str());
  });
  // ---- damaged files: each case says what is lost
  struct Damage { std::string what; std::function<void(Files&, Table&)> fn; };
  std::vector<Damage> dm;
  auto erasePoint = [](Table& t, int lcd) { for (size_t i = 0; i < t.points.size(); i++) if (t.points[i].lcd == lcd) t.points.erase(t.points.begin() + long(i--)); };
  auto cut = [](const std::string& row, size_t keep) {
    size_t p = 0;
    for (size_t i = 0; i < keep; i++) { p = row.find(';', p); if (p == std::string::npos) return row; p++; }
    return row.substr(0, p ? p - 1 : 0);
  };
  auto setField = [](const std::string& row, size_t n, const std::string& v) {
    std::vector<std::string> c{""};
    for (char ch : row) if (ch == ';') c.push_back(""); else c.back() += ch;
    if (n < c.size()) c[n] = v;
    std::string s;
    for (size_t i = 0; i < c.size(); i++) s += (i ? ";" : "") + c[i];
    return s;
  };
  dm.push_back({"nothing", [](Files&, Table&) {}});
  for (std::string nl : {"\r\n", "\n"})
    for (bool fin : {true, false}) dm.push_back({"line endings", [nl, fin](Files& f, Table&) { f.nl = nl; f.final_nl = fin; }});
  // files that are not there
  dm.push_back({"no NAMES", [](Files& f, Table& t) { f.f.erase("NAMES.DAT"); t.names.clear(); }});
  dm.push_back({"no README", [](Files& f, Table&) { f.f.erase("README.DAT"); }});
  dm.push_back({"no POFFSETS", [](Files& f, Table& t) { f.f.erase("POFFSETS.DAT"); for (auto& p : t.points) p.has_off = false; }});
  dm.push_back({"no POINTS", [](Files& f, Table& t) { f.f.erase("POINTS.DAT"); t.points.clear(); }});
  dm.push_back({"no ADMINISTRATIVEAREA", [](Files& f, Table&) { f.f.erase("ADMINISTRATIVEAREA.DAT"); }});
  dm.push_back({"no LOCATIONDATASETS", [](Files& f, Table& t) { f.f.erase("LOCATIONDATASETS.DAT"); t.points.clear(); }});
  dm.push_back({"no SEGMENTS", [](Files& f, Table& t) { f.f.erase("SEGMENTS.DAT"); t.segs.clear(); }});
  for (auto n : {"NAMES.DAT", "POFFSETS.DAT", "POINTS.DAT", "SEGMENTS.DAT", "ADMINISTRATIVEAREA.DAT", "README.DAT", "LOCATIONDATASETS.DAT", "ROADS.DAT"})
    for (int how = 0; how < 4; how++)
      dm.push_back({std::string("blank lines and surplus columns in ") + n, [n, how](Files& f, Table&) {
        auto& v = f.f[n];
        const bool readme = std::string(n) == "README.DAT";
        if (how == 0) v.push_back("");
        if (how == 1) v.insert(v.begin() + 1, "");
        if (how == 2 && !readme) for (auto& l : v) l += ";surplus";
        if (how == 3) v.insert(v.begin() + 1, ";;");
      }});
  // reordered columns
  for (auto n : {"NAMES.DAT", "POFFSETS.DAT", "POINTS.DAT", "SEGMENTS.DAT", "ROADS.DAT"})
    dm.push_back({std::string("columns reversed in ") + n, [n](Files& f, Table&) {
      for (auto& l : f.f[n]) {
        std::vector<std::string> c{""};
        for (char ch : l) if (ch == ';') c.push_back(""); else c.back() += ch;
        std::string s;
        for (size_t i = c.size(); i-- > 0;) s += c[i] + (i ? ";" : "");
        l = s;
      }
    }});
  // rows of one file shuffled
  for (auto n : {"NAMES.DAT", "POFFSETS.DAT", "POINTS.DAT", "SEGMENTS.DAT", "ROADS.DAT"})
    dm.push_back({std::string("rows reversed in ") + n, [n](Files& f, Table&) { std::reverse(f.f[n].begin() + 1, f.f[n].end()); }});
  for (size_t row = 0; row < network(1, 1).points.size(); row++) {
    const int lcd = network(1, 1).points[row].lcd;
    for (size_t keep = 0; keep < 18; keep++)
      dm.push_back({"point row cut", [=](Files& f, Table& t) { f.f["POINTS.DAT"][row + 1] = cut(f.f["POINTS.DAT"][row + 1], keep); erasePoint(t, lcd); }});
    for (auto v : {"abc", "", "70000", "-1", "99999999999999999999", "+", " ", "\xff"})
      dm.push_back({"point row with a bad code", [=](Files& f, Table& t) { f.f["POINTS.DAT"][row + 1] = setField(f.f["POINTS.DAT"][row + 1], 2, v); erasePoint(t, lcd); }});
    // a code that wraps around to another point's
    dm.push_back({"point row with a code out of range", [=](Files& f, Table& t) { f.f["POINTS.DAT"][row + 1] = setField(f.f["POINTS.DAT"][row + 1], 2, std::to_string(65536 + 101)); erasePoint(t, lcd); if (lcd == 101) return; }});
    for (size_t col : {7u, 8u, 12u, 13u, 16u, 17u})
      for (auto v : {"abc", "99999999999999999999", "-"})
        dm.push_back({"point row with bad numbers", [=](Files& f, Table& t) { f.f["POINTS.DAT"][row + 1] = setField(f.f["POINTS.DAT"][row + 1], col, v); erasePoint(t, lcd); }});
    if (row < network(1, 1).points.size() - 3) {
      for (size_t keep = 0; keep < 4; keep++)
        dm.push_back({"offset row cut", [=](Files& f, Table& t) { auto& l = f.f["POFFSETS.DAT"]; l[row + 1] = cut(l[row + 1], keep); t.points[row].has_off = false; }});
      for (auto v : {"abc", "", "70000", "-1"})
        dm.push_back({"offset row with a bad code", [=](Files& f, Table& t) { auto& l = f.f["POFFSETS.DAT"]; l[row + 1] = setField(l[row + 1], 2, v); t.points[row].has_off = false; }});
      for (size_t col : {3u, 4u})
        for (auto v : {"abc", "70000", "-1"})
          dm.push_back({"offset row with bad offsets", [=](Files& f, Table& t) { auto& l = f.f["POFFSETS.DAT"]; l[row + 1] = setField(l[row + 1], col, v); t.points[row].has_off = false; }});
    }
  }
  dm.push_back({"offsets of unknown points", [](Files& f, Table&) { f.f["POFFSETS.DAT"].push_back("58;1;150;101;102"); f.f["POFFSETS.DAT"].push_back("58;1;0;101;102"); }});
  for (size_t row = 0; row < 6; row++) {
    const int id = int(row) + 1;
    for (size_t keep = 0; keep < 4; keep++)
      dm.push_back({"name row cut", [=](Files& f, Table& t) { auto& l = f.f["NAMES.DAT"]; l[row + 1] = cut(l[row + 1], keep); t.names.erase(id); }});
    for (auto v : {"abc", "", "99999999999999999999", "x1"})
      dm.push_back({"name row with a bad id", [=](Files& f, Table& t) { auto& l = f.f["NAMES.DAT"]; l[row + 1] = setField(l[row + 1], 2, v); t.names.erase(id); }});
    for (auto v : {"\xff", "abc\xc3", "\xe4\xf6", "ok\x80 end"})
      dm.push_back({"name not in the announced encoding", [=](Files& f, Table& t) { auto& l = f.f["NAMES.DAT"]; l[row + 1] = setField(l[row + 1], 3, v); t.names.erase(id); }});
    dm.push_back({"empty name", [=](Files& f, Table& t) { auto& l = f.f["NAMES.DAT"]; l[row + 1] = setField(l[row + 1], 3, ""); t.names.erase(id); }});
  }
  // roads and segments: a point outlives the loss of what it refers to
  auto eraseRoad = [](Table& t, int lcd) { for (size_t i = 0; i < t.roads.size(); i++) if (t.roads[i].lcd == lcd) t.roads.erase(t.roads.begin() + long(i--)); };
  auto eraseSeg = [](Table& t, int lcd) { for (size_t i = 0; i < t.segs.size(); i++) if (t.segs[i].lcd == lcd) t.segs.erase(t.segs.begin() + long(i--)); };
  dm.push_back({"no ROADS", [](Files& f, Table& t) { f.f.erase("ROADS.DAT"); t.roads.clear(); }});
  dm.push_back({"no ROADS and no SEGMENTS", [](Files& f, Table& t) { f.f.erase("ROADS.DAT"); f.f.erase("SEGMENTS.DAT"); t.roads.clear(); t.segs.clear(); }});
  dm.push_back({"no ROADS and no NAMES", [](Files& f, Table& t) { f.f.erase("ROADS.DAT"); f.f.erase("NAMES.DAT"); t.roads.clear(); t.names.clear(); }});
  for (size_t row = 0; row < network(1, 1).roads.size(); row++) {
    const int lcd = network(1, 1).roads[row].lcd;
    for (size_t keep = 0; keep < 7; keep++)
      dm.push_back({"road row cut", [=](Files& f, Table& t) { auto& l = f.f["ROADS.DAT"]; l[row + 1] = cut(l[row + 1], keep); eraseRoad(t, lcd); }});
    dm.push_back({"road row gone", [=](Files& f, Table& t) { auto& l = f.f["ROADS.DAT"]; l.erase(l.begin() + long(row) + 1); eraseRoad(t, lcd); }});
    for (auto v : {"abc", "", "70000", "-1", "99999999999999999999"})
      dm.push_back({"road row with a bad code", [=](Files& f, Table& t) { auto& l = f.f["ROADS.DAT"]; l[row + 1] = setField(l[row + 1], 2, v); eraseRoad(t, lcd); }});
    for (auto v : {"777", "0", "-5"})
      dm.push_back({"road with an unknown name", [=](Files& f, Table& t) { auto& l = f.f["ROADS.DAT"]; l[row + 1] = setField(l[row + 1], 7, v); for (auto& x : t.roads) if (x.lcd == lcd) x.rn = 0; }});
  }
  for (size_t row = 0; row < network(1, 1).segs.size(); row++) {
    const int lcd = network(1, 1).segs[row].lcd;
    for (size_t keep = 0; keep < 10; keep++)
      dm.push_back({"segment row cut", [=](Files& f, Table& t) { auto& l = f.f["SEGMENTS.DAT"]; l[row + 1] = cut(l[row + 1], keep); eraseSeg(t, lcd); }});
    dm.push_back({"segment row gone", [=](Files& f, Table& t) { auto& l = f.f["SEGMENTS.DAT"]; l.erase(l.begin() + long(row) + 1); eraseSeg(t, lcd); }});
    for (auto v : {"abc", "", "70000", "-1", "99999999999999999999"})
      for (size_t col : {2u, 10u})
        dm.push_back({"segment row with a bad code", [=](Files& f, Table& t) { auto& l = f.f["SEGMENTS.DAT"]; l[row + 1] = setField(l[row + 1], col, v); eraseSeg(t, lcd); }});
    for (int v : {4444, 1001})
      dm.push_back({"segment of another road", [=](Files& f, Table& t) { auto& l = f.f["SEGMENTS.DAT"]; l[row + 1] = setField(l[row + 1], 10, std::to_string(v)); for (auto& x : t.segs) if (x.lcd == lcd) x.roa = v; }});
  }
  r.parallel("damaged files", dm.size(), [&](size_t it, Worker& w) {
    const std::string base = scratchDir("df");
    Table t = network(1, 1), other = network(9, 2);
    Files f = files(t);
    dm[it].fn(f, t);
    save(base + "/t", f);
    save(base + "/u", files(other));
    std::map<int, orc::LocTable> loaded{{1, meaning(t)}, {9, meaning(other)}};
    for (int order = 0; order < 2; order++) {
      CliBatch b(order ? withTables({"-h"}, {base + "/u", base + "/t"}) : withTables({"-h"}, {base + "/t", base + "/u"}), {}, Pj, &loaded);
      b.co.cwd = base;
      for (int ltn : {1, 9}) {
        b.fresh();
        b.addAt(sys(ltn));
        for (int loc : locs)
          for (int neg = 0; neg < 2; neg++)
            for (int e : {0, 1, 2, 7}) b.addAt(single(loc, neg, e));
      }
      w.sample(dm[it].what);
      if (!b.run(w)) {
        fprintf(stderr, "  damage: %s\n", dm[it].what.c_str());
        break;
      }
    }
    wipe(base + "/t");
    wipe(base + "/u");
    rmdir(base.c_str());
  });
  // ---- encodings
  struct Enc { std::string label; int kind; };  // 0 UTF-8, 1 ISO-8859-1, 15 ISO-8859-15, -1 unknown (taken as UTF-8)
  const std::vector<Enc> encs{{"UTF-8", 0}, {"ISO-8859-1", 1}, {"ISO 8859-1", 1}, {"ISO/8859-1", 1}, {"ISO-8859-15", 15}, {"ISO 8859-15", 15}, {"ISO-8859-1 (Latin 1)", 1}, {"ISO 8859-15 (Latin 9)", 15}, {"utf-8", 0}, {"NO-SUCH-CHARSET", -1}};
  r.parallel("character encodings", encs.size() * 2, [&](size_t it, Worker& w) {
    const Enc& e = encs[it / 2];
    const std::string base = scratchDir("en");
    Table t, want;
    t.ltn = 3;
    t.roads = {{50, "A1", 0}};
    want = t;
    auto utf8 = [](int cp) {
      std::string s;
      if (cp < 0x80) s += char(cp);
      else if (cp < 0x800) { s += char(0xC0 | (cp >> 6)); s += char(0x80 | (cp & 63)); }
      else { s += char(0xE0 | (cp >> 12)); s += char(0x80 | ((cp >> 6) & 63)); s += char(0x80 | (cp & 63)); }
      return s;
    };
    static const std::map<int, int> l9{{0xA4, 0x20AC}, {0xA6, 0x160}, {0xA8, 0x161}, {0xB4, 0x17D}, {0xB8, 0x17E}, {0xBC, 0x152}, {0xBD, 0x153}, {0xBE, 0x178}};
    int id = 1, lcd = 10;
    for (int c = 0x20; c < 0x100; c++) {
      if (c == ';' || (c >= 0x7F && c < 0xA0)) continue;
      std::string raw = "a", u = "a";
      const int cp = e.kind == 15 && l9.count(c) ? l9.at(c) : c;
      if (e.kind > 0) raw += char(c);
      else raw += utf8(cp);
      u += utf8(cp);
      if (it % 2) { raw = "b" + raw + "c"; u = "b" + u + "c"; }
      if (e.kind == -1 && c >= 0x80) continue;
      t.names[id] = raw;
      want.names[id] = u;
      P p{lcd, id, 0, 50, 0, true, 1, 1, 0, lcd + 1};
      t.points.push_back(p);
      want.points.push_back(p);
      id++;
      lcd++;
    }
    save(base + "/t", files(t, e.label));
    std::map<int, orc::LocTable> loaded{{3, meaning(want)}};
    CliBatch b(withTables({"-h"}, {base + "/t"}), {}, Pj, &loaded);
    b.co.cwd = base;
    b.fresh();
    b.addAt(sys(3));
    for (int l = 9; l < lcd + 2; l++) b.addAt(single(l, false, 1));
    b.run(w);
    wipe(base + "/t");
    rmdir(base.c_str());
  });
  // ---- decryption: every key, and every location for some keys
  std::vector<int> klocs{0, 0xFFFF, 101, 0x1234, 0xA5A5, 0x8001};
  for (int i = 0; i < 16; i++) klocs.push_back(1 << i);
  const int starts = 9;
  const size_t nkeys = size_t(256) * starts * 16;
  r.parallel("every service key", nkeys / 256, [&](size_t it, Worker& w) {
    const std::string base = scratchDir("ke");
    for (int part = 0; part < 8; part++) {
      std::map<int, orc::Key> keys;
      std::string csv;
      for (int i = 0; i < 32; i++) {
        const size_t k = it * 256 + size_t(part) * 32 + size_t(i);
        orc::Key key{int(k % 256), int(k / 256 % starts), int(k / 256 / starts)};
        keys[i] = key;
        csv += std::to_string(i) + "," + std::to_string(key.x) + "," + std::to_string(key.start) + "," + std::to_string(key.rot) + "\n";
      }
      writeFile(base + "/service_key_table.csv", csv);
      CliBatch b({"-h"}, {}, Pj, nullptr, &keys);
      b.co.cwd = base;
      b.fresh();
      b.addAt(sys(0));
      for (int i = 0; i < 32; i++) {
        b.addAt(admin(i, 1));
        for (int l : klocs) b.addAt(single(l, false, 1));
      }
      if (!b.run(w)) break;
    }
    unlink((base + "/service_key_table.csv").c_str());
    rmdir(base.c_str());
  });
  r.parallel("every encrypted location", 16, [&](size_t it, Worker& w) {
    const std::string base = scratchDir("el");
    std::map<int, orc::Key> keys{{3, {0xB5, int(it) % 9, int(it)}}};
    writeFile(base + "/service_key_table.csv", "3," + std::to_string(0xB5) + "," + std::to_string(it % 9) + "," + std::to_string(it) + "\n");
    Table t = network(5, 3);
    save(base + "/t", files(t));
    std::map<int, orc::LocTable> loaded{{5, meaning(t)}};
    CliBatch b(withTables({"-h"}, {base + "/t"}), {}, Pj, &loaded, &keys);
    b.co.cwd = base;
    b.fresh();
    b.addAt(sys(0));
    b.addAt(admin(3, 5));
    for (int l = 0; l < 65536; l += 1 + (r.thorough ? 0 : 1) * (it > 1)) b.addAt(single(l, it & 1, l % 8));
    b.run(w);
    wipe(base + "/t");
    unlink((base + "/service_key_table.csv").c_str());
    rmdir(base.c_str());
  });
  // ---- damaged key files
  struct KD { std::string csv; std::map<int, orc::Key> keys; };
  const orc::Key k1{11, 2, 3}, k2{200, 7, 9}, k3{255, 0, 15};
  const std::string r1 = "1,11,2,3", r2 = "2,200,7,9", r3 = "3,255,0,15";
  const std::map<int, orc::Key> K123{{1, k1}, {2, k2}, {3, k3}}, K13{{1, k1}, {3, k3}}, K12{{1, k1}, {2, k2}};
  std::vector<KD> kd{{r1 + "\n" + r2 + "\n" + r3 + "\n", K123}, {r1 + "\r\n" + r2 + "\r\n" + r3 + "\r\n", K123}, {r1 + "\n" + r2 + "\n" + r3, K123}, {"encid,xorval,xorstart,nrot\n" + r1 + "\n" + r2 + "\n" + r3 + "\n", K123},
                     {r1 + ",comment\n" + r2 + "\n\n" + r3 + "\n", K123}, {r3 + "\n" + r2 + "\n" + r1 + "\n", K123}, {"", {}}, {"\n\n", {}}};
  for (std::string bad : {"", "2", "2,200", "2,200,7", "x,200,7,9", "2,x,7,9", "2,200,x,9", "2,200,7,x", "2,,7,9", "2,200,40,9", "2,200,255,9", ",,,", "2;200;7;9", "99999999999,1,1,1", "2,99999999999,1,1", "\xff\xff"}) {
    kd.push_back({r1 + "\n" + bad + "\n" + r3 + "\n", K13});
    kd.push_back({bad + "\n" + r1 + "\n" + r3, K13});
    kd.push_back({r1 + "\n" + r3 + "\n" + bad, K13});
  }
  r.parallel("damaged key files", kd.size(), [&](size_t it, Worker& w) {
    const std::string base = scratchDir("kd");
    writeFile(base + "/service_key_table.csv", kd[it].csv);
    CliBatch b({"-h"}, {}, Pj, nullptr, &kd[it].keys);
    b.co.cwd = base;
    b.fresh();
    b.addAt(sys(0));
    for (int i = 0; i < 32; i++) {
      b.addAt(admin(i, 1));
      for (int l : klocs) b.addAt(single(l, false, 1));
    }
    b.run(w);
    unlink((base + "/service_key_table.csv").c_str());
    rmdir(base.c_str());
  });
  // ---- all short histories of an encrypted service with tables and keys
  const std::vector<Ev> alpha{sys(0), sys(1), sys(9), admin(1, 1), admin(2, 9), admin(4, 1), admin(1, 33), single(101, false, 2), multi1(3, 101, true, 1), multi2(3, {6}), single(0x4321, true, 2)};
  const int depth = r.thorough ? 6 : 5;
  size_t total = 1;
  for (int i = 0; i < depth - 2; i++) total *= alpha.size();
  r.parallel("histories of keys and tables", alpha.size() * alpha.size(), [&](size_t it, Worker& w) {
    const std::string base = scratchDir("hi");
    // the key makes some encrypted location decrypt to 101
    const auto enc = [](int loc, orc::Key k) { const u16 v = u16(loc); const u16 x = k.rot ? u16((v >> k.rot) | (v << (16 - k.rot))) : v; return int(x ^ u16(k.x << k.start)); };
    std::vector<Ev> A = alpha;
    A[7] = single(enc(101, k1), false, 2);
    A[8] = multi1(3, enc(104, k1), true, 1);
    A[10] = single(enc(111, k2), true, 2);
    writeFile(base + "/service_key_table.csv", r1 + "\n" + r2 + "\n" + r3 + "\n");
    save(base + "/t", files(network(1, 1)));
    save(base + "/u", files(network(9, 2)));
    std::map<int, orc::LocTable> loaded{{1, meaning(network(1, 1))}, {9, meaning(network(9, 2))}};
    CliBatch b(withTables({"-h"}, {base + "/t", base + "/u"}), {}, Pj, &loaded, &K123);
    b.co.cwd = base;
    b.co.timeout_s = 200;
    for (size_t k = 0; k < total; k++) {
      b.fresh();
      b.addAt(A[it / A.size()]);
      b.addAt(A[it % A.size()]);
      size_t q = k;
      for (int d = 2; d < depth; d++) {
        b.addAt(A[q % A.size()]);
        q /= A.size();
      }
    }
    b.run(w);
    unlink((base + "/service_key_table.csv").c_str());
    wipe(base + "/t");
    wipe(base + "/u");
    rmdir(base.c_str());
  });
  // ---- all histories of a service that goes from clear text to encrypted messages and back in the middle of its messages
  const int sdepth = r.thorough ? 8 : 6;
  size_t stotal = 1;
  for (int i = 0; i < sdepth - 1; i++) stotal *= 6;
  r.parallel("switches between clear and encrypted", 6, [&](size_t it, Worker& w) {
    const std::string base = scratchDir("sw");
    writeFile(base + "/service_key_table.csv", r1 + "\n" + r2 + "\n" + r3 + "\n");
    save(base + "/t", files(network(1, 1)));
    std::map<int, orc::LocTable> loaded{{1, meaning(network(1, 1))}};
    const std::vector<Ev> A{sys(0), sys(1), multi1(2, 101, true, 1), multi1(2, 104, true, 2), multi2(2, {6}), single(101, false, 1)};
    CliBatch b(withTables({"-h"}, {base + "/t"}), {}, Pj, &loaded, &K123);
    b.co.cwd = base;
    b.co.timeout_s = 200;
    for (size_t k = 0; k < stotal; k++) {
      b.fresh();
      b.addAt(sys(0));
      b.addAt(admin(1, 1));
      b.addAt(A[it]);
      size_t q = k;
      for (int d = 1; d < sdepth; d++) {
        b.addAt(A[q % A.size()]);
        q /= A.size();
      }
    }
    b.run(w);
    unlink((base + "/service_key_table.csv").c_str());
    wipe(base + "/t");
    rmdir(base.c_str());
  });
  r.info("tables", "13 points, 3 roads, 2 segments; all load orders of up to four tables; all offset assignments of three points; all location codes; damage to every row and column");
  r.info("keys", "xor value 0-255, start 0-8, rotation 0-15");
  r.info("history_depth", depth);
}
