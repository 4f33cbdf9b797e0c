#include "common.hh"
#include <cstdlib>
#include <ctime>
using namespace drv;
CHECK(C08) {
  const Project P = fields({"clock_time"});
  Env e0;
  auto ct = [](long mjd, int hour, int min, int off) { return ev(kPI, blk2(4, false, int(mjd >> 15)), int(((mjd & 0x7FFF) << 1) | (hour >> 4)), ((hour & 15) << 12) | (min << 6) | off); };
  const std::vector<std::string> tzs{"UTC", "EST5EDT,M3.2.0,M11.1.0", "XXX-14", "YYY11:30", "CET-1CEST,M3.5.0,M10.5.0/3"};
  auto one = [&](Sys& s, const Ev& e, Worker& w, const std::string& tz) {
    w.transitions++;
    w.tick();
    s.path.clear();
    if (!s.step(e)) {
      // confirm on a fresh decoder
      Sys f(e0, P);
      if (!f.step(e)) w.fail("TZ=" + tz + ": " + f.why, e0.text() + "\n" + e.text() + "\n");
      else w.failPath(s);
      return false;
    }
    w.outcome(hash64(s.last_line));
    return true;
  };
  const long kLast = 88127;
  struct HM { int h, m, o; };
  std::vector<HM> quick{{0, 0, 0}, {0, 0, 1}, {0, 0, 33}, {23, 59, 1}, {23, 30, 1}, {23, 29, 29}, {0, 29, 33}, {0, 30, 33}, {13, 59, 61}, {9, 30, 29}, {14, 0, 60}, {12, 0, 32}};
  const size_t chunk = 512;
  r.parallel("every date", (131072 / chunk) * tzs.size(), [&](size_t it, Worker& w) {
    const std::string& tz = tzs[it % tzs.size()];
    setenv("TZ", tz.c_str(), 1);
    tzset();
    Sys s(e0, P);
    for (size_t k = 0; k < chunk; k++) {
      const long mjd = long(it / tzs.size() * chunk + k);
      if (mjd > kLast) continue;
      for (auto& q : quick)
        if (!one(s, ct(mjd, q.h, q.m, q.o), w, tz)) return;
      if (r.thorough && it % tzs.size() == 1)
        for (int h : {0, 1, 11, 12, 22, 23, 24})
          for (int m : {0, 29, 30, 59})
            for (int o = 0; o < 64; o++)
              if (!one(s, ct(mjd, h, m, o), w, tz)) return;
      w.traces++;
      w.state(uint64_t(mjd));
    }
    w.sample("TZ=" + tz + " => " + s.last_line);
  });
  // every time of day and offset, valid or not, on critical dates
  const std::vector<long> days{15079, 15080, 15384, 40586, 40587, 51543, 51544, 51602, 51603, 51604, 58848, 58849, 58907, 58908, 58909, 60369, 60370, 65442, 65443, 73108, 88067, 88068, 88126, 88127, 0, 15078, 14956};
  r.parallel("every time and offset", days.size() * 32, [&](size_t it, Worker& w) {
    const std::string& tz = tzs[it % tzs.size()];
    setenv("TZ", tz.c_str(), 1);
    tzset();
    Sys s(e0, P);
    for (int m = 0; m < 64; m++)
      for (int o = 0; o < 64; o++)
        if (!one(s, ct(days[it / 32], int(it % 32), m, o), w, tz)) return;
    w.traces++;
    w.state(1000000 + it);
  });
  setenv("TZ", "UTC", 1);
  tzset();
  // every pair of successive clock-times that agree in all but one or two fields, and a clock that runs on
  {
    std::vector<Ev> v;
    for (long d : {60000, 60001, 60365, 51603})
      for (int h : {0, 9, 12, 13})
        for (int m : {0, 1, 30, 39})
          for (int o : {0, 1, 4, 36}) v.push_back(ct(d, h, m, o));
    r.parallel("successive clock-times", v.size(), [&](size_t a, Worker& w) {
      for (size_t b = 0; b < v.size(); b++) {
        Sys s(e0, P);
        for (const Ev* e : {&v[a], &v[b], &v[a]}) {
          w.transitions++;
          if (!s.step(*e)) return w.failPath(s);
        }
        w.traces++;
        w.tick();
        w.state(hash64("pair", a * 1000 + b));
      }
    });
    r.parallel("running clock", 64, [&](size_t o, Worker& w) {
      Sys s(e0, P);
      for (long d : {60000, 60001, 65534})
        for (int t = 0; t < 1440; t++) {
          if (!one(s, ct(d, t / 60, t % 60, int(o)), w, "UTC")) return;
        }
      w.traces++;
      w.state(hash64("run", o));
    });
  }
  // lost blocks and history
  std::vector<Ev> al{ct(60000, 12, 30, 4), ct(60001, 0, 0, 36), ct(60000, 24, 30, 4), ct(60000, 12, 60, 4), ct(60000, 12, 30, 30), ct(100, 12, 30, 0), lose(ct(60002, 1, 2, 3), 1), lose(ct(60002, 1, 2, 3), 2), lose(ct(60002, 1, 2, 3), 3), lose(ct(60002, 1, 2, 3), 0), ev(kPI, blk2(4, true, 1), kPI, 0x1234), ev(kPI, blk2(4, false, 31), 0xFFFF, 0x1234)};
  al.pop_back();
  explore(r, {sequences("sequences", e0, P, {}, al, r.thorough ? 6 : 5)});
  everywhere(r, P);
  r.info("bounds", "dates MJD 0..88127 (28 Feb 2100), 12 times/offsets each in 5 host time zones; all 32x64x64 hour/minute/offset fields on 27 dates");
}
