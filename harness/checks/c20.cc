#include <cmath>
#include "../mpx.hh"
#include "loctab.hh"
using namespace drv;
namespace {
// everything that distinguishes decoder states, in three wordings
std::vector<Ev> story(int kind, int pi) {
  std::vector<Ev> v;
  const std::string X = kind == 0 ? "ALPHA FM" : kind == 1 ? "BETA FM " : "GAMMA99 ";
  const std::string rt = X + "text\r";
  auto clock = [&](int mjd, int h, int m, int off) { return ev(pi, blk2(4, false, (mjd >> 15) & 3), ((mjd & 0x7FFF) << 1) | (h >> 4), ((h & 15) << 12) | (m << 6) | off); };
  switch (kind % 3) {
    case 0:
      for (int i = 0; i < 4; i++) v.push_back(ps(pi, i, X, i == 0 ? 0xE20A : i == 1 ? 0x14CD : 0xCDCD));
      v.push_back(rtA(pi, 0, 0, rt));
      v.push_back(rtA(pi, 0, 1, rt));
      v.push_back(rtA(pi, 0, 2, rt));
      v.push_back(rtA(pi, 0, 3, rt));
      break;
    case 1:
      v.push_back(oda(pi, 16, 0xCD46, 0x0041));
      v.push_back(grp(pi, 16, 3, 0x8000 | 101, 1111));
      v.push_back(grp(pi, 16, 3, 0x4000 | 0x123, 0x4567));
      v.push_back(ptyn(pi, 0, 0, X));
      v.push_back(ptyn(pi, 0, 1, X));
      v.push_back(clock(60000, 12, 34, 4));
      v.push_back(eon(pi, 0, ch2(X, 0), 0xC555));
      v.push_back(eon(pi, 1, ch2(X, 2), 0xC555));
      break;
    default:
      v.push_back(oda(pi, 22, 0x4BD7));
      v.push_back(rtA(pi, 0, 0, X + "song\r"));
      v.push_back(rtA(pi, 0, 1, X + "song\r"));
      v.push_back(rtA(pi, 0, 2, X + "song\r"));
      v.push_back(rtA(pi, 0, 3, X + "song\r"));
      v.push_back(grp(pi, 22, 8, (1 << 13) | (0 << 7) | (5 << 1), (4 << 11) | (1 << 5) | 4));
      v.push_back(eon(pi, 2, ch2(X, 4), 0xC555));
      v.push_back(eon(pi, 3, ch2(X, 6), 0xC555));
  }
  return v;
}
std::vector<Ev> pipeStory(int stream) {
  std::vector<Ev> v;
  v.push_back(rftInfo(stream, stream + 2, 0xFF7F, 12, 1, stream));
  for (int i = 0; i < 3; i++) v.push_back(rftSeg(stream, stream + 2, 0, i, {65 + stream, i, 2, 3, 4}));
  return v;
}
std::string strip(std::string line) {
  json j = json::parse(line, nullptr, false);
  if (!j.is_object()) return "(bad) " + line;
  j.erase("channel");
  return CliBatch::dump(j);
}
}  // namespace
CHECK(C20) {
  const Project P = allFields();
  const std::string key_file = "service_key_table.csv";
  writeFile(key_file, "1,181,3,2\n2,17,5,9\n3,90,1,4\n");
  // ---- decoders of several channels side by side: every interleaving of their groups. What each of
  // them prints alone is found in a process of its own.
  auto give = [](Impl& im, const Ev& e) {
    if (e.kind == 'b') for (char c : e.bits) im.bit(c == '1', e.g.stream);
    else if (e.kind == 'r') im.resetPI();
    else if (e.kind == 'f') im.flush();
    else im.group(e.g);
  };
  auto run1 = [&](const ImplOpt& o, int pi, const std::vector<Ev>& h) {
    return inFreshProcess([&] {
      auto im = makeImpl(o, -1);
      for (int i = 0; i < 4; i++) im->group(mk(pi, blk2(1, false, 0), 0, 0));
      im->take();
      std::string t;
      for (auto& e : h) {
        give(*im, e);
        t += im->take() + "\x01";
      }
      return t;
    });
  };
  auto cut1 = [](const std::string& t) {
    std::vector<std::string> v;
    for (size_t i = 0, k; (k = t.find('\x01', i)) != std::string::npos; i = k + 1) v.push_back(t.substr(i, k - i));
    return v;
  };
  struct Duo {
    std::string name;
    ImplOpt o;
    std::array<int, 2> pi;
    std::array<std::vector<Ev>, 2> h;
    std::array<std::vector<std::string>, 2> want;
    int switches;  // -1: every interleaving
  };
  std::vector<Duo> duos;
  ImplOpt base_options;
  auto addDuo = [&](const std::string& name, int pa, int pb, std::vector<Ev> a, std::vector<Ev> b, bool partial, int switches) {
    Duo d;
    d.name = name;
    d.o = base_options;
    d.o.partial = partial;
    d.o.bler = partial;
    d.pi = {pa, pb};
    d.h = {a, b};
    for (size_t k = 0; k < 2; k++) d.want[k] = cut1(run1(d.o, d.pi[k], d.h[k]));
    d.switches = switches;
    duos.push_back(d);
  };
  for (int a = 0; a < 3; a++)
    for (int b = 0; b < 3; b++) addDuo("stories " + std::to_string(a) + " and " + std::to_string(b), 0x22F8, a == b ? 0x22F8 : 0x5ABC, story(a, 0x22F8), story(b, a == b ? 0x22F8 : 0x5ABC), (a + b) % 2 == 1, -1);
  {
    const auto fa = features(0x22F8), fb = features(0x5ABC);
    for (size_t f = 0; f < fa.size(); f++)
      for (int same = 0; same < 2; same++) {
        auto a = fa[f].setup, b = same ? fa[f].setup : fb[f].setup;
        append(a, fa[f].a);
        append(b, same ? fa[f].b : fb[f].b);
        addDuo(fa[f].name, 0x22F8, same ? 0x22F8 : 0x5ABC, a, b, same, int(a.size()) <= 6 ? -1 : r.thorough ? 5 : a.size() > 12 ? 2 : 3);
      }
  }
  // one channel has been told what the other has not
  {
    const auto fa = features(0x22F8), fb = features(0x5ABC);
    for (size_t f = 0; f < fa.size(); f++) {
      if (fa[f].setup.empty()) continue;
      auto a = fa[f].setup;
      append(a, fa[f].a);
      addDuo(fa[f].name + ", the other without setup", 0x22F8, 0x5ABC, a, fb[f].b, f % 2, int(a.size()) <= 6 ? -1 : 2);
      // the other one knows the application, but has not had its parameters
      addDuo(fa[f].name + ", the other with less setup", 0x22F8, 0x5ABC, a, [&] {
        auto b = fb[f].setup;
        b.pop_back();
        b.push_back(oda(0x5ABC, (fb[f].setup.back().g.b[1] & 31), fb[f].setup.back().g.b[3], 0xC000));
        append(b, fb[f].b);
        return b;
      }(), f % 2, 2);
    }
  }
  // traffic messages: open, encrypted with different keys, encrypted with an unknown key, not yet announced
  {
    auto tmc = [](int pi, int kind, bool multi) {
      std::vector<Ev> v;
      auto msgs = [&](int ev1, int loc) {
        if (multi) {
          v.push_back(grp(pi, 16, 2, 0x8000 | (1 << 11) | ev1, loc));
          v.push_back(grp(pi, 16, 2, 0x4000 | (kind << 4), 0x1234));
        } else {
          v.push_back(grp(pi, 16, 8 | kind, (1 << 11) | ev1, loc));
        }
      };
      auto sys = [&](int ltn) { v.push_back(oda(pi, 16, 0xCD46, (ltn << 6) | 1)); };
      auto admin = [&](int encid, int ltn) { v.push_back(grp(pi, 16, 0, (3 << 5) | encid, ltn << 10)); };
      switch (kind) {
        case 0: sys(5); msgs(101, 1111); v.push_back(oda(pi, 16, 0xCD46, 0x4000 | (9 << 6) | 0xD)); msgs(102, 1111); v.push_back(oda(pi, 16, 0xCD46, 0x8000 | 0xE0)); break;
        case 1: sys(0); admin(1, 7); msgs(101, 1111); msgs(102, 2222); admin(2, 7); msgs(101, 1111); break;
        case 2: sys(0); admin(3, 8); msgs(101, 1111); sys(6); msgs(101, 1111); sys(0); msgs(101, 1111); break;
        case 3: sys(0); msgs(101, 1111); admin(30, 1); msgs(101, 1111); admin(1, 1); msgs(101, 1111); break;
        default: msgs(101, 1111); v.push_back(oda(pi, 16, 0xCD46, 0x4000 | (9 << 6))); v.push_back(oda(pi, 16, 0xCD46, 0x8000 | 0xE1)); v.push_back(grp(pi, 16, 0x14, 0x4142, 0x4344)); msgs(101, 1111); break;
      }
      return v;
    };
    for (int a = 0; a < 5; a++)
      for (int b = a; b < 5; b++)
        for (int multi = 0; multi < 2; multi++) addDuo("traffic messages " + std::to_string(a) + " and " + std::to_string(b) + (multi ? " of several groups" : ""), 0x22F8, b % 2 ? 0x22F8 : 0x5ABC, tmc(0x22F8, a, multi), tmc(b % 2 ? 0x22F8 : 0x5ABC, b, multi), false, multi ? r.thorough ? 5 : 4 : r.thorough ? -1 : 5);
  }
  // with losses: PI lost, nothing received, signal lost
  {
    auto lossy = [](int pi, int kind) {
      std::vector<Ev> v;
      for (int i = 0; i < 8; i++) {
        Ev e = ps(pi, i % 4, kind % 2 ? "ALPHA FM" : "BETA FM ");
        const int what = kind == 0 ? i % 2 : kind == 1 ? (i % 4 == 1 || i % 4 == 2) : kind == 2 ? (i % 3 == 0 ? 2 : i % 3 == 1) : i % 3 == 2 ? 3 : 0;
        if (what == 1) e = lose(e, 0);
        if (what == 2) e = lose(lose(lose(lose(e, 0), 1), 2), 3);
        if (what == 3) e = lose(lose(e, 1), 3);
        if (kind == 3 && i == 5) e = evReset();
        v.push_back(e);
      }
      return v;
    };
    for (int a = 0; a < 4; a++)
      for (int b = a; b < 4; b++) addDuo("losses " + std::to_string(a) + " and " + std::to_string(b), 0x22F8, b % 2 ? 0x22F8 : 0x5ABC, lossy(0x22F8, a), lossy(b % 2 ? 0x22F8 : 0x5ABC, b), true, -1);
    // as bits, with outages shorter and longer than what ends synchronisation, and slipped bits
    auto bits = [](int pi, int kind, int stream) {
      std::vector<Ev> v;
      for (int i = 0; i < 22; i++) {
        Ev e;
        e.kind = 'b';
        e.g.stream = stream;
        e.bits = groupBits((stream ? rftSeg(stream, 2, 0, i, {i, pi & 255, 1, 2, 3}) : ps(pi, i % 4, kind % 2 ? "ALPHA FM" : "BETA FM ")).g);
        const bool bad = kind == 0 ? i >= 4 && i < 10 : kind == 1 ? i >= 4 && i < 16 : kind == 2 ? i % 2 == 1 : false;
        if (bad)
          for (size_t q = 3; q < e.bits.size(); q += 5) e.bits[q] ^= 1;
        if (kind == 3 && i == 6) e.bits.erase(40, 1);
        v.push_back(e);
      }
      v.push_back(evFlush());
      return v;
    };
    for (int a = 0; a < 4; a++)
      for (int b = a; b < 4; b++) addDuo("bits " + std::to_string(a) + " and " + std::to_string(b), 0x22F8, 0x5ABC, bits(0x22F8, a, 0), bits(0x5ABC, b, a == b ? 1 : 0), true, r.thorough ? 3 : 2);
  }
  auto interleave = [&](const std::string& phase) {
    const size_t slices = 16;
    r.parallel(phase, duos.size() * slices, [&](size_t it, Worker& w) {
      const Duo& d = duos[it / slices];
      size_t counter = 0;
      // an interleaving is a list of runs; every list with at most d.switches switches is tried
      std::vector<int> order;
      std::function<bool(size_t, size_t, int, int)> rec = [&](size_t i, size_t j, int last, int left) -> bool {
        if (i == d.h[0].size() && j == d.h[1].size()) {
          if (counter++ % slices != it % slices) return true;
          std::array<std::unique_ptr<Impl>, 2> im;
          for (size_t k = 0; k < 2; k++) {
            im[k] = makeImpl(d.o, -1);
            for (int q = 0; q < 4; q++) im[k]->group(mk(d.pi[k], blk2(1, false, 0), 0, 0));
          }
          im[0]->take(), im[1]->take();
          std::array<size_t, 2> at{0, 0};
          for (int k : order) {
            const size_t q = at[size_t(k)]++;
            give(*im[size_t(k)], d.h[size_t(k)][q]);
            w.transitions++;
            const std::string got = im[size_t(k)]->take();
            if (got != d.want[size_t(k)][q]) {
              std::string t;
              for (int z : order) t += char('0' + z);
              w.fail("the output of one channel changed with what another channel received meanwhile (" + d.name + ", order " + t + "): alone " + d.want[size_t(k)][q] + " here " + got, "two decoders side by side; " + d.name + "; interleaving " + t + "\n");
              return false;
            }
            w.outcome(hash64(got));
          }
          w.traces++;
          w.tick();
          w.state(hash64(d.name, counter));
          return true;
        }
        for (int k = 0; k < 2; k++) {
          if ((k ? j : i) >= d.h[size_t(k)].size()) continue;
          // switching away from a channel that is not at its end costs one
          const bool other_done = (k ? i : j) >= d.h[size_t(1 - k)].size();
          const int cost = last >= 0 && last != k && !other_done ? 1 : 0;
          if (d.switches >= 0 && cost > left) continue;
          order.push_back(k);
          if (!rec(i + (k == 0), j + (k == 1), k, left - cost)) return false;
          order.pop_back();
        }
        return true;
      };
      rec(0, 0, -1, d.switches);
    });
    duos.clear();
  };
  interleave("two channels, interleavings");
  // stations that use different location tables, and one that uses none (the tables themselves are shared)
  {
    char cwd[4096];
    const std::string at = getcwd(cwd, sizeof cwd) ? cwd : ".";
    const std::vector<std::string> dirs{at + "/duo_table_1", at + "/duo_table_2"};
    for (int k = 1; k <= 2; k++) loctab::save(dirs[size_t(k - 1)], loctab::files(loctab::network(k, 2 * k)));
    auto tmc = [](int pi, int kind) {
      std::vector<Ev> v;
      auto sys = [&](int ltn) { v.push_back(oda(pi, 16, 0xCD46, (ltn << 6) | 1)); };
      auto msg = [&](int loc, int extent) { v.push_back(grp(pi, 16, 8, (extent << 11) | 101, loc)); };
      switch (kind) {
        case 0: sys(1); msg(102, 1); msg(112, 0); sys(2); msg(102, 1); break;
        case 1: sys(2); msg(102, 1); msg(103, 2); sys(1); msg(102, 0); break;
        case 2: sys(3); msg(102, 1); sys(1); msg(103, 0); break;
        case 3: sys(0); v.push_back(grp(pi, 16, 0, (3 << 5) | 1, 2 << 10)); msg(21060, 1); msg(102, 0); v.push_back(grp(pi, 16, 0, (3 << 5) | 9, 1 << 10)); msg(102, 0); break;
        default: sys(1); v.push_back(grp(pi, 16, 2, 0x8000 | 101, 102)); v.push_back(grp(pi, 16, 2, 0x4000, 0)); sys(2); msg(101, 1); break;
      }
      return v;
    };
    for (int a = 0; a < 5; a++)
      for (int b = a; b < 5; b++) {
        ImplOpt o;
        o.loctables = dirs;
        base_options = o;
        addDuo("location tables " + std::to_string(a) + " and " + std::to_string(b), 0x22F8, b % 2 ? 0x22F8 : 0x5ABC, tmc(0x22F8, a), tmc(b % 2 ? 0x22F8 : 0x5ABC, b), false, -1);
      }
    interleave("two channels with location tables, interleavings");
    for (auto& d : dirs) loctab::wipe(d);
  }
  unlink(key_file.c_str());
  // ---- data streams: every order in which pieces of their bits can arrive
  {
    // streams 0..3 with their groups as bits, cut into pieces at odd positions
    struct Setup { std::vector<int> streams; int pieces; bool outages = false; };
    std::vector<Setup> setups{{{0, 1}, 6}, {{0, 2}, 6}, {{0, 3}, 6}, {{1, 2}, 6}, {{0, 1, 2}, 4}, {{1, 2, 3}, r.thorough ? 4 : 3}, {{0, 1, 2, 3}, r.thorough ? 3 : 2}, {{0, 1}, 6, true}, {{0, 3}, 5, true}, {{1, 2}, 5, true}, {{0, 1, 2}, 3, true}};
    for (auto& su : setups) {
      const size_t ns = su.streams.size();
      std::vector<std::vector<std::string>> cut(ns);
      for (size_t k = 0; k < ns; k++) {
        std::string bits;
        const int st = su.streams[k];
        const auto h = st ? pipeStory(st) : std::vector<Ev>{ps(kPI, 0, "ALPHA FM"), ps(kPI, 1, "ALPHA FM"), ps(kPI, 2, "ALPHA FM"), ps(kPI, 3, "ALPHA FM")};
        bits += groupBits(h[0].g);
        for (auto& e : h) bits += groupBits(e.g);
        bits += groupBits(h[1].g);
        if (su.outages) {
          // short of what ends synchronisation on each stream alone
          std::string noise;
          for (int q = 0; q < 8; q++) noise += groupBits(lose(lose(lose(lose(h[size_t(q % 3)], 0), 1), 2), 3).g);
          bits += noise;
          for (auto& e : h) bits += groupBits(e.g);
        }
        const size_t step = bits.size() / size_t(su.pieces) + 1;
        for (size_t i = 0, q = 0; i < bits.size(); q++) {
          const size_t len = std::min(bits.size() - i, q % 2 ? step - 7 - k : step + 9 + k);
          cut[k].push_back(bits.substr(i, len));
          i += len;
        }
      }
      // alone
      for (int hex = 0; hex < 2; hex++) {
        ImplOpt o;
        o.streams = true;
        o.hex_out = hex;
        std::vector<std::vector<std::string>> alone(ns);
        // the station is known from the start: its confirmation would clear the upper streams, too
        auto fresh = [o] {
          auto im = makeImpl(o, -1);
          for (int i = 0; i < 4; i++) im->group(mk(kPI, blk2(1, false, 0), 0, 0));
          im->take();
          return im;
        };
        for (size_t k = 0; k < ns; k++) {
          alone[k] = splitLines(inFreshProcess([&] {
            auto im = fresh();
            for (auto& pc : cut[k])
              for (char c : pc) im->bit(c == '1', su.streams[k]);
            im->flush();
            return im->take();
          }));
        }
        auto lineStream = [&](const std::string& l) {
          if (hex) return l.compare(0, 2, "#S") ? 0 : l[2] - '0';
          json j = json::parse(l, nullptr, false);
          return j.is_object() ? j.value("stream", 0) : -1;
        };
        // enumerate the merges depth first; the first pieces are spread over the workers
        const std::string name = "streams" + [&] { std::string t; for (int s : su.streams) t += " " + std::to_string(s); return t; }() + (su.outages ? ", outages" : "") + (hex ? " (hex)" : "");
        r.parallel(name, ns * ns * ns, [&](size_t it, Worker& w) {
          std::vector<int> order;
          std::function<bool(std::vector<size_t>)> rec = [&](std::vector<size_t> at) -> bool {
            bool end = true;
            for (size_t k = 0; k < ns; k++) {
              if (at[k] >= cut[k].size()) continue;
              end = false;
              if (order.size() < 3) {
                size_t sel = it;
                for (size_t q = 0; q < order.size(); q++) sel /= ns;
                if (sel % ns != k) continue;
              }
              auto n = at;
              n[k]++;
              order.push_back(int(k));
              if (!rec(n)) return false;
              order.pop_back();
            }
            if (!end) return true;
            auto im = fresh();
            std::vector<size_t> pos(ns, 0);
            for (int k : order) {
              for (char c : cut[size_t(k)][pos[size_t(k)]]) im->bit(c == '1', su.streams[size_t(k)]);
              pos[size_t(k)]++;
              w.transitions++;
            }
            im->flush();
            std::vector<std::vector<std::string>> got(ns);
            std::string all = im->take();
            for (auto& l : splitLines(all)) {
              const int st = lineStream(l);
              for (size_t k = 0; k < ns; k++)
                if (su.streams[k] == st) got[k].push_back(l);
            }
            w.traces++;
            w.tick();
            w.state(hash64(all));
            for (size_t k = 0; k < ns; k++) {
              w.outcome(hash64(got[k].empty() ? "" : got[k].back()));
              if (got[k] != alone[k]) {
                std::string t;
                for (int q : order) t += " " + std::to_string(su.streams[size_t(q)]);
                std::string d = "different number of lines";
                for (size_t q = 0; q < got[k].size() && q < alone[k].size(); q++)
                  if (got[k][q] != alone[k][q]) { d = "expected " + alone[k][q] + " but got " + got[k][q]; break; }
                w.fail("stream " + std::to_string(su.streams[k]) + " is decoded differently when the pieces of the streams arrive in the order" + t + ": " + d, "pieces in the order" + t + "\n");
                return false;
              }
            }
            return true;
          };
          rec(std::vector<size_t>(ns, 0));
        });
      }
    }
  }
  // ---- buffers of bits: every size, and pairs of sizes
  {
    std::array<std::string, 4> bits;
    for (int st = 0; st < 4; st++)
      for (int i = 0; i < 10; i++) bits[size_t(st)] += groupBits((st ? rftSeg(st, st, 0, i, {i, 2, 3, 4, st}) : ps(kPI, i % 4, "ALPHA FM")).g);
    const size_t n = bits[0].size();
    r.parallel("buffer sizes", 4 * 2 * 320, [&](size_t it, Worker& w) {
      const int ns = int(it % 4) + 1;
      const bool hex = it / 4 % 2;
      const size_t k = it / 8;
      ImplOpt o;
      o.streams = true;
      o.hex_out = hex;
      auto feed = [&](const std::function<size_t(size_t)>& size) {
        auto im = makeImpl(o, -1);
        for (int i = 0; i < 4; i++) im->group(mk(kPI, blk2(1, false, 0), 0, 0));
        im->take();
        for (size_t at = 0, q = 0; at < n; q++) {
          const size_t len = std::min(n - at, size(q));
          std::vector<int> b[4];
          for (int st = 0; st < ns; st++)
            for (size_t i = 0; i < len; i++) b[st].push_back(bits[size_t(st)][at + i] == '1');
          im->buffer(b, 1000000000LL, ns);
          at += len;
          w.transitions++;
        }
        im->flush();
        return im->take();
      };
      std::map<int, std::string> want, got;
      auto split = [&](const std::string& t) {
        std::map<int, std::string> m;
        for (auto& l : splitLines(t)) {
          int st = 0;
          if (hex) st = l.compare(0, 2, "#S") ? 0 : l[2] - '0';
          else st = json::parse(l, nullptr, false).value("stream", 0);
          m[st] += l + "\n";
        }
        return m;
      };
      for (int two = 0; two < 2; two++) {
        want = split(feed([](size_t) { return size_t(1); }));
        got = split(feed([&](size_t q) { return two ? (q % 2 ? k % 40 + 1 : k / 3 + 1) : k < 300 ? k + 1 : k * 7 - 1900; }));
        w.tick();
        w.traces++;
        for (auto& x : want) w.outcome(hash64(x.second));
        w.state(hash64(got[0], k));
        // groups of upper streams are shown without waiting for the PI; those of stream 0 as before
        if (got != want) return w.fail("the output depends on the sizes of the buffers (" + std::to_string(k) + ", " + std::to_string(ns) + " streams)", "buffer sizes, see above\n");
      }
    });
  }
  // ---- signals
  struct Kind { std::string name; std::vector<int16_t> s; };
  auto kinds = [&](double fs, bool rds2) {
    std::vector<Kind> v;
    std::string a, b, c, u;
    for (int i = 0; i < 30; i++) {
      a += groupBits((i % 3 == 2 ? rtA(0x22F8, 0, i / 3 % 3, "Alpha song\r") : ps(0x22F8, i % 4, "ALPHA FM")).g);
      const int pib = i < 16 ? 0x5ABC : 0x6ABD;  // another station halfway
      b += groupBits((i % 4 == 1 ? ptyn(pib, 0, i / 4 % 2, "Pop hits") : ps(pib, i % 4, "BETA FM ")).g);
      c += groupBits(ps(0x22F8, 3 - i % 4, "GAMMA 99").g);
      u += groupBits(rftSeg(1, 1, 0, i, {i, 2, 3, 4, 9}).g);
    }
    mpx::Sig s;
    s.fs = fs;
    v.push_back({"A", mpx::synth(s, {a, rds2 ? u : "", "", ""})});
    s.phase = 1.1;
    s.bit_phase = 0.4;
    v.push_back({"B", mpx::synth(s, {b, "", "", rds2 ? a : ""})});
    s.phase = 2.5;
    s.lead = 0.3;
    s.level = 0.01;
    v.push_back({"C", mpx::synth(s, {c, "", rds2 ? u : "", ""})});
    mpx::Sig q;
    q.fs = fs;
    q.lead = 2;
    v.push_back({"programme only", mpx::synth(q, {"", "", "", ""})});
    q.pilot = q.audio = 0;
    v.push_back({"silence", mpx::synth(q, {"", "", "", ""})});
    q.noise = 0.3;
    v.push_back({"noise", mpx::synth(q, {"", "", "", ""})});
    std::vector<int16_t> sq;
    for (int i = 0; i < 200000; i++) sq.push_back(i / 3 % 2 ? 32767 : -32768);
    v.push_back({"full scale", sq});
    return v;
  };
  struct Layout { double fs; std::vector<int> ch; bool rds2; std::vector<std::string> opt; };
  std::vector<Layout> lay;
  for (int a = 0; a < 7; a++)
    for (int b = 0; b < 7; b++) lay.push_back({171000, {a, b}, false, {}});
  for (int a = 0; a < 3; a++)
    for (int b = 0; b < 7; b++)
      for (int c = 0; c < 3; c++) lay.push_back({b % 2 ? 171000. : 192000., {a, b, c}, false, {"-R"}});
  for (int a = 0; a < 3; a++)
    for (int b = 0; b < 3; b++) lay.push_back({192000, {a, b}, true, {"-s"}});
  for (int a = 0; a < 2; a++) lay.push_back({171000, {a, 4, a, 5, 2}, true, {"-s", "-p"}});
  for (int n = 1; n <= 32; n++) {
    if (!r.thorough && n > 8 && n % 4 && n != 31) continue;
    Layout l{171000, {}, false, {"-R"}};
    for (int c = 0; c < n; c++) l.ch.push_back((c * 5 + n) % 4);
    l.ch.back() = n % 3;
    lay.push_back(l);
  }
  r.parallel("signals on several channels", lay.size(), [&](size_t it, Worker& w) {
    const Layout& l = lay[it];
    const auto ks = kinds(l.fs, l.rds2);
    std::vector<std::vector<int16_t>> v;
    size_t n = 0;
    for (int c : l.ch) n = std::max(n, ks[size_t(c)].s.size());
    // various partial last buffers; every other time every channel ends in the middle of a group
    if (it % 2)
      for (int c : l.ch)
        if (c < 3) n = std::min(n, size_t(double(ks[size_t(c)].s.size()) * (0.8 + 0.013 * double(it % 11))));
    n -= it * 37 % 900;
    for (int c : l.ch) {
      v.push_back(ks[size_t(c)].s);
      v.back().resize(n);
    }
    std::vector<std::string> base{"-r", std::to_string(int(l.fs))};
    base.insert(base.end(), l.opt.begin(), l.opt.end());
    auto many = base;
    many.push_back("-c" + std::to_string(l.ch.size()));
    CliOpt co;
    co.timeout_s = 120;
    const auto c = runCli(many, mpx::bytes(mpx::interleave(v)), co);
    w.tick();
    w.traces++;
    std::string desc;
    for (int k : l.ch) desc += " [" + ks[size_t(k)].name + "]";
    const std::string rep = cliReplay(many, "", "synthesised channels:" + desc);
    if (c.status) return w.fail("channels" + desc + ": exit status " + std::to_string(c.status) + " " + c.err.substr(0, 300), rep);
    std::vector<std::vector<std::string>> got(l.ch.size());
    for (auto& x : splitLines(c.out)) {
      json j = json::parse(x, nullptr, false);
      size_t k = 0;
      if (!j.is_object() || j.contains("channel") != (l.ch.size() > 1)) return w.fail("channels" + desc + ": line " + x, rep);
      if (l.ch.size() > 1) k = j["channel"].is_number_unsigned() ? j["channel"].get<size_t>() : 9999;
      if (k >= l.ch.size()) return w.fail("channels" + desc + ": line " + x, rep);
      got[k].push_back(strip(x));
      w.transitions++;
    }
    std::map<int, std::vector<std::string>> single;
    for (size_t k = 0; k < l.ch.size(); k++) {
      auto& s = single[l.ch[k]];
      if (s.empty()) {
        const auto o = runCli(base, mpx::bytes(v[k]), co);
        w.tick();
        for (auto& x : splitLines(o.out)) s.push_back(strip(x));
        if (s.empty()) s.push_back("(nothing)");
        if (l.ch[k] < 3 && s.size() < 10) return w.fail("a signal alone is not decoded", rep);
      }
      auto g = got[k];
      if (g.empty()) g.push_back("(nothing)");
      w.outcome(hash64(g.back()));
      w.state(hash64(desc, k + n));
      if (g != s) {
        std::string d = std::to_string(g.size()) + " lines instead of " + std::to_string(s.size());
        for (size_t q = 0; q < g.size() && q < s.size(); q++)
          if (g[q] != s[q]) { d = "expected " + s[q] + " but got " + g[q]; break; }
        return w.fail("channels" + desc + ": channel " + std::to_string(k) + " differs from the same signal alone: " + d, rep);
      }
    }
  });
  // ---- a channel without reception for long, which is searched again and again, next to one with reception
  r.parallel("long loss on another channel", 3 * 3, [&](size_t it, Worker& w) {
    std::string bits;
    std::vector<G> sent;
    for (int i = 0; i < 300; i++) {
      const G g = (i % 5 == 4 ? rtA(0x22F8, 0, i / 5 % 3, "Alpha song\r") : ps(0x22F8, i % 4, "ALPHA FM")).g;
      bits += groupBits(g);
    }
    mpx::Sig s;
    const auto good = mpx::synth(s, {bits, "", "", ""});
    mpx::Sig q;
    q.lead = 30;
    if (it % 3 == 0) q.pilot = q.audio = 0;
    if (it % 3 == 1) q.noise = 0.1;
    auto bad = mpx::synth(q, {"", "", "", ""});
    bad.resize(good.size());
    const size_t nch = it / 3 + 2;
    std::vector<std::vector<int16_t>> v(nch, bad);
    const size_t at = it / 3 % 2 ? nch - 1 : 0;
    v[at] = good;
    const std::vector<std::string> a{"-r171k", "-R"}, b{"-r171k", "-R", "-c" + std::to_string(nch)};
    CliOpt co;
    co.timeout_s = 120;
    const auto one = runCli(a, mpx::bytes(good), co), many = runCli(b, mpx::bytes(mpx::interleave(v)), co);
    w.tick();
    w.traces += 2;
    std::vector<std::string> x, y;
    for (auto& l : splitLines(one.out)) x.push_back(strip(l));
    for (auto& l : splitLines(many.out)) {
      json j = json::parse(l, nullptr, false);
      if (j.is_object() && j.contains("channel") && j["channel"] == at) y.push_back(strip(l));
      w.transitions++;
    }
    w.state(hash64(one.out, it));
    w.outcome(hash64(many.out));
    if (many.status || x.size() < 250 || x != y) w.fail("a channel is decoded differently (" + std::to_string(y.size()) + " lines instead of " + std::to_string(x.size()) + ") next to channels without reception", cliReplay(b, "", "synthesised channels"));
  });
  // ---- the same signal, its stream 0 with and without --streams; and any cutting of the input
  const std::vector<double> rates{171000, 192000, 250000};
  r.parallel("with and without upper streams", rates.size() * 3, [&](size_t it, Worker& w) {
    const auto ks = kinds(rates[it / 3], true);
    const std::string in = mpx::bytes(ks[it % 3].s);
    const std::string rate = std::to_string(int(rates[it / 3]));
    const auto a = runCli({"-r", rate, "-R"}, in), b = runCli({"-r", rate, "-R", "-s"}, in);
    w.tick();
    w.traces += 2;
    std::vector<std::string> la = splitLines(a.out), lb;
    for (auto& x : splitLines(b.out)) {
      json j = json::parse(x, nullptr, false);
      if (!j.is_object() || !j.contains("stream") || j["stream"] == 0) {
        j.erase("stream");
        lb.push_back(CliBatch::dump(j));
      }
      w.transitions++;
    }
    for (auto& x : la) x = strip(x);
    w.state(hash64(a.out));
    w.outcome(hash64(b.out));
    if (la.size() < 10 || la != lb) return w.fail("stream 0 is decoded differently with --streams", cliReplay({"-r", rate, "-R", "-s"}, "", "synthesised signal " + ks[it % 3].name));
  });
  r.parallel("input in pieces", 4 * 60, [&](size_t it, Worker& w) {
    const int fmt = int(it % 4);
    const size_t k = it / 4;
    std::string in;
    std::vector<std::string> a;
    if (fmt == 0) {
      static const auto ks = kinds(171000, false);
      in = mpx::bytes(k % 2 ? mpx::interleave({ks[k % 3].s, ks[(k + 1) % 3].s}) : ks[k % 3].s);
      a = {"-r171k"};
      if (k % 2) a.push_back("-c2");
    } else {
      for (int i = 0; i < 8; i++) {
        const G g = ps(kPI, i % 4, "ALPHA FM").g;
        if (fmt == 1) in += hexText(g);
        if (fmt == 2) in += groupBits(g) + (i % 2 ? "\n" : "");
        char b[64];
        snprintf(b, sizeof b, "P%04X\nR%04X%04X%04X00\n", g.b[0], g.b[1], g.b[2], g.b[3]);
        if (fmt == 3) in += b;
      }
      a = {fmt == 1 ? "-h" : fmt == 2 ? "-b" : "-itef"};
    }
    CliOpt co;
    co.pipe_in = true;
    if (fmt == 0)
      for (size_t q = 0, left = 40; left--; q++) co.pieces.push_back(k < 30 ? (k * 997 + q * 131 * k) % 40000 + 1 : (q % 2 ? k * 2 + 1 : 16384 + k - 45));
    else if (k < 40)
      for (size_t left = in.size(); left > k; left -= k + 1) co.pieces.push_back(k + 1);
    else
      for (size_t q = 0; q < 30; q++) co.pieces.push_back((q * k * 7 + k) % 23 + 1);
    const auto whole = runCli(a, in), parts = runCli(a, in, co);
    w.tick();
    w.traces += 2;
    w.transitions += co.pieces.size();
    w.state(hash64(whole.out, it));
    w.outcome(hash64(whole.out));
    if (whole.status || splitLines(whole.out).size() < 3) return w.fail("the input as a whole is not decoded", cliReplay(a, in.substr(0, 3000), ""));
    if (parts.status != whole.status || parts.out != whole.out) w.fail("the output depends on how the input is cut into pieces", cliReplay(a, in.substr(0, 3000), "through a pipe in pieces of " + std::to_string(co.pieces[0]) + ", ..."));
  });
}
