#include "common.hh"
using namespace drv;
// PI confirmation, station change, isolation between stations.
static Project stationView() {
  // presence, PI, and which station's data is shown
  static const std::vector<std::string> paths{"pi", "country", "callsign", "callsign_uncertain", "ps", "partial_ps", "radiotext", "partial_radiotext", "pty_name", "long_ps", "partial_long_ps", "alt_frequencies_a", "alt_frequencies_b", "partial_alt_frequencies", "radiotext_plus/tags", "ert_plus/tags", "enhanced_radiotext", "unknown_oda", "dab", "tmc/message", "tmc/service_provider", "other_network/ps", "other_network/alt_frequencies", "transparent_data/full_text", "rft/data/file_contents", "open_data_app/app_name"};
  auto f = fields(paths);
  return [f](const json* l) {
    json r = f(l);
    r["_line"] = l != nullptr;
    return r;
  };
}
CHECK(C03) {
  Env unknown;
  unknown.pi = -1;
  const int A = 0x22F8, B = 0x22F9, C = 0xA2F8;
  std::vector<Scenario> sc;
  // 1. every history of PI values
  {
    std::vector<Ev> al;
    for (int p : {A, B, C}) al.push_back(ev(p, blk2(0, false, 0), 0xCDCD, 0x4142));
    al.push_back(ev(-1, blk2(0, false, 0), 0xCDCD, 0x4142));
    al.push_back(ev(-1, -1, -1, -1));
    sc.push_back(sequences("PI histories", unknown, stationView(), {}, al, r.thorough ? 10 : 8));
    // other stations do not matter, streams 1..3 neither, and groups with only block 1
    std::vector<Ev> al2{al[0], al[1], al[3], ev(A, -1, -1, -1), ev(B, 0x1234, 0x2F8, B, 1), evReset()};
    sc.push_back(sequences("PI histories with stream 1 and signal loss", unknown, stationView(), {}, al2, r.thorough ? 9 : 7));
    // spurious PI codes under every pair of options
    for (int row = 0; row < 8; row++) {
      Env o = unknown;
      optionRow(o, row);
      sc.push_back(sequences("PI histories under options", o, stationView(), {}, {al[0], al[1], al[2], al[3]}, r.thorough ? 8 : 6));
    }
    // any combination of lost blocks: only the first tells whether the group before had a PI
    for (int pre = 0; pre < 2; pre++) {
      std::vector<Ev> al6;
      for (int m = 0; m < 16; m++) {
        Ev e = ev(m == 5 ? B : A, blk2(0, m & 1, 0), m & 1 ? A : 0xCDCD, 0x4142);
        for (int b = 0; b < 4; b++)
          if (m >> b & 1) e = lose(e, b);
        al6.push_back(e);
      }
      sc.push_back(sequences("PI histories with any loss", unknown, stationView(), pre ? std::vector<Ev>{al[0], al[0], al[0], al[0]} : std::vector<Ev>{}, al6, r.thorough ? 5 : 4));
    }
    // the country depends on the PI, too: that of the station, not that of a damaged group
    {
      std::vector<Ev> al5;
      for (int p : {A, B, C, 0xC2F8}) al5.push_back(ev(p, blk2(1, false, 0), 0x00E2, 0));
      al5.push_back(ev(A, blk2(1, false, 0), 0x00E0, 0));
      al5.push_back(ev(-1, blk2(1, false, 0), 0x00E1, 0));
      for (int rbds = 0; rbds < 2; rbds++) {
        Env n = unknown;
        n.opt.rbds = rbds;
        sc.push_back(sequences("country by PI", n, stationView(), {}, al5, r.thorough ? 8 : 6));
      }
    }
    // groups of any upper stream, whatever their first block looks like
    {
      std::vector<Ev> al4{al[0], al[1], al[3]};
      for (int st = 1; st < 4; st++) {
        al4.push_back(ev(B, blk2(0, false, 0), 0xCDCD, 0x4142, st));
        al4.push_back(ev(A, blk2(0, true, 0), B, 0x4142, st));
      }
      sc.push_back(sequences("PI histories with all streams", unknown, stationView(), {}, al4, r.thorough ? 7 : 5));
      sc.push_back(sequences("PI histories with all streams, station known", unknown, stationView(), {al[0], al[0], al[0]}, al4, r.thorough ? 7 : 5));
    }
    Env known = unknown;
    // groups that teach nothing themselves, and the rest of a PS name begun before
    {
      std::vector<Ev> al3;
      for (int p : {A, B, C}) al3.push_back(ev(p, blk2(1, false, 0), 0, 0));
      al3.push_back(ps(A, 2, "AABBCCDD"));
      al3.push_back(ps(A, 3, "AABBCCDD"));
      al3.push_back(evReset());
      sc.push_back(sequences("PS name begun before any PI history", known, stationView(), {al3[0], al3[0], al3[0], al3[0], ps(A, 0, "AABBCCDD"), ps(A, 1, "AABBCCDD")}, al3, r.thorough ? 9 : 7));
    }
    sc.push_back(sequences("PI histories of a confirmed station", known, stationView(), {al[0], al[0], al[0], ps(A, 1, "AABBCCDD")}, {al[0], al[1], al[2], al[3], ps(A, 2, "AABBCCDD"), ps(B, 2, "AABBCCDD")}, r.thorough ? 9 : 7));
  }
  // 2. bit level: the PI may come from block 3 of version B groups
  {
    Env b = unknown;
    b.with_bits = true;
    auto g = [&](int b1, int b3, bool lose1) {
      Ev e = ev(b1, blk2(0, true, 1), b3, 0x4142);
      if (lose1) e = lose(e, 0);
      return asBits(e);
    };
    std::vector<Ev> al{g(A, A, false), g(B, B, false), g(A, A, true), g(B, B, true), g(A, B, false)};
    Ev none = asBits(lose(lose(ev(A, blk2(0, true, 1), A, 0x4142), 0), 2));
    al.push_back(none);
    al.push_back(asBits(lose(ev(A, blk2(0, false, 1), B, 0x4142), 0)));
    sc.push_back(sequences("PI from C' blocks", b, stationView(), {g(A, A, false), g(A, A, false)}, al, r.thorough ? 7 : 5));
  }
  // 3. isolation: everything that can be learnt of station A, then a change to B at any point, then
  // the continuation of the same data from B, and back to A
  {
    auto la = learn(A, true), lb = learn(B, false);
    const int n = int(la.size());
    const Ev ca = ev(A, blk2(1, false, 0), 0, 0), cb = ev(B, blk2(1, false, 0), 0, 0), cc = ev(C, blk2(1, false, 0), 0, 0);
    for (int partial = 0; partial < 2; partial++) {
      Scenario s;
      s.env = unknown;
      s.env.opt.partial = partial;
      s.env.opt.streams = false;
      s.project = stationView();
      s.name = partial ? "isolation (partial shown)" : "isolation";
      s.prelude = {ca, ca, ca};
      s.budget = r.thorough ? 2 : 1;
      // cursor: 0..n-1 learning A; n..2n-1 learning B; 2n..3n-1 A again
      const int k3 = 3 * n;
      s.next = [=](int pos, int) {
        std::vector<Choice> c;
        if (pos >= k3) return c;
        const auto& l = (pos / n) == 1 ? lb : la;
        const int i = pos % n;
        const Ev& conf = (pos / n) == 0 ? cb : ca;
        c.push_back({{l[size_t(i)]}, 0, pos + 1});
        if (i == n - 1 && pos / n < 2) {
          c[0].evs.push_back(conf), c[0].evs.push_back(conf), c[0].evs.push_back(conf);
        }
        if (pos / n < 2) {
          const int same = (pos / n + 1) * n + i;       // continue the data where it was left
          c.push_back({{l[size_t(i)], conf, conf, conf}, 1, same + 1 < k3 ? same + 1 : k3});
          c.push_back({{l[size_t(i)], conf, conf, conf}, 1, (pos / n + 1) * n});
          c.push_back({{conf, conf}, 1, pos});           // not confirmed
          // two different wrong PIs restart the search; the old station is forgotten once confirmed
          const Ev& own = (pos / n) == 0 ? ca : cb;
          c.push_back({{conf, cc}, 1, pos});
          c.push_back({{conf, cc, own, own, own}, 1, pos});
          c.push_back({{conf, cc, own, own}, 1, pos});
          c.push_back({{evReset(), own, own, own}, 1, pos});
          c.push_back({{conf, l[size_t(i)], conf, conf}, 1, pos + 1});
        }
        c.push_back({{lose(l[size_t(i)], 0)}, 1, pos + 1});
        return c;
      };
      sc.push_back(s);
    }
  }
  explore(r, sc);
  // 4. the same for each feature alone: broken off at any point, station changed in any way, taken up at any point
  if (!r.failed()) {
    const auto fa = features(A), fb = features(B);
    const Ev ca = ev(A, blk2(1, false, 0), 0, 0), cb = ev(B, blk2(1, false, 0), 0, 0), cc = ev(C, blk2(1, false, 0), 0, 0);
    std::vector<std::vector<Ev>> changes{{cb, cb, cb}, {evReset(), cb, cb, cb}, {cb, cc, ca, ca, ca}, {evReset(), ca, ca, ca}, {cb, cc, ca, cb, cb, cb}};
    struct Item { size_t f, cut, change; bool same; };
    std::vector<Item> items;
    for (size_t f = 0; f < fa.size(); f++)
      for (size_t cut = 0; cut <= fa[f].setup.size() + fa[f].a.size(); cut++)
        for (size_t c = 0; c < changes.size(); c++)
          for (int same = 0; same < 2; same++) items.push_back({f, cut, c, same != 0});
    r.parallel("each feature broken off and taken up by another station", items.size(), [&](size_t it, Worker& w) {
      const Item& x = items[it];
      std::vector<Ev> first = fa[x.f].setup;
      append(first, fa[x.f].a);
      first.resize(x.cut);
      const bool own = x.change == 2 || x.change == 3;
      const Feature& g = own ? fa[x.f] : fb[x.f];
      const auto& data = x.same ? g.a : g.b;
      for (size_t with_setup = 0; with_setup < 2; with_setup++)
        for (size_t j = 0; j < data.size(); j++) {
          if (with_setup == 1 && g.setup.empty()) continue;
          std::vector<Ev> path{ca, ca, ca, ca};
          append(path, first);
          append(path, changes[x.change]);
          if (with_setup) append(path, g.setup);
          path.insert(path.end(), data.begin() + long(j), data.end());
          Env env = unknown;
          env.opt.partial = (it + j) % 2;
          Sys s(env, allFields());
          for (const Ev& e : path) {
            w.transitions++;
            if (!s.step(e)) {
              w.failPath(s);
              return;
            }
          }
          w.traces++;
          w.tick();
          w.state(hash64(s.key(), it * 64 + j));
        }
    });
  }
  // 5. every PI code as the new station, from several old ones; confirmed, unconfirmed, and back
  if (!r.failed()) {
    const std::vector<int> olds{A, 0x0000, 0xFFFF, 0xC201, 0x1000};
    r.parallel("every PI code", 4096, [&](size_t it, Worker& w) {
      for (size_t k = 0; k < 16; k++) {
        const int p = int(it * 16 + k);
        for (size_t o = 0; o < olds.size(); o++) {
          const int a = olds[o];
          if (a == p) continue;
          const bool near = __builtin_popcount(unsigned(a ^ p)) <= 2 || (a & 0xF0FF) == (p & 0xF0FF) || (a & 0xFFF) == (p & 0xFFF) || (p & 0xFF) == 0 || (p & 0xFF) == 0xFF;
          if (o != 0 && !near && !r.thorough) continue;
          for (int how = 0; how < 2; how++) {
            std::vector<Ev> path(4, ev(a, blk2(1, false, 0), 0, 0));
            path.push_back(ps(a, 0, "AABBCCDD"));
            path.push_back(ps(a, 1, "AABBCCDD"));
            for (int q = 0; q < 2; q++) path.push_back(ev(p, blk2(1, false, 0), 0, 0));
            if (how) {
              // not confirmed: the old one goes on
              path.push_back(ps(a, 2, "AABBCCDD"));
              path.push_back(ps(a, 3, "AABBCCDD"));
            } else {
              path.push_back(ps(p, 2, "XXYYZZWW"));
              path.push_back(ps(p, 3, "XXYYZZWW"));
              for (int q = 0; q < 4; q++) path.push_back(ps(p, q, "XXYYZZWW"));
              for (int q = 0; q < 3; q++) path.push_back(ev(a, blk2(1, false, 0), 0, 0));
              path.push_back(ps(a, 2, "AABBCCDD"));
              path.push_back(ps(a, 3, "AABBCCDD"));
            }
            Env env = unknown;
            env.opt.rbds = (p >> 4) & 1;
            Sys s(env, stationView());
            for (const Ev& e : path) {
              w.transitions++;
              if (!s.step(e)) {
                w.failPath(s);
                return;
              }
            }
            w.traces++;
          }
        }
        w.state(hash64("pi", uint64_t(p)));
        w.tick();
      }
    });
  }
  everywhere(r, stationView());
  longRun(r, unknown, stationView());
  r.info("alphabet", "PI in {A,B,C,lost,empty group, C' copy, stream 1}, signal loss; learning histories of two stations");
}
