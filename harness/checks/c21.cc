#include "common.hh"
using namespace drv;
CHECK(C21) {
  const Project P = fields({"bler"});
  Env h;
  h.opt.bler = true;
  Env b = h;
  b.with_bits = true;
  Env bn = b;
  bn.opt.fec = false;
  Env un = h;
  un.pi = -1;
  const Ev full = ev(kPI, blk2(1, false, 0), 0, 0);
  std::vector<Ev> by{full, lose(full, 3), lose(lose(full, 3), 2), lose(lose(lose(full, 3), 2), 1), ev(-1, -1, -1, -1)};
  std::vector<Scenario> sc;
  sc.push_back(sequences("error counts from the start", h, P, {}, by, r.thorough ? 10 : 8));
  sc.push_back(sequences("errors before the station is known", un, P, {}, {by[0], by[2], by[4]}, r.thorough ? 11 : 9));
  sc.push_back(sequences("upper streams", h, P, {}, {by[0], by[1], ev(0x1111, 0x0000, 0x1234, 0x5678, 1), lose(ev(0x1111, 0x0000, 0x1234, 0x5678, 2), 2), ev(-1, -1, -1, -1, 3)}, r.thorough ? 8 : 6));
  // runs around the window length: a groups with x errors, b with y, c with z
  {
    Scenario s;
    s.name = "runs around the window length";
    s.env = h;
    s.project = P;
    s.budget = r.thorough ? 4 : 3;  // changes of the error count
    s.max_depth = 34;
    s.next = [by](int pos, int) {
      std::vector<Choice> c;
      for (int k = 0; k < 4; k++) c.push_back({{by[size_t(k)]}, k == pos ? 0 : 1, k});
      return c;
    };
    sc.push_back(s);
  }
  // bits: corrected errors count like uncorrected ones
  {
    auto g = [&](u32 e1, u32 e2, u32 e3, u32 e4) {
      Ev x;
      x.kind = 'b';
      const u32 e[4] = {e1, e2, e3, e4};
      for (int i = 0; i < 4; i++) {
        const u32 w = orc::encodeBlock(full.g.b[size_t(i)], i == 3 ? 4 : i) ^ e[i];
        for (int k = 25; k >= 0; k--) x.bits += char('0' + ((w >> k) & 1));
      }
      return x;
    };
    const u32 bad = 0x0A5A5A0, one = 0x0010000, two = 0x0000300;
    std::vector<Ev> al{g(0, 0, 0, 0), g(0, one, 0, 0), g(0, 0, two, bad), g(0, bad, bad, one), g(one, one, two, two), g(bad, 0, 0, 0), g(bad, bad, bad, bad)};
    sc.push_back(sequences("bits", b, P, {al[0], al[0]}, al, r.thorough ? 6 : 5));
    sc.push_back(sequences("bits without correction", bn, P, {al[0], al[0]}, al, r.thorough ? 6 : 4));
    Scenario s;
    s.name = "bits, runs around the window length";
    s.env = b;
    s.project = P;
    s.budget = 2;
    s.max_depth = 30;
    s.prelude = {al[0], al[0]};
    std::vector<Ev> a4{al[0], al[1], al[2], al[5]};
    s.next = [a4](int pos, int) {
      std::vector<Choice> c;
      for (int k = 0; k < 4; k++) c.push_back({{a4[size_t(k)]}, k == pos ? 0 : 1, k});
      return c;
    };
    sc.push_back(s);
  }
  explore(r, sc);
  longRun(r, h, P);
}
