#include "mpx.hh"
#include <cmath>
#include <cstring>
namespace mpx {
namespace {
const double kT = 1.0 / 1187.5;
constexpr int kRes = 512;   // table points per bit
constexpr int kSpan = 4;    // bits to each side
std::vector<float> biphase() {
  // +pulse at a quarter bit, -pulse at three quarters, each cosine shaped (IEC 62106: 100 % roll-off)
  auto g = [](double t) {
    const double B = 2 * 1187.5, x = 4 * B * t;
    if (std::fabs(1 - x * x) < 1e-9) return M_PI / 4;
    return std::cos(2 * M_PI * B * t) / (1 - x * x);
  };
  std::vector<float> v(size_t(2 * kSpan * kRes) + 2);
  for (size_t i = 0; i < v.size(); i++) {
    const double t = (double(i) / kRes - kSpan) * kT;
    v[i] = float(g(t - 0.25 * kT) - g(t - 0.75 * kT));
  }
  return v;
}
}  // namespace
std::vector<int16_t> synth(const Sig& s, const std::array<std::string, 4>& bits) {
  static const std::vector<float> P = biphase();
  static const double carrier[4] = {57000, 66500, 71250, 76000};
  size_t nb = 0;
  std::array<std::vector<float>, 4> a;
  for (int k = 0; k < 4; k++) {
    int d = 0;
    for (char c : bits[size_t(k)]) {
      d ^= c == '1';
      a[size_t(k)].push_back(d ? 1.f : -1.f);
    }
    nb = std::max(nb, bits[size_t(k)].size());
  }
  const double fs = s.fs * (1 + s.ppm * 1e-6);
  const double len = s.lead + double(nb) * kT + s.bit_phase * kT + s.tail;
  const size_t n = size_t(len * s.fs);
  std::vector<int16_t> out(n);
  uint32_t rng = s.noise_seed * 2654435761u + 1;
  for (size_t i = 0; i < n; i++) {
    const double t = double(i) / fs;
    double x = 0;
    if (s.pilot != 0) x += s.pilot * std::sin(2 * M_PI * 19000 * t);
    if (s.audio != 0) x += s.audio * (std::sin(2 * M_PI * 1000 * t) + 0.5 * std::sin(2 * M_PI * 400 * t) * std::sin(2 * M_PI * 38000 * t));
    for (int k = 0; k < 4; k++) {
      const auto& b = a[size_t(k)];
      if (b.empty()) continue;
      const double u = (t - s.lead) / kT - s.bit_phase;
      const long c = long(std::floor(u));
      if (c < -kSpan || c > long(b.size()) + kSpan) continue;
      float y = 0;
      for (long m = c - kSpan + 1; m < c + kSpan; m++) {
        if (m < 0 || m >= long(b.size())) continue;
        const double idx = (u - double(m) + kSpan) * kRes;
        if (idx < 0 || idx >= 2 * kSpan * kRes) continue;
        y += b[size_t(m)] * P[size_t(idx)];
      }
      if (y != 0) x += s.level * y * std::cos(2 * M_PI * carrier[k] * t + s.phase);
    }
    if (s.noise != 0) {
      rng = rng * 1664525u + 1013904223u;
      const double n1 = double(rng >> 8) / 16777216.0 - 0.5;
      rng = rng * 1664525u + 1013904223u;
      const double n2 = double(rng >> 8) / 16777216.0 - 0.5;
      x += s.noise * (n1 + n2) * 2.45;  // about the given rms
    }
    x = std::lround(x * 32768);
    out[i] = int16_t(x > 32767 ? 32767 : x < -32768 ? -32768 : x);
  }
  return out;
}
std::string bytes(const std::vector<int16_t>& v) {
  std::string s(v.size() * 2, 0);
  for (size_t i = 0; i < v.size(); i++) {
    s[2 * i] = char(uint16_t(v[i]) & 255);
    s[2 * i + 1] = char(uint16_t(v[i]) >> 8);
  }
  return s;
}
std::vector<int16_t> interleave(const std::vector<std::vector<int16_t>>& ch) {
  size_t n = 0;
  for (auto& c : ch) n = std::max(n, c.size());
  std::vector<int16_t> v(n * ch.size());
  for (size_t k = 0; k < ch.size(); k++)
    for (size_t i = 0; i < ch[k].size(); i++) v[i * ch.size() + k] = ch[k][i];
  return v;
}
static std::string le(uint32_t v, int n) {
  std::string s;
  for (int i = 0; i < n; i++) s += char(v >> (8 * i) & 255);
  return s;
}
std::string wav(const std::vector<int16_t>& v, uint32_t rate, int ch, int kind) {
  const int bytes = kind == 0 ? 2 : kind == 1 ? 3 : 4;
  std::string d;
  for (auto x : v) {
    if (kind == 0) d += le(uint16_t(x), 2);
    if (kind == 1) d += le(uint32_t(x) << 8, 3);
    if (kind == 2) d += le(uint32_t(x) << 16, 4);
    if (kind == 3) {
      float f = float(x) / 32768.f;
      uint32_t u;
      memcpy(&u, &f, 4);
      d += le(u, 4);
    }
  }
  return "RIFF" + le(uint32_t(36 + d.size()), 4) + "WAVEfmt " + le(16, 4) + le(kind == 3 ? 3 : 1, 2) + le(uint32_t(ch), 2) + le(rate, 4) + le(rate * uint32_t(bytes * ch), 4) + le(uint32_t(bytes * ch), 2) + le(uint32_t(8 * bytes), 2) + "data" + le(uint32_t(d.size()), 4) + d;
}
}  // namespace mpx
