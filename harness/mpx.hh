// Synthesised FM multiplex signals carrying RDS subcarriers.
#pragma once
#include <array>
#include <cstdint>
#include <string>
#include <vector>
namespace mpx {
struct Sig {
  double fs = 171000;
  double level = 0.03;      // amplitude of each RDS subcarrier, full scale = 1
  double phase = 0;         // carrier phase (radians)
  double bit_phase = 0;     // start of the first bit, in bits
  double ppm = 0;           // error of the receiver's sample clock
  double pilot = 0.09;      // 19 kHz
  double audio = 0.2;       // programme at 1 kHz (mono) and a stereo component
  double noise = 0;         // deterministic pseudo-noise
  double lead = 0;          // seconds without subcarrier before the first bit
  double tail = 0.02;       // seconds after the last bit
  uint32_t noise_seed = 1;
};
// bits[k]: data bits of stream k (empty: subcarrier absent)
std::vector<int16_t> synth(const Sig& s, const std::array<std::string, 4>& bits);
std::string bytes(const std::vector<int16_t>& v);
// a sound file; kind: 0 16 bits, 1 24 bits, 2 32 bits, 3 float
std::string wav(const std::vector<int16_t>& v, uint32_t rate, int ch, int kind);
std::vector<int16_t> interleave(const std::vector<std::vector<int16_t>>& ch);
}
