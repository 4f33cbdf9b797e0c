// Thin wrapper around the decoder under test. Everything the explorers need of it is here; only
// impl.cc includes the decoder's headers, and it uses nothing but what the decoder's own tests and
// command line program use.
#pragma once
#include <memory>
#include <string>
#include <vector>
#include "oracle.hh"

struct ImplOpt : orc::Opt {
  bool hex_out = false;
  bool timestamp = false;
  std::string time_format;
  std::vector<std::string> loctables;
};

class Impl {
 public:
  virtual ~Impl() = default;
  // nullptr if this build's Channel cannot be copied
  virtual std::unique_ptr<Impl> clone() const = 0;
  virtual void group(const orc::G& g) = 0;
  virtual void bit(bool b, int stream) = 0;
  // a whole buffer per stream, received at the given time (ns since the epoch)
  virtual void buffer(const std::vector<int> (&bits)[4], long long time_ns, int nstreams) = 0;
  virtual void flush() = 0;
  virtual void resetPI() = 0;
  // everything printed since the last call
  virtual std::string take() = 0;
};
// pi < 0: station unknown
std::unique_ptr<Impl> makeImpl(const ImplOpt& o, int pi);
