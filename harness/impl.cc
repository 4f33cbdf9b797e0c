#include "impl.hh"
#include <chrono>
#include <iostream>
#include <sstream>
#include <type_traits>
#include "src/block_sync.hh"
#include "src/channel.hh"
#include "src/groups.hh"
#include "src/io/bitbuffer.hh"
#include "src/options.hh"

namespace {
// One stream serves all channels of a process: only one of them is used at a time, and the text is
// taken after each event.
std::ostringstream& sink() {
  static std::ostringstream s;
  return s;
}
redsea::Options convert(const ImplOpt& o) {
  redsea::Options r;
  r.rbds = o.rbds;
  r.show_partial = o.partial;
  r.show_raw = o.raw;
  r.streams = o.streams;
  r.bler = o.bler;
  r.use_fec = o.fec;
  r.num_channels = o.multichannel ? 2 : 1;
  r.timestamp = o.timestamp;
  r.time_format = o.time_format;
  r.loctable_dirs = o.loctables;
  r.output_type = o.hex_out ? redsea::OutputType::Hex : redsea::OutputType::JSON;
  return r;
}
template <class C>
std::unique_ptr<C> copyOf(const C& c, std::true_type) { return std::make_unique<C>(c); }
template <class C>
std::unique_ptr<C> copyOf(const C&, std::false_type) { return nullptr; }

class RealImpl : public Impl {
 public:
  std::unique_ptr<redsea::Channel> ch;
  std::unique_ptr<Impl> clone() const override {
    auto c = copyOf(*ch, std::is_copy_constructible<redsea::Channel>());
    if (!c) return nullptr;
    auto r = std::make_unique<RealImpl>();
    r->ch = std::move(c);
    return r;
  }
  void group(const orc::G& g) override {
    redsea::Group group;
    group.disableOffsets();
    for (auto n : {redsea::BLOCK1, redsea::BLOCK2, redsea::BLOCK3, redsea::BLOCK4}) {
      if (!g.has[n]) continue;
      redsea::Block b;
      b.data = g.b[n];
      b.is_received = true;
      group.setBlock(n, b);
    }
    ch->processGroup(group, size_t(g.stream));
  }
  void bit(bool b, int stream) override { ch->processBit(b, size_t(stream)); }
  void buffer(const std::vector<int> (&bits)[4], long long t, int nstreams) override {
    redsea::BitBuffer buf;
    buf.time_received = std::chrono::time_point<std::chrono::system_clock>(
        std::chrono::duration_cast<std::chrono::system_clock::duration>(std::chrono::nanoseconds(t)));
    for (int i = 0; i < 4; i++) buf.bits[i] = bits[i];
    for (int i = 0; i < nstreams; i++) ch->processBits(buf, size_t(i));
  }
  void flush() override { ch->flush(); }
  void resetPI() override { ch->resetPI(); }
  std::string take() override {
    auto& s = sink();
    if (s.tellp() == std::streampos(0)) return {};
    std::string r = s.str();
    s.str("");
    s.clear();
    return r;
  }
};
}  // namespace

std::unique_ptr<Impl> makeImpl(const ImplOpt& o, int pi) {
  auto r = std::make_unique<RealImpl>();
  const auto opt = convert(o);
  // what is said about location tables while they are loaded is not looked at
  std::streambuf* const out = o.loctables.empty() ? nullptr : std::cout.rdbuf(nullptr);
  if (pi < 0)
    r->ch = std::make_unique<redsea::Channel>(opt, o.channel, sink());
  else
    r->ch = std::make_unique<redsea::Channel>(opt, sink(), std::uint16_t(pi));
  if (out) {
    std::cout.rdbuf(out);
    std::cout.clear();
  }
  return r;
}
