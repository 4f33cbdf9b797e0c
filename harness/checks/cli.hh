// Histories run through the whole program as one hex input, compared line by line with the reference
// decoder. Several histories share a run: each starts with a new station, which forgets the one before.
#pragma once
#include <sys/stat.h>
#include <unistd.h>
#include <fstream>
#include "common.hh"
namespace drv {
inline std::string hexText(const G& g) {
  return (g.stream ? "#S" + std::to_string(g.stream) + " " : "") + orc::hexLine(g) + "\n";
}
struct CliBatch {
  std::vector<std::string> args;
  CliOpt co;
  Project P;
  orc::Oracle model;
  std::string text;
  std::vector<std::pair<std::string, size_t>> want;  // projected line, offset of its history in text
  std::vector<uint64_t> seen;
  std::vector<std::string> infos;  // what is to be said about the location tables, if it matters
  size_t start = 0;
  uint64_t groups = 0;
  int pi = 0x1000;
  CliBatch(std::vector<std::string> a, const orc::Opt& o, Project p, const std::map<int, orc::LocTable>* t = nullptr, const std::map<int, orc::Key>* k = nullptr)
      : args(std::move(a)), P(std::move(p)), model(o, t, k) {}
  static std::string dump(const json& j) { return j.dump(-1, ' ', false, json::error_handler_t::replace); }
  void add(const G& g) {
    text += hexText(g);
    groups++;
    auto j = model.step(g);
    seen.push_back(hash64(model.key()));
    if (j) want.push_back({dump(P(&*j)), start});
  }
  // a fresh station
  void fresh() {
    start = text.size();
    pi = pi == 0x1000 ? 0x2FED : 0x1000;
    for (int i = 0; i < 3; i++) add(mk(pi, 0x7000, 0, 0));
  }
  void addAt(const Ev& e) { add(withPI(e, pi).g); }
  bool run(Worker& w) {
    w.tick();
    const auto c = runCli(args, text, co);
    w.tick();
    w.transitions += groups;
    w.traces++;
    auto bad = [&](const std::string& why, size_t at) {
      w.fail(why, cliReplay(args, text.substr(at, 4000), "from the start of the failing history"));
      return false;
    };
    if (c.status != 0) return bad("exit status " + std::to_string(c.status) + (c.timeout ? " (timeout)" : "") + " " + c.err.substr(0, 500), 0);
    std::vector<std::string> lines, said;
    for (auto& l : splitLines(c.out)) (l.compare(0, 22, "{\"location_table_info\"") != 0 ? lines : said).push_back(l);
    for (size_t i = 0; !infos.empty() && (i < said.size() || i < infos.size()); i++) {
      if (i >= said.size()) return bad("a loaded location table is not announced: " + infos[i], 0);
      const json j = json::parse(said[i], nullptr, false);
      if (i >= infos.size() || j.is_discarded() || dump(j) != infos[i]) return bad("wrong announcement of a location table: " + said[i] + (i < infos.size() ? ", expected " + infos[i] : ""), 0);
    }
    for (size_t i = 0; i < lines.size() || i < want.size(); i++) {
      if (i >= want.size()) return bad("unexpected line " + lines[i], 0);
      if (i >= lines.size()) return bad("missing line " + want[i].first, want[i].second);
      json j = json::parse(lines[i], nullptr, false);
      if (!j.is_object()) return bad("not a JSON object: " + lines[i], want[i].second);
      const std::string got = dump(P(&j));
      if (got != want[i].first) return bad("line " + std::to_string(i) + ": expected " + want[i].first + " but got " + got, want[i].second);
      w.outcome(hash64(got));
    }
    for (auto h : seen) w.state(h);
    w.evals += lines.size();
    return true;
  }
};
// Runs the program on `in` and compares with the reference decoder fed with `groups`.
inline std::string cliExpect(Worker& w, const std::vector<std::string>& args, const std::string& in, const std::vector<G>& groups, const orc::Opt& o, bool hex, const Project& P, const CliOpt& co = {}, bool to_stderr = false) {
  const auto c = runCli(args, in, co);
  w.tick();
  w.transitions += groups.size();
  w.traces++;
  if (c.status != 0) return "exit status " + std::to_string(c.status) + (c.timeout ? " (timeout)" : "") + " " + c.err.substr(0, 500);
  std::vector<std::string> want;
  orc::Oracle model(o);
  for (auto& g : groups) {
    if (hex) {
      if (!g.empty()) {
        std::string t = hexText(g);
        t.pop_back();
        want.push_back(t);
        w.state(hash64(t, 5));
      }
      continue;
    }
    auto j = model.step(g);
    w.state(hash64(model.key()));
    if (j) want.push_back(CliBatch::dump(P(&*j)));
  }
  const auto lines = splitLines(to_stderr ? c.err : c.out);
  for (size_t i = 0; i < lines.size() || i < want.size(); i++) {
    if (i >= want.size()) return "unexpected line " + lines[i];
    if (i >= lines.size()) return "missing line " + want[i];
    std::string got = lines[i];
    if (!hex) {
      json j = json::parse(lines[i], nullptr, false);
      if (!j.is_object()) return "not a JSON object: " + lines[i];
      got = CliBatch::dump(P(&j));
    }
    if (got != want[i]) return "line " + std::to_string(i) + ": expected " + want[i] + " but got " + got;
    w.outcome(hash64(got));
  }
  w.evals += lines.size();
  return "";
}
inline void writeFile(const std::string& path, const std::string& s) { std::ofstream(path, std::ios::binary) << s; }
}  // namespace drv
