// Exploration engine: explicit enumeration of executions of the real decoder, each compared step by
// step with the reference decoder.
#pragma once
#include <functional>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include "impl.hh"
#include "oracle.hh"

using orc::G;
using orc::json;
using orc::u16;
using orc::u32;
using orc::u8;

uint64_t hash64(const std::string& s, uint64_t seed = 1469598103934665603ull);

// ------------------------------------------------------------------ events
struct Ev {
  char kind = 'g';   // g: group, b: bits, f: flush, e: encoded group sent as bits, r: PI search restarted after loss of signal
  G g;
  std::string bits;  // for kind b ('0'/'1'), stream in g.stream
  std::string text() const;
  static Ev parse(const std::string& line);
};
inline Ev evGroup(const G& g) { Ev e; e.g = g; return e; }
G mk(int b1, int b2, int b3, int b4, int stream = 0);  // negative: lost block
inline Ev ev(int b1, int b2, int b3, int b4, int stream = 0) { return evGroup(mk(b1, b2, b3, b4, stream)); }
inline Ev evReset() { Ev e; e.kind = 'r'; return e; }
inline Ev evFlush() { Ev e; e.kind = 'f'; return e; }
inline Ev asBits(Ev e) { e.kind = 'e'; return e; }
Ev lose(Ev e, int block);  // 0..3
std::string groupBits(const G& g);      // 104 bits, proper checkwords (C' for version B); lost blocks damaged

// ------------------------------------------------------------------ projection: which part of a line a check owns
using Project = std::function<json(const json* line)>;  // nullptr: nothing printed
Project fields(std::vector<std::string> paths);          // "ps", "tmc/service_provider"
Project allFields(bool with_presence = true);            // everything but debug

// ------------------------------------------------------------------ one system: model + implementation
struct Env {  // configuration of one system
  ImplOpt opt;
  int pi = 0x22F8;  // <0: unknown
  bool with_bits = false;
  const std::map<int, orc::LocTable>* tables = nullptr;
  const std::map<int, orc::Key>* keys = nullptr;
  std::string text() const;
  static Env parse(const std::string& line);
};
struct Worker;
struct Sys {
  Env env;
  Project project;
  orc::Oracle model;
  std::array<orc::BitSync, 4> sync;
  std::unique_ptr<Impl> impl;
  std::vector<Ev> path;
  std::string why;         // filled by a failing step
  std::string last_line;   // last projected expectation (for samples)
  Sys(const Env& e, const Project& p);
  Sys clone(bool by_replay) const;
  bool step(const Ev& e);  // false: mismatch
  std::string key() const;
 private:
  Sys() = default;
  bool check(const std::optional<json>& want, const std::string& got);
  bool checkHex(const G& g, bool printed, const std::string& got);
  bool expect(const G& g);
};

// ------------------------------------------------------------------ run context
struct Shared;
struct Worker {
  struct Run* run = nullptr;
  int id = 0;
  uint64_t transitions = 0, traces = 0, evals = 0;
  std::vector<uint64_t> states, outcomes;
  std::vector<std::string> samples;
  bool stop() const;
  void tick();  // progress for the watchdog
  void state(uint64_t h);
  void outcome(uint64_t h);
  void sample(const std::string& s);
  // report a violation; replay text is written to a file
  void fail(const std::string& why, const std::string& replay);
  // report a failing path of a system after confirming it on a fresh system in a fresh process
  bool failPath(const Sys& s);
  bool by_replay = false;
};

struct Run {
  std::string id;
  bool thorough = false;
  int nworkers = 8;
  double time_cap = 600;
  std::string outdir;  // where replays go
  // totals
  uint64_t transitions = 0, traces = 0, evals = 0, nstates = 0, noutcomes = 0, unconfirmed = 0;
  std::vector<std::string> samples;
  std::vector<std::pair<std::string, std::string>> violations;  // why, replay path
  std::vector<std::string> known;
  json notes = json::object();
  bool capped = false;
  std::vector<std::string> phases;
  // runs fn for every item in [0, n) over forked workers
  void parallel(const std::string& phase, size_t n, const std::function<void(size_t, Worker&)>& fn);
  void info(const std::string& k, const json& v) { notes[k] = v; }
  bool failed() const { return !violations.empty(); }
};

// ------------------------------------------------------------------ explorers
struct Choice {
  std::vector<Ev> evs;
  int cost = 0;
  int next = 0;  // next cursor
};
struct Scenario {
  std::string name;
  Env env;
  Project project;
  std::vector<Ev> prelude;
  // choices available at a cursor position with some budget left; empty: end of trace
  std::function<std::vector<Choice>(int pos, int depth)> next;
  int budget = 0;
  int max_depth = 1 << 20;
  bool merge = false;  // prune by model state + last events
  int merge_tail = 2;
  std::function<bool(const Sys&, const Ev&)> allowed;  // false: event not generated in this state
};
void explore(Run& r, const std::vector<Scenario>& sc);
// all sequences over a fixed alphabet up to a depth
Scenario sequences(const std::string& name, const Env& env, const Project& p, std::vector<Ev> prelude, std::vector<Ev> alphabet, int depth, bool merge = false);
// a base history with up to `budget` deviations out of: dropped event, lost block, repeated event,
// jump to another position, or one of the alternatives inserted / substituted
struct DevOps {
  bool drop = true, lose = true, repeat = true;
  std::vector<int> jumps;           // positions one may jump to
  std::vector<Ev> inserts;          // events that may be inserted before any event
  std::vector<int> lose_blocks{0, 1, 2, 3};
  std::vector<int> lose_masks;      // several blocks at once: bit b for block b
};
Scenario deviations(const std::string& name, const Env& env, const Project& p, std::vector<Ev> prelude, std::vector<Ev> base, DevOps ops, int budget);

// ------------------------------------------------------------------ command line program
struct CliResult {
  int status = 0;     // exit code, or 128+signal
  bool timeout = false;
  std::string out, err;
};
struct CliOpt {
  std::vector<std::pair<std::string, std::string>> env;
  std::string cwd;
  int timeout_s = 20;
  bool pipe_in = false;         // deliver stdin through a pipe (else a file)
  std::vector<size_t> pieces;   // pipe: sizes of successive writes (rest in one)
  int gap_ms = 0;               // pipe: pause after a piece has been read
  std::vector<long long>* written = nullptr;  // pipe: when each piece was written (system clock, ns)
};
CliResult runCli(const std::vector<std::string>& args, const std::string& in, const CliOpt& o = {});
// A run whose input stays open: piece after piece is written, and after each one `ready` is asked about
// what has been printed so far (of the chosen sink, 1 or 2), until it says yes or time is up.
struct LiveResult {
  int status = 0;
  bool late = false;     // something was not printed in time
  size_t piece = 0;      // ... after this piece
  std::string at_piece;  // ... but only this
  std::string out;       // everything printed by the end
};
LiveResult runLive(const std::vector<std::string>& args, const std::vector<std::string>& pieces, int sink, const std::function<bool(size_t, const std::string&)>& ready, double patience_s = 10);
std::string cliReplay(const std::vector<std::string>& args, const std::string& in, const std::string& note);
// what fn returns when it runs in a process of its own (forked from this one)
std::string inFreshProcess(const std::function<std::string()>& fn);
std::vector<std::string> splitLines(const std::string& s);

// ------------------------------------------------------------------ registry
using CheckFn = void (*)(Run&);
struct Registrar { Registrar(const char* id, CheckFn f); };
#define CHECK(ID) static void check_##ID(Run& r); static Registrar reg_##ID(#ID, check_##ID); static void check_##ID(Run& r)
