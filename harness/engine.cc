#include "engine.hh"
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>

int redsea_main(int argc, char** argv);

using Clock = std::chrono::steady_clock;
static const Clock::time_point kStart = Clock::now();
static double elapsed() { return std::chrono::duration<double>(Clock::now() - kStart).count(); }

uint64_t hash64(const std::string& s, uint64_t h) {
  // 8 bytes at a time
  size_t i = 0;
  for (; i + 8 <= s.size(); i += 8) {
    uint64_t w;
    memcpy(&w, s.data() + i, 8);
    h = (h ^ w) * 0x9E3779B97F4A7C15ull;
    h ^= h >> 32;
  }
  for (; i < s.size(); i++) h = (h ^ u8(s[i])) * 1099511628211ull;
  h = (h ^ s.size()) * 0xD6E8FEB86659FD93ull;
  return h ^ (h >> 29);
}

// ------------------------------------------------------------------ events
G mk(int b1, int b2, int b3, int b4, int stream) {
  G g;
  const int v[4] = {b1, b2, b3, b4};
  for (int i = 0; i < 4; i++)
    if (v[i] >= 0) {
      g.has[i] = true;
      g.b[i] = u16(v[i]);
    }
  g.stream = stream;
  return g;
}
Ev lose(Ev e, int block) {
  e.g.has[block] = false;
  e.g.b[block] = 0;
  return e;
}
std::string groupBits(const G& g) {
  std::string s;
  const bool B = g.has[1] && (g.b[1] & 0x800);
  for (int i = 0; i < 4; i++) {
    const int off = i == 0 ? 0 : i == 1 ? 1 : i == 2 ? (B && g.stream == 0 ? 3 : 2) : 4;
    u32 w = orc::encodeBlock(g.b[i], off);
    if (!g.has[i]) w ^= 0x0A5A5A0 & 0x3FFFFFF;
    for (int b = 25; b >= 0; b--) s += char('0' + ((w >> b) & 1));
  }
  return s;
}
std::string Ev::text() const {
  if (kind == 'f') return "f";
  if (kind == 'r') return "r";
  if (kind == 'b') return "b " + std::to_string(g.stream) + " " + bits;
  return std::string(1, kind) + " " + std::to_string(g.stream) + " " + orc::hexLine(g);
}
Ev Ev::parse(const std::string& line) {
  Ev e;
  std::istringstream is(line);
  std::string k;
  is >> k;
  e.kind = k.at(0);
  if (e.kind == 'f' || e.kind == 'r') return e;
  is >> e.g.stream;
  if (e.kind == 'b') {
    is >> e.bits;
    return e;
  }
  for (int i = 0; i < 4; i++) {
    std::string w;
    is >> w;
    if (w != "----") {
      e.g.has[i] = true;
      e.g.b[i] = u16(strtoul(w.c_str(), nullptr, 16));
    }
  }
  return e;
}

// ------------------------------------------------------------------ projections
static const json* dig(const json& j, const std::string& path) {
  const json* p = &j;
  size_t a = 0;
  while (true) {
    const size_t b = path.find('/', a);
    const std::string k = path.substr(a, b == std::string::npos ? b : b - a);
    if (!p->is_object()) return nullptr;
    auto it = p->find(k);
    if (it == p->end()) return nullptr;
    p = &*it;
    if (b == std::string::npos) return p;
    a = b + 1;
  }
}
Project fields(std::vector<std::string> paths) {
  return [paths](const json* line) {
    json r = json::object();
    if (!line) return r;
    for (auto& p : paths)
      if (auto* v = dig(*line, p)) r[p] = *v;
    return r;
  };
}
static void dropDebug(json& j) {
  if (j.is_object()) {
    j.erase("debug");
  }
}
Project allFields(bool presence) {
  return [presence](const json* line) {
    json r = json::object();
    if (!line) return r;
    r = *line;
    const bool was_debug = r.size() == 1 && r.contains("debug");
    dropDebug(r);
    if (presence) r["_line"] = was_debug ? "debug" : "yes";
    return r;
  };
}

// ------------------------------------------------------------------ system
std::string Env::text() const {
  char b[256];
  snprintf(b, sizeof b, "env pi=%d rbds=%d partial=%d raw=%d streams=%d bler=%d fec=%d multi=%d channel=%d hex=%d bits=%d", pi, opt.rbds, opt.partial, opt.raw, opt.streams, opt.bler, opt.fec, opt.multichannel, opt.channel, opt.hex_out, with_bits);
  return b;
}
Env Env::parse(const std::string& line) {
  Env e;
  int v[11] = {0};
  if (sscanf(line.c_str(), "env pi=%d rbds=%d partial=%d raw=%d streams=%d bler=%d fec=%d multi=%d channel=%d hex=%d bits=%d", v, v + 1, v + 2, v + 3, v + 4, v + 5, v + 6, v + 7, v + 8, v + 9, v + 10) != 11) throw std::runtime_error("bad env line");
  e.pi = v[0];
  e.opt.rbds = v[1];
  e.opt.partial = v[2];
  e.opt.raw = v[3];
  e.opt.streams = v[4];
  e.opt.bler = v[5];
  e.opt.fec = v[6];
  e.opt.multichannel = v[7];
  e.opt.channel = v[8];
  e.opt.hex_out = v[9];
  e.with_bits = v[10];
  return e;
}
Sys::Sys(const Env& e, const Project& p) : env(e), project(p), model(e.pi < 0 ? orc::Oracle(e.opt, e.tables, e.keys) : orc::Oracle(e.opt, u16(e.pi), e.tables, e.keys)) {
  for (auto& s : sync) s.fec = e.opt.fec;
  impl = makeImpl(e.opt, e.pi);
  (void)impl->take();
}
Sys Sys::clone(bool by_replay) const {
  if (!by_replay) {
    auto c = impl->clone();
    if (c) {
      Sys s;
      s.env = env;
      s.project = project;
      s.model = model;
      s.sync = sync;
      s.impl = std::move(c);
      s.path = path;
      return s;
    }
  }
  Sys s(env, project);
  for (auto& e : path) s.step(e);
  s.why.clear();
  return s;
}
std::string Sys::key() const {
  std::string k = model.key();
  if (env.with_bits)
    for (auto& s : sync) k += s.key();
  return k;
}
static thread_local std::unordered_map<std::string, json> g_parse_memo;
bool Sys::check(const std::optional<json>& want, const std::string& got) {
  json pw = project(want ? &*want : nullptr);
  json pg;
  if (got.empty()) {
    pg = project(nullptr);
  } else {
    if (got.back() != '\n' || got.find('\n') != got.size() - 1) {
      why = "not exactly one line: " + got;
      return false;
    }
    json j = json::parse(got, nullptr, false);
    if (!j.is_object()) {
      why = "not a JSON object: " + got;
      return false;
    }
    pg = project(&j);
  }
  last_line = pw.dump(-1, ' ', false, json::error_handler_t::replace);
  if (pw != pg) {
    why = "expected " + last_line + " but got " + pg.dump(-1, ' ', false, json::error_handler_t::replace);
    return false;
  }
  return true;
}
bool Sys::checkHex(const G& g, bool printed, const std::string& got) {
  std::string want;
  if (printed && !g.empty()) want = (g.stream ? "#S" + std::to_string(g.stream) + " " : "") + orc::hexLine(g) + "\n";
  last_line = want;
  if (want != got) {
    why = "expected hex '" + want + "' but got '" + got + "'";
    return false;
  }
  return true;
}
bool Sys::expect(const G& g) {
  auto want = model.step(g);
  if (env.opt.hex_out) return checkHex(g, true, impl->take());
  return check(want, impl->take());
}
bool Sys::step(const Ev& e) {
  path.push_back(e);
  switch (e.kind) {
    case 'g': {
      impl->group(e.g);
      return expect(e.g);
    }
    case 'r': {
      impl->resetPI();
      model.pf = orc::PiFilter();
      last_line.clear();
      return true;
    }
    case 'b':
    case 'e': {
      const std::string b = e.kind == 'b' ? e.bits : groupBits(e.g);
      for (char c : b) {
        impl->bit(c == '1', e.g.stream);
        auto g = sync[e.g.stream].push(c == '1');
        if (g) {
          g->stream = e.g.stream;
          if (!expect(*g)) return false;
        } else {
          const std::string out = impl->take();
          if (!out.empty()) {
            why = "unexpected output " + out;
            return false;
          }
        }
      }
      return true;
    }
    case 'f': {
      impl->flush();
      std::string all = impl->take();
      for (int s = 0; s < 4; s++) {
        G g = sync[s].held();
        g.stream = s;
        if (g.empty()) continue;
        std::string line;
        const size_t nl = all.find('\n');
        auto want = model.step(g);
        const bool expect_line = env.opt.hex_out || want.has_value();
        if (expect_line && nl != std::string::npos) {
          line = all.substr(0, nl + 1);
          all = all.substr(nl + 1);
        }
        if (env.opt.hex_out ? !checkHex(g, true, line) : !check(want, line)) return false;
      }
      if (!all.empty()) {
        why = "unexpected output at the end " + all;
        return false;
      }
      return true;
    }
  }
  return true;
}

// ------------------------------------------------------------------ workers
struct Shared {
  std::atomic<uint64_t> next{0};
  std::atomic<int> stop{0};
  std::atomic<int> capped{0};
  std::atomic<uint64_t> unconfirmed{0};
  std::atomic<int> nviol{0};
  struct W {
    std::atomic<uint64_t> item{~0ull};
    std::atomic<uint64_t> ticks{0};
    std::atomic<int> busy{0};
  } w[64];
};
static Shared* g_sh = nullptr;
static int g_log_fd = -1;  // when set, every event is logged before it is executed

bool Worker::stop() const { return g_sh && g_sh->stop.load(std::memory_order_relaxed); }
void Worker::tick() {
  if (!g_sh) return;
  auto& t = g_sh->w[id].ticks;
  t.fetch_add(1, std::memory_order_relaxed);
  if ((transitions & 0xFFF) == 0 && elapsed() > run->time_cap) {
    g_sh->capped = 1;
    g_sh->stop = 1;
  }
}
static void squash(std::vector<uint64_t>& v) {
  std::sort(v.begin(), v.end());
  v.erase(std::unique(v.begin(), v.end()), v.end());
}
void Worker::state(uint64_t h) {
  states.push_back(h);
  if (states.size() >= (1u << 22)) {
    squash(states);
    if (states.size() > (1u << 21)) states.reserve(states.size() * 2);
  }
}
void Worker::outcome(uint64_t h) {
  outcomes.push_back(h);
  if (outcomes.size() >= (1u << 20)) squash(outcomes);
}
void Worker::sample(const std::string& s) {
  if (samples.size() < 3) samples.push_back(s);
}
void Worker::fail(const std::string& why, const std::string& replay) {
  const int n = g_sh ? g_sh->nviol.fetch_add(1) : 0;
  if (n < 8) {
    const std::string base = run->outdir + "/" + run->id + "-" + std::to_string(n);
    std::ofstream f(base + ".replay");
    f << "# property " << run->id << "\n# " << why.substr(0, 3000) << "\n" << replay;
    f.close();
    std::ofstream g(base + ".why");
    g << why;
  }
  if (g_sh) g_sh->stop = 1;
}
// Runs fn in a forked child; returns 0 ok, 1 fn returned false, 2 crashed / hung
static int inChild(const std::function<bool()>& fn, int timeout_s) {
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    alarm(unsigned(timeout_s));
    bool ok = false;
    ok = fn();
    _exit(ok ? 0 : 1);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (WIFEXITED(st) && WEXITSTATUS(st) <= 1) return WEXITSTATUS(st);
  return 2;
}
std::string inFreshProcess(const std::function<std::string()>& fn) {
  int fd[2];
  if (pipe(fd)) throw std::runtime_error("pipe");
  fflush(nullptr);
  const pid_t p = fork();
  if (p < 0) throw std::runtime_error("fork");
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    close(fd[0]);
    alarm(120);
    const std::string t = fn();
    for (size_t off = 0; off < t.size();) {
      const ssize_t n = write(fd[1], t.data() + off, t.size() - off);
      if (n <= 0) _exit(1);
      off += size_t(n);
    }
    _exit(0);
  }
  close(fd[1]);
  std::string t;
  char buf[65536];
  for (;;) {
    const ssize_t n = read(fd[0], buf, sizeof buf);
    if (n < 0 && errno == EINTR) continue;
    if (n <= 0) break;
    t.append(buf, size_t(n));
  }
  close(fd[0]);
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (st) t += "(the decoder ended with status " + std::to_string(st) + ")\x01";
  return t;
}
static bool replayHolds(const Env& env, const Project& pr, const std::vector<Ev>& path) {
  Sys s(env, pr);
  for (auto& e : path)
    if (!s.step(e)) return false;
  return true;
}
static std::string pathText(const Env& env, const std::vector<Ev>& path) {
  std::string t = env.text() + "\n";
  for (auto& e : path) t += e.text() + "\n";
  return t;
}
bool Worker::failPath(const Sys& s) {
  const int r = inChild([&] { return replayHolds(s.env, s.project, s.path); }, 120);
  if (r == 0) {
    if (g_sh) g_sh->unconfirmed++;
    by_replay = true;
    return false;
  }
  // shrink: drop events while it still fails
  std::vector<Ev> p = s.path;
  std::string why = r == 2 ? "the decoder crashed" : s.why;
  const double t0 = elapsed();
  for (size_t chunk = std::max<size_t>(1, p.size() / 2); chunk >= 1; chunk /= 2) {
    for (size_t i = 0; i + chunk <= p.size() && elapsed() - t0 < 20;) {
      std::vector<Ev> q(p.begin(), p.begin() + long(i));
      q.insert(q.end(), p.begin() + long(i + chunk), p.end());
      if (inChild([&] { return replayHolds(s.env, s.project, q); }, 60) == r)
        p = q;
      else
        i += chunk;
    }
    if (chunk == 1) break;
  }
  if (r == 1) {
    Sys z(s.env, s.project);
    for (auto& e : p)
      if (!z.step(e)) break;
    if (!z.why.empty()) why = z.why;
  }
  fail(why, pathText(s.env, p));
  return true;
}

template <class T>
static void writeVec(FILE* f, const std::vector<T>& v) {
  uint64_t n = v.size();
  fwrite(&n, 8, 1, f);
  if (n) fwrite(v.data(), sizeof(T), n, f);
}
template <class T>
static std::vector<T> readVec(FILE* f) {
  uint64_t n = 0;
  std::vector<T> v;
  if (fread(&n, 8, 1, f) != 1) return v;
  v.resize(n);
  if (n && fread(v.data(), sizeof(T), n, f) != n) v.clear();
  return v;
}

static std::vector<uint64_t> g_all_states, g_all_outcomes;

void Run::parallel(const std::string& phase, size_t n, const std::function<void(size_t, Worker&)>& fn) {
  if (failed() || n == 0) return;
  if (const char* only = getenv("VERIF_ONLY_PHASE"); only && phase.find(only) == std::string::npos) return;  // for development
  const double t0 = elapsed();
  if (!g_sh) {
    void* m = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    g_sh = new (m) Shared();
  }
  g_sh->next = 0;
  const int nw = int(std::min<size_t>(size_t(nworkers), n));
  char dir[] = "/tmp/verifwXXXXXX";
  if (!mkdtemp(dir)) throw std::runtime_error("mkdtemp");
  const std::string d = dir;
  std::vector<pid_t> pids(nw);
  const auto spawn = [&](int w) {
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      Worker wk;
      wk.run = this;
      wk.id = w;
      g_sh->w[w].busy = 1;
      while (!wk.stop()) {
        const uint64_t i = g_sh->next.fetch_add(1);
        if (i >= n) break;
        g_sh->w[w].item = i;
        wk.tick();
        fn(i, wk);
        if (elapsed() > time_cap) {
          g_sh->capped = 1;
          g_sh->stop = 1;
        }
      }
      g_sh->w[w].busy = 0;
      squash(wk.states);
      squash(wk.outcomes);
      static int gen = 0;
      FILE* f = fopen((d + "/r" + std::to_string(getpid()) + "_" + std::to_string(gen++)).c_str(), "wb");
      uint64_t c[3] = {wk.transitions, wk.traces, wk.evals};
      fwrite(c, 8, 3, f);
      writeVec(f, wk.states);
      writeVec(f, wk.outcomes);
      std::string s;
      for (auto& x : wk.samples) s += x + '\0';
      writeVec(f, std::vector<char>(s.begin(), s.end()));
      fclose(f);
      _exit(0);
    }
    return p;
  };
  for (int w = 0; w < nw; w++) {
    g_sh->w[w].item = ~0ull;
    pids[w] = spawn(w);
  }
  std::vector<uint64_t> last(nw, 0);
  std::vector<double> since(nw, elapsed());
  int alive = nw;
  std::vector<uint64_t> suspects;
  int crash_signal = 0;
  while (alive > 0) {
    int st = 0;
    const pid_t p = waitpid(-1, &st, WNOHANG);
    if (p > 0) {
      for (int w = 0; w < nw; w++)
        if (pids[w] == p) {
          pids[w] = 0;
          alive--;
          if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
            suspects.push_back(g_sh->w[w].item);
            if (WIFSIGNALED(st)) {
              const int sg = WTERMSIG(st);
              if (sg == SIGSEGV || sg == SIGBUS || sg == SIGABRT || sg == SIGFPE || sg == SIGILL || sg == SIGTRAP) crash_signal = sg;
            }
            g_sh->stop = 1;
          }
        }
      continue;
    }
    usleep(3000);
    for (int w = 0; w < nw; w++)
      if (pids[w]) {
        const uint64_t t = g_sh->w[w].ticks;
        if (t != last[w]) {
          last[w] = t;
          since[w] = elapsed();
        } else if (elapsed() - since[w] > 100) {
          kill(pids[w], SIGKILL);
          since[w] = elapsed() + 1e6;
        }
      }
  }
  // A worker that died or hung: run its item again alone, logging every event before executing it
  for (uint64_t item : suspects) {
    if (item == ~0ull) continue;
    const std::string log = d + "/log";
    const int rc = inChild(
        [&] {
          g_log_fd = open(log.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
          g_sh->stop = 0;
          Worker wk;
          wk.run = this;
          wk.id = 63;
          fn(item, wk);
          return true;
        },
        300);
    if (rc == 2) {
      std::ifstream f(log);
      std::stringstream ss;
      ss << f.rdbuf();
      // keep what follows the last environment line
      std::string t = ss.str();
      const size_t p = t.rfind("env ");
      if (p != std::string::npos) t = t.substr(p);
      Worker wk;
      wk.run = this;
      wk.fail("the decoder crashed or did not return in phase " + phase + " item " + std::to_string(item), t);
    } else if (g_sh->nviol == 0) {
      notes["unreproduced_worker_death"] = phase + " item " + std::to_string(item);
      if (crash_signal) {
        // memory was damaged by an earlier execution in the same process
        Worker wk;
        wk.run = this;
        wk.fail("the decoder crashed with signal " + std::to_string(crash_signal) + " in phase " + phase + " at item " + std::to_string(item) + " after executing the earlier items", "# phase " + phase + " item " + std::to_string(item) + "\n");
        continue;
      }
      throw std::runtime_error("a worker died but the item does not fail alone: " + phase + " " + std::to_string(item));
    }
  }
  for (auto& e : std::vector<std::string>{d}) {
    (void)e;
    std::string cmd;
    FILE* ls = popen(("ls " + d).c_str(), "r");
    char name[256];
    while (fgets(name, sizeof name, ls)) {
      std::string f = name;
      while (!f.empty() && f.back() == '\n') f.pop_back();
      if (f[0] == 'r') {
        FILE* fp = fopen((d + "/" + f).c_str(), "rb");
        uint64_t c[3] = {0, 0, 0};
        if (fread(c, 8, 3, fp) == 3) {
          transitions += c[0];
          traces += c[1];
          evals += c[2];
        }
        auto s = readVec<uint64_t>(fp);
        g_all_states.insert(g_all_states.end(), s.begin(), s.end());
        auto o = readVec<uint64_t>(fp);
        g_all_outcomes.insert(g_all_outcomes.end(), o.begin(), o.end());
        auto t = readVec<char>(fp);
        std::string cur;
        for (char ch : t) {
          if (ch == 0) {
            if (samples.size() < 12) samples.push_back(phase + ": " + cur);
            cur.clear();
          } else {
            cur += ch;
          }
        }
        fclose(fp);
      }
      unlink((d + "/" + f).c_str());
    }
    pclose(ls);
  }
  rmdir(dir);
  squash(g_all_states);
  squash(g_all_outcomes);
  nstates = g_all_states.size();
  noutcomes = g_all_outcomes.size();
  unconfirmed = g_sh->unconfirmed;
  capped = capped || g_sh->capped;
  for (int i = 0; i < std::min(8, int(g_sh->nviol)); i++) {
    const std::string base = outdir + "/" + id + "-" + std::to_string(i);
    std::ifstream f(base + ".why");
    std::stringstream ss;
    ss << f.rdbuf();
    violations.push_back({ss.str(), base + ".replay"});
  }
  char b[300];
  snprintf(b, sizeof b, "%s: items=%zu transitions(total)=%llu states(total)=%llu %.1fs", phase.c_str(), n, (unsigned long long)transitions, (unsigned long long)nstates, elapsed() - t0);
  phases.push_back(b);
  fprintf(stderr, "  %s\n", b);
}

// ------------------------------------------------------------------ tree exploration
namespace {
struct TreeItem {
  size_t sc;
  std::vector<int> prefix;
};
struct Dfs {
  const Scenario& sc;
  Worker& w;
  std::unordered_map<uint64_t, int> seen;
  std::vector<uint64_t> tail;

  bool apply(Sys& s, const Choice& c) {  // false: pruned / failed
    for (auto& e : c.evs) {
      if (sc.allowed && !sc.allowed(s, e)) return false;
      if (g_log_fd >= 0) {
        const std::string t = e.text() + "\n";
        (void)!write(g_log_fd, t.data(), t.size());
      }
      w.transitions++;
      w.tick();
      if (!s.step(e)) {
        w.failPath(s);
        return false;
      }
      w.outcome(hash64(s.last_line));
      w.state(hash64(s.key()));
    }
    return true;
  }
  void go(Sys& s, int pos, int depth, int budget) {
    if (w.stop()) return;
    std::vector<Choice> all;
    if (depth < sc.max_depth) all = sc.next(pos, depth);
    std::vector<const Choice*> ch;
    for (auto& c : all)
      if (c.cost <= budget) ch.push_back(&c);
    if (ch.empty()) {
      w.traces++;
      if (w.samples.size() < 2 && w.traces % 97 == 1) {
        std::string t = sc.name + ":";
        for (size_t i = 0; i < s.path.size() && i < 24; i++) t += " | " + s.path[i].text().substr(0, 60);
        t += " => " + s.last_line.substr(0, 200);
        w.sample(t);
      }
      return;
    }
    if (sc.merge) {
      uint64_t k = hash64(s.key(), uint64_t(pos) * 1000003u + uint64_t(budget));
      const size_t n = s.path.size();
      for (size_t i = n > size_t(sc.merge_tail) ? n - size_t(sc.merge_tail) : 0; i < n; i++) k = hash64(s.path[i].text(), k);
      const int left = sc.max_depth - depth;
      auto it = seen.find(k);
      if (it != seen.end() && it->second >= left) {
        w.traces++;
        return;
      }
      seen[k] = left;
    }
    for (size_t i = 0; i < ch.size(); i++) {
      if (w.stop()) return;
      if (i + 1 == ch.size()) {
        // last child may consume the node
        if (!apply(s, *ch[i])) {
          w.traces++;
          return;
        }
        return go(s, ch[i]->next, depth + 1, budget - ch[i]->cost);
      }
      Sys c = s.clone(w.by_replay);
      if (g_log_fd >= 0) {
        std::string t = pathText(c.env, c.path);
        (void)!write(g_log_fd, t.data(), t.size());
      }
      if (apply(c, *ch[i]))
        go(c, ch[i]->next, depth + 1, budget - ch[i]->cost);
      else
        w.traces++;
    }
  }
};
}  // namespace

void explore(Run& r, const std::vector<Scenario>& scs) {
  std::vector<TreeItem> items;
  for (size_t k = 0; k < scs.size(); k++) {
    const Scenario& sc = scs[k];
    // expand prefixes until there is enough to share out
    struct P { std::vector<int> pre; int pos, depth, budget; bool leaf; };
    std::vector<P> front{{{}, 0, 0, sc.budget, false}};
    const size_t want = sc.merge ? 8 : 64;
    for (int round = 0; round < 400; round++) {
      size_t open = 0;
      for (auto& p : front) open += !p.leaf;
      if (front.size() >= want || open == 0) break;
      std::vector<P> nf;
      for (auto& p : front) {
        if (p.leaf) {
          nf.push_back(p);
          continue;
        }
        std::vector<Choice> ch;
        if (p.depth < sc.max_depth) ch = sc.next(p.pos, p.depth);
        int n = 0;
        for (auto& c : ch)
          if (c.cost <= p.budget) {
            P q = p;
            q.pre.push_back(n++);
            q.pos = c.next;
            q.depth++;
            q.budget -= c.cost;
            nf.push_back(q);
          }
        if (n == 0) {
          p.leaf = true;
          nf.push_back(p);
        }
      }
      front = nf;
    }
    for (auto& p : front) items.push_back({k, p.pre});
  }
  // interleave so that expensive subtrees do not end up last
  std::string name = scs.size() == 1 ? scs[0].name : scs[0].name + " (+" + std::to_string(scs.size() - 1) + " more scenarios)";
  r.parallel(name, items.size(), [&](size_t i, Worker& w) {
    const TreeItem& it = items[(i * 7919) % items.size() == 0 && i ? i : i];
    const Scenario& sc = scs[it.sc];
    Dfs d{sc, w, {}, {}};
    if (g_log_fd >= 0) {
      const std::string t = sc.env.text() + "\n";
      (void)!write(g_log_fd, t.data(), t.size());
    }
    Sys s(sc.env, sc.project);
    Choice pre;
    pre.evs = sc.prelude;
    if (!d.apply(s, pre)) return;
    int pos = 0, depth = 0, budget = sc.budget;
    for (int c : it.prefix) {
      auto all = sc.next(pos, depth);
      const Choice* pick = nullptr;
      int n = 0;
      for (auto& x : all)
        if (x.cost <= budget && n++ == c) pick = &x;
      if (!d.apply(s, *pick)) {
        w.traces++;
        return;
      }
      pos = pick->next;
      depth++;
      budget -= pick->cost;
    }
    d.go(s, pos, depth, budget);
  });
}
Scenario sequences(const std::string& name, const Env& env, const Project& p, std::vector<Ev> prelude, std::vector<Ev> alphabet, int depth, bool merge) {
  Scenario s;
  s.name = name;
  s.env = env;
  s.project = p;
  s.prelude = std::move(prelude);
  s.max_depth = depth;
  s.merge = merge;
  s.next = [alphabet](int, int) {
    std::vector<Choice> c;
    for (auto& e : alphabet) c.push_back({{e}, 0, 0});
    return c;
  };
  return s;
}
Scenario deviations(const std::string& name, const Env& env, const Project& p, std::vector<Ev> prelude, std::vector<Ev> base, DevOps ops, int budget) {
  Scenario s;
  s.name = name;
  s.env = env;
  s.project = p;
  s.prelude = std::move(prelude);
  s.budget = budget;
  s.next = [base, ops](int pos, int) {
    std::vector<Choice> c;
    if (pos >= int(base.size())) return c;
    const Ev& e = base[size_t(pos)];
    c.push_back({{e}, 0, pos + 1});
    if (ops.drop) c.push_back({{}, 1, pos + 1});
    if (ops.repeat) c.push_back({{e, e}, 1, pos + 1});
    if (ops.lose && e.kind == 'g')
      for (int b : ops.lose_blocks)
        if (e.g.has[size_t(b)]) c.push_back({{lose(e, b)}, 1, pos + 1});
    if (ops.lose && e.kind == 'g')
      for (int m : ops.lose_masks) {
        Ev x = e;
        for (int b = 0; b < 4; b++)
          if (m >> b & 1) x = lose(x, b);
        c.push_back({{x}, 1, pos + 1});
      }
    for (int j : ops.jumps)
      if (j != pos && j != pos + 1) c.push_back({{e}, 1, j});
    for (auto& x : ops.inserts) c.push_back({{x, e}, 1, pos + 1});
    return c;
  };
  return s;
}

// ------------------------------------------------------------------ command line
std::vector<std::string> splitLines(const std::string& s) {
  std::vector<std::string> v;
  size_t a = 0;
  while (a < s.size()) {
    size_t b = s.find('\n', a);
    if (b == std::string::npos) {
      v.push_back(s.substr(a));
      break;
    }
    v.push_back(s.substr(a, b - a));
    a = b + 1;
  }
  return v;
}
static std::string slurpFd(int fd) {
  std::string s;
  lseek(fd, 0, SEEK_SET);
  char buf[65536];
  ssize_t n;
  while ((n = read(fd, buf, sizeof buf)) > 0) s.append(buf, size_t(n));
  return s;
}
CliResult runCli(const std::vector<std::string>& args, const std::string& in, const CliOpt& o) {
  CliResult r;
  const int out = memfd_create("out", 0), err = memfd_create("err", 0);
  int infd = -1, pfd[2] = {-1, -1};
  if (o.pipe_in) {
    if (pipe(pfd)) throw std::runtime_error("pipe");
    infd = pfd[0];
  } else {
    infd = memfd_create("in", 0);
    for (size_t off = 0; off < in.size();) {
      const ssize_t n = write(infd, in.data() + off, in.size() - off);
      if (n <= 0) break;
      off += size_t(n);
    }
    lseek(infd, 0, SEEK_SET);
  }
  fflush(nullptr);
  const pid_t p = fork();
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    struct rlimit rl {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    dup2(infd, 0);
    dup2(out, 1);
    dup2(err, 2);
    if (o.pipe_in) {
      close(pfd[0]);
      close(pfd[1]);
    }
    for (auto& e : o.env) setenv(e.first.c_str(), e.second.c_str(), 1);
    if (!o.cwd.empty() && chdir(o.cwd.c_str())) _exit(125);
    alarm(unsigned(o.timeout_s));
    std::vector<std::string> a{"redsea"};
    a.insert(a.end(), args.begin(), args.end());
    std::vector<char*> v;
    for (auto& x : a) v.push_back(&x[0]);
    v.push_back(nullptr);
    int rc = 124;
    errno = 0;
    rc = redsea_main(int(a.size()), v.data());
    exit(rc);
  }
  int st = 0;
  bool reaped = false;
  if (o.pipe_in) {
    // a piece is only written when the one before has been read; the read end is kept open to see that
    fcntl(pfd[1], F_SETFL, O_NONBLOCK);
    size_t off = 0, k = 0;
    int spin = 0;
    auto pause = [&] {
      if (waitpid(p, &st, WNOHANG) == p) reaped = true;
      else if (++spin > 20) usleep(20);
    };
    while (off < in.size() && !reaped) {
      size_t want = k < o.pieces.size() ? o.pieces[k] : in.size() - off;
      want = std::min(want, in.size() - off);
      if (o.written) {
        struct timespec ts;
        clock_gettime(CLOCK_REALTIME, &ts);
        o.written->push_back(1000000000LL * ts.tv_sec + ts.tv_nsec);
      }
      while (want && !reaped) {
        const ssize_t n = write(pfd[1], in.data() + off, want);
        if (n > 0) {
          off += size_t(n);
          want -= size_t(n);
          spin = 0;
        } else {
          pause();
        }
      }
      if (k < o.pieces.size())
        for (int left = 1; !reaped && !ioctl(pfd[0], FIONREAD, &left) && left > 0;) pause();
      if (k < o.pieces.size() && o.gap_ms && !reaped) usleep(useconds_t(o.gap_ms) * 1000);
      k++;
      spin = 0;
    }
    close(pfd[0]);
    close(pfd[1]);
  }
  while (!reaped && waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  r.status = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
  r.timeout = WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM;
  r.out = slurpFd(out);
  r.err = slurpFd(err);
  close(out);
  close(err);
  if (!o.pipe_in) close(infd);
  return r;
}
LiveResult runLive(const std::vector<std::string>& args, const std::vector<std::string>& pieces, int sink, const std::function<bool(size_t, const std::string&)>& ready, double patience_s) {
  LiveResult r;
  int in[2], out[2];
  if (pipe(in) || pipe(out)) throw std::runtime_error("pipe");
  fflush(nullptr);
  const pid_t p = fork();
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    const int null = open("/dev/null", O_WRONLY);
    dup2(in[0], 0);
    dup2(sink == 1 ? out[1] : null, 1);
    dup2(sink == 2 ? out[1] : null, 2);
    for (int fd : {in[0], in[1], out[0], out[1]}) close(fd);
    static char buffer[BUFSIZ];
    setvbuf(stdout, buffer, _IOFBF, sizeof buffer);  // as for any pipe
    alarm(120);
    std::vector<std::string> a{"redsea"};
    a.insert(a.end(), args.begin(), args.end());
    std::vector<char*> v;
    for (auto& x : a) v.push_back(&x[0]);
    v.push_back(nullptr);
    errno = 0;
    exit(redsea_main(int(a.size()), v.data()));
  }
  close(in[0]);
  close(out[1]);
  fcntl(in[1], F_SETFL, O_NONBLOCK);
  fcntl(out[0], F_SETFL, O_NONBLOCK);
  bool open_out = true;
  auto drain = [&](int wait_ms, bool want_write) {
    struct pollfd f[2] = {{out[0], POLLIN, 0}, {in[1], short(want_write ? POLLOUT : 0), 0}};
    poll(f, want_write ? 2 : 1, wait_ms);
    char b[65536];
    for (;;) {
      const ssize_t n = read(out[0], b, sizeof b);
      if (n > 0) r.out.append(b, size_t(n));
      else {
        if (n == 0) open_out = false;
        break;
      }
    }
  };
  auto now = [] {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return double(t.tv_sec) + double(t.tv_nsec) * 1e-9;
  };
  void (*old)(int) = signal(SIGPIPE, SIG_IGN);
  for (size_t k = 0; k < pieces.size() && open_out && !r.late; k++) {
    for (size_t off = 0; off < pieces[k].size() && open_out;) {
      const ssize_t n = write(in[1], pieces[k].data() + off, pieces[k].size() - off);
      if (n > 0) off += size_t(n);
      else if (errno == EPIPE) break;
      else drain(100, true);
    }
    const double t0 = now();
    while (!ready(k, r.out) && open_out) {
      drain(20, false);
      if (now() - t0 > patience_s && !ready(k, r.out)) {
        r.late = true;
        r.piece = k;
        r.at_piece = r.out;
        break;
      }
    }
    if (!open_out && !ready(k, r.out)) {
      r.late = true;
      r.piece = k;
      r.at_piece = r.out;
    }
  }
  close(in[1]);
  while (open_out) drain(100, false);
  signal(SIGPIPE, old);
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  r.status = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
  close(out[0]);
  return r;
}
std::string cliReplay(const std::vector<std::string>& args, const std::string& in, const std::string& note) {
  std::string s = "cli";
  for (auto& a : args) s += " [" + a + "]";
  s += "\n# " + note + "\nstdin (as C string): ";
  std::string esc;
  for (unsigned char c : in.substr(0, 20000)) {
    char b[8];
    if (c == '\n') esc += "\\n";
    else if (c < 32 || c > 126 || c == '\\') { snprintf(b, sizeof b, "\\x%02x", c); esc += b; }
    else esc += char(c);
  }
  return s + esc + "\n";
}

// ------------------------------------------------------------------ main
static std::map<std::string, CheckFn>& registry() {
  static std::map<std::string, CheckFn> m;
  return m;
}
Registrar::Registrar(const char* id, CheckFn f) { registry()[id] = f; }

static int replayFile(const char* path) {
  std::ifstream f(path);
  std::string l;
  std::unique_ptr<Sys> s;
  bool bad = false;
  while (std::getline(f, l)) {
    if (l.empty() || l[0] == '#') continue;
    if (l.rfind("env ", 0) == 0) {
      s = std::make_unique<Sys>(Env::parse(l), allFields());
      continue;
    }
    if (!s) {
      std::cout << l << "\n";
      continue;
    }
    Ev e = Ev::parse(l);
    s->why.clear();
    const bool ok = s->step(e);
    std::cout << (ok ? "  ok  " : "  BAD ") << l.substr(0, 100) << "\n        model: " << s->last_line << "\n";
    if (!ok) {
      std::cout << "        " << s->why << "\n";
      bad = true;
    }
  }
  return bad ? 1 : 0;
}

int main(int argc, char** argv) {
  setvbuf(stderr, nullptr, _IONBF, 0);
  if (argc == 3 && std::string(argv[1]) == "--replay") return replayFile(argv[2]);
  if (argc < 5) {
    for (auto& e : registry()) std::cout << e.first << "\n";
    return 2;
  }
  // harness ID tier outdir result.json
  Run r;
  r.id = argv[1];
  r.thorough = std::string(argv[2]) == "thorough";
  r.outdir = argv[3];
  if (r.thorough) r.time_cap = 3600;
  if (const char* t = getenv("VERIF_TIME_CAP")) r.time_cap = atof(t);
  r.nworkers = std::max(1, int(sysconf(_SC_NPROCESSORS_ONLN)));
  if (r.nworkers > 16) r.nworkers = 16;
  auto it = registry().find(r.id);
  if (it == registry().end()) {
    std::cerr << "no such check\n";
    return 2;
  }
  try {
    it->second(r);
  } catch (const std::exception& e) {
    std::cerr << "harness error: " << e.what() << "\n";
    return 3;
  }
  json j;
  j["states"] = r.nstates;
  j["transitions"] = r.transitions;
  j["traces"] = r.traces;
  j["evals"] = r.evals;
  j["outcomes"] = r.noutcomes;
  j["unconfirmed"] = r.unconfirmed;
  j["samples"] = r.samples;
  j["capped"] = r.capped;
  j["phases"] = r.phases;
  j["notes"] = r.notes;
  j["violations"] = json::array();
  for (auto& v : r.violations) j["violations"].push_back({{"why", v.first}, {"replay", v.second}});
  j["known"] = r.known;
  std::ofstream(argv[4]) << j.dump(1, ' ', false, json::error_handler_t::replace) << "\n";
  return 0;
}
