#include "clock.hh"
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
namespace {
bool on = false;
std::vector<long long> plan;
size_t taken = 0;
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define NO_INTERPOSE 1
#endif
#endif
long long next() {
  const size_t i = taken < plan.size() ? taken : plan.size() - 1;
  taken++;
  return plan[i];
}
}  // namespace
namespace fake {
void set(long long ns) { plan.assign(1, ns); taken = 0; on = true; }
void schedule(const std::vector<long long>& ns) { plan = ns; taken = 0; on = !ns.empty(); }
void off() { on = false; }
size_t readings() { return taken; }
bool available() {
#ifdef NO_INTERPOSE
  return false;
#else
  return true;
#endif
}
}  // namespace fake
#ifndef NO_INTERPOSE
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) {
  if (on && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) {
    const long long t = next();
    ts->tv_sec = t / 1000000000;
    ts->tv_nsec = t % 1000000000;
    return 0;
  }
  return int(syscall(SYS_clock_gettime, id, ts));
}
extern "C" int gettimeofday(struct timeval* tv, void*) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (tv) {
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
  }
  return 0;
}
extern "C" time_t time(time_t* t) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}
#endif
