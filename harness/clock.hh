// The wall clock the decoder sees. With nothing set it is the real one.
#pragma once
#include <vector>
namespace fake {
void set(long long ns);                              // stands still at ns
void schedule(const std::vector<long long>& ns);     // successive readings, the last one stays
void off();
size_t readings();                                   // readings taken since set/schedule
bool available();                                    // false in builds where libc cannot be interposed
}
