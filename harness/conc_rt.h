// Controlled threads for the concurrency checkers.
//
// The library is compiled with -fsanitize=thread but linked with the runtime in
// conc_rt.cc instead of libtsan: every memory access is fed to a vector-clock
// race detector, every lock operation is a point where the scheduler decides
// which thread goes on.  One thread runs at a time; the driver enumerates all
// sequences of decisions, each in a forked process of its own, so that nothing
// (lazily initialised statics included) carries over from one to the next.
#pragma once
#include <cstdint>
#include <functional>
#include <initializer_list>
#include <string>
#include <vector>

namespace rt {

int Pick(int n);
inline bool Flip() { return Pick(2) != 0; }
bool Thorough();
void Note(const char* f, ...);
void State(uint64_t h);
// A violation of the properties in the list; ends the process.
[[noreturn]] void Viol(std::initializer_list<int> ps, const char* monitor, const char* f, ...);
[[noreturn]] void Abort(const char* f, ...);

// Runs the bodies as threads, all schedules that deviate at most `deviations`
// times (-1: no limit) from: go on with the current thread, else the lowest.
// shared_only: locks that only one thread has used so far are no switching points.
void Run(const std::vector<std::function<void()>>& bodies, int deviations = -1, bool shared_only = false);
// Boundary between two calls of a thread; the scheduler may switch here.
void Point();
// Logical time (order of events of this execution).
uint64_t Now();
// Harness-level mutex (gives happens-before edges like a real one).
void Lock(void* m);
void Unlock(void* m);
// Waits until cond() holds; evaluated by the scheduler.
void Wait(const std::function<bool()>& cond);
// Runs f in a pristine child process and returns its string (cached by key).
std::string Solo(int key, const std::function<std::string()>& f);

struct Unit {
  const char* name;
  std::string (*bounds)(bool thorough);
  void (*run)();
};
std::vector<Unit>& Units();
struct Reg {
  Reg(const char* n, std::string (*b)(bool), void (*r)()) { Units().push_back({n, b, r}); }
};

#define CONC_UNIT(NAME, BOUNDS)                                                        \
  static void run_##NAME();                                                            \
  static std::string bounds_##NAME(bool thorough) { (void)thorough; return BOUNDS; }   \
  static rt::Reg reg_##NAME(#NAME, bounds_##NAME, run_##NAME);                         \
  static void run_##NAME()

}  // namespace rt
