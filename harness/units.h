// Exhaustive component checkers.  A unit is a function that drives library
// objects next to an independent reference model; every decision it takes
// (operation, argument, environment answer) is a pick() of the chooser, and the
// driver runs it once for every possible sequence of picks.
#pragma once
#include <cstdarg>
#include <functional>
#include <memory>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

#include "arena.h"
#include "src/logger.h"
#include "util.h"

namespace hx {

// In the build with sanitizers the longest sequences are one step shorter.
#ifdef __SANITIZE_ADDRESS__
constexpr int kLess = 1;
#else
constexpr int kLess = 0;
#endif

struct Failure {
  std::string monitor, text;
};
struct Skip {};
struct Cut {};      // the rest of this path was explored from the same state before
struct Foreign {};  // another property's violation: this check cannot judge what follows

class Ch {
 public:
  int pick(int n) {
    if (n <= 0) n = 1;
    if (i_ == pos_.size()) {
      pos_.push_back(0);
      lim_.push_back(n);
    } else if (lim_[i_] != n) {
      // replays must be deterministic
      if (lim_[i_] != -1) { fprintf(stderr, "nondeterministic unit: pick %zu had %d options, now %d\n", i_, lim_[i_], n); _exit(3); }
      lim_[i_] = n;
    }
    int v = pos_[i_++];
    if (shards > 1 && i_ == 2 && (pos_[0] * lim_[1] + pos_[1]) % shards != shard) throw Skip();
    return v;
  }
  bool flip() { return pick(2) != 0; }
  void note(const char* f, ...) {
    if (!tracing) return;
    char b[1500];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    trace.push_back(b);
  }
  void step() { transitions++; g_progress = g_progress + 1; }
  void state(uint64_t h) { if (states.size() < 6000000) states.insert(h); }
  [[noreturn]] void fail(const char* monitor, const char* f, ...) {
    char b[1800];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    if (tracing) trace.push_back(std::string("FAILED ") + monitor + ": " + b);
    throw Failure{monitor, b};
  }
  // A violation of the properties in `ps`; the path is given up when the
  // property being decided is not one of them.
  [[noreturn]] void viol(std::initializer_list<int> ps, const char* monitor, const char* f, ...) {
    char b[1800];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    bool mine = prop == 0;
    for (int p : ps) mine = mine || p == prop;
    if (!mine) {
      foreign++;
      throw Foreign();
    }
    if (tracing) trace.push_back(std::string("FAILED ") + monitor + ": " + b);
    throw Failure{monitor, b};
  }
  // Ends the path here when an earlier path reached this state with at least
  // as many steps to go.
  void merge(uint64_t h, int remaining) {
    if (!fresh() || tracing) return;
    auto it = best_.find(h);
    if (it != best_.end() && it->second >= remaining) { merged++; throw Cut(); }
    best_[h] = remaining;
    if (states.size() < 6000000) states.insert(h);
  }
  // driver side
  void begin() { i_ = 0; trace.clear(); }
  bool advance() {
    pos_.resize(i_);
    lim_.resize(i_);
    while (!pos_.empty() && pos_.back() + 1 >= lim_.back()) { pos_.pop_back(); lim_.pop_back(); }
    if (pos_.empty()) return false;
    pos_.back()++;
    changed_ = pos_.size();
    return true;
  }
  // true when this run is the first one to get here (the picks so far were not
  // all made, with the same checks after them, by an earlier run)
  bool fresh() const { return tracing || i_ >= changed_; }
  std::string path() const {
    std::string s;
    for (size_t k = 0; k < i_; k++) s += (k ? "," : "") + std::to_string(pos_[k]);
    return s;
  }
  void setPath(const std::vector<int>& p) { pos_ = p; lim_.assign(p.size(), -1); i_ = 0; }
  std::vector<int> positions() const { return std::vector<int>(pos_.begin(), pos_.begin() + i_); }

  bool tracing = false;
  std::vector<std::string> trace;
  uint64_t transitions = 0, merged = 0, foreign = 0;
  int prop = 0;
  std::unordered_set<uint64_t> states;
  int shard = 0, shards = 1;
  bool thorough = false;

 private:
  std::vector<int> pos_, lim_;
  size_t i_ = 0, changed_ = 0;
  std::unordered_map<uint64_t, int> best_;
};

struct UnitDef {
  const char* name;
  std::string (*bounds)(bool thorough);
  void (*run)(Ch&);
};
std::vector<UnitDef>& Units();
struct Reg {
  Reg(const char* n, std::string (*b)(bool), void (*r)(Ch&)) { Units().push_back({n, b, r}); }
};

// a logger that turns kFatal into a contained panic
std::shared_ptr<craft::Logger> QuietLogger();

#define UNIT(NAME, BOUNDS)                                                          \
  static void run_##NAME(hx::Ch& c);                                                \
  static std::string bounds_##NAME(bool thorough) { (void)thorough; return BOUNDS; } \
  static hx::Reg reg_##NAME(#NAME, bounds_##NAME, run_##NAME);                      \
  static void run_##NAME(hx::Ch& c)

}  // namespace hx
