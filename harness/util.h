#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>

namespace hx {

inline uint64_t Mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 12) + (h >> 4);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 33;
  return h;
}
inline uint64_t HashBytes(const void* p, size_t n, uint64_t h = 0x1234567) {
  const unsigned char* c = static_cast<const unsigned char*>(p);
  while (n >= 8) {
    uint64_t w;
    memcpy(&w, c, 8);
    h = Mix(h, w);
    c += 8;
    n -= 8;
  }
  uint64_t w = 0;
  memcpy(&w, c, n);
  return Mix(h, w ^ (static_cast<uint64_t>(n) << 56));
}
inline uint64_t HashStr(const std::string& s, uint64_t h = 0x1234567) {
  return HashBytes(s.data(), s.size(), Mix(h, s.size()));
}

inline std::string Fmt(const char* f, ...) {
  char buf[2048];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  return buf;
}

inline std::string JsonEsc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c >= 127) o += Fmt("\\u%04x", c);
    else o += c;
  }
  return o;
}

// Open-addressing visited set: hash -> best (depth,budget) remaining.
class Visited {
 public:
  explicit Visited(int log2 = 16) : mask_((1ull << log2) - 1), tab_(1ull << log2) {}
  // Returns true if the state must be expanded (not yet visited with at least
  // this much depth and budget).  *fresh tells whether the state is new.
  bool Visit(uint64_t h, int depth, int budget, bool* fresh) {
    if (h == 0) h = 1;
    if (n_ * 10 > tab_.size() * 6) Grow();
    uint64_t i = h & mask_;
    while (tab_[i].h != 0 && tab_[i].h != h) i = (i + 1) & mask_;
    E& e = tab_[i];
    if (e.h == 0) {
      e.h = h;
      e.d[0] = depth; e.b[0] = budget; e.d[1] = -1;
      n_++;
      *fresh = true;
      return true;
    }
    *fresh = false;
    for (int k = 0; k < 2; k++)
      if (e.d[k] >= depth && e.b[k] >= budget) return false;
    // replace a dominated slot, else the shallower one
    for (int k = 0; k < 2; k++)
      if (e.d[k] < 0 || (e.d[k] <= depth && e.b[k] <= budget)) {
        e.d[k] = depth; e.b[k] = budget;
        return true;
      }
    int k = e.d[0] < e.d[1] ? 0 : 1;
    e.d[k] = depth; e.b[k] = budget;
    return true;
  }
  size_t size() const { return n_; }
  void Clear() { for (auto& e : tab_) e = E(); n_ = 0; }

 private:
  struct E { uint64_t h = 0; int8_t d[2] = {-1, -1}; int8_t b[2] = {-1, -1}; };
  void Grow() {
    std::vector<E> old;
    old.swap(tab_);
    tab_.resize(old.size() * 2);
    mask_ = tab_.size() - 1;
    for (auto& e : old) {
      if (!e.h) continue;
      uint64_t i = e.h & mask_;
      while (tab_[i].h) i = (i + 1) & mask_;
      tab_[i] = e;
    }
  }
  uint64_t mask_;
  size_t n_ = 0;
  std::vector<E> tab_;
};

}  // namespace hx
