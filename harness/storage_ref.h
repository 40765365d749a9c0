// Reference model of the in-memory storage: a log with a snapshot.
#pragma once
#include <cstdint>
#include <string>
#include <vector>

#include "util.h"

namespace hx {

struct RefStorage {
  struct E { uint64_t term; int size; };
  uint64_t base = 0, bterm = 0;
  std::vector<E> ents;
  uint64_t snap = 0, snap_term = 0;
  std::string snap_conf, snap_data;
  uint64_t hs_term = 0, hs_vote = 0, hs_commit = 0;

  uint64_t last() const { return base + ents.size(); }
  const E& at(uint64_t i) const { return ents[i - base - 1]; }
  uint64_t term(uint64_t i) const { return i == base ? bterm : at(i).term; }

  void Append(uint64_t a, const std::vector<E>& v) {
    for (size_t k = 0; k < v.size(); k++) {
      uint64_t i = a + k;
      if (i <= base) continue;
      ents.resize(i - base - 1);
      ents.push_back(v[k]);
    }
  }
  bool Compact(uint64_t i) {
    if (i <= base) return false;
    uint64_t t = term(i);
    ents.erase(ents.begin(), ents.begin() + (i - base));
    base = i;
    bterm = t;
    return true;
  }
  // 0 done, 1 older than the snapshot, 2 compacted
  int CreateSnapshot(uint64_t i, const std::string& conf, bool with_conf, const std::string& data) {
    if (i <= snap) return 1;
    if (i < base) return 2;
    snap = i;
    snap_term = term(i);
    if (with_conf) snap_conf = conf;
    snap_data = data;
    return 0;
  }
  bool ApplySnapshot(uint64_t i, uint64_t t, const std::string& conf, const std::string& data) {
    if (i <= snap) return false;
    snap = base = i;
    snap_term = bterm = t;
    snap_conf = conf;
    snap_data = data;
    ents.clear();
    return true;
  }
  uint64_t Hash() const {
    uint64_t h = Mix(Mix(base, bterm), Mix(snap, snap_term));
    h = HashStr(snap_conf + "/" + snap_data, h);
    for (auto& e : ents) h = Mix(h, e.term * 16 + e.size);
    return Mix(h, hs_term * 100 + hs_commit);
  }
};

}  // namespace hx
