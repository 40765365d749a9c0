// C16: MemoryStorage against a sequential log with snapshots.
#include <algorithm>
#include <set>

#include "src/storage.h"
#include "storage_ref.h"
#include "units.h"

using namespace craft;
using namespace hx;

namespace {

struct Kept {  // a value returned or applied earlier, and what it was then
  EntryPtrs ents;
  std::vector<std::string> ents_copy;
  SnapshotPtr snap;
  std::string snap_copy;
};

EntryPtr Ent(uint64_t i, uint64_t t, int size) {
  auto e = std::make_shared<raftpb::Entry>();
  e->set_index(i);
  e->set_term(t);
  e->set_data(std::string(size, 'a' + (i + t) % 26));
  return e;
}

void Observe(Ch& c, MemoryStorage& st, RefStorage& r, std::vector<Kept>& kept) {
  auto [f, s1] = st.FirstIndex();
  auto [l, s2] = st.LastIndex();
  if (!s1.IsOK() || f != r.base + 1) c.fail("storage-first", "first index %d, should be %d", (int)f, (int)r.base + 1);
  if (!s2.IsOK() || l != r.last()) c.fail("storage-last", "last index %d, should be %d", (int)l, (int)r.last());
  const uint64_t low = r.last() > 1000 ? r.base - std::min<uint64_t>(2, r.base) : 0;
  const uint64_t big = r.last() > 1000 ? 8 : 0;  // larger numbers take more bytes
  for (uint64_t i = low; i <= r.last() + 2; i++) {
    auto [t, s] = st.Term(i);
    if (i < r.base) {
      if (s.IsOK() || !strstr(s.Str(), kErrCompacted)) c.fail("storage-term", "Term(%d) below the compaction point says '%s'", (int)i, s.Str());
    } else if (i > r.last()) {
      if (s.IsOK() || !strstr(s.Str(), kErrUnavailable)) c.fail("storage-term", "Term(%d) past the end says '%s'", (int)i, s.Str());
    } else if (!s.IsOK() || t != r.term(i)) {
      c.fail("storage-term", "Term(%d) = %d (%s), should be %d", (int)i, (int)t, s.Str(), (int)r.term(i));
    }
  }
  for (uint64_t far : {uint64_t(1) << 31, uint64_t(1) << 32, (uint64_t(1) << 32) + 1, uint64_t(1) << 63, ~uint64_t(0) - r.last() - 1}) {
    auto [t, s] = st.Term(r.last() + far);
    if (r.last() + far > r.last() && (s.IsOK() || !strstr(s.Str(), kErrUnavailable))) c.fail("storage-term", "Term(%llu), far past the end at %llu, says '%s'", (unsigned long long)(r.last() + far), (unsigned long long)r.last(), s.Str());
  }
  for (uint64_t lo = low; lo <= r.last() + 1; lo++)
    for (uint64_t hi = lo + 1; hi <= r.last() + 1; hi++)
      for (uint64_t max : {uint64_t(0), 13 + big, 25 + 2 * big, ~uint64_t(0)}) {
        auto [es, s] = st.Entries(lo, hi, max);
        c.step();
        if (lo <= r.base) {
          if (s.IsOK() || !strstr(s.Str(), kErrCompacted) || !es.empty()) c.fail("storage-entries", "Entries(%d,%d) with %d compacted says '%s'", (int)lo, (int)hi, (int)r.base, s.Str());
          continue;
        }
        if (!s.IsOK()) c.fail("storage-entries", "Entries(%d,%d,%lld) fails: %s", (int)lo, (int)hi, (long long)max, s.Str());
        uint64_t sum = 0;
        size_t n = 0;
        for (uint64_t i = lo; i < hi; i++) {
          sum += Ent(i, r.term(i), r.at(i).size)->ByteSizeLong();
          if (n && sum > max) break;
          n++;
        }
        bool ok = es.size() == n;
        for (size_t k = 0; ok && k < n; k++)
          ok = es[k]->SerializeAsString() == Ent(lo + k, r.term(lo + k), r.at(lo + k).size)->SerializeAsString();
        if (!ok) c.fail("storage-entries", "Entries(%d,%d,%lld) returns %zu entries, should be the first %zu with terms as stored", (int)lo, (int)hi, (long long)max, es.size(), n);
        if (max == ~0ull && lo == r.base + 1 && hi == r.last() + 1) {
          Kept k;
          k.ents = es;
          for (auto& e : es) k.ents_copy.push_back(e->SerializeAsString());
          kept.push_back(k);
        }
      }
  auto [sn, s] = st.SnapShot();
  if (!s.IsOK() || !sn || sn->metadata().index() != r.snap || sn->metadata().term() != r.snap_term || sn->data() != r.snap_data ||
      sn->metadata().conf_state().SerializeAsString() != r.snap_conf)
    c.fail("storage-snapshot", "snapshot is %s, should be %d/%d '%s'", sn ? sn->ShortDebugString().c_str() : "null", (int)r.snap, (int)r.snap_term, r.snap_data.c_str());
  Kept k;
  k.snap = sn;
  k.snap_copy = sn->SerializeAsString();
  kept.push_back(k);
  auto [hs, cs, s4] = st.InitialState();
  if (!s4.IsOK() || hs.term() != r.hs_term || hs.vote() != r.hs_vote || hs.commit() != r.hs_commit) c.fail("storage-state", "hard state %s", hs.ShortDebugString().c_str());
  if (cs.SerializeAsString() != r.snap_conf) c.fail("storage-state", "initial configuration {%s} is not that of the snapshot", cs.ShortDebugString().c_str());
}
void CheckKept(Ch& c, std::vector<Kept>& kept) {
  for (auto& k : kept) {
    if (k.snap && k.snap->SerializeAsString() != k.snap_copy) c.fail("snapshot-changed", "a snapshot returned or applied earlier changed to %s", k.snap->ShortDebugString().c_str());
    for (size_t i = 0; i < k.ents_copy.size(); i++)
      if (k.ents.size() != k.ents_copy.size() || k.ents[i]->SerializeAsString() != k.ents_copy[i]) c.fail("entries-changed", "an entry returned earlier changed");
  }
}

}  // namespace

UNIT(storage_seq, Fmt("every sequence of %d operations (append 1-2 entries at every legal position incl. compacted prefix and what is stored already, compact, create snapshot with and without configuration, apply snapshot old and new, set hard state) from the empty storage, from one with 4 entries and from snapshots at 2^32-3 and (one operation less) 2^63-3; every read with every range and 4 size limits after each", (thorough ? 5 : 4) - kLess)) {
  MemoryStorage st(QuietLogger());
  RefStorage r;
  std::vector<Kept> kept;
  int start = c.pick(4);
  if (start >= 2) {
    const uint64_t k = start == 2 ? 1ull << 32 : 1ull << 63;
    auto sn = std::make_shared<raftpb::Snapshot>();
    sn->mutable_metadata()->set_index(k - 3);
    sn->mutable_metadata()->set_term(k - 2);
    sn->mutable_metadata()->mutable_conf_state()->add_voters(k);
    st.ApplySnapshot(sn);
    r.ApplySnapshot(k - 3, k - 2, sn->metadata().conf_state().SerializeAsString(), sn->data());
    c.note("a snapshot at 2^%d-3 of term 2^%d-2", start == 2 ? 32 : 63, start == 2 ? 32 : 63);
  } else if (start == 1) {
    EntryPtrs es;
    for (int i = 1; i <= 4; i++) {
      int t = i < 3 ? 1 : 2;
      es.push_back(Ent(i, t, 3));
      r.ents.push_back({(uint64_t)t, 3});
    }
    st.Append(es);
    c.note("4 entries");
  }
  int n = (c.thorough ? 5 : 4) - kLess - (start == 3);
  for (int step = 0; step < n; step++) {
    struct O { int kind; uint64_t a; int n; };
    std::vector<O> ops;
    for (uint64_t a = r.last() + 1; a >= 1; a--) {
      ops.push_back({0, a, 1});
      if (a == r.last() + 1 || a == r.base || a == r.base + 1) ops.push_back({0, a, 2});
      if (a + 3 < r.last()) break;
    }
    // what is stored already, once more: everything behind it goes
    for (uint64_t a = r.base + 1; a <= r.last() && a <= r.base + 3; a++)
      for (int k = 1; k <= 2 && a + k - 1 <= r.last(); k++) ops.push_back({5, a, k});
    ops.push_back({0, 0, 0});
    for (uint64_t i = r.base; i <= r.last() && i <= r.base + 3; i++) ops.push_back({1, i, 0});
    for (uint64_t i = r.base ? r.base - 1 : 0; i <= r.last() && i <= r.base + 3; i++) {
      ops.push_back({2, i, 0});
      if (i > r.base) ops.push_back({2, i, 1});
    }
    for (uint64_t i : std::set<uint64_t>{r.snap, r.snap + 1, r.base, r.last(), r.last() + 2}) ops.push_back({3, i, 0});
    ops.push_back({4, 0, 0});
    O o = ops[c.pick((int)ops.size())];
    uint64_t cur = r.last() > r.base ? r.term(r.last()) : r.bterm;
    c.step();
    switch (o.kind) {
      case 5:
      case 0: {
        EntryPtrs es;
        std::vector<RefStorage::E> v;
        // rewriting entries that are already there carries a higher term
        uint64_t t = o.a > r.last() ? std::max<uint64_t>(1, cur) : cur + 1;
        for (int k = 0; k < o.n; k++) {
          RefStorage::E e{t, k ? 9 : 3};
          if (o.kind == 5) e = r.at(o.a + k);
          es.push_back(Ent(o.a + k, e.term, e.size));
          v.push_back(e);
        }
        Kept k;
        k.ents = es;
        for (auto& e : es) k.ents_copy.push_back(e->SerializeAsString());
        kept.push_back(k);
        auto s = st.Append(es);
        r.Append(o.a, v);
        c.note("append %d entries of term %d at %d", o.n, o.n ? (int)v[0].term : 0, (int)o.a);
        if (!s.IsOK()) c.fail("storage-append", "append at %d fails: %s", (int)o.a, s.Str());
        break;
      }
      case 1: {
        auto s = st.Compact(o.a);
        bool ok = r.Compact(o.a);
        c.note("compact %d: %s", (int)o.a, s.Str());
        if (s.IsOK() != ok || (!ok && !strstr(s.Str(), kErrCompacted))) c.fail("storage-compact", "Compact(%d) at base %d says '%s'", (int)o.a, (int)r.base, s.Str());
        break;
      }
      case 2: {
        raftpb::ConfState cs;
        cs.add_voters(o.a + 10);
        auto [sn, s] = st.CreateSnapshot(o.a, o.n ? &cs : nullptr, Fmt("data%d", (int)o.a));
        int ok = r.CreateSnapshot(o.a, o.n ? cs.SerializeAsString() : std::string(), o.n, Fmt("data%d", (int)o.a));
        c.note("create snapshot %d%s: %s", (int)o.a, o.n ? " with configuration" : "", s.Str());
        if (s.IsOK() != (ok == 0)) c.fail("storage-create", "CreateSnapshot(%d) with snapshot %d, base %d says '%s'", (int)o.a, (int)r.snap, (int)r.base, s.Str());
        if (ok == 1 && !strstr(s.Str(), kErrSnapOutOfDate)) c.fail("storage-create", "CreateSnapshot(%d) with snapshot %d says '%s'", (int)o.a, (int)r.snap, s.Str());
        if (ok == 0 && (!sn || sn->metadata().index() != o.a)) c.fail("storage-create", "CreateSnapshot(%d) returns %s", (int)o.a, sn ? sn->ShortDebugString().c_str() : "null");
        if (ok != 0 && sn) c.fail("storage-create", "refused CreateSnapshot(%d) returns a snapshot", (int)o.a);
        break;
      }
      case 3: {
        auto sn = std::make_shared<raftpb::Snapshot>();
        sn->mutable_metadata()->set_index(o.a);
        sn->mutable_metadata()->set_term(cur + 1);
        sn->mutable_metadata()->mutable_conf_state()->add_voters(o.a + 20);
        sn->set_data(Fmt("applied%d", (int)o.a));
        Kept k;
        k.snap = sn;
        k.snap_copy = sn->SerializeAsString();
        kept.push_back(k);
        auto s = st.ApplySnapshot(sn);
        bool ok = r.ApplySnapshot(o.a, cur + 1, sn->metadata().conf_state().SerializeAsString(), sn->data());
        c.note("apply snapshot %d: %s", (int)o.a, s.Str());
        if (s.IsOK() != ok || (!ok && !strstr(s.Str(), kErrSnapOutOfDate))) c.fail("storage-apply", "ApplySnapshot(%d) says '%s'", (int)o.a, s.Str());
        break;
      }
      case 4: {
        raftpb::HardState hs;
        r.hs_term++;
        r.hs_vote = r.hs_term + 1;
        r.hs_commit = r.last();
        hs.set_term(r.hs_term);
        hs.set_vote(r.hs_vote);
        hs.set_commit(r.hs_commit);
        if (!st.SetHardState(hs).IsOK()) c.fail("storage-state", "SetHardState fails");
        c.note("set hard state");
        break;
      }
    }
    if (c.fresh()) {
      Observe(c, st, r, kept);
      CheckKept(c, kept);
    }
    // keep what reads return at every step, so that later steps can be seen to change it
    auto [sn, s] = st.SnapShot();
    if (sn) {
      Kept k;
      k.snap = sn;
      k.snap_copy = sn->SerializeAsString();
      kept.push_back(k);
    }
    if (r.last() > r.base) {
      auto [es, s3] = st.Entries(r.base + 1, r.last() + 1, ~0ull);
      Kept k;
      k.ents = es;
      for (auto& e : es) k.ents_copy.push_back(e->SerializeAsString());
      kept.push_back(k);
    }
    c.state(r.Hash());
  }
}
