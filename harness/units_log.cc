// C15 (and the paging part of C06): RaftLog over MemoryStorage against one
// sequence.
#include <algorithm>

#include "src/log.h"
#include "src/storage.h"
#include "units.h"

using namespace craft;
using namespace hx;

namespace {

struct E { uint64_t term; int size; };
struct Ref {
  uint64_t base = 0, bterm = 0;  // dummy: everything up to base is compacted
  std::vector<E> ents;           // base+1 ..
  uint64_t committed = 0, applied = 0;
  uint64_t last() const { return base + ents.size(); }
  uint64_t first() const { return base + 1; }
  uint64_t term(uint64_t i) const { return i < base || i > last() ? 0 : i == base ? bterm : ents[i - base - 1].term; }
  const E& at(uint64_t i) const { return ents[i - base - 1]; }
};
EntryPtr MkEnt(uint64_t idx, const E& e) {
  auto p = std::make_shared<raftpb::Entry>();
  p->set_index(idx);
  p->set_term(e.term);
  p->set_data(std::string(e.size, 'a' + (idx * 7 + e.term) % 26));
  return p;
}
struct Handed {  // something the log gave to its user, and what it looked like
  EntryPtrs list;
  std::vector<std::string> copy;
  const char* what;
};
struct Box {
  std::shared_ptr<MemoryStorage> st;
  std::unique_ptr<craft::RaftLog> log;
  Ref r;
  uint64_t limit = craft::RaftLog::kNoLimit;
  // storage as it must be
  uint64_t sbase = 0, sbterm = 0;
  std::vector<E> sents;
  uint64_t ssnap = 0;
  // unstable part as it must be
  uint64_t off = 1;        // first index not acknowledged as persisted
  bool pend = false;       // pending snapshot
  SnapshotPtr psnap;
  // taken for persisting
  bool taken = false, written = false;
  EntryPtrs tk;
  SnapshotPtr tks;
  std::vector<Handed> handed;
};
SnapshotPtr MkSnap(uint64_t i, uint64_t t) {
  auto s = std::make_shared<raftpb::Snapshot>();
  s->mutable_metadata()->set_index(i);
  s->mutable_metadata()->set_term(t);
  s->mutable_metadata()->mutable_conf_state()->add_voters(1);
  s->set_data(Fmt("snap%d.%d", (int)i, (int)t));
  return s;
}
void Hand(Box& b, const EntryPtrs& l, const char* what) {
  if (l.empty()) return;
  Handed h;
  h.list = l;
  h.what = what;
  for (auto& e : l) h.copy.push_back(e->SerializeAsString());
  b.handed.push_back(h);
}
size_t RealSize(uint64_t i, const E& e) { return MkEnt(i, e)->ByteSizeLong(); }

// the longest prefix of [lo,hi) within max bytes, at least one entry
std::vector<uint64_t> RefSlice(const Ref& r, uint64_t lo, uint64_t hi, uint64_t max) {
  std::vector<uint64_t> v;
  uint64_t sum = 0;
  for (uint64_t i = lo; i < hi; i++) {
    sum += RealSize(i, r.at(i));
    if (!v.empty() && sum > max) break;
    v.push_back(i);
  }
  return v;
}
void Same(Ch& c, const Ref& r, const EntryPtrs& got, const std::vector<uint64_t>& want, const std::string& what) {
  bool ok = got.size() == want.size();
  for (size_t k = 0; ok && k < want.size(); k++) {
    auto e = MkEnt(want[k], r.at(want[k]));
    ok = got[k] && got[k]->index() == want[k] && got[k]->term() == e->term() && got[k]->data() == e->data() && got[k]->type() == e->type();
  }
  if (ok) return;
  std::string g, w;
  for (auto& e : got) g += e ? Fmt(" %d/%d", (int)e->index(), (int)e->term()) : " null";
  for (auto i : want) w += Fmt(" %d/%d", (int)i, (int)r.term(i));
  c.fail("log-sequence", "%s gives [%s ], the sequence has [%s ]", what.c_str(), g.c_str(), w.c_str());
}

void Observe(Ch& c, Box& b) {
  auto& l = *b.log;
  Ref& r = b.r;
  if (l.FirstIndex() != r.first()) c.fail("log-first", "first index %d, should be %d", (int)l.FirstIndex(), (int)r.first());
  if (l.LastIndex() != r.last()) c.fail("log-last", "last index %d, should be %d", (int)l.LastIndex(), (int)r.last());
  if (l.LastTerm() != r.term(r.last())) c.fail("log-term", "last term %d, should be %d", (int)l.LastTerm(), (int)r.term(r.last()));
  if (l.Committed() != r.committed) c.fail("log-commit", "committed %d, should be %d", (int)l.Committed(), (int)r.committed);
  if (l.Applied() != r.applied) c.fail("log-applied", "applied %d, should be %d", (int)l.Applied(), (int)r.applied);
  for (uint64_t i = 0; i <= r.last() + 2; i++) {
    auto [t, s] = l.Term(i);
    if (t != r.term(i) || !s.IsOK()) c.fail("log-term", "term(%d) = %d (%s), should be %d", (int)i, (int)t, s.Str(), (int)r.term(i));
    if (i >= r.base && i <= r.last())
      for (uint64_t x = 0; x <= 4; x++)
        if (l.MatchTerm(i, x) != (x == r.term(i))) c.fail("log-term", "MatchTerm(%d,%d) wrong", (int)i, (int)x);
  }
  uint64_t one = r.ents.empty() ? 10 : RealSize(r.first(), r.ents[0]);
  for (uint64_t lo = r.first(); lo <= r.last() + 1; lo++)
    for (uint64_t hi = lo; hi <= r.last() + 1; hi++)
      for (uint64_t max : {uint64_t(0), one, one * 2, one * 2 + 5, craft::RaftLog::kNoLimit}) {
        auto [es, s] = l.Slice(lo, hi, max);
        if (!s.IsOK()) c.fail("log-slice", "slice [%d,%d) fails: %s", (int)lo, (int)hi, s.Str());
        Same(c, r, es, RefSlice(r, lo, hi, max), Fmt("slice [%d,%d) limit %lld", (int)lo, (int)hi, (long long)max));
        c.step();
        if (max == craft::RaftLog::kNoLimit && (lo == hi - 1)) {
          auto [e2, s2] = l.Entries(lo, one);
          if (!s2.IsOK()) c.fail("log-slice", "entries from %d fail: %s", (int)lo, s2.Str());
          Same(c, r, e2, RefSlice(r, lo, r.last() + 1, one), Fmt("entries from %d", (int)lo));
        }
      }
  if (r.base) {
    auto [es, s] = l.Slice(r.base, r.last() + 1, craft::RaftLog::kNoLimit);
    if (s.IsOK() || !strstr(s.Str(), kErrCompacted)) c.fail("log-slice", "slice starting at compacted index %d does not say so", (int)r.base);
    auto [e2, s2] = l.Entries(r.base, craft::RaftLog::kNoLimit);
    if (s2.IsOK() && r.base <= r.last() && !r.ents.empty()) c.fail("log-slice", "entries from compacted index %d succeed", (int)r.base);
  }
  Same(c, r, l.AllEntries(), RefSlice(r, r.first(), r.last() + 1, craft::RaftLog::kNoLimit), "all entries");
  // unstable part: exactly what has not been acknowledged
  uint64_t uo = std::max(b.off, r.first());
  Same(c, r, l.UnstableEntries(), RefSlice(r, uo, r.last() + 1, craft::RaftLog::kNoLimit), "unstable entries");
  if (l.HasPendingSnapshot() != b.pend) c.fail("log-snapshot", "pending snapshot %d, should be %d", l.HasPendingSnapshot(), b.pend);
  auto [sn, ss] = l.Snapshot();
  uint64_t want_snap = b.pend ? r.base : b.ssnap;
  if (b.pend) want_snap = b.psnap->metadata().index();
  if (!ss.IsOK() || !sn || sn->metadata().index() != want_snap) c.fail("log-snapshot", "snapshot at %d, should be %d", sn ? (int)sn->metadata().index() : -1, (int)want_snap);
  // what may be applied
  uint64_t from = std::max(r.applied + 1, r.first());
  auto ne = l.NextEnts();
  std::vector<uint64_t> want;
  if (r.committed >= from) want = RefSlice(r, from, r.committed + 1, b.limit);
  Same(c, r, ne, want, "entries to apply");
  if (l.HasNextEnts() != (r.committed >= from)) c.fail("log-next", "HasNextEnts %d, committed %d applied %d", l.HasNextEnts(), (int)r.committed, (int)r.applied);
  // up-to-date comparison and conflict search by term
  for (uint64_t t = 0; t <= 4; t++)
    for (uint64_t i = 0; i <= r.last() + 1; i++) {
      uint64_t lt = r.term(r.last());
      if (l.IsUpToData(i, t) != (t > lt || (t == lt && i >= r.last()))) c.fail("log-uptodate", "IsUpToData(%d,%d) wrong against last %d/%d", (int)i, (int)t, (int)r.last(), (int)lt);
      if (i > r.last() || i < r.base) continue;
      uint64_t got = l.FindConflictByTerm(i, t), w = i;
      while (w > r.base && r.term(w) > t) w--;
      if (w == r.base && r.term(w) > t && r.base > 0) {
        if (got > r.base) c.fail("log-find-conflict", "FindConflictByTerm(%d,%d) = %d, no retained entry has such a term", (int)i, (int)t, (int)got);
      } else if (got != w) {
        c.fail("log-find-conflict", "FindConflictByTerm(%d,%d) = %d, should be %d", (int)i, (int)t, (int)got, (int)w);
      }
    }
  // storage content
  auto [sf, s1] = b.st->FirstIndex();
  auto [sl, s2] = b.st->LastIndex();
  if (sf != b.sbase + 1 || sl != b.sbase + b.sents.size()) c.fail("log-storage", "storage covers [%d,%d], should be [%d,%d]", (int)sf, (int)sl, (int)b.sbase + 1, (int)(b.sbase + b.sents.size()));
  for (auto& h : b.handed)
    for (size_t k = 0; k < h.copy.size(); k++)
      if (h.list.size() != h.copy.size() || h.list[k]->SerializeAsString() != h.copy[k]) c.fail("handed-out-changed", "entries handed out for %s changed afterwards", h.what);
  uint64_t hsh = r.base * 3 + r.committed * 17 + r.applied * 131 + b.off * 1009 + b.pend + b.sbase * 7;
  for (auto& e : r.ents) hsh = Mix(hsh, e.term * 8 + e.size);
  for (auto& e : b.sents) hsh = Mix(hsh, e.term * 8 + e.size + 100);
  c.state(hsh);
}

// persists what was taken, exactly as the README loop does
void Write(Box& b) {
  if (b.tks) {
    b.st->ApplySnapshot(b.tks);
    if (b.ssnap < b.tks->metadata().index()) {
      b.ssnap = b.sbase = b.tks->metadata().index();
      b.sbterm = b.tks->metadata().term();
      b.sents.clear();
    }
  }
  b.st->Append(b.tk);
  for (auto& e : b.tk) {
    if (e->index() <= b.sbase) continue;
    b.sents.resize(std::min<size_t>(b.sents.size(), e->index() - b.sbase - 1));
    b.sents.push_back({e->term(), (int)e->data().size()});
  }
  b.written = true;
}
void Stable(Box& b) {
  if (!b.tk.empty()) {
    auto& e = b.tk.back();
    b.log->StableTo(e->index(), e->term());
    // acknowledged iff the log still holds that very entry as not yet acknowledged
    if (e->index() >= b.off && b.r.term(e->index()) == e->term() && e->index() > b.r.base && e->index() <= b.r.last()) b.off = e->index() + 1;
  }
  if (b.tks) {
    b.log->StableSnapTo(b.tks->metadata().index());
    if (b.pend && b.psnap->metadata().index() == b.tks->metadata().index()) b.pend = false;
    if (b.tks->metadata().index() > b.r.applied && b.r.committed >= b.tks->metadata().index()) {
      b.log->AppliedTo(b.tks->metadata().index());
      b.r.applied = b.tks->metadata().index();
    }
  }
  b.taken = b.written = false;
  b.tk.clear();
  b.tks.reset();
}

void Setup(Ch& c, Box& b, int init, uint64_t limit) {
  b.st = std::make_shared<MemoryStorage>(QuietLogger());
  b.limit = limit;
  auto put = [&](std::vector<E> v) {
    EntryPtrs es;
    for (size_t k = 0; k < v.size(); k++) es.push_back(MkEnt(b.sbase + k + 1, v[k]));
    b.st->Append(es);
    b.sents = v;
    b.r.ents = v;
  };
  if (init == 1) {
    put({{1, 1}, {1, 9}, {2, 3}});
  } else if (init == 2 || init == 3) {
    b.st->ApplySnapshot(MkSnap(2, 1));
    b.sbase = b.r.base = 2;
    b.sbterm = b.r.bterm = 1;
    b.ssnap = 2;
    if (init == 2) put({{1, 3}, {2, 3}});
  }
  b.log = craft::RaftLog::NewWithSize(QuietLogger(), b.st, limit);
  b.r.committed = b.r.applied = b.r.base;
  b.off = b.r.last() + 1;
  if (init == 1) {
    b.log->CommitTo(2);
    b.log->AppliedTo(1);
    b.r.committed = 2;
    b.r.applied = 1;
  }
  c.note("start: storage [%d..%d] base %d committed %d applied %d apply limit %lld", (int)b.r.first(), (int)b.r.last(), (int)b.r.base, (int)b.r.committed, (int)b.r.applied, (long long)limit);
}

// one operation; returns false when nothing was left to do
void Op(Ch& c, Box& b) {
  Ref& r = b.r;
  struct O { int kind; uint64_t a; int n; };
  std::vector<O> ops;
  uint64_t cur = std::max<uint64_t>(1, r.term(r.last()));
  ops.push_back({0, r.last(), 1});
  ops.push_back({0, r.last(), 2});
  if (cur < 4)
    for (uint64_t a = r.last(); a + 1 > r.committed && a + 3 > r.last() && a >= r.base; a--) {
      if (a < r.last()) ops.push_back({1, a, 1});
      if (a + 1 == r.last()) ops.push_back({1, a, 2});
      if (a == 0) break;
    }
  if (!b.taken) ops.push_back({2, 0, 0});
  if (b.taken && !b.written) ops.push_back({3, 0, 0});
  if (b.taken && b.written) ops.push_back({4, 0, 0});
  if (r.committed < r.last()) {
    ops.push_back({5, r.committed + 1, 0});
    if (r.committed + 1 < r.last()) ops.push_back({5, r.last(), 0});
  }
  if (r.committed > r.applied && !b.pend) ops.push_back({6, 0, 0});
  // an application compacts only what it has applied and persisted
  uint64_t cmax = std::min(std::min(r.applied, b.off - 1), b.sbase + b.sents.size());
  if (!b.pend && cmax > b.sbase) {
    ops.push_back({7, cmax, 0});
    if (cmax - 1 > b.sbase) ops.push_back({7, cmax - 1, 0});
  }
  ops.push_back({8, r.last() + 2, 0});
  if (r.last() > r.committed + 1) ops.push_back({8, r.committed + 1, 0});
  O o = ops[c.pick((int)ops.size())];
  c.step();
  switch (o.kind) {
    case 0:
    case 1: {
      uint64_t t = cur + (o.kind == 1);
      EntryPtrs es;
      r.ents.resize(o.a - r.base);
      for (int k = 0; k < o.n; k++) {
        E e{t, k == 0 ? 3 : 9};
        es.push_back(MkEnt(o.a + 1 + k, e));
        r.ents.push_back(e);
      }
      uint64_t last = b.log->Append(es);
      if (last != r.last()) c.fail("log-append", "append returns last index %d, should be %d", (int)last, (int)r.last());
      b.off = std::min(b.off, o.a + 1);
      c.note("append %d entries of term %d after %d", o.n, (int)t, (int)o.a);
      break;
    }
    case 2:
      b.taken = true;
      b.tk = b.log->UnstableEntries();
      b.tks = b.pend ? b.log->UnstableSnapshot() : nullptr;
      if (b.pend && (!b.tks || b.tks->metadata().index() != b.psnap->metadata().index())) c.fail("log-snapshot", "pending snapshot not handed out");
      Hand(b, b.tk, "persisting");
      c.note("take %zu unstable entries%s", b.tk.size(), b.tks ? " and the snapshot" : "");
      break;
    case 3:
      Write(b);
      c.note("write them to storage");
      break;
    case 4:
      Stable(b);
      c.note("acknowledge them");
      break;
    case 5:
      b.log->CommitTo(o.a);
      r.committed = o.a;
      c.note("commit to %d", (int)o.a);
      break;
    case 6: {
      auto es = b.log->NextEnts();
      Hand(b, es, "applying");
      if (es.empty()) c.fail("log-next", "nothing to apply although committed %d > applied %d", (int)r.committed, (int)r.applied);
      r.applied = es.back()->index();
      b.log->AppliedTo(r.applied);
      c.note("apply up to %d", (int)r.applied);
      break;
    }
    case 7:
      b.sbterm = b.sents[o.a - b.sbase - 1].term;
      b.sents.erase(b.sents.begin(), b.sents.begin() + (o.a - b.sbase));
      b.sbase = o.a;
      if (auto s = b.st->Compact(o.a); !s.IsOK()) c.fail("log-storage", "compaction to %d refused: %s", (int)o.a, s.Str());
      r.bterm = r.term(o.a);
      r.ents.erase(r.ents.begin(), r.ents.begin() + (o.a - r.base));
      r.base = o.a;
      c.note("compact storage to %d", (int)o.a);
      break;
    case 8: {
      uint64_t t = cur + (cur < 4);
      b.psnap = MkSnap(o.a, t);
      b.log->Restore(b.psnap);
      b.pend = true;
      r.base = o.a;
      r.bterm = t;
      r.ents.clear();
      r.committed = o.a;
      b.off = o.a + 1;
      c.note("restore snapshot %d/%d", (int)o.a, (int)t);
      break;
    }
  }
  if (c.fresh()) Observe(c, b);
}

}  // namespace

UNIT(raftlog_seq, Fmt("from 4 starting logs (empty, stored entries, after a snapshot with and without entries) and 2 apply limits: every sequence of %d operations (append, replace suffix, take/write/acknowledge unstable, commit, apply, compact, restore), all reads checked after each", (thorough ? 6 : 5) - kLess)) {
  Box b;
  static const uint64_t lim[] = {craft::RaftLog::kNoLimit, 14};
  int init = c.pick(4);
  uint64_t l = lim[c.pick(2)];
  Setup(c, b, init, l);
  if (c.fresh()) Observe(c, b);
  int n = (c.thorough ? 6 : 5) - kLess;
  for (int k = 0; k < n; k++) Op(c, b);
}

UNIT(raftlog_maybe_append, Fmt("every local log of terms <=3 up to length %d, every commit point and compaction point, every leader log agreeing with it by log matching, every (previous index, entry count, commit) sent from it", thorough ? 5 : 4)) {
  int maxlen = c.thorough ? 5 : 4;
  auto pickLog = [&]() {
    int n = c.pick(maxlen + 1);
    std::vector<uint64_t> v;
    uint64_t t = 1;
    for (int k = 0; k < n; k++) { t += c.pick((int)(4 - t)); v.push_back(t); }
    return v;
  };
  auto F = pickLog(), L = pickLog();
  for (size_t i = 0; i < std::min(F.size(), L.size()); i++)
    if (F[i] == L[i] && i > 0 && F[i - 1] != L[i - 1]) { c.note("not a log-matching pair"); return; }
  size_t common = 0;
  while (common < std::min(F.size(), L.size()) && F[common] == L[common]) common++;
  uint64_t committed = c.pick((int)common + 1);
  uint64_t comp = c.pick((int)committed + 1);
  uint64_t stable = comp + c.pick((int)(F.size() - comp) + 1);
  for (uint64_t prev = comp; prev <= L.size(); prev++)
    for (uint64_t cnt = 0; prev + cnt <= L.size(); cnt++)
      for (uint64_t lc = 0; lc <= L.size(); lc++) {
        auto st = std::make_shared<MemoryStorage>(QuietLogger());
        if (comp) st->ApplySnapshot(MkSnap(comp, F[comp - 1]));
        EntryPtrs es, un;
        for (uint64_t i = comp + 1; i <= F.size(); i++) (i <= stable ? es : un).push_back(MkEnt(i, {F[i - 1], 3}));
        st->Append(es);
        auto log = craft::RaftLog::New(QuietLogger(), st);
        if (!un.empty()) log->Append(un);
        log->CommitTo(committed);
        EntryPtrs ms;
        for (uint64_t i = prev + 1; i <= prev + cnt; i++) ms.push_back(MkEnt(i, {L[i - 1], 3}));
        uint64_t pt = prev == 0 ? 0 : L[prev - 1];
        // an append that starts below the commit index is answered before MaybeAppend
        if (prev < committed && prev + cnt > 0 && prev < comp) continue;
        bool match = prev <= F.size() && (prev == 0 || F[prev - 1] == pt);
        auto want = F;
        uint64_t wc = committed;
        if (match) {
          bool conflict = false;
          for (uint64_t i = prev + 1; i <= prev + cnt; i++)
            if (i > want.size() || want[i - 1] != L[i - 1]) { conflict = true; break; }
          if (conflict) {
            want.assign(L.begin(), L.begin() + prev + cnt);
          }
          wc = std::max(wc, std::min(lc, prev + cnt));
        }
        auto [li, ok] = log->MaybeAppend(prev, pt, lc, ms);
        c.step();
        std::string ctx = Fmt("log");
        auto str = [](const std::vector<uint64_t>& v) { std::string s; for (auto t : v) s += Fmt("%d", (int)t); return s; };
        ctx = Fmt("log %s (committed %d, compacted %d, stored to %d), append prev %d/%d +%d entries of %s commit %d", str(F).c_str(), (int)committed, (int)comp, (int)stable, (int)prev, (int)pt, (int)cnt, str(L).c_str(), (int)lc);
        if (ok != match) c.fail("append-accept", "%s: accepted=%d, should be %d", ctx.c_str(), ok, match);
        if (ok && li != prev + cnt) c.fail("append-ack", "%s: acknowledges %d", ctx.c_str(), (int)li);
        if (log->LastIndex() != want.size()) c.fail("append-result", "%s: log ends at %d, should be %zu", ctx.c_str(), (int)log->LastIndex(), want.size());
        for (uint64_t i = std::max<uint64_t>(1, comp); i <= want.size(); i++)
          if (std::get<0>(log->Term(i)) != want[i - 1]) c.fail("append-result", "%s: entry %d has term %d, should be %d", ctx.c_str(), (int)i, (int)std::get<0>(log->Term(i)), (int)want[i - 1]);
        if (log->Committed() != wc) c.fail("append-commit", "%s: commit %d, should be %d", ctx.c_str(), (int)log->Committed(), (int)wc);
      }
  uint64_t h = committed * 31 + comp * 7 + stable;
  for (auto t : F) h = h * 5 + t;
  for (auto t : L) h = h * 5 + t;
  c.state(Mix(h, F.size()));
  std::string f, l;
  for (auto t : F) f += Fmt("%d", (int)t);
  for (auto t : L) l += Fmt("%d", (int)t);
  c.note("local %s leader %s committed %d compacted %d stored %d: every append", f.c_str(), l.c_str(), (int)committed, (int)comp, (int)stable);
}
