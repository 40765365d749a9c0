// C10: quorum arithmetic, tracker-level decisions.
#include <set>

#include "src/quorum/joint.h"
#include "src/quorum/majority.h"
#include "src/tracker/tracker.h"
#include "units.h"

using namespace craft;
using namespace hx;

namespace {

const uint64_t kAbsent = ~0ull;

// the definition: the largest value v such that more than half of the members
// have acknowledged at least v (members without acknowledgement count as 0)
uint64_t RefCommitted(const std::set<uint64_t>& voters, const std::map<uint64_t, uint64_t>& acked) {
  if (voters.empty()) return ~0ull;
  std::set<uint64_t> cand{0};
  for (auto& p : acked) cand.insert(p.second);
  uint64_t best = 0;
  for (uint64_t v : cand) {
    size_t n = 0;
    for (uint64_t id : voters) {
      auto it = acked.find(id);
      uint64_t a = it == acked.end() ? 0 : it->second;
      if (a >= v) n++;
    }
    if (n * 2 > voters.size()) best = std::max(best, v);
  }
  return best;
}
int RefVote(const std::set<uint64_t>& voters, const std::map<uint64_t, bool>& votes) {
  if (voters.empty()) return kVoteWon;
  size_t yes = 0, no = 0;
  for (uint64_t id : voters) {
    auto it = votes.find(id);
    if (it == votes.end()) continue;
    (it->second ? yes : no)++;
  }
  if (yes * 2 > voters.size()) return kVoteWon;
  if ((voters.size() - no) * 2 <= voters.size()) return kVoteLost;
  return kVotePending;
}
int RefJoint(int a, int b) {
  if (a == b) return a;
  if (a == kVoteLost || b == kVoteLost) return kVoteLost;
  return kVotePending;
}
std::string SetStr(const std::set<uint64_t>& s) {
  std::string r = "{";
  for (uint64_t x : s) r += (r.size() > 1 ? " " : "") + std::to_string(x);
  return r + "}";
}
std::string MapStr(const std::map<uint64_t, uint64_t>& m) {
  std::string r = "{";
  for (auto& p : m) r += (r.size() > 1 ? " " : "") + std::to_string(p.first) + ":" + std::to_string(p.second);
  return r + "}";
}
uint64_t Id(int scheme, int k) {
  static const uint64_t odd[] = {3, 7, 1000000007ull, 1ull << 40, (1ull << 63) + 5, ~0ull - 1, 12, 90, 91, 1ull << 33, 44};
  return scheme == 0 ? k + 1 : odd[k];
}
uint64_t Val(int scheme, int k) {  // increasing
  static const uint64_t small[] = {0, 1, 2, 3, 4, 5};
  static const uint64_t big[] = {0, (1ull << 32) - 1, 1ull << 32, (1ull << 63) + 1, ~0ull - 1};
  return scheme == 0 ? small[k] : big[k];
}

}  // namespace

// one voter set over up to 5 ids with every acknowledgement map
UNIT(majority_ack, Fmt("all voter subsets of %d ids x acknowledgement maps over all %d ids with values absent,0..%d, two id/value schemes", 5, 5, thorough ? 4 : 3)) {
  int scheme = c.pick(2), mask = c.pick(32);
  int nv = c.thorough && !scheme ? 6 : 5;
  std::set<uint64_t> voters;
  std::map<uint64_t, uint64_t> acked;
  for (int k = 0; k < 5; k++) {
    if (mask >> k & 1) voters.insert(Id(scheme, k));
    int v = c.pick(nv);
    if (v) acked[Id(scheme, k)] = Val(scheme, v - 1);
  }
  MajorityConfig cfg(voters);
  MapAckIndexer ix(acked);
  uint64_t got = cfg.CommittedIndex(ix), want = RefCommitted(voters, acked);
  c.step();
  c.state(got * 131 + mask);
  c.note("voters %s acked %s -> %llu", SetStr(voters).c_str(), MapStr(acked).c_str(), (unsigned long long)got);
  if (got != want)
    c.fail("committed-index", "voters %s acked %s: library says %llu, majority definition says %llu", SetStr(voters).c_str(), MapStr(acked).c_str(), (unsigned long long)got, (unsigned long long)want);
  // what stands next to "has not acknowledged anything" must not matter
  struct Noisy : AckedIndexer {
    const std::map<uint64_t, uint64_t>* m;
    std::tuple<Index, bool> AckedIndex(uint64_t id) const override {
      auto it = m->find(id);
      return it == m->end() ? std::make_tuple(Index(4711), false) : std::make_tuple(Index(it->second), true);
    }
  } noisy;
  noisy.m = &acked;
  if (cfg.CommittedIndex(noisy) != want) c.fail("committed-index", "members that have not acknowledged count: voters %s acked %s", SetStr(voters).c_str(), MapStr(acked).c_str());
  if (cfg.IDs() != voters || cfg.Size() != voters.size()) c.fail("committed-index", "computing the committed index changed the configuration");
}

// larger sets (beyond the usual small-size fast paths)
UNIT(majority_large, "voter sets of every size 6..11 with values absent,0,1,2 as a multiset placed in every rotation, plus votes") {
  int n = 6 + c.pick(6);
  int rot = c.pick(3), scheme = c.pick(2);
  int left = n;
  std::vector<int> cnt(4);
  for (int k = 0; k < 3; k++) { cnt[k] = c.pick(left + 1); left -= cnt[k]; }
  cnt[3] = left;
  std::set<uint64_t> voters;
  std::map<uint64_t, uint64_t> acked;
  std::map<uint64_t, bool> votes;
  std::vector<int> vals;
  for (int k = 0; k < 4; k++) for (int j = 0; j < cnt[k]; j++) vals.push_back(k);
  for (int k = 0; k < n; k++) {
    int v = vals[(size_t)(k * (rot == 0 ? 1 : rot == 1 ? n - 1 : 1) + (rot == 2 ? n / 2 : 0)) % n];
    voters.insert(Id(scheme, k));
    if (v) acked[Id(scheme, k)] = Val(scheme, v - 1);
    if (v == 1) votes[Id(scheme, k)] = false;
    if (v >= 2) votes[Id(scheme, k)] = true;
  }
  acked[77777] = Val(scheme, 4);  // not a member
  votes[77777] = true;
  votes[77778] = false;
  MajorityConfig cfg(voters);
  uint64_t got = cfg.CommittedIndex(MapAckIndexer(acked)), want = RefCommitted(voters, acked);
  c.step();
  c.state(n * 1000003 + got + cnt[0] * 31 + cnt[1]);
  c.note("%d voters acked %s -> %llu", n, MapStr(acked).c_str(), (unsigned long long)got);
  if (got != want) c.fail("committed-index", "%d voters %s acked %s: library says %llu, definition says %llu", n, SetStr(voters).c_str(), MapStr(acked).c_str(), (unsigned long long)got, (unsigned long long)want);
  int gv = cfg.VoteResult(votes), wv = RefVote(voters, votes);
  if (gv != wv) c.fail("vote-result", "%d voters: library says %d, definition says %d (yes %d no %d)", n, gv, wv, cnt[2] + cnt[3], cnt[1]);
  JointConfig j(voters, std::set<uint64_t>{Id(scheme, 0), Id(scheme, 1)});
  std::set<uint64_t> o{Id(scheme, 0), Id(scheme, 1)};
  uint64_t gj = j.CommittedIndex(MapAckIndexer(acked)), wj = std::min(want, RefCommitted(o, acked));
  if (gj != wj) c.fail("committed-index", "joint with a large half: library says %llu, definition says %llu", (unsigned long long)gj, (unsigned long long)wj);
}

UNIT(joint_ack, Fmt("all pairs of voter subsets of 4 ids (both halves possibly empty) x acknowledgement maps with values absent,0..%d, members and non-members", thorough ? 3 : 2)) {
  int scheme = c.pick(2), mask = c.pick(256);
  std::set<uint64_t> a, b;
  std::map<uint64_t, uint64_t> acked;
  int nv = c.thorough ? 5 : 4;
  for (int k = 0; k < 4; k++) {
    if (mask >> k & 1) a.insert(Id(scheme, k));
    if (mask >> (4 + k) & 1) b.insert(Id(scheme, k));
    int v = c.pick(nv);
    if (v) acked[Id(scheme, k)] = Val(scheme, v - 1);
  }
  JointConfig j(a, b);
  uint64_t got = j.CommittedIndex(MapAckIndexer(acked)), want = std::min(RefCommitted(a, acked), RefCommitted(b, acked));
  c.step();
  c.state(got * 1009 + mask);
  c.note("%s&&%s acked %s -> %llu", SetStr(a).c_str(), SetStr(b).c_str(), MapStr(acked).c_str(), (unsigned long long)got);
  if (got != want) c.fail("committed-index", "%s&&%s acked %s: library says %llu, definition says %llu", SetStr(a).c_str(), SetStr(b).c_str(), MapStr(acked).c_str(), (unsigned long long)got, (unsigned long long)want);
  std::set<uint64_t> ids = j.IDs(), un = a;
  un.insert(b.begin(), b.end());
  if (ids != un) c.fail("joint-ids", "members of %s&&%s reported as %s", SetStr(a).c_str(), SetStr(b).c_str(), SetStr(ids).c_str());
}

UNIT(joint_vote, "all pairs of voter subsets of 5 ids x vote maps absent/no/yes over all 5 ids") {
  int m1 = c.pick(32), m2 = c.pick(32);
  std::set<uint64_t> a, b;
  for (int k = 0; k < 5; k++) {
    if (m1 >> k & 1) a.insert(Id(0, k));
    if (m2 >> k & 1) b.insert(Id(0, k));
  }
  MajorityConfig ma(a);
  JointConfig j(a, b);
  for (int v = 0; v < 243; v++) {
    std::map<uint64_t, bool> votes;
    int x = v;
    for (int k = 0; k < 5; k++, x /= 3)
      if (x % 3) votes[Id(0, k)] = x % 3 == 2;
    int want = RefJoint(RefVote(a, votes), RefVote(b, votes));
    int got = j.VoteResult(votes), got1 = ma.VoteResult(votes), want1 = RefVote(a, votes);
    c.step();
    if (got1 != want1) c.fail("vote-result", "voters %s, vote pattern %d (ternary, absent/no/yes): library %d, definition %d", SetStr(a).c_str(), v, got1, want1);
    if (got != want) c.fail("vote-result", "%s&&%s, vote pattern %d: library %d, definition %d", SetStr(a).c_str(), SetStr(b).c_str(), v, got, want);
  }
  c.state(m1 * 32 + m2);
  c.note("%s&&%s: all 243 vote maps", SetStr(a).c_str(), SetStr(b).c_str());
}

// the tracker: same arithmetic over progress records, learners and strangers excluded
UNIT(tracker_quorum, "every role assignment (none, voter, outgoing voter, both, learner, staged learner) of 4 ids x match in {0,1,2} x activity; every vote recording of up to 5 responses incl. repeats and strangers") {
  std::set<uint64_t> in, outg, learn, next;
  ProgressTracker t(8);
  ProgressMap pm;
  std::map<uint64_t, uint64_t> acked;
  std::map<uint64_t, bool> active;
  int roles = 0;
  int mode = c.pick(2);
  for (int k = 0; k < 4; k++) {
    int r = c.pick(6);
    roles = roles * 6 + r;
    uint64_t id = k + 1;
    if (r == 0) continue;
    if (r == 1 || r == 3) in.insert(id);
    if (r == 2 || r == 3 || r == 5) outg.insert(id);
    if (r == 4) learn.insert(id);
    if (r == 5) next.insert(id);
    auto pr = std::make_shared<Progress>(QuietLogger(), 5, 0, 8, r == 4, false);
    if (mode == 0) {
      int m = c.pick(3);
      pr->SetMatch(m);
      pr->SetNext(m + 1);
      if (r != 4) acked[id] = m;
    } else {
      bool act = c.flip();
      pr->SetRecentActive(act);
      if (r != 4) active[id] = act;
    }
    pm[id] = pr;
  }
  ProgressTracker::Config cfg;
  cfg.voters = JointConfig(in, outg);
  cfg.learners = learn;
  cfg.learners_next = next;
  t.SetConfig(cfg);
  t.SetProgressMap(pm);
  c.state(roles);
  c.note("voters %s&&%s learners %s next %s match %s", SetStr(in).c_str(), SetStr(outg).c_str(), SetStr(learn).c_str(), SetStr(next).c_str(), MapStr(acked).c_str());
  if (mode == 0) {
    uint64_t got = t.Committed(), want = std::min(RefCommitted(in, acked), RefCommitted(outg, acked));
    c.step();
    if (got != want) c.fail("committed-index", "tracker with voters %s&&%s learners %s match %s: library %llu, definition %llu", SetStr(in).c_str(), SetStr(outg).c_str(), SetStr(learn).c_str(), MapStr(acked).c_str(), (unsigned long long)got, (unsigned long long)want);
    if (t.IsSingleton() != (in.size() == 1 && outg.empty())) c.fail("singleton", "IsSingleton wrong for %s&&%s", SetStr(in).c_str(), SetStr(outg).c_str());
    auto cs = t.ConfState();
    auto same = [&](const auto& f, const std::set<uint64_t>& s) { return std::set<uint64_t>(f.begin(), f.end()) == s && (size_t)f.size() == s.size(); };
    if (!same(cs.voters(), in) || !same(cs.voters_outgoing(), outg) || !same(cs.learners(), learn) || !same(cs.learners_next(), next) || cs.auto_leave())
      c.fail("conf-state", "ConfState of the tracker does not list voters %s&&%s learners %s next %s", SetStr(in).c_str(), SetStr(outg).c_str(), SetStr(learn).c_str(), SetStr(next).c_str());
  } else {
    bool got = t.QuorumActive(), want = RefJoint(RefVote(in, active), RefVote(outg, active)) == kVoteWon;
    c.step();
    if (got != want) c.fail("quorum-active", "voters %s&&%s learners %s: library says quorum active=%d, definition %d", SetStr(in).c_str(), SetStr(outg).c_str(), SetStr(learn).c_str(), got, want);
  }
}

UNIT(tracker_votes, "voters/outgoing/learner/stranger roles of 4 ids x every sequence of up to 4 (thorough 5) recorded votes, ids 1..5, yes/no, repeats") {
  static const int kRoles[][4] = {{1, 1, 1, 0}, {1, 1, 1, 4}, {3, 3, 1, 2}, {1, 2, 2, 2}, {1, 1, 4, 4}, {3, 3, 5, 4}, {1, 0, 0, 0}, {1, 1, 1, 1}};
  int ri = c.pick(8);
  std::set<uint64_t> in, outg, learn;
  ProgressTracker t(8);
  ProgressMap pm;
  for (int k = 0; k < 4; k++) {
    int r = kRoles[ri][k];
    uint64_t id = k + 1;
    if (r == 0) continue;
    if (r == 1 || r == 3) in.insert(id);
    if (r == 2 || r == 3 || r == 5) outg.insert(id);
    if (r == 4) learn.insert(id);
    pm[id] = std::make_shared<Progress>(QuietLogger(), 5, 0, 8, r == 4, false);
  }
  ProgressTracker::Config cfg;
  cfg.voters = JointConfig(in, outg);
  cfg.learners = learn;
  t.SetConfig(cfg);
  t.SetProgressMap(pm);
  std::map<uint64_t, bool> votes;
  int n = c.thorough ? 5 : 4;
  for (int s = 0; s < n; s++) {
    int p = c.pick(11);
    if (p == 10) { t.ResetVotes(); votes.clear(); c.note("reset"); }
    else {
      uint64_t id = p / 2 + 1;
      bool v = p & 1;
      t.RecordVote(id, v);
      votes.emplace(id, v);  // the first answer counts
      c.note("vote %llu %d", (unsigned long long)id, v);
    }
    int g = 0, r = 0;
    for (auto& x : votes)
      if (pm.count(x.first) && !learn.count(x.first)) (x.second ? g : r)++;
    auto [gg, gr, res] = t.TallyVotes();
    int want = RefJoint(RefVote(in, votes), RefVote(outg, votes));
    c.step();
    if (res != want) c.fail("vote-result", "tally over %s&&%s: library %d, definition %d", SetStr(in).c_str(), SetStr(outg).c_str(), (int)res, want);
    if (gg != g || gr != r) c.fail("vote-count", "tally counts granted %d rejected %d, should be %d and %d", gg, gr, g, r);
  }
  uint64_t h = ri;
  for (auto& x : votes) h = h * 31 + x.first * 2 + x.second;
  c.state(h);
}
