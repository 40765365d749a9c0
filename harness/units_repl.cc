// Replication between a real leader and a real follower, and the leader's
// bookkeeping (C13 flow control, C14 uncommitted quota, C32 append acceptance).
#include <algorithm>

#include "node_box.h"

using namespace craft;
using namespace hx;

namespace {

// nondecreasing term sequences of length <= n over 1..t
void Seqs(int n, int t, std::vector<U64> cur, std::vector<std::vector<U64>>* out) {
  out->push_back(cur);
  if ((int)cur.size() == n) return;
  for (U64 x = cur.empty() ? 1 : cur.back(); x <= (U64)t; x++) {
    auto c = cur;
    c.push_back(x);
    Seqs(n, t, c, out);
  }
}
U64 Common(const std::vector<U64>& a, const std::vector<U64>& b) {
  U64 p = 0;
  while (p < a.size() && p < b.size() && a[p] == b[p]) p++;
  return p;
}
bool Legal(const std::vector<U64>& a, const std::vector<U64>& b) {
  U64 p = Common(a, b);
  for (U64 i = p; i < a.size() && i < b.size(); i++)
    if (a[i] == b[i]) return false;
  return true;
}
size_t Distinct(const std::vector<U64>& a) { return std::set<U64>(a.begin(), a.end()).size(); }
std::string Data(U64 i, U64 t) { return Fmt("e%d.%d", (int)i, (int)t); }

// makes the node leader of the next term with the vote of 3
void Elect(Ch& c, Box& b, U64 voter = 3) {
  b.n->Campaign();
  b.Drain();
  b.Step(MkMsg(raftpb::MsgVoteResp, voter, b.cfg.id, b.term()));
  if (b.role() != kLeader) c.viol({23, 2}, "not-elected", "no leader after a quorum of votes");
}

bool SameLog(Box& a, Box& b) {
  if (a.last() != b.last()) return false;
  for (U64 i = std::max(a.st->base, b.st->base) + 1; i <= a.last(); i++)
    if (a.st->ents[i - a.st->base - 1]->SerializeAsString() != b.st->ents[i - b.st->base - 1]->SerializeAsString()) return false;
  return true;
}

struct Before {
  std::vector<U64> log;
  std::vector<std::string> bytes;
  U64 commit, base;
};
Before Look(Box& b) {
  Before x;
  x.log = b.Terms();
  x.commit = b.commit();
  x.base = b.st->base;
  for (auto& e : b.st->ents) x.bytes.push_back(e->SerializeAsString());
  return x;
}
U64 TermAt(const Before& x, U64 i, U64 bterm) { return i == 0 ? 0 : i == x.base ? bterm : i < x.base ? ~0ull : x.log[i - x.base - 1]; }

// Judges the follower's reaction to one append of the current term.
// full: the follower's whole log in terms from 1 (compacted part included), updated here.
void JudgeAppend(Ch& c, Box& b, const MsgPtr& m, const Before& x, std::vector<U64>& full, const std::vector<U64>& lead_log, std::vector<MsgPtr>& out, bool* rejected) {
  *rejected = false;
  MsgPtr r;
  int n = 0;
  for (auto& y : out)
    if (y->type() == raftpb::MsgAppResp) { r = y; n++; }
  std::string what = Show(m) + " at a follower with log " + Show(full) + Fmt(" commit %d base %d", (int)x.commit, (int)x.base);
  if (n != 1) c.viol({32, 35}, "answers", "%d answers to %s", n, what.c_str());
  auto now = Look(b);
  U64 prev = m->index(), k = m->entries_size();
  if (b.commit() < x.commit) c.viol({5, 32}, "commit-regress", "commit index fell from %d to %d on %s", (int)x.commit, (int)b.commit(), what.c_str());
  // Whatever the answer: what is newly committed (and handed to the application) is the leader's.
  for (U64 i = std::max(x.commit, now.base) + 1; i <= now.commit; i++)
    if (i > lead_log.size() || i - now.base > now.log.size() || now.log[i - now.base - 1] != lead_log[i - 1]) c.viol({4, 5, 7, 32}, "committed-foreign", "entry %d, which is not the leader's, is committed after %s", (int)i, what.c_str());
  bool past = prev < x.commit;
  bool match = !past && prev <= full.size() && (prev == 0 || full[prev - 1] == m->logterm());
  if (past || !match) {
    if (now.bytes != x.bytes || now.log != x.log) c.viol({32, 5}, "log-touched", "the log changed to %s on %s", Show(now.log).c_str(), what.c_str());
    if (now.commit != x.commit) c.viol({32, 7, 5}, "commit-moved", "the commit index moved to %d on %s", (int)now.commit, what.c_str());
  }
  if (past) {
    if (r->reject() || r->index() != x.commit) c.viol({32, 35}, "ack-committed", "%s answered with %s", what.c_str(), Show(r).c_str());
    return;
  }
  if (!match) {
    if (!r->reject()) c.viol({32, 3}, "accepted", "%s was accepted: %s", what.c_str(), Show(r).c_str());
    *rejected = true;
    U64 p = Common(full, lead_log);
    if (r->index() != prev) c.viol({32, 35}, "reject-index", "%s rejected with index %d", what.c_str(), (int)r->index());
    if (r->rejecthint() < std::min<U64>(p, prev) || r->rejecthint() > std::min<U64>(prev, full.size())) c.viol({32, 35}, "hint", "%s rejected with hint %d; the last common entry is %d", what.c_str(), (int)r->rejecthint(), (int)p);
    U64 ht = r->rejecthint() == 0 ? 0 : full[r->rejecthint() - 1];
    if (r->logterm() != ht && r->rejecthint() >= x.base) c.viol({32, 35}, "hint-term", "%s rejected with hint %d/%d, that entry has term %d", what.c_str(), (int)r->rejecthint(), (int)r->logterm(), (int)ht);
    return;
  }
  if (r->reject()) c.viol({32, 23}, "rejected", "%s was rejected", what.c_str());
  if (r->index() != prev + k) c.viol({32, 7, 13, 35}, "ack", "%s acknowledged up to %d", what.c_str(), (int)r->index());
  // expected log
  auto want = full;
  for (U64 i = 0; i < k; i++) {
    U64 at = prev + 1 + i;
    if (at <= want.size() && want[at - 1] == m->entries(i).term()) continue;
    want.resize(at - 1);
    want.push_back(m->entries(i).term());
  }
  U64 wc = std::max(x.commit, std::min<U64>(m->commit(), prev + k));
  std::vector<U64> tail(want.begin() + std::min<U64>(x.base, want.size()), want.end());
  if (now.log != tail) c.viol({32, 3, 5}, "log", "the log from %d on is %s after %s, should be %s", (int)x.base + 1, Show(now.log).c_str(), what.c_str(), Show(tail).c_str());
  if (now.commit != wc) c.viol({32, 7}, "commit", "commit index %d after %s, should be %d", (int)now.commit, what.c_str(), (int)wc);
  for (U64 i = x.base + 1; i <= want.size(); i++) {
    auto& e = b.st->ents[i - x.base - 1];
    if (e->index() != i || e->term() != want[i - 1] || e->data() != Data(i, want[i - 1]))
      if (!(e->data().empty() && want[i - 1] == 4)) c.viol({32, 3, 25}, "content", "entry %d is %s after %s", (int)i, e->ShortDebugString().c_str(), what.c_str());
  }
  full = want;
}

void Fill(Box& b, const std::vector<U64>& terms) {
  for (U64 t : terms) b.st->ents.push_back(MkEnt(b.st->last() + 1, t, Data(b.st->last() + 1, t)));
}

}  // namespace

UNIT(follower_append, Fmt("every pair of follower and leader logs (length <= %d, terms <= 3 resp. 4) that log matching allows, every commit index and compaction of the follower up to the common prefix; every sequence of 2 append messages cut out of the leader's log (any start, any number of entries, any commit index)", (thorough ? 4 : 3) - kLess)) {
  static std::vector<std::vector<U64>> fs, ls;
  static int made = 0;
  int n = (c.thorough ? 4 : 3) - kLess;
  if (made != n) {
    fs.clear();
    ls.clear();
    Seqs(n, 3, {}, &fs);
    Seqs(n, 4, {}, &ls);
    made = n;
  }
  auto f = fs[c.pick((int)fs.size())];
  std::vector<int> ok;
  for (size_t i = 0; i < ls.size(); i++)
    if (Legal(f, ls[i])) ok.push_back((int)i);
  auto l = ls[ok[c.pick((int)ok.size())]];
  U64 p = Common(f, l);
  U64 commit = c.pick((int)p + 1);
  U64 base = c.pick(2) ? commit : 0;
  Box b(1);
  b.st->cs = Conf({1, 2, 3});
  Fill(b, f);
  b.Hard(3, 0, commit);
  if (base) b.st->Compact(base, base, b.st->cs);
  b.cfg.applied = commit;
  b.Start();
  b.Drain();
  c.note("follower log %s commit %d base %d, leader log %s", Show(f).c_str(), (int)commit, (int)base, Show(l).c_str());
  auto full = f;
  for (int s = 0; s < 2; s++) {
    U64 prev = c.pick((int)l.size() + 1);
    U64 k = c.pick((int)(l.size() - prev) + 1);
    U64 lo = s == 0 || l.size() < 3 ? 0 : l.size() - 2;
    U64 cm = lo + c.pick((int)(l.size() - lo) + 1);
    auto m = MkMsg(raftpb::MsgApp, 2, 1, 4);
    m->set_index(prev);
    m->set_logterm(prev ? l[prev - 1] : 0);
    m->set_commit(cm);
    for (U64 i = 0; i < k; i++) *m->add_entries() = *MkEnt(prev + 1 + i, l[prev + i], Data(prev + 1 + i, l[prev + i]));
    // a leader never reports more committed than it has, and the follower's log never conflicts with that
    c.note("%s", Show(m).c_str());
    c.step();
    auto x = Look(b);
    b.Step(m);
    auto out = b.Take();
    bool rej;
    if (c.fresh()) {
      JudgeAppend(c, b, m, x, full, l, out, &rej);
    } else {
      auto t = b.Terms();
      full.resize(b.st->base);
      full.insert(full.end(), t.begin(), t.end());
    }
    if (b.lead() != 2) c.viol({31, 25}, "lead", "the sender of an append is not known as leader");
  }
  c.state(HashStr(Show(full), commit * 8 + base));
}

UNIT(probe_converges, Fmt("every pair of leader and follower logs (length <= %d, terms <= %d) that log matching allows, every commit index of the follower, the leader's the same or at its end, follower and leader compacted or not: the new leader and the follower exchange messages until quiet; entries limited to one per message with a window of 16, or no limits", (thorough ? 6 : 5) - kLess, thorough ? 4 : 3)) {
  static std::vector<std::vector<U64>> ls;
  static int made = 0;
  int n = (c.thorough ? 6 : 5) - kLess;
  if (made != n) {
    ls.clear();
    Seqs(n, c.thorough ? 4 : 3, {}, &ls);
    made = n;
  }
  U64 top = c.thorough ? 4 : 3;
  auto f = ls[c.pick((int)ls.size())];
  std::vector<int> ok;
  for (size_t i = 0; i < ls.size(); i++)
    if (Legal(f, ls[i])) ok.push_back((int)i);
  auto l = ls[ok[c.pick((int)ok.size())]];
  U64 p = Common(f, l);
  U64 commit = c.pick((int)p + 1);
  int mode = c.pick(4);  // bit 0: follower compacted, bit 1: leader compacted at the commit index
  bool one = c.flip();
  if (commit == 0 && mode) return;
  U64 lead_commit = c.pick(2) ? l.size() : commit;  // what the leader knows to be committed
  if (lead_commit != commit && (lead_commit < commit || mode == 3)) return;
  Box lb(1), fb(2);
  for (Box* b : {&lb, &fb}) {
    b->st->cs = Conf({1, 2, 3});
    Fill(*b, b == &lb ? l : f);
    b->Hard(top, 0, b == &lb ? lead_commit : commit);
    b->cfg.applied = commit;
    if (one) b->cfg.max_size_per_msg = 0;
    else b->cfg.max_inflight_msgs = INT64_MAX;  // no limit
    if (mode & (b == &lb ? 2 : 1)) b->st->Compact(commit, commit, b->st->cs);
    b->Start();
    b->Drain();
  }
  c.note("leader log %s, follower log %s, commit %d, leader's %d, mode %d%s", Show(l).c_str(), Show(f).c_str(), (int)commit, (int)lead_commit, mode, one ? ", one entry per message" : "");
  c.step();
  Elect(c, lb);
  auto lead_log = l;
  lead_log.push_back(top + 1);
  auto full = f;
  int rejects = 0, rounds = 0;
  std::deque<MsgPtr> q;
  auto collect = [&] {
    for (auto& m : lb.Take())
      if (m->to() == 2) q.push_back(m);
  };
  collect();
  while (!q.empty()) {
    if (++rounds > 60) c.viol({32, 13, 23}, "no-end", "leader %s and follower %s exchange messages for ever", Show(l).c_str(), Show(f).c_str());
    auto m = q.front();
    q.pop_front();
    c.note("%s", Show(m).c_str());
    auto x = Look(fb);
    fb.Step(m);
    auto out = fb.Take();
    bool rej = false;
    if (m->type() == raftpb::MsgApp && m->term() == top + 1) {
      // the terms of the leader's entries name their content, except for its own empty entry
      auto mm = m;
      JudgeAppend(c, fb, mm, x, full, lead_log, out, &rej);
    }
    if (rej) rejects++;
    for (auto& r : out)
      if (r->to() == 1) {
        c.note("%s", Show(r).c_str());
        lb.Step(r);
        collect();
      }
  }
  if (!SameLog(lb, fb)) c.viol({32, 13, 23}, "logs-differ", "after the exchange leader %s and follower %s", Show(lb.Terms()).c_str(), Show(fb.Terms()).c_str());
  size_t bound = std::max<size_t>(1, Distinct(l));
  if ((size_t)rejects > bound) c.viol({32}, "probes", "%d rejected probes with %zu distinct terms in leader %s, follower %s", rejects, bound, Show(l).c_str(), Show(f).c_str());
  if (lb.commit() != lead_log.size() || fb.commit() != lead_log.size()) c.viol({7, 23, 32}, "not-committed", "leader commit %d, follower commit %d of %zu", (int)lb.commit(), (int)fb.commit(), lead_log.size());
  c.state(Mix(HashStr(Show(l) + Show(f)), (commit * 8 + mode * 2 + one) * 2 + (lead_commit != commit)));
}

// ---------------------------------------------------------------- flow control

namespace {

enum PState { fProbe, fRepl, fSnap };

struct Flow {  // what the wire tells about the leader's progress towards the peer
  PState st = fProbe;
  U64 match = 0, next = 1, pending = 0;
  bool sent = false;
  std::deque<U64> infl;
  size_t W = 1;
  U64 maxsize = 0;

  bool full() const { return infl.size() >= W; }
  void ToProbe() {
    if (st == fSnap) next = std::max(match + 1, pending + 1);
    else next = match + 1;
    st = fProbe;
    sent = false;
    infl.clear();
    pending = 0;
  }
  void ToRepl() {
    st = fRepl;
    next = match + 1;
    infl.clear();
    sent = false;
    pending = 0;
  }
  void Sent(Ch& c, const MsgPtr& m, Box& lb) {
    if (m->type() == raftpb::MsgSnap) {
      if (st == fSnap) c.viol({13, 18}, "second-snapshot", "a snapshot is sent while one is being transferred");
      if (next - 1 >= lb.st->base) c.viol({13, 18, 35}, "needless-snapshot", "a snapshot is sent although entry %d is in the log", (int)next - 1);
      st = fSnap;
      infl.clear();
      sent = false;
      pending = m->snapshot().metadata().index();
      return;
    }
    if (m->type() != raftpb::MsgApp) return;
    if (st == fSnap) c.viol({13, 18, 35}, "append-during-snapshot", "%s while a snapshot is being transferred", Show(m).c_str());
    if (m->entries_size() == 0) {
      if (m->index() + 1 != next) c.viol({13, 32, 35}, "append-position", "%s, the peer is next at %d", Show(m).c_str(), (int)next);
      return;
    }
    if (m->index() + 1 != next) c.viol({13, 3, 35}, "append-position", "%s does not follow what was sent before (next is %d)", Show(m).c_str(), (int)next);
    U64 sum = 0;
    for (int i = 0; i < m->entries_size(); i++) {
      if (m->entries(i).index() != m->index() + 1 + i) c.viol({13, 3, 35}, "append-gap", "%s: entry %d has index %d", Show(m).c_str(), i, (int)m->entries(i).index());
      sum += m->entries(i).ByteSizeLong();
    }
    if (m->entries_size() > 1 && sum > maxsize) c.viol({13}, "append-size", "%s: %d bytes of entries, the limit is %d", Show(m).c_str(), (int)sum, (int)maxsize);
    if (st == fRepl) {
      if (full()) c.viol({13}, "window", "%s with %zu appends already in flight (limit %zu)", Show(m).c_str(), infl.size(), W);
      next = m->entries(m->entries_size() - 1).index() + 1;
      infl.push_back(next - 1);
    } else {
      if (sent) c.viol({13}, "two-probes", "%s while a probe is unanswered", Show(m).c_str());
      sent = true;
    }
  }
  void Answer(const MsgPtr& m, U64 probe) {  // probe: next index the leader's log suggests for a rejection
    if (m->type() == raftpb::MsgHeartbeatResp) {
      sent = false;
      if (st == fRepl && full()) {
        U64 f = infl.front();
        while (!infl.empty() && infl.front() <= f) infl.pop_front();
      }
      return;
    }
    if (m->type() != raftpb::MsgAppResp) return;
    if (m->reject()) {
      if (st == fRepl) {
        if (m->index() <= match) return;
        ToProbe();
        return;
      }
      if (next - 1 != m->index()) return;
      next = std::max<U64>(std::min<U64>(m->index(), probe + 1), 1);
      sent = false;
      return;
    }
    if (m->index() <= match) {
      next = std::max(next, m->index() + 1);
      return;
    }
    match = m->index();
    sent = false;
    next = std::max(next, m->index() + 1);
    if (st == fProbe) ToRepl();
    else if (st == fSnap) {
      if (match >= pending) ToRepl();
    } else {
      while (!infl.empty() && infl.front() <= m->index()) infl.pop_front();
    }
  }
};

struct FlowRun {
  Ch& c;
  Box lb{1}, fb{2};
  Flow f;
  std::deque<MsgPtr> q12, q21;
  int dropped = 0;
  explicit FlowRun(Ch& ch) : c(ch) {}

  void Collect() {
    for (auto& m : lb.Take()) {
      if (m->to() != 2 || m->term() != lb.term()) continue;
      if (m->type() != raftpb::MsgApp && m->type() != raftpb::MsgSnap && m->type() != raftpb::MsgHeartbeat) continue;
      c.note("  leader: %s", Show(m).c_str());
      f.Sent(c, m, lb);
      q12.push_back(m);
    }
  }
  void ToFollower(const MsgPtr& m) {
    fb.Step(m);
    for (auto& r : fb.Take())
      if (r->to() == 1 && r->term() == lb.term()) {
        c.note("  follower: %s", Show(r).c_str());
        q21.push_back(r);
      }
  }
  void ToLeader(const MsgPtr& r) {
    U64 probe = r->rejecthint();
    if (r->reject() && r->logterm() > 0) {
      // the last entry of the leader's log at or before the hint with a term not above the follower's
      while (probe > lb.st->base && probe <= lb.last() && lb.r()->GetRaftLog()->LastIndex() >= probe && TermOf(probe) > r->logterm()) probe--;
    }
    f.Answer(r, probe);
    lb.Step(r);
    Collect();
  }
  U64 TermOf(U64 i) {
    auto [t, s] = lb.r()->GetRaftLog()->Term(i);
    return s.IsOK() ? t : 0;
  }
  void Idle(const char* when) {
    // nothing may be held back while the window has room
    if (f.st == fRepl && !f.full() && f.next <= lb.last() && f.next - 1 >= lb.st->base)
      c.viol({13, 23}, "held-back", "%s: entries from %d to %d are not sent with %zu of %zu appends in flight", when, (int)f.next, (int)lb.last(), f.infl.size(), f.W);
  }
  U64 Hash() {
    U64 h = Mix(lb.last(), lb.commit());
    h = Mix(h, lb.st->base);
    h = Mix(h, HashStr(Show(fb.Terms()), fb.commit() * 16 + fb.st->base));
    for (auto& e : lb.st->ents) h = Mix(h, e->ByteSizeLong());
    for (auto* q : {&q12, &q21}) {
      h = Mix(h, 77);
      for (auto& m : *q) h = HashStr(m->SerializeAsString(), h);
    }
    auto pr = lb.r()->GetTracker().GetProgress(2);
    h = HashStr(pr->String(), h);
    h = Mix(h, pr->RecentActive() * 2 + pr->ProbeSent());
    for (U64 x : {(U64)f.st, f.match, f.next, f.pending, (U64)f.sent}) h = Mix(h, x);
    for (U64 x : f.infl) h = Mix(h, x);
    lb.r()->SetRandomizedElectionTimeout(5);
    fb.r()->SetRandomizedElectionTimeout(5);
    return lb.Deep(fb.Deep(h, false), false);
  }
};

}  // namespace

UNIT(flow_control, Fmt("leader and follower, window 1 or 2, append size limit of one entry / two small entries / none, three follower logs (same, short, divergent), the third node silent or acknowledging at once: every sequence of %d of: small and large proposal, delivery or loss of the next message either way, delivery out of order, duplicated answer, unreachable report, heartbeat, compaction with snapshot, snapshot success and failure reports; then a fair finish; equal states merged", (thorough ? 10 : 8) - 2 * kLess)) {
  FlowRun r(c);
  auto& lb = r.lb;
  auto& fb = r.fb;
  size_t W = 1 + c.pick(2);
  int lim = c.pick(3), fl = c.pick(3);
  bool third = c.flip();
  U64 maxsize = lim == 0 ? 0 : lim == 1 ? 24 : 1 << 20;
  static const std::vector<U64> L = {1, 1, 2}, FL[3] = {{1, 1, 2}, {1}, {1, 1, 1, 1}};
  for (Box* b : {&lb, &fb}) {
    b->st->cs = Conf({1, 2, 3});
    Fill(*b, b == &lb ? L : FL[fl]);
    b->Hard(2, 0, 1);
    b->cfg.applied = 1;
    b->cfg.max_inflight_msgs = (int64_t)W;
    b->cfg.max_size_per_msg = maxsize;
    b->cfg.max_committed_size_per_ready = 1 << 20;
    b->Start();
    b->Drain();
  }
  r.f.W = W;
  r.f.maxsize = maxsize;
  c.note("window %zu size limit %d follower %s%s", W, (int)maxsize, Show(FL[fl]).c_str(), third ? ", the third node has everything at once" : "");
  r.f.next = 4;
  Elect(c, lb);
  auto keep_up = [&] {
    if (!third) return;
    auto m = MkMsg(raftpb::MsgAppResp, 3, 1, lb.term());
    m->set_index(lb.last());
    lb.Step(m);
    r.Collect();
  };
  r.Collect();
  keep_up();
  if (r.q12.empty()) c.viol({13, 23}, "held-back", "a new leader sends nothing to its peer");
  int depth = (c.thorough ? 10 : 8) - 2 * kLess;
  int props = 0, compacts = 0, unr = 0, dups = 0, losses = 0;
  enum { kDeliver, kAnswer, kPropS, kPropL, kBeatOp, kLose, kLoseAns, kReorder, kReorderAns, kDupAns, kUnreach, kCompactOp, kSnapOk, kSnapFail };
  for (int s = 0; s < depth; s++) {
    std::vector<int> ops;
    if (!r.q12.empty()) ops.push_back(kDeliver);
    if (!r.q21.empty()) ops.push_back(kAnswer);
    if (props < 3) { ops.push_back(kPropS); if (props < 2 && lim == 1) ops.push_back(kPropL); }
    if (r.q12.size() < 4) ops.push_back(kBeatOp);
    if (!r.q12.empty() && losses < 1 + !third) ops.push_back(kLose);
    if (!r.q21.empty() && losses < 1 + !third) ops.push_back(kLoseAns);
    if (r.q12.size() > 1) ops.push_back(kReorder);
    if (r.q21.size() > 1) ops.push_back(kReorderAns);
    if (!r.q21.empty() && dups < 1) ops.push_back(kDupAns);
    if (unr < 1 + !third) ops.push_back(kUnreach);
    if (compacts < 1 && lb.applied_to > lb.st->base) ops.push_back(kCompactOp);
    if (r.f.st == fSnap) { ops.push_back(kSnapOk); ops.push_back(kSnapFail); }
    int o = ops[c.pick((int)ops.size())];
    c.step();
    switch (o) {
      case kDeliver: { c.note("deliver"); auto m = r.q12.front(); r.q12.pop_front(); r.ToFollower(m); break; }
      case kAnswer: { c.note("answer"); auto m = r.q21.front(); r.q21.pop_front(); r.ToLeader(m); r.Idle("after an answer"); break; }
      case kPropS:
      case kPropL: {
        c.note("propose");
        props++;
        U64 before = lb.last();
        bool idle = r.f.st == fProbe && !r.f.sent && r.f.next - 1 >= lb.st->base;
        size_t n0 = r.q12.size();
        auto st = lb.n->Propose(o == kPropS ? "p" : "proposal of more than 24 bytes in all");
        if (!st.IsOK() || lb.last() != before + 1) c.viol({25}, "propose", "proposal refused: %s", st.Str());
        r.Collect();
        keep_up();
        r.Idle("after a proposal");
        if (idle && r.q12.size() == n0) c.viol({13, 23}, "held-back", "nothing is sent on a proposal to an idle probed peer");
        break;
      }
      case kBeatOp: c.note("heartbeat"); lb.n->Tick(); r.Collect(); break;
      case kLose: c.note("lose"); losses++; r.q12.pop_front(); break;
      case kLoseAns: c.note("lose answer"); losses++; r.q21.pop_front(); break;
      case kReorder: { c.note("deliver out of order"); auto m = r.q12[1]; r.q12.erase(r.q12.begin() + 1); r.ToFollower(m); break; }
      case kReorderAns: { c.note("answer out of order"); auto m = r.q21[1]; r.q21.erase(r.q21.begin() + 1); r.ToLeader(m); r.Idle("after an answer"); break; }
      case kDupAns: { c.note("answer, kept for a second delivery"); dups++; r.ToLeader(r.q21.front()); r.Idle("after an answer"); break; }
      case kUnreach:
        c.note("unreachable");
        unr++;
        if (r.f.st == fRepl) r.f.ToProbe();
        lb.n->ReportUnreachable(2);
        r.Collect();
        break;
      case kCompactOp:
        c.note("compact");
        compacts++;
        lb.st->Compact(lb.applied_to, lb.applied_to, lb.st->cs);
        break;
      case kSnapOk:
      case kSnapFail: {
        c.note(o == kSnapOk ? "snapshot finished" : "snapshot failed");
        if (o == kSnapFail) r.f.pending = 0;
        r.f.ToProbe();
        r.f.sent = true;
        lb.n->ReportSnapshot(2, o == kSnapOk ? SnapshotStatus::kFinish : SnapshotStatus::kFailure);
        r.Collect();
        break;
      }
    }
    // the leader's own record
    auto st = lb.n->GetStatus();
    auto pr = st.progress[2];
    if (!pr) c.viol({31}, "status", "no progress of a member in the leader's status");
    if (pr->Match() != r.f.match) c.viol({13, 7, 31}, "match", "match is %d, the peer acknowledged %d", (int)pr->Match(), (int)r.f.match);
    if (r.f.match > fb.last()) c.viol({7, 13}, "match-beyond", "match %d is beyond the follower's log", (int)r.f.match);
    c.merge(r.Hash(), depth - s - 1);
  }
  // fair finish
  c.note("fair finish");
  for (int round = 0; round < 14; round++) {
    for (int k = 0; k < 40 && (!r.q12.empty() || !r.q21.empty()); k++) {
      while (!r.q12.empty()) {
        auto m = r.q12.front();
        r.q12.pop_front();
        r.ToFollower(m);
        if (m->type() == raftpb::MsgSnap && r.f.st == fSnap) {
          r.f.ToProbe();
          r.f.sent = true;
          lb.n->ReportSnapshot(2, SnapshotStatus::kFinish);
          r.Collect();
        }
      }
      while (!r.q21.empty()) {
        auto m = r.q21.front();
        r.q21.pop_front();
        r.ToLeader(m);
      }
    }
    if (r.f.st == fSnap) {  // its snapshot was lost: the application has to say so
      r.f.pending = 0;
      r.f.ToProbe();
      r.f.sent = true;
      lb.n->ReportSnapshot(2, SnapshotStatus::kFailure);
      r.Collect();
    }
    if (r.q12.empty() && r.q21.empty() && SameLog(lb, fb) && lb.commit() == lb.last() && fb.commit() == lb.last()) return;
    lb.n->Tick();
    r.Collect();
  }
  c.viol({13, 23}, "paused-for-good", "the follower (log %s commit %d) never catches up with the leader (log %s commit %d): %s", Show(fb.Terms()).c_str(), (int)fb.commit(), Show(lb.Terms()).c_str(), (int)lb.commit(),
         lb.r()->GetTracker().GetProgress(2)->String().c_str());
}

UNIT(inflights_seq, Fmt("windows of size 1 to 5 and, with half as many operations, of 2^31-1, 2^31, 2^32 and 2^63-1: every sequence of %d of: add the next index, add after a gap, free up to any position (stale and future ones too), free the first, reset, clone; against a queue", thorough ? 24 : 16)) {
  static const int64_t kSizes[] = {1, 2, 3, 4, 5, INT32_MAX, 1ll << 31, 1ll << 32, INT64_MAX};
  int which = c.pick(9);
  int64_t size = kSizes[which];
  Inflights in(QuietLogger(), size);
  std::deque<U64> q;
  U64 next = 1;
  int n = c.thorough ? 24 : 16;
  if (which > 4) n = n / 2;
  for (int s = 0; s < n; s++) {
    std::vector<std::pair<int, U64>> ops;
    if ((int64_t)q.size() < size) ops.push_back({0, 1});
    ops.push_back({1, 0});
    for (U64 x : q)
      if (ops.size() < 5) ops.push_back({2, x});
    if (q.size() > 1) ops.push_back({2, q.back()});
    if (!q.empty()) ops.push_back({2, q.front() - 1});
    ops.push_back({2, next + 3});
    ops.push_back({3, 0});
    auto o = ops[c.pick((int)ops.size())];
    c.step();
    switch (o.first) {
      case 0: c.note("add %d", (int)next); in.Add(next); q.push_back(next); next += 2; break;
      case 1: c.note("free first"); in.FreeFirstOne(); if (!q.empty()) q.pop_front(); break;
      case 2: c.note("free to %d", (int)o.second); in.FreeLE(o.second); while (!q.empty() && q.front() <= o.second) q.pop_front(); break;
      case 3: c.note("reset"); in.Reset(); q.clear(); break;
    }
    if (in.Count() != (int64_t)q.size() || in.Full() != ((int64_t)q.size() == size)) c.viol({13}, "inflights", "window of %lld counts %d%s, should be %zu", (long long)size, (int)in.Count(), in.Full() ? " (full)" : "", q.size());
    // the content shows in what each possible acknowledgement frees
    if (c.fresh() && !q.empty())
      for (U64 x = q.front() - 1; x <= q.back() + 1; x++) {
        auto d = in.Clone();
        d->FreeLE(x);
        size_t left = 0;
        for (U64 y : q) left += y > x;
        if (d->Count() != (int64_t)left) c.viol({13}, "inflights", "after acknowledging %d a window of %lld keeps %d, should be %zu", (int)x, (long long)size, (int)d->Count(), left);
        if (in.Count() != (int64_t)q.size()) c.viol({13, 31}, "inflights-clone", "changing a clone changed the window");
      }
    U64 h = Mix(size, in.Start());
    h = Mix(h, in.Buffer().size());
    for (U64 x : q) h = Mix(h, next - x);
    c.merge(h, n - s - 1);
  }
}

// ---------------------------------------------------------------- quota

UNIT(uncommitted_quota, Fmt("leader of three with an uncommitted limit of 1 or 10 bytes, committed entries delivered one or all at a time: every sequence of %d of: proposals of 0, 1, 4, 9 and 12 bytes, forwarded batches, acknowledgement of one or all entries, one Ready, loss and recovery of leadership; equal states merged", (thorough ? 7 : 6) - kLess)) {
  U64 limit = c.pick(2) ? 10 : 1;
  bool paged = c.flip();
  Box b(1);
  b.st->cs = Conf({1, 2, 3});
  b.cfg.max_uncommitted_entries_size = limit;
  b.cfg.max_committed_size_per_ready = paged ? 1 : 1 << 20;
  b.Start();
  Elect(c, b);
  c.note("limit %d, %s", (int)limit, paged ? "one committed entry per Ready" : "unlimited Ready");
  struct P { U64 index; U64 size; std::string data; };
  std::deque<P> own;        // proposed under this leadership, not applied yet
  std::map<U64, U64> inherited;  // unapplied entries of earlier leaderships
  U64 inh_applied = 0;      // payload of such entries applied since the election
  U64 acked = 0;
  int n = (c.thorough ? 7 : 6) - kLess, flips = 0;
  auto sum = [&] { U64 s = 0; for (auto& p : own) s += p.size; return s; };
  for (int s = 0; s < n; s++) {
    struct O { int k; std::vector<int> sz; };
    std::vector<O> ops;
    for (int z : {4, 9, 1, 0, 12}) ops.push_back({0, {z}});
    ops.push_back({1, {3, 4}});
    ops.push_back({1, {0, 9}});
    ops.push_back({1, {0, 0}});
    if (acked < b.last()) { ops.push_back({2, {}}); if (acked + 1 < b.last()) ops.push_back({3, {}}); }
    if (b.n->HasReady()) ops.push_back({4, {}});
    if (flips < 1) ops.push_back({5, {}});
    auto& o = ops[c.pick((int)ops.size())];
    c.step();
    switch (o.k) {
      case 0:
      case 1: {
        U64 z = 0;
        std::string name;
        for (int x : o.sz) { z += x; name += Fmt(" %d", x); }
        c.note("propose%s (outstanding %d)", name.c_str(), (int)sum());
        U64 before = b.last(), hi = sum(), lo = hi > inh_applied ? hi - inh_applied : 0;
        bool must_refuse = lo > 0 && z > 0 && lo + z > limit, must_take = !(hi > 0 && z > 0 && hi + z > limit);
        std::vector<std::string> data;
        for (int x : o.sz) data.push_back(std::string(x, (char)('a' + (b.last() + 1 + data.size()) % 20)));
        Status st;
        size_t msgs = b.r()->Msgs().size();
        if (o.k == 0) st = b.n->Propose(data[0]);
        else {
          auto m = MkMsg(raftpb::MsgProp, 2, 1, 0);
          for (auto& d : data) m->add_entries()->set_data(d);
          st = b.Step(m);
        }
        if (st.IsOK() && must_refuse) c.viol({14}, "over-quota", "a proposal of %d bytes is taken with %d outstanding and a limit of %d", (int)z, (int)hi, (int)limit);
        if (!st.IsOK() && must_take) c.viol({14, 25}, "refused", "a proposal of %d bytes is refused (%s) with %d outstanding and a limit of %d", (int)z, st.Str(), (int)hi, (int)limit);
        if (!st.IsOK()) {
          if (!strstr(st.Str(), kErrProposalDropped)) c.viol({14, 25}, "refusal", "refused with '%s'", st.Str());
          if (b.last() != before || b.r()->Msgs().size() != msgs) c.viol({14, 25}, "refused-trace", "a refused proposal left entries or messages");
        } else {
          if (b.last() != before + o.sz.size()) c.viol({25}, "append", "%zu entries proposed, the log grew by %d", o.sz.size(), (int)(b.last() - before));
          for (size_t i = 0; i < data.size(); i++) own.push_back({before + 1 + i, data[i].size(), data[i]});
        }
        break;
      }
      case 2:
      case 3: {
        acked = o.k == 2 ? b.last() : acked + 1;
        c.note("2 acknowledges %d", (int)acked);
        auto m = MkMsg(raftpb::MsgAppResp, 2, 1, b.term());
        m->set_index(acked);
        b.Step(m);
        break;
      }
      case 4: {
        size_t k = b.applied.size();
        b.One();
        c.note("ready: %zu applied", b.applied.size() - k);
        for (; k < b.applied.size(); k++) {
          auto& e = b.applied[k];
          if (inherited.count(e->index())) {
            inh_applied += inherited[e->index()];
            inherited.erase(e->index());
          }
          if (!own.empty() && own.front().index == e->index()) {
            if (e->data() != own.front().data) c.viol({25, 6}, "content", "applied entry %d differs from the proposal", (int)e->index());
            own.pop_front();
          }
        }
        break;
      }
      case 5: {
        c.note("leadership lost and won again");
        flips++;
        b.Step(MkMsg(raftpb::MsgHeartbeat, 2, 1, b.term() + 1));
        for (auto& p : own) inherited[p.index] = p.size;
        own.clear();
        inh_applied = 0;
        acked = 0;
        if (b.role() != kFollower) c.viol({2, 23}, "step-down", "still not a follower");
        auto st = b.n->Propose("forward");
        (void)st;
        b.n->Campaign();
        b.Step(MkMsg(raftpb::MsgVoteResp, 3, 1, b.term()));
        if (b.role() != kLeader) c.viol({23, 2}, "not-elected", "no leader after a quorum of votes");
        break;
      }
    }
    b.out.clear();
    U64 h = Mix(b.last(), acked);
    h = Mix(h, b.commit());
    h = Mix(h, b.applied_to);
    h = Mix(h, b.st->last() * 16 + b.n->HasReady());
    h = Mix(h, b.r()->UncommittedSize());
    h = Mix(h, inh_applied * 16 + flips);
    h = Mix(h, limit * 2 + paged);
    for (auto& p : own) h = Mix(h, p.index * 64 + p.size);
    for (auto& p : inherited) h = Mix(h, p.first * 64 + p.second + 9999);
    b.r()->SetRandomizedElectionTimeout(4);
    if (s < n - 1) h = b.Deep(h);
    c.merge(h, n - s - 1);
  }
}

// ---------------------------------------------------------------- snapshots at a follower
namespace {
std::string Canon(const raftpb::ConfState& c) {
  auto set = [](const google::protobuf::RepeatedField<uint64_t>& f) {
    std::string s;
    for (U64 x : std::set<U64>(f.begin(), f.end())) s += std::to_string(x) + ",";
    return s;
  };
  return set(c.voters()) + "|" + set(c.learners()) + "|" + set(c.voters_outgoing()) + "|" + set(c.learners_next()) + (c.auto_leave() ? "|leave" : "");
}
}  // namespace
UNIT(follower_snapshot, Fmt("a follower with every log out of: common prefix 0..3 with the leader's log [1 1 3 5 5], no tail or an older leader's tail of 2, committed up to the common prefix or one less, compacted or not (also while it is a candidate or pre-candidate of the term, then sequences of 3); every sequence of %d of: snapshots at 1..4 (at 3 also with this node as learner, in a joint configuration, or absent), appends (not as the last step) from every position with none, one or all later entries and two commit indices, heartbeats, taking a Ready, Advance (separately), restart; compared with a one-sequence model: log, commit, answers, deliveries, what is stored; equal states merged", (thorough ? 5 : 4) - kLess)) {
  const int role = c.pick(3);  // follower, candidate, pre-candidate
  const int depth = role ? 3 : (c.thorough ? 5 : 4) - kLess;
  static const std::vector<U64> L = {1, 1, 3, 5, 5};
  U64 cp = c.pick(4);
  int tail = c.pick(3);  // none, tail of an older leader (two terms to choose from)
  std::vector<U64> f(L.begin(), L.begin() + cp);
  if (tail) {
    U64 t = tail == 1 ? 2 : 4;
    if (!f.empty() && f.back() > t) return;
    f.push_back(t);
    f.push_back(t);
  }
  U64 commit = cp - c.pick(cp ? 2 : 1);
  bool compacted = c.flip();
  if (compacted && commit == 0) return;
  auto b = std::make_unique<Box>(1, 100, 1);
  auto conf = Conf({1, 2, 3});
  b->st->cs = conf;
  Fill(*b, f);
  b->Hard(role == 1 ? 4 : 5, 0, commit);
  b->cfg.applied = commit;
  b->cfg.pre_vote = role == 2;
  if (compacted) b->st->Compact(commit, commit, conf);
  b->Start();
  if (role) {
    b->n->Campaign();
    b->Take();
    if (b->role() != (role == 1 ? craft::RaftStateType::kCandidate : craft::RaftStateType::kPreCandidate)) c.viol({23, 18}, "setup", "the node does not campaign");
  }
  // the model: one sequence
  struct M {
    U64 lo = 0, lo_term = 0;       // before the first entry
    std::vector<U64> terms;
    U64 commit = 0, applied = 0;   // applied: delivered to the application
    U64 pending = 0;               // snapshot to be handed out
    raftpb::ConfState conf;
    U64 last() const { return lo + terms.size(); }
    U64 term(U64 i) const { return i == lo ? lo_term : i < lo || i > last() ? 0 : terms[i - lo - 1]; }
  } m;
  m.lo = compacted ? commit : 0;
  m.lo_term = m.lo ? L[m.lo - 1] : 0;
  m.terms.assign(f.begin() + m.lo, f.end());
  m.commit = m.applied = commit;
  m.conf = conf;
  c.note("%s log %s commit %d%s", role == 0 ? "follower" : role == 1 ? "candidate" : "pre-candidate", Show(f).c_str(), (int)commit, compacted ? " compacted" : "");
  std::vector<std::string> want;  // answers
  std::shared_ptr<craft::Ready> rd;
  int restarts = 0;
  std::string data0 = "leader's state";
  auto lterm = [&](U64 i) { return i ? L[i - 1] : 0; };

  auto take = [&] {
    rd = b->n->GetReady();
    bool fresh = c.fresh();
    U64 snap = craft::IsEmptySnap(rd->snapshot) ? 0 : rd->snapshot->metadata().index();
    if (fresh && snap != m.pending) c.viol({18, 6, 15}, "snapshot-handed-out", "the Ready has the snapshot at %d, expected %d", (int)snap, (int)m.pending);
    if (snap) {
      if (fresh && (rd->snapshot->metadata().term() != lterm(snap) || rd->snapshot->data() != data0)) c.viol({18, 15}, "snapshot-content", "the snapshot handed out is not the one received");
      b->st->Install(rd->snapshot);
      m.applied = snap;
      m.pending = 0;
    }
    b->st->Append(rd->entries);
    if (!craft::IsEmptyHardState(rd->hard_state)) b->st->hs = rd->hard_state;
    if (fresh && b->st->hs.commit() > b->st->last()) c.viol({12, 5, 18}, "stored-commit", "commit index %d is stored, but the storage ends at %d", (int)b->st->hs.commit(), (int)b->st->last());
    // what is stored now is the whole log
    if (fresh) {
      std::vector<U64> t;
      for (auto& e : b->st->ents) t.push_back(e->term());
      U64 lo = b->st->base;
      bool ok = b->st->last() == m.last() && lo >= m.lo;
      for (U64 i = lo; ok && i <= m.last(); i++) ok = b->st->term(i) == m.term(i);
      if (!ok) c.viol({15, 12, 18, 5, 24}, "stored-log", "after persisting the Ready the storage holds %s from %d on, the log is %s from %d on", Show(t).c_str(), (int)lo + 1, Show(m.terms).c_str(), (int)m.lo + 1);
    }
    for (auto& e : rd->committed_entries) {
      if (fresh && (e->index() != m.applied + 1 || e->index() > m.commit)) c.viol({6, 18, 15}, "apply-order", "entry %d handed out for applying after %d, committed is %d", (int)e->index(), (int)m.applied, (int)m.commit);
      if (fresh && (e->term() != lterm(e->index()) || e->data() != Data(e->index(), lterm(e->index())))) c.viol({4, 6, 15}, "apply-content", "entry %d handed out for applying is not the committed one", (int)e->index());
      m.applied = e->index();
    }
    if (fresh && m.applied != m.commit) c.viol({6, 18}, "apply-starved", "committed is %d, but after the Ready only %d is delivered", (int)m.commit, (int)m.applied);
    std::vector<std::string> got;
    for (auto& x : rd->messages)
      got.push_back(Fmt("%s to %d index %d%s", raftpb::MessageType_Name(x->type()).c_str(), (int)x->to(), (int)x->index(), x->reject() ? " reject" : ""));
    if (fresh && got != want) {
      std::string a, w;
      for (auto& x : got) a += x + "; ";
      for (auto& x : want) w += x + "; ";
      c.viol({18, 5, 32, 24, 35}, "answers", "sends [%s], expected [%s]", a.c_str(), w.c_str());
    }
    want.clear();
  };

  for (int s = 0; s < depth; s++) {
    struct Op { int k; U64 a, n, cm; };
    std::vector<Op> ops;
    for (U64 i = 1; i <= 4; i++)
      for (U64 v = 0; v < (i == 3 && s < 2 ? 4 : 1); v++) ops.push_back({0, i, v, 0});
    bool ending = s == depth - 1;  // the last step: no further appends
    for (U64 p = 0; p <= 5 && !ending; p++)
      for (U64 n : std::set<U64>{0, std::min<U64>(1, 5 - p), 5 - p}) {
        ops.push_back({1, p, n, 5});
        if (n == 1 && p >= 1) ops.push_back({1, p, n, p});
      }
    U64 agreed = m.commit;
    while (agreed < m.last() && agreed < 5 && m.term(agreed + 1) == L[agreed]) agreed++;
    ops.push_back({2, 0, 0, agreed});
    if (rd) ops.push_back({4, 0, 0, 0});
    else if (b->n->HasReady()) ops.push_back({3, 0, 0, 0});
    if (restarts < 1) ops.push_back({5, 0, 0, 0});
    Op o = ops[c.pick((int)ops.size())];
    c.step();
    bool fresh = c.fresh();
    switch (o.k) {
      case 0: {
        auto x = MkMsg(raftpb::MsgSnap, 2, 1, 5);
        auto* sn = x->mutable_snapshot();
        sn->mutable_metadata()->set_index(o.a);
        sn->mutable_metadata()->set_term(lterm(o.a));
        raftpb::ConfState cs = o.n == 0 ? Conf({1, 2, 3, 4}) : o.n == 1 ? Conf({2, 3}, {1}) : o.n == 2 ? Conf({2, 3}, {}, {1, 2}, {1}) : Conf({2, 3});
        *sn->mutable_metadata()->mutable_conf_state() = cs;
        sn->set_data(data0);
        c.note("snapshot at %d, configuration variant %d", (int)o.a, (int)o.n);
        b->Step(x);
        if (o.a > m.commit && o.n != 3) {
          if (o.a <= m.last() && o.a >= m.lo && m.term(o.a) == lterm(o.a)) {
            m.commit = o.a;
          } else {
            m.lo = m.commit = m.pending = o.a;
            m.lo_term = lterm(o.a);
            m.terms.clear();
            m.conf = cs;
          }
        }
        want.push_back(Fmt("MsgAppResp to 2 index %d", (int)m.commit));
        break;
      }
      case 1: {
        auto x = MkMsg(raftpb::MsgApp, 2, 1, 5);
        x->set_index(o.a);
        x->set_logterm(lterm(o.a));
        x->set_commit(o.cm);
        for (U64 i = o.a + 1; i <= o.a + o.n; i++) *x->add_entries() = *MkEnt(i, L[i - 1], Data(i, L[i - 1]));
        c.note("%s", Show(x).c_str());
        b->Step(x);
        if (o.a < m.commit) {
          want.push_back(Fmt("MsgAppResp to 2 index %d", (int)m.commit));
        } else if (o.a > m.last() || m.term(o.a) != lterm(o.a)) {
          want.push_back(Fmt("MsgAppResp to 2 index %d reject", (int)o.a));
        } else {
          for (U64 i = o.a + 1; i <= o.a + o.n; i++) {
            if (i <= m.last() && m.term(i) == L[i - 1]) continue;
            m.terms.resize(i - m.lo - 1);
            m.terms.push_back(L[i - 1]);
          }
          m.commit = std::max(m.commit, std::min(o.cm, o.a + o.n));
          want.push_back(Fmt("MsgAppResp to 2 index %d", (int)(o.a + o.n)));
        }
        break;
      }
      case 2: {
        auto x = MkMsg(raftpb::MsgHeartbeat, 2, 1, 5);
        x->set_commit(o.cm);
        c.note("heartbeat, committed %d", (int)o.cm);
        b->Step(x);
        m.commit = std::max(m.commit, o.cm);
        want.push_back("MsgHeartbeatResp to 2 index 0");
        break;
      }
      case 3:
        c.note("Ready taken and persisted");
        take();
        break;
      case 4:
        c.note("Advance");
        b->n->Advance();
        rd = nullptr;
        break;
      case 5: {
        c.note("crash and restart");
        restarts++;
        rd = nullptr;
        want.clear();
        auto st = b->st;
        b = std::make_unique<Box>(1, 100, 1);
        b->st = st;
        b->cfg.storage = st;
        b->cfg.applied = m.applied;
        b->Start();
        m.lo = st->base;
        m.lo_term = st->bterm;
        m.terms.clear();
        for (auto& e : st->ents) m.terms.push_back(e->term());
        m.commit = st->hs.commit();
        m.pending = 0;
        m.conf = st->cs;
        break;
      }
    }
    if (fresh) {
      if (o.k <= 2 && (b->role() != kFollower || b->lead() != 2 || b->term() != 5)) c.viol({18, 1, 23, 31}, "follows", "after a message of the leader the node is %d of term %d with leader %d", (int)b->role(), (int)b->term(), (int)b->lead());
      auto* l = b->r()->GetRaftLog();
      std::vector<U64> t;
      for (U64 i = m.lo + 1; i <= l->LastIndex(); i++) t.push_back(l->ZeroTermOnErrCompacted(l->Term(i)));
      if (t != m.terms || b->last() != m.last()) c.viol({18, 15, 32, 5}, "log", "the log from %d on is %s, should be %s", (int)m.lo + 1, Show(t).c_str(), Show(m.terms).c_str());
      if (l->ZeroTermOnErrCompacted(l->Term(m.lo)) != m.lo_term) c.viol({15, 18}, "boundary-term", "the entry before the first one (%d) has term %d, should be %d", (int)m.lo, (int)l->ZeroTermOnErrCompacted(l->Term(m.lo)), (int)m.lo_term);
      if (b->commit() != m.commit) c.viol({18, 32, 5, 7}, "commit", "commit index %d, should be %d", (int)b->commit(), (int)m.commit);
      auto have = b->r()->GetTracker().ConfState();
      bool eq = Canon(have) == Canon(m.conf);
      if (!eq) c.viol({18, 9, 8}, "configuration", "the configuration is %s, should be %s", have.ShortDebugString().c_str(), m.conf.ShortDebugString().c_str());
      bool more = !want.empty() || m.pending || m.applied < m.commit;
      if (!rd && more && !b->n->HasReady()) c.viol({24, 6, 18}, "no-ready", "nothing is announced although %s", m.pending ? "a snapshot is to be installed" : m.applied < m.commit ? "entries are to be applied" : "answers are to be sent");
    }
    U64 h = b->Deep(31, false);
    for (auto& w : want) h = HashStr(w, h);
    h = Mix(Mix(Mix(h, m.applied), m.pending), m.lo * 16 + m.commit);
    h = Mix(h, rd != nullptr);
    if (rd) {
      h = Mix(h, rd->committed_entries.empty() ? 0 : rd->committed_entries.back()->index());
      h = Mix(h, rd->entries.empty() ? 0 : rd->entries.back()->index() * 8 + rd->entries.back()->term());
      h = Mix(h, craft::IsEmptySnap(rd->snapshot) ? 0 : rd->snapshot->metadata().index());
    }
    h = HashStr(m.conf.SerializeAsString(), h);
    h = Mix(h, restarts);
    c.merge(h, depth - s - 1);
  }
  // let the application catch up
  c.note("then everything is handled");
  if (rd) b->n->Advance();
  rd = nullptr;
  for (int k = 0; b->n->HasReady(); k++) {
    if (k > 10) c.viol({24, 26}, "never-quiet", "Readys without end");
    take();
    b->n->Advance();
  }
  if (m.applied != m.commit) c.viol({6, 24, 18}, "apply-starved", "quiet with %d committed and %d delivered", (int)m.commit, (int)m.applied);
  if (!want.empty()) c.viol({24, 18}, "answers", "an answer was never sent");
}
