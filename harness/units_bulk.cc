// Amounts: groups of one to nine nodes, more than a hundred entries, windows up to
// 64, size limits that cut the log into many messages.  Parameters and events are
// enumerated; the deliveries themselves are in order.
#include <deque>

#include "node_box.h"

using namespace hx;
using craft::kCandidate;
using craft::kFollower;
using craft::kLeader;

namespace {

struct Net {
  Ch& c;
  int n;            // voters 1..n, perhaps learner n+1
  bool learner;
  U64 limit, climit;
  int W;
  std::vector<std::unique_ptr<Box>> b;
  std::deque<MsgPtr> q;
  std::set<U64> cut;
  std::vector<std::map<U64, std::string>> seen;  // per node: what was applied where
  std::vector<U64> from;                          // per node: applied from here on (snapshot)
  long delivered = 0;
  int snaps = 0;

  Net(Ch& ch) : c(ch) {}
  int size() const { return n + learner; }
  Box& at(U64 id) { return *b[id - 1]; }
  static U64 Size(const EntryPtr& e) { return e->ByteSizeLong(); }
  void Work(U64 id) {
    Box& x = at(id);
    for (int k = 0;; k++) {
      if (k > 1000) Panic("the node keeps producing Readys without input");
      size_t before = x.applied.size();
      U64 base = x.st->snap->metadata().index();
      if (!x.One()) break;
      c.step();
      if (x.st->snap->metadata().index() != base && x.st->base == x.st->snap->metadata().index()) {
        from[id - 1] = x.st->base;
        snaps++;
      }
      U64 sum = 0;
      for (size_t j = before; j < x.applied.size(); j++) {
        auto& e = x.applied[j];
        sum += Size(e);
        U64 want = (seen[id - 1].empty() ? 0 : seen[id - 1].rbegin()->first) + 1;
        want = std::max(want, from[id - 1] + 1);
        if (e->index() != want) c.viol({6, 4, 23}, "apply-order", "node %d applies entry %d, entry %d is next", (int)id, (int)e->index(), (int)want);
        seen[id - 1][e->index()] = std::to_string(e->term()) + ":" + std::to_string(e->type()) + ":" + e->data();
      }
      if (x.applied.size() - before > 1 && sum > climit) c.viol({13, 6, 24}, "ready-too-large", "one Ready of node %d carries %zu committed entries of %d bytes, the limit is %d", (int)id, x.applied.size() - before, (int)sum, (int)climit);
    }
    for (auto& m : x.out) {
      if (m->type() == raftpb::MsgApp) {
        U64 s = 0;
        for (auto& e : m->entries()) s += e.ByteSizeLong();
        if (m->entries_size() > 1 && s > limit) c.viol({13}, "message-too-large", "an append of node %d carries %d entries of %d bytes, the limit is %d", (int)id, m->entries_size(), (int)s, (int)limit);
      }
      if (cut.count(id) || cut.count(m->to())) continue;
      if (m->to() < 1 || m->to() > (U64)size()) c.viol({35, 26}, "stranger", "node %d sends to %d", (int)id, (int)m->to());
      q.push_back(m);
    }
    x.out.clear();
    if (x.role() == kLeader) {
      for (auto& p : x.n->GetStatus().progress) {
        int in = (int)p.second->GetInflights()->Count();
        if (in > W) c.viol({13}, "window", "%d appends outstanding to %d, the window is %d", in, (int)p.first, W);
        if (p.first == id || p.second->State() != craft::StateType::kReplicate || cut.count(p.first)) continue;
        int on_wire = 0;
        for (auto& m : q) on_wire += m->type() == raftpb::MsgApp && m->to() == p.first && m->entries_size() && m->term() == x.term();
        if (on_wire > W) c.viol({13}, "window", "%d appends on the wire to %d, the window is %d", on_wire, (int)p.first, W);
      }
    }
  }
  void Quiet() {
    for (U64 i = 1; i <= (U64)size(); i++) Work(i);
    while (!q.empty()) {
      auto m = q.front();
      q.pop_front();
      if (++delivered > 60000) c.viol({23, 13}, "no-end", "the group exchanges messages for ever");
      if (cut.count(m->to()) || cut.count(m->from())) continue;
      at(m->to()).Step(m);
      Work(m->to());
    }
  }
  void Beat(U64 leader, int times) {
    for (int k = 0; k < times; k++) {
      at(leader).n->Tick();
      Work(leader);
      Quiet();
    }
  }
  U64 Leader() {
    U64 l = 0, t = 0;
    for (U64 i = 1; i <= (U64)size(); i++)
      if (at(i).role() == kLeader && at(i).term() >= t && !cut.count(i)) l = i, t = at(i).term();
    return l;
  }
};

}  // namespace

UNIT(bulk, Fmt("groups of 1 to 9 voters with or without a learner, windows of 1 to 64, appends of one entry / about 90 bytes / any size, committed entries about 60 bytes at a time or all, %s proposals at once, one by one or in one batch through another node, nobody, one follower or a majority cut off meanwhile, with or without compaction; then a membership change, reads, a leadership change by election, transfer or restart of everybody, more proposals: every combination, run to quiescence", thorough ? "1, 9, 33, 130 and 300" : "1, 9, 33 and 130")) {
  static const int kN[] = {1, 2, 3, 4, 5, 6, 7, 9}, kW[] = {1, 2, 3, 7, 8, 9, 64}, kM[] = {1, 9, 33, 130, 300};
  Net g(c);
  int shape = c.pick(16);
  g.n = kN[shape / 2];
  g.learner = shape % 2;
  int M = kM[c.pick(c.thorough ? 5 : 4)];
  g.W = kW[c.pick(7)];
  int ls = c.pick(3);
  g.limit = ls == 0 ? ~0ull >> 1 : ls == 1 ? 0 : 90;
  g.climit = c.flip() ? 60 : ~0ull >> 1;
  int how = c.pick(3);  // all at once, one by one, one batch through another node
  bool stepwise = how == 1;
  int cutting = c.pick(4);  // nobody, one, one and compaction, majority
  if (cutting && g.n < 3 && !(g.learner && cutting != 3)) return;
  int after = c.pick(4);    // stay, campaign, transfer, restart
  bool pvcq = c.flip();
  if (after && g.n == 1) return;
  if (!c.thorough && pvcq != (after == 2)) return;
  c.note("%d voters%s, %d proposals %s, window %d, limits %d/%d, cut %d, then %d, pre-vote and check-quorum %d", g.n, g.learner ? " and a learner" : "", M, how == 2 ? "in a batch" : stepwise ? "one by one" : "at once", g.W, ls, g.climit == 60, cutting, after, pvcq);
  std::vector<U64> vs;
  for (int k = 1; k <= g.n; k++) vs.push_back(k);
  auto conf = g.learner ? Conf(vs, {(U64)g.n + 1}) : Conf(vs);
  for (U64 i = 1; i <= (U64)g.size(); i++) {
    auto x = std::make_unique<Box>(i, 20, 1);
    x->st->cs = conf;
    x->cfg.max_inflight_msgs = g.W;
    x->cfg.max_size_per_msg = g.limit;
    x->cfg.max_committed_size_per_ready = g.climit;
    x->cfg.pre_vote = x->cfg.check_quorum = pvcq;
    x->Start();
    g.b.push_back(std::move(x));
  }
  g.seen.resize(g.size());
  g.from.resize(g.size(), 0);
  g.at(1).n->Campaign();
  g.Quiet();
  if (g.Leader() != 1) c.viol({23}, "no-leader", "node 1 campaigns in a fresh group and is not elected");
  std::vector<std::string> want;
  auto Data = [&] { return "p" + std::to_string(want.size()) + std::string(want.size() % 11 == 5 ? 200 : (want.size() * 7) % 23, '.'); };
  auto propose = [&](U64 at) {
    std::string d = Data();
    auto s = g.at(at).n->Propose(d);
    if (!s.IsOK()) c.viol({25}, "refused", "proposal %zu at node %d is refused: %s", want.size(), (int)at, s.Str());
    want.push_back(d);
  };
  // who is cut off
  if (cutting == 3)
    for (int k = g.n; k > (g.n - 1) / 2; k--) g.cut.insert(k);
  else if (cutting)
    g.cut.insert(g.size());
  if (how == 2) {
    U64 at = g.n > 1 && !g.cut.count(2) ? 2 : 1;
    auto m = MkMsg(raftpb::MsgProp, at, at, 0);
    for (int k = 0; k < M; k++) {
      want.push_back(Data());
      m->add_entries()->set_data(want.back());
    }
    auto s = g.at(at).Step(m);
    if (!s.IsOK()) c.viol({25}, "refused", "a batch of %d proposals at node %d is refused: %s", M, (int)at, s.Str());
    g.Work(at);
    g.Quiet();
  }
  for (int k = 0; k < M && how != 2; k++) {
    propose(1);
    if (stepwise) {
      g.Work(1);
      g.Quiet();
    }
  }
  g.Work(1);
  g.Quiet();
  bool can = cutting != 3;
  if (can && g.at(1).commit() != (U64)M + 1) c.viol({23, 25, 7}, "not-committed", "a connected majority committed up to %d of %d", (int)g.at(1).commit(), M + 1);
  if (!can && g.at(1).commit() > 1) c.viol({7, 5}, "committed-alone", "a minority committed up to %d", (int)g.at(1).commit());
  if (cutting == 2) {
    for (U64 i = 1; i <= (U64)g.size(); i++)
      if (!g.cut.count(i)) {
        auto& x = g.at(i);
        if (x.applied_to > x.st->base) x.st->Compact(x.applied_to, x.applied_to, x.st->cs);
      }
  }
  g.cut.clear();
  g.Beat(1, 4);
  auto settled = [&](U64 leader, const char* when) {
    auto& l = g.at(leader);
    U64 last = l.last();
    for (U64 i = 1; i <= (U64)g.size(); i++) {
      auto& x = g.at(i);
      if (x.last() != last || x.commit() != last || x.applied_to != last)
        c.viol({23, 18, 13, 4}, "behind", "%s: node %d has last %d, commit %d, applied %d; the leader's last is %d", when, (int)i, (int)x.last(), (int)x.commit(), (int)x.applied_to, (int)last);
      for (auto& e : g.seen[i - 1])
        if (!g.seen[leader - 1].count(e.first) ? e.first > g.from[leader - 1] : g.seen[leader - 1][e.first] != e.second)
          c.viol({4, 5, 6}, "different-entries", "%s: nodes %d and %d applied different entries at %d", when, (int)i, (int)leader, (int)e.first);
    }
    for (auto& p : l.n->GetStatus().progress)
      if (p.second->Match() != last || (p.first != leader && p.second->State() != craft::StateType::kReplicate) || p.second->GetInflights()->Count() != 0)
        c.viol({13, 23, 31}, "progress", "%s: progress of %d is %s, last is %d", when, (int)p.first, p.second->String().c_str(), (int)last);
    // every proposal once, in order, at every node that applied from the beginning
    for (U64 i = 1; i <= (U64)g.size(); i++) {
      std::vector<std::string> got;
      for (auto& e : g.seen[i - 1]) {
        std::string s = e.second.substr(e.second.find(':') + 1);
        if (s.compare(0, 2, "0:") == 0 && s.size() > 2) got.push_back(s.substr(2));
      }
      if (g.from[i - 1] == 0 ? got != want : got.size() > want.size() || !std::equal(got.begin(), got.end(), want.end() - got.size()))
        c.viol({25, 4, 6}, "proposals", "%s: node %d applied %zu proposals, %zu were accepted, or not in their order", when, (int)i, got.size(), want.size());
    }
  };
  settled(1, "after the proposals");
  if (cutting == 2 && M > 1 && g.snaps == 0) c.viol({18, 23}, "no-snapshot", "a node whose entries were compacted away caught up without a snapshot");
  if (cutting != 2 && g.snaps) c.viol({18}, "needless-snapshot", "a snapshot was sent though all entries are there");
  // reads
  U64 reader = g.size();
  for (U64 i : {(U64)1, reader}) {
    g.at(i).n->ReadIndex("r" + std::to_string(i));
    g.Work(i);
    g.Quiet();
    int exp = 1;
    if ((int)g.at(i).reads.size() != exp || g.at(i).reads[0].request_ctx != "r" + std::to_string(i) || g.at(i).reads[0].index != g.at(1).commit())
      c.viol({11, 35}, "read", "a read at node %d of %d voters has %zu answers", (int)i, g.n, g.at(i).reads.size());
    g.at(i).reads.clear();
  }
  // membership: the learner becomes a voter, the last voter a learner
  if (g.learner) {
    raftpb::ConfChangeV2 cc;
    auto* x = cc.add_changes();
    x->set_type(raftpb::ConfChangeAddNode);
    x->set_node_id(g.n + 1);
    if (g.n > 1) {
      x = cc.add_changes();
      x->set_type(raftpb::ConfChangeAddLearnerNode);
      x->set_node_id(g.n);
    }
    auto s = g.at(1).n->ProposeConfChange(craft::ConfChangeI(std::move(cc)));
    if (!s.IsOK()) c.viol({25, 8}, "refused", "a membership change is refused: %s", s.Str());
    g.Work(1);
    g.Quiet();
    g.Beat(1, 2);
    std::vector<U64> nv;
    for (int k = 1; k <= g.n + 1; k++)
      if (k != g.n || g.n == 1) nv.push_back(k);
    auto wantc = g.n > 1 ? Conf(nv, {(U64)g.n}) : Conf(nv);
    for (U64 i = 1; i <= (U64)g.size(); i++)
      if (g.at(i).st->cs.SerializeAsString() != wantc.SerializeAsString()) c.viol({8, 9, 23}, "membership", "node %d ends in %s", (int)i, g.at(i).st->cs.ShortDebugString().c_str());
    settled(1, "after the membership change");
  }
  // leadership
  U64 next = 1;
  if (after) {
    next = 2;
    if (g.learner && g.n == 2) next = 3;  // 2 was demoted
    if (after == 3) {
      for (U64 i = 1; i <= (U64)g.size(); i++) {
        auto& x = g.at(i);
        x.cfg.applied = x.applied_to;
        x.n.reset();
        x.Start();
      }
      g.Quiet();
    }
    if (after == 2) g.at(1).n->TransferLeader(next);
    else g.at(next).n->Campaign();
    if (after == 2) g.Work(1);
    else g.Work(next);
    g.Quiet();
    if (g.Leader() != next || g.at(1).role() == kLeader) c.viol({23, 19, 1}, "no-handover", "node %d does not lead after %s", (int)next, after == 2 ? "the transfer" : "campaigning");
    settled(next, "after the election");
  }
  for (int k = 0; k < 5; k++) propose(k % 2 ? next : (U64)g.size());
  for (U64 i = 1; i <= (U64)g.size(); i++) g.Work(i);
  // proposals through different nodes may be ordered either way
  g.Quiet();
  g.Beat(next, 1);
  {
    std::vector<std::string> tail(want.end() - 5, want.end()), got;
    for (auto& e : g.seen[next - 1]) {
      std::string s = e.second.substr(e.second.find(':') + 1);
      if (s.compare(0, 2, "0:") == 0 && s.size() > 2) got.push_back(s.substr(2));
    }
    if (got.size() >= 5) {
      std::vector<std::string> gt(got.end() - 5, got.end());
      auto x = gt, y = tail;
      std::sort(x.begin(), x.end());
      std::sort(y.begin(), y.end());
      if (x == y) std::copy(gt.begin(), gt.end(), want.end() - 5);
    }
  }
  settled(next, "at the end");
  U64 h = 0;
  for (auto& x : g.b) h = Mix(h, x->Deep(1));
  c.state(h);
}
