// Read-index requests at a leader: which acknowledgements answer which request
// (C11), over plain and joint configurations.
#include <algorithm>

#include "node_box.h"

using namespace craft;
using namespace hx;

namespace {

struct Rq {
  std::string ctx;
  U64 from = 0;        // 0: local
  U64 floor = 0;       // commit index when it was issued
  int issued = 1, answered = 0;
  bool must = true;    // nothing entitles the leader to forget it
  std::set<U64> said;  // who confirmed this request or a later one, in this term
  bool active = false; // broadcast in this term
};

bool Half(const std::set<U64>& half, const std::set<U64>& said) {
  if (half.empty()) return true;
  size_t k = 0;
  for (U64 v : half) k += said.count(v);
  return 2 * k > half.size();
}

struct Shape {
  const char* name;
  raftpb::ConfState cs;
  std::vector<U64> peers;
  std::vector<U64> electors;  // votes that make 1 leader
};
std::vector<Shape> Shapes() {
  std::vector<Shape> v;
  v.push_back({"voters 1 2 3", Conf({1, 2, 3}), {2, 3}, {2}});
  v.push_back({"voters 1 2", Conf({1, 2}), {2}, {2}});
  v.push_back({"voters 1 2, learner 3", Conf({1, 2}, {3}), {2, 3}, {2}});
  v.push_back({"voters 1 2 3 4", Conf({1, 2, 3, 4}), {2, 3, 4}, {2, 3}});
  v.push_back({"voter 1, learner 2", Conf({1}, {2}), {2}, {}});
  v.push_back({"joint 1 2 3 / 1 4 5", Conf({1, 2, 3}, {}, {1, 4, 5}), {2, 3, 4, 5}, {2, 4}});
  v.push_back({"joint 1 2 3 / 3", Conf({1, 2, 3}, {}, {3}), {2, 3}, {3}});
  v.push_back({"joint 2 3 / 1 2", Conf({2, 3}, {}, {1, 2}), {2, 3}, {2, 3}});
  v.push_back({"joint 1 2 / 1 3, learner 4", Conf({1, 2}, {4}, {1, 3}), {2, 3, 4}, {2, 3}});
  v.push_back({"joint 1 2 3 / 1 2 4, 4 becomes learner", Conf({1, 2, 3}, {}, {1, 2, 4}, {4}), {2, 3, 4}, {2, 3}});
  return v;
}

}  // namespace

UNIT(read_quorum, Fmt("a leader in ten configurations (plain, with learners, joint, leader in one half only, single voter), before or after committing in its term: every sequence of %d of: local and forwarded read requests (up to 3, one delivered twice), heartbeat answers by every peer carrying every request context, an unknown one or none, append acknowledgements, a proposal, loss of leadership and re-election, a late answer of the old term; which requests are answered, when, where and with which index compared with a model; equal states merged", (thorough ? 7 : 5) - kLess)) {
  const int depth = (c.thorough ? 7 : 5) - kLess;
  auto shapes = Shapes();
  auto& sh = shapes[c.pick((int)shapes.size())];
  bool early = c.flip();
  auto b = std::make_unique<Box>(1, 10, 1);
  b->st->cs = sh.cs;
  b->Log({1, 1});
  b->Hard(1, 0, 2);
  b->cfg.applied = 2;
  b->Start();
  c.note("%s, %s its first commit", sh.name, early ? "before" : "after");
  auto elect = [&] {
    b->n->Campaign();
    b->Drain();
    for (U64 v : sh.electors)
      if (b->role() != kLeader) b->Step(MkMsg(raftpb::MsgVoteResp, v, 1, b->term()));
    if (b->role() != kLeader) c.viol({23, 2}, "not-elected", "no leader after a quorum of votes");
    b->Drain();
  };
  auto app_ack = [&](U64 from) {
    auto m = MkMsg(raftpb::MsgAppResp, from, 1, b->term());
    m->set_index(b->last());
    b->Step(m);
  };
  elect();
  if (!early)
    for (U64 p : sh.peers) app_ack(p);
  b->Drain();
  b->out.clear();
  std::vector<Rq> rq;
  std::set<U64> in(sh.cs.voters().begin(), sh.cs.voters().end()), outg(sh.cs.voters_outgoing().begin(), sh.cs.voters_outgoing().end());
  bool single = in.size() == 1 && outg.empty();
  std::vector<int> queue;  // requests being confirmed, oldest first
  std::vector<int> gate;   // requests that wait for the first commit of the term
  int props = 0, deposed = 0;
  auto own = [&] { return b->r()->GetRaftLog()->ZeroTermOnErrCompacted(b->r()->GetRaftLog()->Term(b->commit())) == b->term(); };
  auto won = [&](const std::set<U64>& s) { return Half(in, s) && Half(outg, s); };

  for (int s = 0; s < depth; s++) {
    struct Op { int k; U64 a; int i; };
    std::vector<Op> ops;
    if (rq.size() < 3) {
      ops.push_back({0, 0, 0});
      ops.push_back({0, sh.peers[0], 0});
    }
    for (size_t i = 0; i < rq.size(); i++)
      if (rq[i].from && rq[i].issued == 1) { ops.push_back({1, 0, (int)i}); break; }
    for (U64 p : sh.peers) {
      for (size_t i = 0; i < rq.size(); i++)
        if (rq[i].active || rq[i].answered) ops.push_back({2, p, (int)i});
      if (!rq.empty()) ops.push_back({2, p, -1});
      ops.push_back({3, p, 0});
    }
    if (!rq.empty()) {
      ops.push_back({2, sh.peers[0], -2});
      if (deposed) ops.push_back({6, sh.peers[0], (int)0});
    }
    if (props < 1) ops.push_back({4, 0, 0});
    if (deposed < 1 && !rq.empty()) ops.push_back({5, 0, 0});
    Op o = ops[c.pick((int)ops.size())];
    c.step();
    std::vector<std::pair<int, U64>> due;  // answers expected now, with their index
    bool was_own = own();
    U64 commit0 = b->commit();
    auto issue = [&](int i) {
      if (single) { due.push_back({i, b->commit()}); return; }
      if (!was_own) { gate.push_back(i); return; }
      if (std::find(queue.begin(), queue.end(), i) != queue.end()) return;  // already being confirmed
      queue.push_back(i);
      rq[i].active = true;
      rq[i].said = {1};
    };
    auto deliver = [&](int i) {
      if (!rq[i].from) {
        b->n->ReadIndex(rq[i].ctx);
        return;
      }
      auto m = MkMsg(raftpb::MsgReadIndex, rq[i].from, 1, 0);
      m->add_entries()->set_data(rq[i].ctx);
      b->Step(m);
    };
    std::set<int> late;  // issued by this step after a gate
    switch (o.k) {
      case 0: {
        Rq r;
        r.ctx = Fmt("q%d", (int)rq.size());
        r.from = o.a;
        r.floor = commit0;
        rq.push_back(r);
        c.note("read %s from %d, commit %d", r.ctx.c_str(), (int)o.a, (int)commit0);
        issue((int)rq.size() - 1);
        deliver((int)rq.size() - 1);
        break;
      }
      case 1:
        c.note("%s delivered again", rq[o.i].ctx.c_str());
        rq[o.i].issued++;
        rq[o.i].must = false;
        issue(o.i);
        deliver(o.i);
        break;
      case 2: {
        auto m = MkMsg(raftpb::MsgHeartbeatResp, o.a, 1, b->term());
        if (o.i != -1) m->set_context(o.i < 0 ? "zz" : rq[o.i].ctx);
        c.note("heartbeat answer by %d, context '%s'", (int)o.a, m->context().c_str());
        b->Step(m);
        if (o.i >= 0) {
          auto at = std::find(queue.begin(), queue.end(), o.i);
          if (at != queue.end()) {
            // acknowledges this request and, being later, all before it
            std::set<U64>& mine = rq[o.i].said;
            mine.insert(o.a);
            if (won(mine)) {
              for (auto k = queue.begin(); k <= at; ++k) due.push_back({*k, 0});
              queue.erase(queue.begin(), at + 1);
            }
          }
        }
        break;
      }
      case 3:
        c.note("%d acknowledges everything", (int)o.a);
        app_ack(o.a);
        break;
      case 4:
        c.note("proposal");
        props++;
        b->n->Propose("p");
        break;
      case 5: {
        c.note("another leader shows up; elected again");
        deposed++;
        auto m = MkMsg(raftpb::MsgHeartbeat, sh.peers.back(), 1, b->term() + 1);
        b->Step(m);
        b->Drain();
        for (auto& r : rq) {
          r.must = false;
          r.active = false;
          r.said.clear();
        }
        queue.clear();
        elect();
        break;
      }
      case 6: {
        auto m = MkMsg(raftpb::MsgHeartbeatResp, o.a, 1, b->term() - 2);
        m->set_context(rq[0].ctx);
        c.note("late heartbeat answer by %d of an old term, context %s", (int)o.a, rq[0].ctx.c_str());
        b->Step(m);
        break;
      }
    }
    b->Drain();
    if (b->role() != kLeader) c.viol({23, 2, 26}, "lost-leadership", "node 1 is no leader any more");
    if (!gate.empty() && own()) {
      for (int i : gate) {
        if (std::find(queue.begin(), queue.end(), i) != queue.end()) continue;
        queue.push_back(i);
        rq[i].active = true;
        rq[i].said = {1};
      }
      gate.clear();
    }
    // what was answered
    std::vector<std::tuple<std::string, U64, U64>> got;
    for (auto& x : b->reads) got.push_back({x.request_ctx, 0, x.index});
    for (auto& m : b->out)
      if (m->type() == raftpb::MsgReadIndexResp) {
        if (m->entries_size() != 1) c.viol({11}, "answer-context", "answer without its context: %s", Show(m).c_str());
        got.push_back({m->entries(0).data(), m->to(), m->index()});
      }
    b->reads.clear();
    b->out.clear();
    bool fresh = c.fresh();
    for (auto& [ctx, to, index] : got) {
      int i = -1;
      for (size_t k = 0; k < rq.size(); k++)
        if (rq[k].ctx == ctx) i = (int)k;
      if (i < 0) c.viol({11}, "answer-unknown", "answer for '%s', which nobody asked", ctx.c_str());
      Rq& r = rq[i];
      r.answered++;
      if (!fresh) continue;
      if (r.from != to) c.viol({11}, "answer-destination", "answer for %s of %d goes to %d", ctx.c_str(), (int)r.from, (int)to);
      if (index < r.floor) c.viol({11}, "answer-stale", "%s answered with %d, but %d was committed when it was issued", ctx.c_str(), (int)index, (int)r.floor);
      if (index > b->commit()) c.viol({11}, "answer-uncommitted", "%s answered with %d, committed is %d", ctx.c_str(), (int)index, (int)b->commit());
      if (r.answered > r.issued) c.viol({11}, "answer-twice", "%s answered %d times", ctx.c_str(), r.answered);
      bool ok = std::any_of(due.begin(), due.end(), [&](auto& d) { return d.first == i; });
      if (!ok) c.viol({11}, "answer-unconfirmed", "%s answered although no majority (of each half) has confirmed the leader since it was issued", ctx.c_str());
    }
    if (fresh)
      for (auto& d : due) {
        if (!rq[d.first].must) continue;
        bool ok = std::any_of(got.begin(), got.end(), [&](auto& g) { return std::get<0>(g) == rq[d.first].ctx; });
        if (!ok) c.viol({11, 23}, "answer-missing", "%s was confirmed by a majority but is not answered", rq[d.first].ctx.c_str());
      }
    U64 h = b->Deep(17, false);
    for (auto& r : rq) {
      h = Mix(Mix(Mix(Mix(h, r.from), r.floor), r.issued * 8 + r.answered), r.must * 2 + r.active);
      for (U64 x : r.said) h = Mix(h, x);
    }
    for (int i : queue) h = Mix(h, i + 100);
    for (int i : gate) h = Mix(h, i + 200);
    h = Mix(h, props * 4 + deposed);
    for (auto& p : b->r()->GetTracker().GetConfig().voters.IDs()) h = Mix(h, p);
    c.merge(h, depth - s - 1);
  }
}

UNIT(lease_read, Fmt("reads with the lease option at one node of ten configurations (plain, with learners, joint, single voter), election tick 3: every sequence of %d of: local and forwarded read requests (up to 3, one delivered twice), ticks, heartbeat and append acknowledgements by every peer, a proposal, a heartbeat by a newer leader, its answer to a forwarded request, re-election; which requests are answered or forwarded, when, where and with which index compared with a model; equal states merged", (thorough ? 8 : 6) - kLess)) {
  const int depth = (c.thorough ? 8 : 6) - kLess, T = 3;
  auto shapes = Shapes();
  auto& sh = shapes[c.pick((int)shapes.size())];
  bool early = c.flip();
  auto b = std::make_unique<Box>(1, T, 1);
  b->cfg.check_quorum = true;
  b->cfg.read_only_option = craft::ReadOnly::kLeaseBased;
  b->st->cs = sh.cs;
  b->Log({1, 1});
  b->Hard(1, 0, 2);
  b->cfg.applied = 2;
  b->Start();
  c.note("%s, %s its first commit", sh.name, early ? "before" : "after");
  std::set<U64> in(sh.cs.voters().begin(), sh.cs.voters().end()), outg(sh.cs.voters_outgoing().begin(), sh.cs.voters_outgoing().end());
  bool single = in.size() == 1 && outg.empty();
  int now = 0;
  std::map<U64, int> heard;  // peer -> when it was last heard in this term
  auto elect = [&] {
    b->n->Campaign();
    b->Drain();
    for (U64 v : sh.electors)
      if (b->role() != kLeader) b->Step(MkMsg(raftpb::MsgVoteResp, v, 1, b->term()));
    if (b->role() != kLeader) c.viol({23, 2}, "not-elected", "no leader after a quorum of votes");
    b->Drain();
    heard.clear();
    for (U64 p : sh.peers) heard[p] = now;  // the lease begins with the election
  };
  auto app_ack = [&](U64 from) {
    auto m = MkMsg(raftpb::MsgAppResp, from, 1, b->term());
    m->set_index(b->last());
    b->Step(m);
    heard[from] = now;
  };
  elect();
  if (!early)
    for (U64 p : sh.peers) app_ack(p);
  b->Drain();
  b->out.clear();
  std::vector<Rq> rq;
  std::vector<int> gate;     // requests that wait for the first commit of the term
  std::vector<int> sent_on;  // local requests forwarded to a leader
  int props = 0, changes = 0;
  auto own = [&] {
    auto [t, st] = b->r()->GetRaftLog()->Term(b->commit());
    return st.IsOK() && t == b->term();
  };

  for (int s = 0; s < depth; s++) {
    struct Op { int k; U64 a; int i; };
    std::vector<Op> ops;
    bool leads = b->role() == kLeader;
    if (rq.size() < 3) {
      ops.push_back({0, 0, 0});
      ops.push_back({0, sh.peers[0], 0});
    }
    for (size_t i = 0; i < rq.size(); i++)
      if (rq[i].from && rq[i].issued == 1) { ops.push_back({1, 0, (int)i}); break; }
    ops.push_back({2, 0, 0});
    if (leads) {
      for (U64 p : sh.peers) {
        ops.push_back({3, p, 0});
        ops.push_back({4, p, 0});
      }
      if (props < 1) ops.push_back({5, 0, 0});
    }
    if (changes < 2) ops.push_back({6, sh.peers.back(), 0});
    if (!leads && b->lead() != 0) for (int i : sent_on)
      if (rq[i].answered == 0) { ops.push_back({7, sh.peers.back(), i}); break; }
    if (!leads) ops.push_back({8, 0, 0});
    Op o = ops[c.pick((int)ops.size())];
    c.step();
    std::map<int, int> due;                // answers that must come now
    std::vector<std::pair<int, U64>> fwd;  // requests that must be passed on, and to whom
    bool was_own = leads && own();
    U64 commit0 = b->commit(), lead0 = b->lead();
    auto deliver = [&](int i) {
      if (!rq[i].from) {
        b->n->ReadIndex(rq[i].ctx);
        return;
      }
      auto m = MkMsg(raftpb::MsgReadIndex, rq[i].from, 1, 0);
      m->add_entries()->set_data(rq[i].ctx);
      b->Step(m);
    };
    auto issue = [&](int i) {
      if (leads) {
        if (single || was_own) due[i]++;
        else gate.push_back(i);
      } else if (lead0 != 0) {
        fwd.push_back({i, lead0});
        if (!rq[i].from) sent_on.push_back(i);
      }
    };
    U64 answer_index = 0;
    switch (o.k) {
      case 0: {
        Rq r;
        r.ctx = Fmt("q%d", (int)rq.size());
        r.from = o.a;
        r.floor = commit0;
        rq.push_back(r);
        c.note("read %s from %d, commit %d", r.ctx.c_str(), (int)o.a, (int)commit0);
        issue((int)rq.size() - 1);
        deliver((int)rq.size() - 1);
        break;
      }
      case 1:
        c.note("%s delivered again", rq[o.i].ctx.c_str());
        rq[o.i].issued++;
        issue(o.i);
        deliver(o.i);
        break;
      case 2:
        c.note("tick");
        now++;
        b->r()->SetRandomizedElectionTimeout(2 * T - 1);
        b->n->Tick();
        break;
      case 3:
        c.note("heartbeat answer by %d", (int)o.a);
        heard[o.a] = now;
        b->Step(MkMsg(raftpb::MsgHeartbeatResp, o.a, 1, b->term()));
        break;
      case 4:
        c.note("%d acknowledges everything", (int)o.a);
        app_ack(o.a);
        break;
      case 5:
        c.note("proposal");
        props++;
        b->n->Propose("p");
        break;
      case 6:
        c.note("heartbeat by %d, leader of the next term", (int)o.a);
        changes++;
        b->Step(MkMsg(raftpb::MsgHeartbeat, o.a, 1, b->term() + 1));
        break;
      case 7: {
        auto m = MkMsg(raftpb::MsgReadIndexResp, o.a, 1, b->term());
        m->set_index(commit0 + 1);
        m->add_entries()->set_data(rq[o.i].ctx);
        c.note("the leader answers %s with %d", rq[o.i].ctx.c_str(), (int)commit0 + 1);
        due[o.i]++;
        answer_index = commit0 + 1;
        b->Step(m);
        break;
      }
      case 8:
        c.note("elected");
        elect();
        break;
    }
    b->Drain();
    bool fresh = c.fresh();
    bool leads_now = b->role() == kLeader;
    if (!leads_now) gate.clear();  // stepping down forgets the requests it still held
    if (!gate.empty() && leads_now && own() && (o.k == 4 || o.k == 8)) {
      for (int i : gate) due[i]++;
      gate.clear();
    }
    std::map<int, int> got;
    auto answer = [&](const std::string& ctx, U64 to, U64 index) {
      int i = -1;
      for (size_t k = 0; k < rq.size(); k++)
        if (rq[k].ctx == ctx) i = (int)k;
      if (i < 0) c.viol({34}, "answer-unknown", "answer for '%s', which nobody asked", ctx.c_str());
      Rq& r = rq[i];
      r.answered++;
      got[i]++;
      if (!fresh) return;
      if (r.from != to) c.viol({34}, "answer-destination", "answer for %s of %d goes to %d", ctx.c_str(), (int)r.from, (int)to);
      if (answer_index) {
        if (index != answer_index) c.viol({34}, "answer-index", "the leader's answer %d for %s arrives as %d", (int)answer_index, ctx.c_str(), (int)index);
        return;
      }
      if (index != b->commit()) c.viol({34}, "answer-index", "%s answered with %d, committed is %d", ctx.c_str(), (int)index, (int)b->commit());
      if (index < r.floor) c.viol({34}, "answer-stale", "%s answered with %d, but %d was committed when it was issued", ctx.c_str(), (int)index, (int)r.floor);
      std::set<U64> recent = {1};
      for (auto& h : heard)
        if (now - h.second < 2 * T) recent.insert(h.first);
      if (!Half(in, recent) || !Half(outg, recent)) c.viol({34, 21}, "answer-without-lease", "%s answered by a leader that has not heard from a quorum for two election timeouts", ctx.c_str());
    };
    for (auto& x : b->reads) answer(x.request_ctx, 0, x.index);
    std::vector<std::pair<int, U64>> passed;
    for (auto& m : b->out) {
      if (m->type() == raftpb::MsgReadIndexResp) {
        if (m->entries_size() != 1) c.viol({34}, "answer-context", "answer without its context: %s", Show(m).c_str());
        answer(m->entries(0).data(), m->to(), m->index());
      }
      if (m->type() == raftpb::MsgReadIndex) {
        int i = -1;
        for (size_t k = 0; k < rq.size(); k++)
          if (m->entries_size() == 1 && rq[k].ctx == m->entries(0).data()) i = (int)k;
        passed.push_back({i, m->to()});
      }
      if (m->type() == raftpb::MsgHeartbeat && !m->context().empty() && fresh)
        c.viol({34}, "needless-round", "a heartbeat carries the context '%s' although reads need no round of heartbeats", m->context().c_str());
    }
    b->reads.clear();
    b->out.clear();
    if (fresh) {
      for (auto& d : due)
        if (got[d.first] < d.second) c.viol({34, 23}, "answer-missing", "%s should be answered now", rq[d.first].ctx.c_str());
      for (auto& g : got)
        if (g.second > 0 && g.second > (due.count(g.first) ? due[g.first] : 0))
          c.viol({34}, "answer-unfounded", "%s is answered %s", rq[g.first].ctx.c_str(), due.count(g.first) ? "more than once" : "although this node is no leader with a committed entry of its term");
      if (passed != fwd) c.viol({34}, "forwarding", "%d requests passed on to the leader, %d expected%s", (int)passed.size(), (int)fwd.size(), passed.size() == fwd.size() ? " (to another node or in other order)" : "");
    }
    b->r()->SetRandomizedElectionTimeout(2 * T - 1);
    U64 h = b->Deep(23);
    for (auto& r : rq) h = Mix(Mix(Mix(h, r.from), r.floor), r.issued * 8 + r.answered);
    for (int i : gate) h = Mix(h, i + 200);
    h = Mix(h, 7);
    for (int i : sent_on) h = Mix(h, i + 300);
    for (auto& x : heard) h = Mix(h, x.first * 64 + std::min(now - x.second, 2 * T));
    h = Mix(h, props * 4 + changes);
    c.merge(h, depth - s - 1);
  }
}
