// Ids, indexes and terms are opaque 64-bit numbers.  The same inputs are given to
// two nodes, one living with small numbers and one whose ids, log positions and
// terms are all moved up (across 2^31, 2^32 or 2^63); mapped back, everything they
// hand out and report must be the same.
#include "node_box.h"

using namespace hx;
using craft::kCandidate;
using craft::kFollower;
using craft::kLeader;
using craft::kPreCandidate;

namespace {

struct Map {
  U64 ids[6] = {0, 1, 2, 3, 4, 5};
  U64 di = 0, dt = 0;
  U64 id(U64 x) const { return x < 6 ? ids[x] : x; }
  U64 idx(U64 x) const { return x ? x + di : 0; }
  U64 trm(U64 x) const { return x ? x + dt : 0; }
  std::string uid(U64 x) const {
    for (int k = 0; k < 6; k++) if (ids[k] == x) return std::to_string(k);
    return "id?" + std::to_string(x);
  }
  static std::string sub(U64 x, U64 d) {
    if (x == 0) return "0";
    return x - d < 1000 ? std::to_string(x - d) : "?" + std::to_string(x);
  }
  std::string uidx(U64 x) const { return sub(x, di); }
  std::string utrm(U64 x) const { return sub(x, dt); }
};

const U64 k31 = 1ull << 31, k32 = 1ull << 32, k63 = 1ull << 63;
const Map kMaps[] = {
    {{0, 1, k32, k32 + 1, k63 + 1, k63 + 2}, k32 - 13, k32 - 7},
    {{0, k32, 2 * k32, k63, k63 + k32, k63 + 2 * k32}, k63 - 13, k63 - 7},
    {{0, 7, 300, 70000, 5000000000ull, 6000000000ull}, k31 - 13, k31 - 7},
    {{0, k32 + 1, k32 + 2, 2 * k32 + 1, 2 * k32 + 2, 3 * k32 + 1}, 5 * k32, 5 * k32},
};
const int kNMaps = sizeof kMaps / sizeof *kMaps;

struct Side {
  Map m;
  std::shared_ptr<BoxStore> st = std::make_shared<BoxStore>();
  std::unique_ptr<Box> b;
  std::string log;  // everything observed in this step, in abstract numbers

  raftpb::ConfState MapConf(const raftpb::ConfState& c) const {
    raftpb::ConfState o;
    for (auto x : c.voters()) o.add_voters(m.id(x));
    for (auto x : c.learners()) o.add_learners(m.id(x));
    for (auto x : c.voters_outgoing()) o.add_voters_outgoing(m.id(x));
    for (auto x : c.learners_next()) o.add_learners_next(m.id(x));
    o.set_auto_leave(c.auto_leave());
    return o;
  }
  std::string S(const raftpb::ConfState& c) const {
    std::string s = "v";
    for (auto x : c.voters()) s += " " + m.uid(x);
    s += " l";
    for (auto x : c.learners()) s += " " + m.uid(x);
    s += " o";
    for (auto x : c.voters_outgoing()) s += " " + m.uid(x);
    s += " n";
    for (auto x : c.learners_next()) s += " " + m.uid(x);
    return s + (c.auto_leave() ? " auto" : "");
  }
  std::string S(const raftpb::Entry& e) const {
    std::string d = e.data();
    if (e.type() == raftpb::EntryConfChange) {
      raftpb::ConfChange c;
      c.ParseFromString(d);
      d = Fmt("v1 %d %s", (int)c.type(), m.uid(c.node_id()).c_str()) + c.context();
    } else if (e.type() == raftpb::EntryConfChangeV2) {
      raftpb::ConfChangeV2 c;
      c.ParseFromString(d);
      d = Fmt("v2 %d", (int)c.transition());
      for (auto& x : c.changes()) d += Fmt(" %d:%s", (int)x.type(), m.uid(x.node_id()).c_str());
      d += c.context();
    }
    return "(" + m.uidx(e.index()) + "/" + m.utrm(e.term()) + " " + d + ")";
  }
  std::string S(const raftpb::Snapshot& s) const {
    return "snap " + m.uidx(s.metadata().index()) + "/" + m.utrm(s.metadata().term()) + " " + S(s.metadata().conf_state()) + (s.data() == "snap" + std::to_string(s.metadata().index()) ? " own" : " " + s.data());
  }
  std::string S(const raftpb::Message& x) const {
    std::string s = raftpb::MessageType_Name(x.type()) + " " + m.uid(x.from()) + ">" + m.uid(x.to()) + " t" + m.utrm(x.term()) + " i" + m.uidx(x.index()) + " lt" + m.utrm(x.logterm()) +
                    " c" + m.uidx(x.commit()) + (x.reject() ? " reject h" + m.uidx(x.rejecthint()) : "") + " [" + x.context() + "]";
    for (auto& e : x.entries()) s += S(e);
    if (x.has_snapshot()) s += S(x.snapshot());
    return s;
  }
  MsgPtr MapMsg(const raftpb::Message& a) const {
    auto o = std::make_shared<raftpb::Message>(a);
    o->set_from(m.id(a.from()));
    o->set_to(m.id(a.to()));
    o->set_term(m.trm(a.term()));
    o->set_index(m.idx(a.index()));
    o->set_logterm(m.trm(a.logterm()));
    o->set_commit(m.idx(a.commit()));
    if (a.reject()) o->set_rejecthint(m.idx(a.rejecthint()));
    for (auto& e : *o->mutable_entries()) {
      e.set_index(m.idx(e.index()));
      e.set_term(m.trm(e.term()));
    }
    if (a.has_snapshot()) {
      auto md = o->mutable_snapshot()->mutable_metadata();
      md->set_index(m.idx(md->index()));
      md->set_term(m.trm(md->term()));
      *md->mutable_conf_state() = MapConf(a.snapshot().metadata().conf_state());
    }
    return o;
  }
  void Start(bool pv, bool cq, U64 applied) {
    b = std::make_unique<Box>(m.id(1), 3, 1);
    b->st = st;
    b->cfg.storage = st;
    b->cfg.pre_vote = pv;
    b->cfg.check_quorum = cq;
    b->cfg.max_inflight_msgs = 2;
    b->cfg.applied = applied;
    b->Start();
  }
  void Say(const std::string& s) { log += s + "\n"; }
  void Ready() {
    for (int k = 0; b->n->HasReady(); k++) {
      if (k > 100) Panic("the node keeps producing Readys without input");
      auto rd = b->n->GetReady();
      std::string s = rd->must_sync ? "ready sync" : "ready";
      if (rd->soft_state) s += " lead " + m.uid(rd->soft_state->lead) + Fmt(" role %d", (int)rd->soft_state->raft_state);
      if (!craft::IsEmptyHardState(rd->hard_state)) {
        s += " hs " + m.utrm(rd->hard_state.term()) + " " + m.uid(rd->hard_state.vote()) + " " + m.uidx(rd->hard_state.commit());
        st->hs = rd->hard_state;
      }
      if (!craft::IsEmptySnap(rd->snapshot)) {
        s += " " + S(*rd->snapshot);
        st->Install(rd->snapshot);
      }
      for (auto& e : rd->entries) s += " save " + S(*e);
      st->Append(rd->entries);
      for (auto& x : rd->messages) s += "\n  send " + S(*x);
      for (auto& x : rd->read_states) s += "\n  read " + x.request_ctx + " at " + m.uidx(x.index);
      for (auto& e : rd->committed_entries) {
        s += "\n  apply " + S(*e);
        if (e->type() == raftpb::EntryConfChange) {
          raftpb::ConfChange cc;
          cc.ParseFromString(e->data());
          st->cs = b->n->ApplyConfChange(craft::ConfChangeI(std::move(cc)));
          s += " -> " + S(st->cs);
        } else if (e->type() == raftpb::EntryConfChangeV2) {
          raftpb::ConfChangeV2 cc;
          cc.ParseFromString(e->data());
          st->cs = b->n->ApplyConfChange(craft::ConfChangeI(std::move(cc)));
          s += " -> " + S(st->cs);
        }
      }
      b->n->Advance();
      Say(s);
    }
  }
  void Look() {
    auto t = b->n->GetStatus();
    auto& q = t.basic;
    std::string s = "status " + m.uid(q.id) + " t" + m.utrm(q.hard_state.term()) + " v" + m.uid(q.hard_state.vote()) + " c" + m.uidx(q.hard_state.commit()) + " a" + m.uidx(q.applied) + " lead " + m.uid(q.soft_state.lead) +
                    Fmt(" role %d", (int)q.soft_state.raft_state) + " to " + m.uid(q.lead_transferee) + " first " + m.uidx(b->r()->GetRaftLog()->FirstIndex()) + " last " + m.uidx(b->r()->GetRaftLog()->LastIndex());
    for (auto& p : t.progress)
      s += "\n  " + m.uid(p.first) + " match " + m.uidx(p.second->Match()) + " next " + m.uidx(p.second->Next()) + " snap " + m.uidx(p.second->PendingSnapshot()) +
           Fmt(" %d%d%d%d in %d", (int)p.second->State(), p.second->IsPaused(), p.second->RecentActive(), p.second->IsLearner(), (int)p.second->GetInflights()->Count());
    Say(s + "\n  " + S(st->cs));
  }
};

}  // namespace

UNIT(relabel, Fmt("a node (plain or joint membership, with a learner, pre-vote and check-quorum on or off, window 2; fresh follower, new leader, or leader with a committed entry), once with small numbers and once with ids, positions and terms moved across 2^31, 2^32, 2^63 or to multiples of 2^32: every sequence of %d of 37 inputs (every kind of message with positions at, before and beyond the end of the log, proposals, changes, reads, transfers, reports, ticks, compaction, restart); equal states merged", thorough ? 4 : 3)) {
  int which = c.pick(kNMaps);
  bool joint = c.flip();
  int opt = c.pick(3);  // none, pre-vote, both
  int situation = c.pick(3);
  Side a, b;
  b.m = kMaps[which];
  Side* sides[] = {&a, &b};
  bool pv = opt > 0, cq = opt > 1;
  raftpb::ConfState conf = joint ? Conf({1, 2}, {4}, {1, 3}, {}, false) : Conf({1, 2, 3}, {4});
  for (Side* s : sides) {
    s->st->cs = s->MapConf(conf);
    s->st->base = s->m.idx(10);
    s->st->bterm = s->m.trm(4);
    s->st->snap->mutable_metadata()->set_index(s->m.idx(10));
    s->st->snap->mutable_metadata()->set_term(s->m.trm(4));
    *s->st->snap->mutable_metadata()->mutable_conf_state() = s->st->cs;
    s->st->ents = {MkEnt(s->m.idx(11), s->m.trm(4), "e11"), MkEnt(s->m.idx(12), s->m.trm(5), "e12")};
    s->st->hs.set_term(s->m.trm(5));
    s->st->hs.set_commit(s->m.idx(11));
    s->Start(pv, cq, s->m.idx(10));
  }
  c.note("numbers moved by scheme %d, %s, pre-vote %d, check-quorum %d, situation %d", which, joint ? "joint" : "plain", pv, cq, situation);
  auto both = [&](const std::function<void(Side&)>& f) {
    for (Side* s : sides) {
      s->b->r()->SetRandomizedElectionTimeout(4);
      f(*s);
      s->Ready();
      s->Look();
    }
  };
  auto compare = [&] {
    c.step();
    if (a.log != b.log) {
      size_t k = 0;
      while (k < a.log.size() && k < b.log.size() && a.log[k] == b.log[k]) k++;
      size_t s = a.log.rfind('\n', k ? k - 1 : 0);
      s = s == std::string::npos ? 0 : s + 1;
      auto line = [&](const std::string& l) { return l.substr(std::min(s, l.size()), l.find('\n', k) - s); };
      std::string x = line(a.log), y = line(b.log);
      auto is = [&](const char* w) { return x.find(w) != std::string::npos || y.find(w) != std::string::npos; };
      const char* f = "with small numbers: '%s'; with large numbers: '%s'";
      if (is("send MsgVote") || is("send MsgPreVote") || is(" hs ")) c.viol({36, 2, 35}, "number-dependent", f, x.c_str(), y.c_str());
      if (is("send MsgSnap")) c.viol({36, 18, 35}, "number-dependent", f, x.c_str(), y.c_str());
      if (is("send MsgApp")) c.viol({36, 13, 32, 35}, "number-dependent", f, x.c_str(), y.c_str());
      if (is("send MsgTimeoutNow") || is("status")) c.viol({36, 19, 31, 35}, "number-dependent", f, x.c_str(), y.c_str());
      if (is("read ") || is("send MsgReadIndex") || is("send MsgHeartbeat")) c.viol({36, 11, 35}, "number-dependent", f, x.c_str(), y.c_str());
      if (is(" match ")) c.viol({36, 13, 18, 31}, "number-dependent", f, x.c_str(), y.c_str());
      c.viol({36, 6, 24}, "number-dependent", f, x.c_str(), y.c_str());
    }
    if (c.tracing) c.note("%s", a.log.substr(0, 1200).c_str());
    a.log.clear();
    b.log.clear();
  };
  auto send = [&](const MsgPtr& m) {
    c.note("receives %s", a.S(*m).c_str());
    both([&](Side& s) {
      auto st = s.b->n->Step(s.MapMsg(*m));
      s.Say(st.IsOK() ? "ok" : st.Str());
    });
    compare();
  };
  auto T = [&] { return a.b->term(); };
  auto last = [&] { return a.b->last(); };
  auto logterm = [&](U64 i) {
    auto [t, s] = a.b->r()->GetRaftLog()->Term(i);
    return s.IsOK() ? t : 0;
  };
  auto ack = [&](U64 from, U64 i) {
    auto m = MkMsg(raftpb::MsgAppResp, from, 1, T());
    m->set_index(i);
    return m;
  };
  both([](Side&) {});
  compare();
  if (situation) {
    both([](Side& s) { s.b->n->Campaign(); });
    compare();
    for (int k = 0; k < 2 && a.b->role() != kLeader; k++) {
      bool pre = a.b->role() == kPreCandidate;
      for (U64 v : {2, 3})
        if (a.b->role() != kLeader) send(MkMsg(pre ? raftpb::MsgPreVoteResp : raftpb::MsgVoteResp, v, 1, T() + pre));
    }
    if (a.b->role() != kLeader) Panic("no leader in the scenario");
    if (situation == 2) {
      send(ack(2, last()));
      send(ack(3, last()));
    }
  }
  int depth = c.thorough ? 4 : 3, reads = 0;
  for (int step = 0; step < depth; step++) {
    c.merge(a.b->Deep(Mix(which * 100 + joint * 50 + opt * 10, a.st->cs.SerializeAsString().size())), depth - step);
    bool leader = a.b->role() == kLeader;
    U64 L = last(), C = a.b->commit();
    U64 lead = a.b->lead();
    enum { kCamp, kTick, kProp, kAdd, kRemove, kNew, kBig, kLeave, kRead, kXfer2, kXfer4, kUnreach, kSnapFail, kSnapOk, kBeatNow, kVote, kVoteOld, kVoteSame, kPre, kGrant2, kGrant3, kRej2, kApp, kAppNew, kAppPrev, kAppGap, kHb, kHbNew,
           kAck2, kAck3, kAck4, kNak2, kNakFar, kHbResp, kSnapMsg, kSnapOld, kTimeoutNow, kReadFwd, kReadResp, kCompact, kRestart };
    std::vector<int> ops = {kCamp, kTick, kProp, kRead, kVote, kVoteOld, kVoteSame, kPre, kAppNew, kAppGap, kHbNew, kSnapMsg, kSnapOld, kRestart, kReadResp};
    if (leader) {
      for (int k : {kAdd, kRemove, kNew, kBig, kXfer2, kXfer4, kUnreach, kSnapFail, kSnapOk, kBeatNow, kAck2, kAck3, kAck4, kNak2, kNakFar, kHbResp, kReadFwd}) ops.push_back(k);
      if (joint) ops.push_back(kLeave);
    } else {
      if (lead == 0 || lead == 2)
        for (int k : {kApp, kHb, kTimeoutNow}) ops.push_back(k);
      if ((lead == 0 || lead == 2) && L > C) ops.push_back(kAppPrev);
      if (a.b->role() != kFollower)
        for (int k : {kGrant2, kGrant3, kRej2}) ops.push_back(k);
    }
    if (a.b->n->GetBasicStatus().applied > a.st->base) ops.push_back(kCompact);
    int op = ops[c.pick((int)ops.size())];
    bool pre = a.b->role() == kPreCandidate;
    auto app = [&](U64 term, U64 prev, int n) {
      auto m = MkMsg(raftpb::MsgApp, 2, 1, term);
      m->set_index(prev);
      m->set_logterm(prev > L ? term : logterm(prev));
      m->set_commit(std::max(C, std::min(prev + n, L)));
      for (int k = 0; k < n; k++) *m->add_entries() = *MkEnt(prev + 1 + k, term, "x");
      return m;
    };
    auto vote = [&](bool p, U64 term, bool old) {
      auto m = MkMsg(p ? raftpb::MsgPreVote : raftpb::MsgVote, 2, 1, term);
      m->set_index(old ? L - 1 : L);
      m->set_logterm(old ? logterm(L - 1) : logterm(L));
      return m;
    };
    auto change = [&](raftpb::ConfChangeType t, U64 id, bool v2) {
      both([&](Side& s) {
        craft::Status st = craft::Status::OK();
        if (!v2) {
          raftpb::ConfChange cc;
          cc.set_type(t);
          cc.set_node_id(s.m.id(id));
          st = s.b->n->ProposeConfChange(craft::ConfChangeI(std::move(cc)));
        } else {
          raftpb::ConfChangeV2 cc;
          if (id) {
            auto* x = cc.add_changes();
            x->set_type(t);
            x->set_node_id(s.m.id(id));
            x = cc.add_changes();
            x->set_type(raftpb::ConfChangeAddNode);
            x->set_node_id(s.m.id(4));
          }
          st = s.b->n->ProposeConfChange(craft::ConfChangeI(std::move(cc)));
        }
        s.Say(st.IsOK() ? "ok" : st.Str());
      });
      compare();
    };
    auto call = [&](const char* what, const std::function<craft::Status(Side&)>& f) {
      c.note("%s", what);
      both([&](Side& s) {
        auto st = f(s);
        s.Say(st.IsOK() ? "ok" : st.Str());
      });
      compare();
    };
    const auto ok = craft::Status::OK();
    switch (op) {
      case kCamp: call("campaign", [](Side& s) { return s.b->n->Campaign(); }); break;
      case kTick: call("tick", [&](Side& s) { s.b->n->Tick(); return ok; }); break;
      case kBeatNow: call("three ticks", [&](Side& s) { for (int k = 0; k < 3; k++) { s.b->r()->SetRandomizedElectionTimeout(4); s.b->n->Tick(); s.Ready(); } return ok; }); break;
      case kProp: call("propose", [](Side& s) { return s.b->n->Propose("p"); }); break;
      case kAdd: c.note("proposes to promote 4"); change(raftpb::ConfChangeAddNode, 4, false); break;
      case kRemove: c.note("proposes to remove 3"); change(raftpb::ConfChangeRemoveNode, 3, false); break;
      case kNew: c.note("proposes to add 5 as learner"); change(raftpb::ConfChangeAddLearnerNode, 5, false); break;
      case kBig: c.note("proposes to demote 3 and promote 4"); change(raftpb::ConfChangeAddLearnerNode, 3, true); break;
      case kLeave: c.note("proposes to leave the joint configuration"); change(raftpb::ConfChangeAddNode, 0, true); break;
      case kRead: { std::string r = Fmt("r%d", reads++); call("read", [&](Side& s) { s.b->n->ReadIndex(r); return ok; }); break; }
      case kXfer2: call("transfer to 2", [&](Side& s) { s.b->n->TransferLeader(s.m.id(2)); return ok; }); break;
      case kXfer4: call("transfer to 4", [&](Side& s) { s.b->n->TransferLeader(s.m.id(4)); return ok; }); break;
      case kUnreach: call("2 is unreachable", [&](Side& s) { s.b->n->ReportUnreachable(s.m.id(2)); return ok; }); break;
      case kSnapFail: call("snapshot to 3 failed", [&](Side& s) { s.b->n->ReportSnapshot(s.m.id(3), craft::SnapshotStatus::kFailure); return ok; }); break;
      case kSnapOk: call("snapshot to 3 arrived", [&](Side& s) { s.b->n->ReportSnapshot(s.m.id(3), craft::SnapshotStatus::kFinish); return ok; }); break;
      case kVote: send(vote(false, T() + 1, false)); break;
      case kVoteOld: send(vote(false, T() + 1, true)); break;
      case kVoteSame: send(vote(false, T(), false)); break;
      case kPre: send(vote(true, T() + 1, false)); break;
      case kGrant2: send(MkMsg(pre ? raftpb::MsgPreVoteResp : raftpb::MsgVoteResp, 2, 1, T() + pre)); break;
      case kGrant3: send(MkMsg(pre ? raftpb::MsgPreVoteResp : raftpb::MsgVoteResp, 3, 1, T() + pre)); break;
      case kRej2: {
        auto m = MkMsg(pre ? raftpb::MsgPreVoteResp : raftpb::MsgVoteResp, 2, 1, T());
        m->set_reject(true);
        send(m);
        break;
      }
      case kApp: send(app(T(), L, 1)); break;
      case kAppNew: send(app(T() + 1, L, 2)); break;
      case kAppPrev: send(app(T() + 1, L - 1, 1)); break;
      case kAppGap: send(app(T() + 1, L + 1, 1)); break;
      case kHb:
      case kHbNew: {
        auto m = MkMsg(raftpb::MsgHeartbeat, 2, 1, op == kHb ? T() : T() + 1);
        m->set_commit(op == kHb ? L : C);
        m->set_context("h");
        send(m);
        break;
      }
      case kAck2: send(ack(2, L)); break;
      case kAck3: send(ack(3, L - 1)); break;
      case kAck4: send(ack(4, L)); break;
      case kNak2:
      case kNakFar: {
        auto pr = a.b->n->GetStatus().progress[2];
        if (!pr) Panic("no progress of 2");
        auto m = ack(2, pr->Next() - 1);
        m->set_reject(true);
        m->set_rejecthint(op == kNak2 ? pr->Next() - 2 : 6);
        m->set_logterm(op == kNak2 ? logterm(pr->Next() - 2) : 3);
        send(m);
        break;
      }
      case kHbResp: {
        auto m = MkMsg(raftpb::MsgHeartbeatResp, 2, 1, T());
        m->set_context(a.b->r()->GetReadOnly()->LastPendingRequestCtx());
        send(m);
        break;
      }
      case kSnapMsg:
      case kSnapOld: {
        auto m = MkMsg(raftpb::MsgSnap, 2, 1, T() + 1);
        auto s = m->mutable_snapshot();
        s->set_data("snapdata");
        s->mutable_metadata()->set_index(op == kSnapMsg ? L + 3 : C);
        s->mutable_metadata()->set_term(op == kSnapMsg ? T() + 1 : logterm(C));
        *s->mutable_metadata()->mutable_conf_state() = joint ? Conf({1, 2}, {4}, {1, 2, 3}, {3}, true) : Conf({1, 2, 3}, {4});
        send(m);
        break;
      }
      case kTimeoutNow: send(MkMsg(raftpb::MsgTimeoutNow, 2, 1, T())); break;
      case kReadFwd: {
        auto m = MkMsg(raftpb::MsgReadIndex, 3, 1, T());
        m->add_entries()->set_data(Fmt("f%d", reads++));
        send(m);
        break;
      }
      case kReadResp: {
        auto m = MkMsg(raftpb::MsgReadIndexResp, 2, 1, T());
        m->set_index(L);
        m->add_entries()->set_data("q");
        send(m);
        break;
      }
      case kCompact: {
        c.note("compacts its log");
        U64 to = a.b->n->GetBasicStatus().applied;
        both([&](Side& s) { s.st->Compact(s.m.idx(to), s.m.idx(to), s.st->cs); });
        compare();
        break;
      }
      case kRestart: {
        c.note("restarts");
        U64 to = std::max<U64>(a.b->n->GetBasicStatus().applied, a.st->base);
        both([&](Side& s) {
          s.b.reset();
          s.Start(pv, cq, s.m.idx(to));
        });
        compare();
        break;
      }
    }
  }
}
