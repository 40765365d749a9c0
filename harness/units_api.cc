// The node's outer interface: bootstrap, start from storage, message
// filtering, proposals, leadership transfer and status
// (C19, C25, C26, C27, C28, C31, C33).
#include <algorithm>

#include "node_box.h"
#include "storage_ref.h"

using namespace craft;
using namespace hx;

namespace {

std::string Hex(const std::string& s) {
  std::string o;
  for (unsigned char ch : s.substr(0, 64)) o += Fmt("%02x", ch);
  return s.size() > 64 ? o + Fmt("..%d.", (int)s.size()) : o + ".";
}
U64 FNV(const std::string& s) {
  U64 h = 1469598103934665603ull;
  for (unsigned char ch : s) h = (h ^ ch) * 1099511628211ull;
  return h ^ (h >> 29);
}

std::string ShowReady(const std::shared_ptr<Ready>& rd) {
  std::string s;
  if (rd->soft_state) s += Fmt("soft %d/%d ", (int)rd->soft_state->lead, (int)rd->soft_state->raft_state);
  s += Fmt("hard %d/%d/%d ", (int)rd->hard_state.term(), (int)rd->hard_state.vote(), (int)rd->hard_state.commit());
  for (auto& e : rd->entries) s += "e" + Hex(e->SerializeAsString());
  for (auto& e : rd->committed_entries) s += "c" + Hex(e->SerializeAsString());
  for (auto& m : rd->messages) s += "m" + Hex(m->SerializeAsString());
  for (auto& r : rd->read_states) s += Fmt("r%d/%s", (int)r.index, r.request_ctx.c_str());
  if (!IsEmptySnap(rd->snapshot)) s += "s" + Hex(rd->snapshot->SerializeAsString());
  return s;
}

// Everything observable about a node without changing it.
std::string Digest(Box& b) {
  auto st = b.n->GetStatus();
  std::string s = Fmt("id %d term %d vote %d commit %d applied %d role %d lead %d to %d ", (int)st.basic.id, (int)st.basic.hard_state.term(), (int)st.basic.hard_state.vote(),
                      (int)st.basic.hard_state.commit(), (int)st.basic.applied, (int)st.basic.soft_state.raft_state, (int)st.basic.soft_state.lead, (int)st.basic.lead_transferee);
  s += st.config.String() + " ";
  for (auto& p : st.progress) s += Fmt("[%d %s a%d i%d]", (int)p.first, p.second->String().c_str(), p.second->RecentActive(), (int)p.second->GetInflights()->Count());
  for (U64 t : b.Terms()) s += Fmt(" %d", (int)t);
  for (auto& e : b.st->ents) s += Hex(e->SerializeAsString());
  s += b.n->HasReady() ? " ready " : " quiet ";
  s += ShowReady(b.n->ReadyWithoutAccept());
  for (auto& m : b.out) s += Show(m);
  return s;
}

enum Sit { kFollow0, kFollow2, kCand, kPre, kLead, kLeadJoint, kLeadSolo, kStranger, kLearn, kSits };
const char* SitName[] = {"follower without leader", "follower of 2", "candidate", "pre-candidate", "leader", "leader in joint configuration", "single leader", "removed node", "learner"};

std::unique_ptr<Box> Make(int sit, bool pv, bool nofwd, U64 quota = 0, bool paged = false) {
  auto b = std::make_unique<Box>(1, 3, 1);
  b->cfg.pre_vote = pv || sit == kPre;
  b->cfg.disable_proposal_forwarding = nofwd;
  b->cfg.max_uncommitted_entries_size = quota;
  if (paged) b->cfg.max_committed_size_per_ready = 1;
  b->st->cs = sit == kLeadJoint ? Conf({1, 2}, {4}, {1, 3}) : sit == kLeadSolo ? Conf({1}, {4}) : sit == kStranger ? Conf({2, 3}, {4}) : sit == kLearn ? Conf({2, 3}, {1, 4}) : Conf({1, 2, 3}, {4});
  b->Log({1, 1});
  b->Hard(2, 0, 2);
  b->cfg.applied = 2;
  b->Start();
  if (sit == kFollow2) b->Step([&] { auto m = MkMsg(raftpb::MsgHeartbeat, 2, 1, 2); m->set_commit(2); return m; }());
  if (sit == kCand || sit == kPre || (sit >= kLead && sit <= kLeadSolo)) {
    b->n->Campaign();
    b->Drain();
  }
  if (sit == kCand && pv) {
    b->Step(MkMsg(raftpb::MsgPreVoteResp, 3, 1, b->term() + 1));
    b->Drain();
  }
  if (sit == kLead || sit == kLeadJoint) {
    for (U64 v : {2, 3}) {
      if (pv) b->Step(MkMsg(raftpb::MsgPreVoteResp, v, 1, b->term() + 1));
      b->Drain();
    }
    for (U64 v : {2, 3})
      if (b->role() != kLeader) b->Step(MkMsg(raftpb::MsgVoteResp, v, 1, b->term()));
    b->Drain();
    auto ack = MkMsg(raftpb::MsgAppResp, 2, 1, b->term());
    ack->set_index(b->last());
    b->Step(ack);
    ack->set_from(3);
    b->Step(ack);
  }
  b->Drain();
  b->out.clear();
  return b;
}
RaftStateType Want(int sit) {
  return sit == kCand ? kCandidate : sit == kPre ? kPreCandidate : sit >= kLead && sit <= kLeadSolo ? kLeader : kFollower;
}

// Runs both nodes for two election timeouts and compares everything they do.
void SameFuture(Ch& c, Box& a, Box& b, std::initializer_list<int> props, const char* monitor, const std::string& what) {
  for (int i = 0; i < 8; i++) {
    auto da = Digest(a), db = Digest(b);
    if (da != db) c.viol(props, monitor, "%s had an effect (after %d ticks): %s instead of %s", what.c_str(), i, db.c_str(), da.c_str());
    a.r()->SetRandomizedElectionTimeout(4);
    b.r()->SetRandomizedElectionTimeout(4);
    a.n->Tick();
    b.n->Tick();
    a.Drain();
    b.Drain();
    c.step();
  }
}

}  // namespace

UNIT(step_filter, "a node in nine situations (follower with and without leader, candidate, pre-candidate, leader, leader in joint configuration, single leader, removed node, learner), pre-vote on and off: every message type from every kind of sender (member, learner, itself, unknown, none), term -1/0/+1 or unset, accepting and rejecting; local types and answers from unknown nodes must be refused without effect (compared with a twin for eight ticks); unreachable, snapshot and transfer calls about every kind of node") {
  int sit = c.pick(kSits);
  bool pv = c.flip();
  auto a = Make(sit, pv, false), b = Make(sit, pv, false);
  if (b->role() != Want(sit)) c.viol({23, 2}, "setup", "%s expected, the node is %d", SitName[sit], (int)b->role());
  const U64 froms[] = {2, 3, 4, 1, 9, 0};
  c.note("%s, prevote %d", SitName[sit], pv);
  a->r()->SetRandomizedElectionTimeout(4);
  b->r()->SetRandomizedElectionTimeout(4);
  int kind = c.pick(4);
  if (kind > 0) {
    // calls about nodes
    U64 id = froms[c.pick(6)];
    bool member = id == 2 || id == 3 || id == 4 || id == 1;
    if (sit == kStranger) member = member && id != 1;
    if (sit == kLeadSolo) member = id == 1 || id == 4;
    if (kind == 1) b->n->ReportUnreachable(id);
    if (kind == 2) b->n->ReportSnapshot(id, c.flip() ? kFinish : kFailure);
    if (kind == 3) b->n->TransferLeader(id);
    std::string what = Fmt("%s about node %d", kind == 1 ? "unreachable report" : kind == 2 ? "snapshot report" : "transfer request", (int)id);
    c.note("%s", what.c_str());
    c.step();
    if (!c.fresh()) return;
    bool leader = Want(sit) == kLeader;
    bool forward = kind == 3 && sit == kFollow2;
    if (kind == 3 && leader && (!member || id == 4 || id == 1)) SameFuture(c, *a, *b, {26, 19}, "call-effect", what);
    else if (kind < 3 && (!leader || !member)) SameFuture(c, *a, *b, {26}, "call-effect", what);
    else if (kind == 3 && !leader && !forward) SameFuture(c, *a, *b, {26, 19}, "call-effect", what);
    else if (forward && id != 0) {
      // handed on to the leader, nothing else
      b->Drain();
      if (b->out.size() != 1 || b->out[0]->type() != raftpb::MsgTransferLeader || b->out[0]->to() != 2 || b->out[0]->from() != id)
        c.viol({19, 26}, "transfer-forward", "a follower of 2 asked to transfer leadership to %d sent %s", (int)id, b->out.empty() ? "nothing" : Show(b->out[0]).c_str());
      b->out.clear();
      SameFuture(c, *a, *b, {26, 19}, "call-effect", what);
    } else {
      b->Drain();
    }
    return;
  }
  int ty = c.pick(raftpb::MessageType_MAX + 1);
  if (!raftpb::MessageType_IsValid(ty)) throw Skip();
  auto type = (raftpb::MessageType)ty;
  U64 from = froms[c.pick(6)];
  int dt = c.pick(4);  // none, -1, 0, +1
  bool rej = c.flip();
  auto m = MkMsg(type, from, 1, dt == 0 ? 0 : b->term() + dt - 2);
  m->set_reject(rej);
  bool local = type == raftpb::MsgHup || type == raftpb::MsgBeat || type == raftpb::MsgUnreachable || type == raftpb::MsgSnapStatus || type == raftpb::MsgCheckQuorum;
  bool answer = type == raftpb::MsgAppResp || type == raftpb::MsgVoteResp || type == raftpb::MsgHeartbeatResp || type == raftpb::MsgPreVoteResp;
  bool member = from == 2 || from == 3 || from == 4 || from == 1;
  if (sit == kStranger) member = member && from != 1;
  if (sit == kLeadSolo) member = from == 1 || from == 4;
  bool refuse = local || (answer && !member);
  // Of the rest, only what a correct node could send.
  if (!refuse) {
    bool other = from == 2 || from == 3;
    if (dt == 0 && type != raftpb::MsgProp && type != raftpb::MsgReadIndex && type != raftpb::MsgTransferLeader) throw Skip();
    if (dt != 0 && (type == raftpb::MsgProp || type == raftpb::MsgReadIndex || type == raftpb::MsgTransferLeader)) throw Skip();
    if (from == 1) throw Skip();
    if (type == raftpb::MsgApp || type == raftpb::MsgHeartbeat || type == raftpb::MsgSnap || type == raftpb::MsgTimeoutNow || type == raftpb::MsgReadIndexResp) {
      if (from == 4 || from == 0) throw Skip();
      if (dt == 2 && (Want(sit) == kLeader || (sit == kFollow2 && from != 2))) throw Skip();
      if (type == raftpb::MsgTimeoutNow && dt > 2) throw Skip();
      m->set_commit(2);
      m->set_index(2);
      m->set_logterm(1);
      if (type == raftpb::MsgSnap) {
        auto md = m->mutable_snapshot()->mutable_metadata();
        md->set_index(5);
        md->set_term(1);
        *md->mutable_conf_state() = Conf({1, 2, 3}, {4});
        m->set_commit(0);
      }
      if (type == raftpb::MsgReadIndexResp) m->add_entries()->set_data("ctx");
    } else if (type == raftpb::MsgProp || type == raftpb::MsgReadIndex) {
      m->add_entries()->set_data("x");
    } else if (type == raftpb::MsgVote || type == raftpb::MsgPreVote) {
      if (!other && from != 9) throw Skip();
      m->set_index(2);
      m->set_logterm(1);
    } else if (type == raftpb::MsgAppResp) {
      m->set_index(rej ? 3 : 2);
      m->set_rejecthint(2);
      m->set_logterm(1);
      if (rej && dt != 2) throw Skip();
    } else if (type == raftpb::MsgVoteResp || type == raftpb::MsgPreVoteResp) {
      if (type == raftpb::MsgVoteResp && dt == 3 && !rej) throw Skip();
      if (from == 4) throw Skip();
    }
  }
  c.note("%s", Show(m).c_str());
  std::string what = Show(m);
  auto s = b->Step(m);
  c.step();
  if (!c.fresh()) return;
  if (refuse) {
    const char* want = local ? kErrStepLocalMsg : kErrStepPeerNotFound;
    if (s.IsOK()) c.viol({26}, "not-refused", "%s was accepted by a %s", what.c_str(), SitName[sit]);
    if (!local || type != raftpb::MsgUnreachable)
      if (std::string(s.Str()) != want) c.viol({26}, "wrong-error", "%s refused with '%s'", what.c_str(), s.Str());
    SameFuture(c, *a, *b, {26}, "refused-effect", what);
    return;
  }
  b->Drain();
  // the node keeps working: it ticks, and follows a leader of a later term
  for (int i = 0; i < 7; i++) {
    b->n->Tick();
    b->Drain();
  }
  U64 t = b->term() + 1;
  auto hb = MkMsg(raftpb::MsgHeartbeat, 3, 1, t);
  b->Step(hb);
  b->Drain();
  if (b->lead() != 3 || b->role() != kFollower) c.viol({26, 23}, "dead", "after %s a %s no longer follows a new leader", what.c_str(), SitName[sit]);
}

namespace {

struct PropModel {
  struct E { int type; std::string data; };
  std::vector<E> log;      // from index base+1
  U64 base = 0, applied = 0, committed = 0, pending = 0;
  U64 quota = 0, unc = 0;
  U64 transferee = 0;
  U64 last() const { return base + log.size(); }
};
std::string CcV1(raftpb::ConfChangeType t, U64 id) {
  raftpb::ConfChange cc;
  cc.set_type(t);
  cc.set_node_id(id);
  return cc.SerializeAsString();
}
std::string CcV2(std::vector<std::pair<raftpb::ConfChangeType, U64>> ch, raftpb::ConfChangeTransition tr) {
  raftpb::ConfChangeV2 cc;
  for (auto& x : ch) {
    auto s = cc.add_changes();
    s->set_type(x.first);
    s->set_node_id(x.second);
  }
  cc.set_transition(tr);
  return cc.SerializeAsString();
}
const int N = raftpb::EntryNormal, V1 = raftpb::EntryConfChange, V2 = raftpb::EntryConfChangeV2;

}  // namespace

UNIT(proposals, Fmt("leader of three (plain, or in a joint configuration left explicitly), plain, with an uncommitted limit of 8 bytes or with one committed entry per Ready: every sequence of %d of: 12 proposals (normal, empty, large, simple and joint membership changes, leaving, batches mixing them), acknowledgement by the others, one Ready, acknowledgement and application of everything, start and expiry of a leadership transfer; equal states merged", (thorough ? 5 : 4) - kLess)) {
  int start = c.pick(2);
  int mode = c.pick(3);
  bool limited = mode == 1, paged = mode == 2;
  const int depth = (c.thorough ? 5 : 4) - kLess;
  auto b = Make(start ? kLeadJoint : kLead, false, false, limited ? 8 : 0, paged);
  PropModel m;
  m.quota = limited ? 8 : ~0ull;
  for (auto& e : b->st->ents) m.log.push_back({(int)e->type(), e->data()});
  m.applied = m.committed = m.last();
  m.pending = 2;
  c.note("%s, uncommitted limit %d%s", start ? "joint {1,2}&{1,3}" : "voters {1,2,3}", limited ? 8 : 0, paged ? ", one committed entry per Ready" : "");
  using B = std::vector<PropModel::E>;
  const std::string addl = CcV1(raftpb::ConfChangeAddLearnerNode, 5), rem = CcV1(raftpb::ConfChangeRemoveNode, 3), rem1 = CcV1(raftpb::ConfChangeRemoveNode, 1);
  const std::string jexp = CcV2({{raftpb::ConfChangeAddLearnerNode, 6}}, raftpb::ConfChangeTransitionJointExplicit);
  const std::string jauto = CcV2({{raftpb::ConfChangeRemoveNode, 3}, {raftpb::ConfChangeAddNode, 4}}, raftpb::ConfChangeTransitionAuto);
  std::vector<B> batches = {
      {{N, "a"}}, {{N, ""}}, {{N, "abcdefghi"}}, {{N, "b"}, {N, "c"}}, {{V1, addl}}, {{V2, jexp}}, {{V2, jauto}}, {{V2, ""}},
      {{N, "d"}, {V1, rem}}, {{V1, addl}, {V2, jexp}}, {{V1, rem1}, {N, "e"}}, {{V2, ""}, {V1, addl}}};
  int bigs = 0;
  auto ack = [&] {
    U64 upto = b->last();
    auto st0 = b->n->GetStatus();
    for (U64 f : {2, 3, 4}) {
      if (!st0.progress.count(f)) continue;
      auto a = MkMsg(raftpb::MsgAppResp, f, 1, b->term());
      a->set_index(upto);
      b->Step(a);
    }
    m.committed = upto;
  };
  auto one = [&] {
    U64 old = m.applied, sz = 0;
    b->One();
    U64 now = b->applied_to;
    if (now <= old) return;
    for (U64 i = old + 1; i <= now; i++) sz += m.log[i - 1 - m.base].data.size();
    m.unc = sz > m.unc ? 0 : m.unc - sz;
    m.applied = now;
    auto st1 = b->n->GetStatus();
    if (st1.config.auto_leave && old <= m.pending && now >= m.pending) {
      m.log.push_back({V2, ""});
      m.pending = m.last();
    }
    if (m.transferee && !st1.config.voters.IDs().count(m.transferee) && st1.progress.count(1)) m.transferee = 0;
  };
  for (int s = 0; s < depth; s++) {
    int o = c.pick((int)batches.size() + 5);
    c.step();
    auto st0 = b->n->GetStatus();
    bool joint = st0.config.Joint();
    bool member = st0.progress.count(1);
    if (o < (int)batches.size()) {
      auto batch = batches[o];
      bool fwd = o % 2;
      auto msg = MkMsg(raftpb::MsgProp, fwd ? 2 : 1, 1, 0);
      std::string what;
      for (auto& e : batch) {
        auto x = msg->add_entries();
        x->set_type((raftpb::EntryType)e.type);
        x->set_data(e.data);
        what += Fmt("%s'%s' ", e.type == N ? "" : e.type == V1 ? "v1:" : "v2:", e.type == N ? e.data.c_str() : Hex(e.data).c_str());
      }
      c.note("propose %s", what.c_str());
      // the model
      B in = batch;
      U64 pend = m.pending, size = 0;
      for (size_t i = 0; i < in.size(); i++) {
        if (in[i].type != N) {
          bool leave = in[i].data.empty();
          if (pend > m.applied || (joint && !leave) || (!joint && leave)) in[i] = {N, ""};
          else pend = m.last() + 1 + i;
        }
        size += in[i].data.size();
      }
      bool accept = member && !m.transferee && !(limited && m.unc > 0 && size > 0 && m.unc + size > m.quota);
      auto r = b->Step(msg);
      if (c.fresh() && r.IsOK() != accept) c.viol({25, 14, 19}, "proposal-verdict", "proposal %s%s; expected %s (uncommitted %d, transfer to %d, member %d)", what.c_str(), r.IsOK() ? "accepted" : "refused", accept ? "accepted" : "refused", (int)m.unc, (int)m.transferee, member);
      if (c.fresh() && !accept && std::string(r.Str()) != kErrProposalDropped) c.viol({25}, "proposal-error", "refused with '%s'", r.Str());
      if (accept) {
        for (auto& e : in) m.log.push_back(e);
        m.pending = pend;
        if (limited) m.unc += size;
      }
    } else if (o == (int)batches.size()) {
      // the others have everything that was sent to them
      c.note("the others acknowledge %d", (int)b->last());
      ack();
    } else if (o == (int)batches.size() + 1) {
      if (!b->n->HasReady()) throw Skip();
      c.note("one Ready");
      one();
    } else if (o == (int)batches.size() + 4) {
      c.note("everything is acknowledged and applied");
      for (int k = 0; k < 6; k++) {
        ack();
        while (b->n->HasReady()) one();
      }
    } else if (o == (int)batches.size() + 2) {
      if (bigs++) throw Skip();
      c.note("transfer to 2");
      b->n->TransferLeader(2);
      if (st0.progress.count(2)) m.transferee = 2;
    } else if (o == (int)batches.size() + 3) {
      if (!m.transferee) throw Skip();
      c.note("an election timeout passes");
      for (int i = 0; i < 3; i++) b->n->Tick();
      m.transferee = 0;
    }
    b->out.clear();
    if (c.fresh()) {
      auto st = b->n->GetStatus();
      if (st.basic.soft_state.raft_state != kLeader) c.viol({19, 26}, "lost-lead", "the leader is leader no more");
      if (st.basic.lead_transferee != m.transferee) c.viol({19, 31}, "transferee", "transfer target reported is %d, should be %d", (int)st.basic.lead_transferee, (int)m.transferee);
      if (b->last() != m.last()) c.viol({25, 8, 14}, "log-length", "the leader's log ends at %d, should end at %d", (int)b->last(), (int)m.last());
      auto [ents, se] = b->r()->GetRaftLog()->Entries(1, ~0ull);
      for (size_t i = 0; i < ents.size(); i++) {
        auto& e = *ents[i];
        auto& w = m.log[i];
        if (e.index() != i + 1 || (int)e.type() != w.type || e.data() != w.data)
          c.viol({25, 8, 27}, "log-content", "entry %d is index %d type %d data %s, should be type %d data %s", (int)i + 1, (int)e.index(), (int)e.type(), Hex(e.data()).c_str(), w.type, Hex(w.data).c_str());
        if (i >= 3 && e.term() != b->term()) c.viol({25, 3}, "log-term", "entry %d has term %d in term %d", (int)i + 1, (int)e.term(), (int)b->term());
      }
    }
    // merge on the model and the node
    std::string h = Fmt("%d %d %d %d %d %d %d %d|", start, mode, (int)m.applied, (int)m.committed, (int)m.pending, (int)m.unc, (int)m.transferee, bigs) + Digest(*b);
    b->r()->SetRandomizedElectionTimeout(5);
    c.merge(s < depth - 1 ? b->Deep(FNV(h)) : FNV(h), depth - s - 1);
  }
}

UNIT(proposals_elsewhere, "a node in every non-leading situation and a leader that has been removed, forwarding on and off: every kind of proposal (data of three sizes, empty, membership changes in both formats, batches) through each call; forwarded unchanged to the known leader or refused without effect") {
  int sit = c.pick(6);
  const int sits[] = {kFollow0, kFollow2, kCand, kPre, kStranger, kLearn};
  int which = sits[sit];
  bool nofwd = c.flip(), lead = c.flip();
  if (lead && which != kStranger && which != kLearn) throw Skip();
  auto b = Make(which, false, nofwd), a = Make(which, false, nofwd);
  a->r()->SetRandomizedElectionTimeout(4);
  b->r()->SetRandomizedElectionTimeout(4);
  if (lead)
    for (auto* x : {a.get(), b.get()}) x->Step(MkMsg(raftpb::MsgHeartbeat, 2, 1, 2));
  a->Drain();
  b->Drain();
  a->out.clear();
  b->out.clear();
  bool known = which == kFollow2 || lead;
  c.note("%s%s, forwarding %d", SitName[which], lead ? " following 2" : "", !nofwd);
  int call = c.pick(8);
  Status s;
  std::vector<std::pair<int, std::string>> want;
  U64 wfrom = 1;
  raftpb::ConfChange v1;
  v1.set_type(raftpb::ConfChangeAddLearnerNode);
  v1.set_node_id(5);
  v1.set_context("why");
  raftpb::ConfChangeV2 v2;
  auto x = v2.add_changes();
  x->set_type(raftpb::ConfChangeRemoveNode);
  x->set_node_id(3);
  x = v2.add_changes();
  x->set_type(raftpb::ConfChangeAddNode);
  x->set_node_id(4);
  v2.set_transition(raftpb::ConfChangeTransitionJointExplicit);
  v2.set_context("because");
  if (call < 4) {
    std::string d = call == 0 ? "" : call == 1 ? "a" : call == 2 ? std::string("\0zero\xff", 6) : std::string(5000, 'q');
    want.push_back({N, d});
    s = b->n->Propose(d);
  } else if (call == 4) {
    want.push_back({V1, v1.SerializeAsString()});
    auto y = v1;
    s = b->n->ProposeConfChange(ConfChangeI(std::move(y)));
  } else if (call == 5) {
    want.push_back({V2, v2.SerializeAsString()});
    auto y = v2;
    s = b->n->ProposeConfChange(ConfChangeI(std::move(y)));
  } else {
    // forwarded by another node (6) or a batch of the application (7)
    wfrom = call == 6 ? 3 : 1;
    auto m = MkMsg(raftpb::MsgProp, wfrom, 1, 0);
    for (int i = 0; i < 3; i++) {
      auto e = m->add_entries();
      e->set_type(i == 1 ? raftpb::EntryConfChangeV2 : raftpb::EntryNormal);
      e->set_data(i == 1 ? v2.SerializeAsString() : Fmt("batch%d", i));
      want.push_back({(int)e->type(), e->data()});
    }
    s = b->Step(m);
  }
  c.step();
  bool fwd = known && !nofwd;
  if (s.IsOK() != fwd) c.viol({25}, "forward-verdict", "proposal %s, expected %s", s.IsOK() ? "accepted" : "refused", fwd ? "forwarding" : "refusal");
  if (!fwd && std::string(s.Str()) != kErrProposalDropped) c.viol({25}, "proposal-error", "refused with '%s'", s.Str());
  b->Drain();
  if (fwd) {
    if (b->out.size() != 1) c.viol({25}, "forward-count", "%d messages sent for one proposal", (int)b->out.size());
    auto& m = b->out[0];
    bool ok = m->type() == raftpb::MsgProp && m->to() == 2 && m->from() == wfrom && m->term() == 0 && m->entries_size() == (int)want.size();
    for (size_t i = 0; ok && i < want.size(); i++) ok = (int)m->entries((int)i).type() == want[i].first && m->entries((int)i).data() == want[i].second;
    if (!ok) c.viol({25, 27}, "forward-content", "forwarded as %s", Show(m).c_str());
    b->out.clear();
  }
  SameFuture(c, *a, *b, {25}, "proposal-effect", fwd ? "forwarding a proposal" : "a refused proposal");
}

// ---- membership changes in both formats ----------------------------------

UNIT(conf_formats, "every kind of change x ids {1..5} on four starting configurations (plain, with learners, learner-only additions, two voters), proposed to a real leader in the old format and in the new one (automatic transition), committed, decoded from the log and applied on leader and follower; then the joint forms against each other") {
  static const std::vector<raftpb::ConfState> starts = {Conf({1, 2, 3}), Conf({1, 2, 3}, {4}), Conf({1, 2}, {4, 5}), Conf({1, 2})};
  auto& cs = starts[c.pick(4)];
  auto type = (raftpb::ConfChangeType)c.pick(4);
  U64 id = 1 + c.pick(5);
  std::string ctx = c.flip() ? "ctx" : "";
  // removing or demoting voters so that none is left is refused elsewhere
  auto mk = [&](bool old) {
    auto b = std::make_unique<Box>(1);
    b->st->cs = cs;
    b->Log({1});
    b->Hard(1, 0, 1);
    b->cfg.applied = 1;
    b->Start();
    b->n->Campaign();
    b->Drain();
    b->Step(MkMsg(raftpb::MsgVoteResp, 2, 1, b->term()));
    b->Drain();
    auto ack = [&] {
      for (U64 f : {2, 3}) {
        auto m = MkMsg(raftpb::MsgAppResp, f, 1, b->term());
        m->set_index(b->last());
        b->Step(m);
      }
      b->Drain();
    };
    ack();
    Status s;
    if (old) {
      raftpb::ConfChange cc;
      cc.set_type(type);
      cc.set_node_id(id);
      cc.set_context(ctx);
      s = b->n->ProposeConfChange(ConfChangeI(std::move(cc)));
    } else {
      raftpb::ConfChangeV2 cc;
      auto x = cc.add_changes();
      x->set_type(type);
      x->set_node_id(id);
      cc.set_context(ctx);
      s = b->n->ProposeConfChange(ConfChangeI(std::move(cc)));
    }
    if (!s.IsOK()) c.viol({25, 27}, "refused", "a legal change was refused: %s", s.Str());
    b->apply_confs = true;
    ack();
    return b;
  };
  auto x = mk(true), y = mk(false);
  c.step();
  auto sx = x->n->GetStatus(), sy = y->n->GetStatus();
  if (!(sx.config == sy.config)) c.viol({27, 9}, "formats-differ", "type %d id %d on %s: old format gives %s, new format %s", (int)type, (int)id, cs.ShortDebugString().c_str(), sx.config.String().c_str(), sy.config.String().c_str());
  if (x->st->cs.SerializeAsString() != y->st->cs.SerializeAsString()) c.viol({27, 9}, "formats-differ", "resulting states differ: %s and %s", x->st->cs.ShortDebugString().c_str(), y->st->cs.ShortDebugString().c_str());
  std::set<U64> px, py;
  for (auto& p : sx.progress) px.insert(p.first);
  for (auto& p : sy.progress) py.insert(p.first);
  if (px != py) c.viol({27, 9}, "formats-differ", "the two formats leave different members tracked");
  // expected configuration
  std::set<U64> v(cs.voters().begin(), cs.voters().end()), l(cs.learners().begin(), cs.learners().end());
  if (type == raftpb::ConfChangeAddNode) { v.insert(id); l.erase(id); }
  if (type == raftpb::ConfChangeAddLearnerNode) { v.erase(id); l.insert(id); }
  if (type == raftpb::ConfChangeRemoveNode) { v.erase(id); l.erase(id); }
  auto gv = sx.config.voters.Incoming().IDs();
  if (std::set<U64>(gv.begin(), gv.end()) != v || sx.config.learners != l || sx.config.Joint())
    c.viol({9, 27}, "result", "type %d id %d on %s gives %s", (int)type, (int)id, cs.ShortDebugString().c_str(), sx.config.String().c_str());
}

// ---- bootstrap -------------------------------------------------------------

UNIT(bootstrap_inputs, "every list of up to 3 peers out of 4 (any order, with contexts, repeated ids), bootstrapped as member or stranger, on five kinds of storage (empty, saved entries, compacted, snapshot only, after a crash right after bootstrap), in one piece or split by Readys; then election by the listed members") {
  int kind = c.pick(5);
  int n = c.pick(4);
  std::vector<Peer> peers;
  std::string what = "peers";
  for (int i = 0; i < n; i++) {
    U64 id = 1 + c.pick(4);
    peers.push_back({id, i == 1 ? "" : Fmt("ctx%d", (int)id)});
    what += Fmt(" %d", (int)id);
  }
  bool direct = c.flip();
  Raft::Config cfg;
  auto logger = QuietLogger();
  auto st = std::make_shared<MemoryStorage>(logger);
  cfg.id = 1;
  cfg.election_tick = 3;
  cfg.heartbeat_tick = 1;
  cfg.storage = st;
  cfg.max_size_per_msg = 1 << 20;
  cfg.max_inflight_msgs = 4;
  cfg.logger = logger;
  if (kind == 1 || kind == 2) {
    EntryPtrs es{MkEnt(1, 1), MkEnt(2, 1)};
    st->Append(es);
    raftpb::HardState hs;
    hs.set_term(1);
    hs.set_commit(2);
    st->SetHardState(hs);
    if (kind == 2) {
      auto cs = Conf({1, 2});
      st->CreateSnapshot(2, &cs, "d");
      st->Compact(2);
      cfg.applied = 2;
    }
  }
  if (kind == 3) {
    auto s = std::make_shared<raftpb::Snapshot>();
    s->mutable_metadata()->set_index(7);
    s->mutable_metadata()->set_term(2);
    *s->mutable_metadata()->mutable_conf_state() = Conf({1, 2});
    st->ApplySnapshot(s);
    raftpb::HardState hs;
    hs.set_term(2);
    hs.set_commit(7);
    st->SetHardState(hs);
  }
  c.note("%s on storage kind %d", what.c_str(), kind);
  bool empty = kind == 0 || kind == 4;
  auto look = [](RawNode* nd) {
    auto s = nd->GetStatus();
    return Fmt("%d %d %d %d %d %d ", (int)s.basic.hard_state.term(), (int)s.basic.hard_state.vote(), (int)s.basic.hard_state.commit(), (int)s.basic.soft_state.lead, (int)s.basic.soft_state.raft_state, (int)s.basic.applied) +
           s.config.String() + (nd->HasReady() ? " ready" : " quiet") + Fmt(" last %d ", (int)nd->GetRaft()->GetRaftLog()->LastIndex()) + ShowReady(nd->ReadyWithoutAccept());
  };
  auto store = [&] {
    auto [f, s1] = st->FirstIndex();
    auto [l, s2] = st->LastIndex();
    auto [hs, cs, s3] = st->InitialState();
    return Fmt("%d-%d ", (int)f, (int)l) + hs.ShortDebugString() + "/" + cs.ShortDebugString();
  };
  std::string s0 = store();
  std::unique_ptr<RawNode> node;
  bool ok;
  c.step();
  if (direct) {
    node = RawNode::New(cfg);
    std::string before = look(node.get());
    auto s = node->Bootstrap(peers);
    ok = s.IsOK();
    if (ok != (empty && n > 0)) c.viol({28}, "verdict", "bootstrap with %s on storage kind %d: %s", what.c_str(), kind, ok ? "accepted" : s.Str());
    if (!ok && look(node.get()) != before) c.viol({28}, "refused-effect", "refused bootstrap changed the node from %s to %s", before.c_str(), look(node.get()).c_str());
  } else {
    node = RawNode::Start(cfg, peers);
    auto twin = RawNode::New(cfg);
    ok = empty && n > 0;
    if (!ok && look(node.get()) != look(twin.get())) c.viol({28}, "refused-effect", "start with a refused bootstrap gives %s instead of %s", look(node.get()).c_str(), look(twin.get()).c_str());
  }
  if (store() != s0) c.viol({28}, "storage-touched", "bootstrap changed the storage: %s, was %s", store().c_str(), s0.c_str());
  if (!ok) return;
  std::set<U64> ids;
  for (auto& p : peers) ids.insert(p.id);
  auto conf_is = [&](RawNode* nd, const char* when) {
    auto cf = nd->GetStatus().config;
    auto g = cf.voters.Incoming().IDs();
    if (std::set<U64>(g.begin(), g.end()) != ids || cf.Joint() || !cf.learners.empty()) c.viol({28, 9}, "configuration", "%s the configuration is %s", when, cf.String().c_str());
  };
  conf_is(node.get(), "after bootstrap");
  auto bs = node->GetBasicStatus();
  if (bs.hard_state.term() != 1 || bs.hard_state.commit() != (U64)n || bs.hard_state.vote() != 0 || bs.applied != 0 || bs.soft_state.raft_state != kFollower)
    c.viol({28}, "state", "after bootstrap of %d peers: %s", n, look(node.get()).c_str());
  auto check_entry = [&](const EntryPtr& e, U64 at, const char* where) {
    raftpb::ConfChange cc;
    bool good = e->index() == at && e->term() == 1 && e->type() == raftpb::EntryConfChange && cc.ParseFromString(e->data()) && cc.type() == raftpb::ConfChangeAddNode && at >= 1 && at <= (U64)n &&
                cc.node_id() == peers[at - 1].id && cc.context() == peers[at - 1].context;
    if (!good) c.viol({28}, "entry", "%s entry %d of the bootstrap is wrong: %s", where, (int)at, e->ShortDebugString().c_str());
  };
  if (!node->HasReady()) c.viol({28, 24}, "no-ready", "nothing to do after bootstrap");
  // one Ready, with a crash after it was saved (kind 4)
  U64 saved = 0, applied = 0;
  raftpb::ConfState cs;
  auto drain = [&](RawNode* nd) {
    int k = 0;
    while (nd->HasReady()) {
      if (++k > 20) c.viol({24, 28}, "never-quiet", "Readys without end after bootstrap");
      auto rd = nd->GetReady();
      for (auto& e : rd->entries) {
        if (e->index() <= (U64)n) check_entry(e, e->index(), "saved");
        saved = std::max<U64>(saved, e->index());
      }
      auto es = rd->entries;
      st->Append(es);
      if (!IsEmptyHardState(rd->hard_state)) st->SetHardState(rd->hard_state);
      for (auto& e : rd->committed_entries) {
        if (e->index() != applied + 1) c.viol({28, 6}, "apply-order", "entry %d delivered after %d", (int)e->index(), (int)applied);
        if (e->index() <= (U64)n) check_entry(e, e->index(), "delivered");
        applied = e->index();
        if (e->type() == raftpb::EntryConfChange) {
          raftpb::ConfChange cc;
          cc.ParseFromString(e->data());
          cs = nd->ApplyConfChange(ConfChangeI(std::move(cc)));
        }
      }
      nd->Advance();
    }
  };
  if (kind == 4) {
    auto rd = node->GetReady();
    auto es = rd->entries;
    st->Append(es);
    st->SetHardState(rd->hard_state);
    node = RawNode::New(cfg);
    // the stored state is used, bootstrap has to be refused now
    auto twin = RawNode::New(cfg);
    auto s = node->Bootstrap(peers);
    if (s.IsOK()) c.viol({28}, "twice", "bootstrap accepted again after a restart");
    if (look(node.get()) != look(twin.get())) c.viol({28}, "refused-effect", "second bootstrap changed the node");
  }
  drain(node.get());
  if (applied != (U64)n && !(ids.size() == 1 && ids.count(1))) c.viol({28, 6}, "not-delivered", "%d of %d bootstrap entries delivered", (int)applied, n);
  conf_is(node.get(), "after applying");
  if (kind != 4 && saved < (U64)n) c.viol({28}, "not-saved", "%d of %d bootstrap entries handed out for saving", (int)saved, n);
  auto s = node->Bootstrap(peers);
  if (s.IsOK()) c.viol({28}, "twice", "bootstrap accepted twice");
  // the members elect a leader
  if (!ids.count(1)) {
    node->Campaign();
    if (node->GetBasicStatus().soft_state.raft_state != kFollower) c.viol({28, 22}, "stranger-campaigns", "a node outside the list campaigns");
    return;
  }
  node->Campaign();
  if (node->GetBasicStatus().hard_state.term() != 2) c.viol({28}, "no-campaign", "a listed node cannot campaign after bootstrap");
  drain(node.get());
  for (U64 v : ids)
    if (v != 1) node->Step(MkMsg(raftpb::MsgVoteResp, v, 1, 2));
  if (node->GetBasicStatus().soft_state.raft_state != kLeader) c.viol({28, 10}, "no-leader", "all listed nodes voted and there is no leader");
}

// ---- start from storage ----------------------------------------------------

UNIT(start_from_storage, "every stored state with a log of up to 4 entries (terms <= 2), compacted anywhere, commit index anywhere, saved vote or not, six configurations (plain, learners, joint, joint auto-leave with staged learner, single, stranger), every legal applied index: what the node reports and delivers first; every combination of illegal and legal parameters") {
  static const std::vector<raftpb::ConfState> confs = {Conf({1, 2, 3}), Conf({2, 3}, {1, 4}), Conf({1, 2}, {}, {2, 3}), Conf({1, 2}, {5}, {1, 3}, {3}, true), Conf({1}), Conf({2, 3})};
  if (c.flip()) {
    // parameters
    Box b(1);
    b.st->cs = confs[0];
    const int64_t ticks[] = {-1, 0, 1, 2, 10};
    const U64 ids[] = {0, 1};
    b.cfg.id = ids[c.pick(2)];
    b.cfg.election_tick = ticks[c.pick(5)];
    b.cfg.heartbeat_tick = ticks[c.pick(5)];
    b.cfg.max_inflight_msgs = ticks[c.pick(5)];
    b.cfg.check_quorum = c.flip();
    b.cfg.read_only_option = c.flip() ? ReadOnly::ReadOnlyOption::kLeaseBased : ReadOnly::ReadOnlyOption::kSafe;
    bool no_storage = c.flip();
    if (no_storage) b.cfg.storage = nullptr;
    bool want = b.cfg.id != 0 && b.cfg.heartbeat_tick > 0 && b.cfg.election_tick > b.cfg.heartbeat_tick && b.cfg.max_inflight_msgs > 0 && !no_storage &&
                !(b.cfg.read_only_option == ReadOnly::ReadOnlyOption::kLeaseBased && !b.cfg.check_quorum);
    c.step();
    auto s = b.cfg.Validate();
    if (s.IsOK() != want) c.viol({33}, "validate", "id %d election %d heartbeat %d inflight %d checkquorum %d lease %d storage %d: %s", (int)b.cfg.id, (int)b.cfg.election_tick, (int)b.cfg.heartbeat_tick, (int)b.cfg.max_inflight_msgs, b.cfg.check_quorum, b.cfg.read_only_option == ReadOnly::ReadOnlyOption::kLeaseBased, !no_storage, s.Str());
    return;
  }
  if (c.pick(8) == 7) {
    // a stored commit index that the stored log cannot have, and limits left unset
    int len = c.pick(3), base = c.pick(len + 1), commit = c.pick(5);
    Box b(1);
    b.st->cs = confs[4];
    b.Log(std::vector<U64>(len, 1));
    if (base) b.st->Compact(base, base, confs[4]);
    b.Hard(1, 0, commit);
    if (commit == 0) b.Hard(1, 1, 0);
    b.cfg.max_committed_size_per_ready = 0;
    b.cfg.max_uncommitted_entries_size = 0;
    b.cfg.max_size_per_msg = 1;
    c.note("log of %d compacted to %d, stored commit %d", len, base, commit);
    c.step();
    bool want = commit >= base && commit <= len;
    bool ok = Guard([&] { b.Start(); });
    if (ok != want) c.viol({33, 12}, "commit-range", "a stored commit index of %d with a log from %d to %d is %s", commit, base + 1, len, ok ? "accepted" : "refused");
    if (!ok) return;
    b.apply_confs = false;
    int most = 0;
    while (b.n->HasReady()) {
      size_t n0 = b.applied.size();
      b.One();
      most = std::max(most, (int)(b.applied.size() - n0));
    }
    if (most > 1) c.viol({33, 6}, "default-page", "with the page limit unset and a message limit for one entry, %d committed entries come in one Ready", most);
    b.n->Campaign();
    b.Drain();
    if (b.role() != kLeader) c.viol({33, 23}, "single", "a single voter did not become leader");
    for (int i = 0; i < 3; i++)
      if (!b.n->Propose(std::string(1000, 'q')).IsOK()) c.viol({33, 14}, "default-quota", "proposal %d refused although no limit on uncommitted entries is set", i);
    return;
  }
  int len = c.pick(5);
  std::vector<U64> terms;
  for (int i = 0; i < len; i++) terms.push_back(i && terms.back() == 2 ? 2 : 1 + c.pick(2));
  int base = c.pick(len + 1);
  int commit = base + c.pick(len - base + 1);
  U64 vote = c.pick(3);
  int ci = c.pick((int)confs.size());
  int applied = c.pick(3);  // unset, at the snapshot, further on
  int lim = c.pick(2);
  Box b(1);
  b.st->cs = confs[ci];
  b.Log(terms);
  auto all = b.st->ents;
  if (base > 0) b.st->Compact(base, base, confs[ci]);
  U64 term = terms.empty() ? 1 : terms.back();
  if (vote == 2) term++;
  bool nohs = commit == base && vote == 0 && base == 0;
  if (!nohs) b.Hard(term, vote, commit);
  int at = applied == 0 ? 0 : applied == 1 ? base : base + (commit - base + 1) / 2;
  if (applied && at == 0) throw Skip();
  b.cfg.applied = at;
  b.cfg.max_size_per_msg = lim ? 1 : 1 << 20;
  c.note("log %s compacted to %d commit %d term %d vote %d conf %d applied %d", Show(terms).c_str(), base, commit, (int)term, (int)vote, ci, at);
  c.step();
  b.Start();
  b.apply_confs = false;
  auto st = b.n->GetStatus();
  U64 wt = nohs ? 0 : term;
  if (st.basic.id != 1 || st.basic.hard_state.term() != wt || st.basic.hard_state.vote() != (nohs ? 0 : vote) || st.basic.hard_state.commit() != (U64)commit || st.basic.applied != (U64)std::max(at, base) || st.basic.soft_state.lead != 0 ||
      st.basic.soft_state.raft_state != kFollower || st.basic.lead_transferee != 0)
    c.viol({33, 12, 31}, "restored-state", "after start: %s", Digest(b).c_str());
  auto& cs = confs[ci];
  std::set<U64> in(cs.voters().begin(), cs.voters().end()), og(cs.voters_outgoing().begin(), cs.voters_outgoing().end()), le(cs.learners().begin(), cs.learners().end()), ln(cs.learners_next().begin(), cs.learners_next().end());
  auto gi = st.config.voters.Incoming().IDs(), go = st.config.voters.Outgoing().IDs();
  if (std::set<U64>(gi.begin(), gi.end()) != in || std::set<U64>(go.begin(), go.end()) != og || st.config.learners != le || st.config.learners_next != ln || st.config.auto_leave != cs.auto_leave())
    c.viol({33, 9, 12}, "restored-conf", "configuration after start is %s, stored %s", st.config.String().c_str(), cs.ShortDebugString().c_str());
  if (b.last() != (U64)len) c.viol({33, 15}, "restored-log", "log ends at %d", (int)b.last());
  auto ts = b.Terms();
  if (ts != std::vector<U64>(terms.begin() + base, terms.end())) c.viol({33, 15}, "restored-log", "log terms are %s", Show(ts).c_str());
  // what it hands out first: exactly the committed entries not yet applied
  U64 from = std::max(at, base), k = 0;
  bool first = true;
  while (b.n->HasReady()) {
    if (++k > 10) c.viol({33, 24}, "never-quiet", "Readys without end after start");
    auto rd = b.n->ReadyWithoutAccept();
    if (!rd->messages.empty() || !rd->entries.empty() || !IsEmptySnap(rd->snapshot) || rd->soft_state || !rd->read_states.empty()) c.viol({33, 12, 24}, "start-output", "a started node hands out %s", ShowReady(rd).c_str());
    if (!IsEmptyHardState(rd->hard_state)) c.viol({33, 24}, "start-hardstate", "a started node wants to save its state again: %s", ShowReady(rd).c_str());
    if (rd->committed_entries.empty()) c.viol({33, 24}, "empty-ready", "an empty Ready after start");
    if (lim && rd->committed_entries.size() != 1) c.viol({33, 6}, "page", "%d entries in a page for one", (int)rd->committed_entries.size());
    for (auto& e : rd->committed_entries) {
      if (e->index() != from + 1 || e->SerializeAsString() != all[from]->SerializeAsString()) c.viol({33, 6}, "start-apply", "after start entry %d delivered, expected %d", (int)e->index(), (int)from + 1);
      from++;
    }
    first = false;
    b.One();
  }
  (void)first;
  if (from != (U64)commit) c.viol({33, 6}, "start-apply", "only entries up to %d delivered, commit is %d", (int)from, commit);
  // a member can campaign, others cannot
  b.n->Campaign();
  bool may = in.count(1) || og.count(1);
  if ((b.role() != kFollower) != may) c.viol({33, 22, 23}, "start-campaign", "node %s, role after a campaign call is %d", may ? "is a voter" : "is not a voter", (int)b.role());
}

// ---- status ----------------------------------------------------------------

UNIT(status_private, "a node in nine situations: every kind of tampering with everything returned by status, basic status, progress visits and Readys looked at (not taken) leaves the node unchanged, now and for the next eight ticks; looking changes nothing") {
  int sit = c.pick(kSits);
  bool busy = c.flip();
  auto a = Make(sit, false, false), b = Make(sit, false, false);
  a->r()->SetRandomizedElectionTimeout(4);
  b->r()->SetRandomizedElectionTimeout(4);
  if (busy)
    for (auto* x : {a.get(), b.get()}) {
      x->n->Propose("busy");
      x->n->TransferLeader(3);
      if (sit == kFollow2) {
        auto m = MkMsg(raftpb::MsgApp, 2, 1, 2);
        m->set_index(2);
        m->set_logterm(1);
        m->set_commit(3);
        m->add_entries()->CopyFrom(*MkEnt(3, 2, "more"));
        x->Step(m);
      }
    }
  int how = c.pick(9);
  c.note("%s%s, tampering %d", SitName[sit], busy ? ", busy" : "", how);
  auto tamper = [&](ProgressPtr p) {
    p->SetMatch(77);
    p->SetNext(78);
    p->SetState(StateType::kSnapshot);
    p->SetPendingSnapshot(9);
    p->SetRecentActive(!p->RecentActive());
    p->SetProbeSent(!p->ProbeSent());
    p->SetIsLearner(!p->IsLearner());
    p->GetInflights()->Reset();
    if (!p->GetInflights()->Full()) p->GetInflights()->Add(5);
  };
  auto st = b->n->GetStatus();
  auto bs = b->n->GetBasicStatus();
  c.step();
  switch (how) {
    case 0: break;
    case 1:
      for (auto& p : st.progress) tamper(p.second);
      st.progress.clear();
      break;
    case 2:
      st.config.learners.insert(1);
      st.config.learners.erase(4);
      st.config.learners_next.insert(2);
      st.config.auto_leave = !st.config.auto_leave;
      break;
    case 3:
      st.config.voters.At(0) = MajorityConfig(std::set<U64>{7});
      st.config.voters.At(1) = MajorityConfig(std::set<U64>{8, 9});
      break;
    case 4:
      st.basic.hard_state.set_term(99);
      st.basic.hard_state.set_vote(99);
      bs.hard_state.set_commit(99);
      bs.soft_state.lead = 7;
      bs.applied = 99;
      break;
    case 5: b->n->WithProgress([&](U64, ProgressType, ProgressPtr p) { tamper(p); }); break;
    case 6: {
      auto rd = b->n->ReadyWithoutAccept();
      rd->messages.clear();
      rd->entries.clear();
      rd->committed_entries.clear();
      rd->read_states.clear();
      rd->soft_state.reset();
      rd->hard_state.set_term(99);
      rd->snapshot.reset();
      break;
    }
    case 7:
      for (int i = 0; i < 3; i++) {
        b->n->HasReady();
        b->n->ReadyWithoutAccept();
        b->n->ReadyWithoutAccept()->String();
        b->n->GetStatus();
      }
      break;
    case 8: {
      // what is visited: exactly the members, with their kind
      std::set<U64> seen, want;
      auto cf = b->n->GetStatus().config;
      auto vs = cf.voters.IDs();
      want.insert(vs.begin(), vs.end());
      want.insert(cf.learners.begin(), cf.learners.end());
      b->n->WithProgress([&](U64 id, ProgressType t, ProgressPtr p) {
        if (seen.count(id)) c.viol({31}, "visited-twice", "node %d visited twice", (int)id);
        seen.insert(id);
        bool l = cf.learners.count(id);
        if ((t == ProgressType::kLearner) != l || p->IsLearner() != l) c.viol({31}, "kind", "node %d reported as %s", (int)id, l ? "voter" : "learner");
      });
      if (seen != want) c.viol({31}, "members", "%d members visited instead of %d", (int)seen.size(), (int)want.size());
      bool leader = b->role() == kLeader;
      if (!leader && !st.progress.empty()) c.viol({31}, "progress-off-leader", "a non-leader reports progress");
      if (leader) {
        std::set<U64> k;
        for (auto& p : st.progress) k.insert(p.first);
        if (k != want) c.viol({31}, "members", "progress of %d members instead of %d", (int)k.size(), (int)want.size());
      }
      break;
    }
  }
  SameFuture(c, *a, *b, {31}, "status-aliases", Fmt("tampering %d with returned status", how));
}

// ---- leadership transfer at the leader ---------------------------------------

UNIT(transfer_seq, Fmt("leader 1 of voters 1,2,3 and learner 4 (election tick 4), check-quorum and pre-vote on or off: every sequence of %d of: transfer to 1/2/3/4/unknown, proposal, tick, append acknowledgement of everything or of one more entry by 2 or 3, heartbeat answers, demotion of 2 to learner or removal of 2, one vote request from the target; target, take-over messages, refusals and the give-up compared with a model; equal states merged", (thorough ? 9 : 7) - 2 * kLess)) {
  bool cq = c.flip(), pv = c.flip();
  const int depth = (c.thorough ? 9 : 7) - 2 * kLess;
  auto b = std::make_unique<Box>(1, 4, 2);
  b->cfg.check_quorum = cq;
  b->cfg.pre_vote = pv;
  b->st->cs = Conf({1, 2, 3}, {4});
  b->Log({1, 1});
  b->Hard(1, 0, 2);
  b->cfg.applied = 2;
  b->Start();
  b->n->Campaign();
  b->Drain();
  if (pv) b->Step(MkMsg(raftpb::MsgPreVoteResp, 3, 1, 2));
  b->Drain();
  b->Step(MkMsg(raftpb::MsgVoteResp, 3, 1, 2));
  b->Drain();
  if (b->role() != kLeader) c.viol({23, 2}, "setup", "no leader");
  auto ack = [&](U64 f) {
    auto m = MkMsg(raftpb::MsgAppResp, f, 1, b->term());
    m->set_index(b->last());
    b->Step(m);
    b->Drain();
  };
  ack(2);
  ack(3);
  ack(4);
  b->Drain();
  b->out.clear();
  std::map<U64, U64> match{{2, b->last()}, {3, b->last()}, {4, b->last()}};
  std::set<U64> active{2, 3, 4};
  std::set<U64> voters{1, 2, 3}, members{1, 2, 3, 4};
  U64 target = 0;
  int el = 0, hb = 0, props = 0, confs = 0;
  bool gone = false;
  for (int s = 0; s < depth && !gone; s++) {
    static const U64 who[] = {2, 3, 4, 9, 1};
    int o = c.pick(15);
    c.step();
    U64 term = b->term();
    std::set<U64> now;  // who has to be told to take over
    std::string what;
    if (o < 5) {
      U64 x = who[o];
      what = Fmt("transfer to %d", (int)x);
      b->n->TransferLeader(x);
      if (members.count(x) && voters.count(x)) {
        if (target != x) {
          target = 0;
          if (x != 1) {
            target = x;
            el = 0;
            if (match[x] == b->last()) now.insert(x);
          }
        }
      }
    } else if (o == 5) {
      if (props++ > 1) throw Skip();
      what = "propose";
      U64 last = b->last();
      auto r = b->n->Propose(Fmt("p%d", props));
      bool accept = target == 0;
      if (c.fresh() && r.IsOK() != accept) c.viol({19, 25}, "proposal", "proposal %s while the transfer target is %d", r.IsOK() ? "accepted" : "refused", (int)target);
      if (c.fresh() && b->last() != last + (accept ? 1 : 0)) c.viol({19, 25}, "proposal-log", "log went from %d to %d", (int)last, (int)b->last());
    } else if (o == 6) {
      what = "tick";
      el++;
      hb = (hb + 1) % 2;
      b->n->Tick();
      if (el >= 4) {
        el = 0;
        if (cq) {
          int q = 1;
          for (U64 v : voters)
            if (v != 1 && active.count(v)) q++;
          if (q <= (int)voters.size() / 2) gone = true;
          active.clear();
        }
        target = 0;
      }
    } else if (o == 7 || o == 8) {
      U64 f = o == 7 ? 2 : 3;
      if (!members.count(f)) throw Skip();
      what = Fmt("%d acknowledges everything", (int)f);
      bool moved = match[f] < b->last();
      b->Drain();
      auto m = MkMsg(raftpb::MsgAppResp, f, 1, term);
      m->set_index(b->last());
      match[f] = b->last();
      active.insert(f);
      b->Step(m);
      if (moved && target == f) now.insert(f);
    } else if (o == 13 || o == 14) {
      U64 f = o == 13 ? 2 : 3;
      if (!members.count(f) || match[f] + 1 >= b->last()) throw Skip();
      what = Fmt("%d acknowledges one more entry", (int)f);
      b->Drain();
      auto m = MkMsg(raftpb::MsgAppResp, f, 1, term);
      m->set_index(++match[f]);
      active.insert(f);
      b->Step(m);
    } else if (o == 9) {
      what = "heartbeat answers";
      for (U64 f : {2, 3, 4})
        if (members.count(f)) {
          active.insert(f);
          b->Step(MkMsg(raftpb::MsgHeartbeatResp, f, 1, term));
        }
    } else if (o == 10 || o == 11) {
      if (confs++ || target == 0) throw Skip();
      what = o == 10 ? "2 is removed" : "2 becomes a learner";
      raftpb::ConfChange cc;
      cc.set_type(o == 10 ? raftpb::ConfChangeRemoveNode : raftpb::ConfChangeAddLearnerNode);
      cc.set_node_id(2);
      b->n->ApplyConfChange(ConfChangeI(std::move(cc)));
      voters.erase(2);
      if (o == 10) { members.erase(2); match.erase(2); active.erase(2); }
      else { match[2] = 0; }
      if (target == 2) target = 0;
      // a re-added member starts unknown; a demoted one keeps what it acknowledged
      if (o == 11) match[2] = b->n->GetStatus().progress[2]->Match();
    } else {
      if (!target) throw Skip();
      what = "the target asks for votes of the next term";
      auto m = MkMsg(raftpb::MsgVote, target, 1, term + 1);
      m->set_index(b->last());
      m->set_logterm(term);
      m->set_context(CampaignTypeName(CampaignType::kTransfer));
      b->Step(m);
      gone = true;
      if (c.fresh()) {
        b->Drain();
        bool granted = false;
        for (auto& x : b->out) granted = granted || (x->type() == raftpb::MsgVoteResp && !x->reject() && x->to() == target && x->term() == term + 1);
        if (!granted) c.viol({19, 21}, "no-vote", "the old leader does not vote for its chosen successor");
        if (b->role() != kFollower || b->n->GetBasicStatus().lead_transferee != 0) c.viol({19, 1}, "still-leader", "the old leader did not step down");
      }
      return;
    }
    c.note("%s", what.c_str());
    b->Drain();
    if (c.fresh()) {
      std::set<U64> told;
      for (auto& m : b->out)
        if (m->type() == raftpb::MsgTimeoutNow) {
          if (m->term() != term) c.viol({19, 35}, "takeover-term", "take-over message of term %d in term %d", (int)m->term(), (int)term);
          if (!told.insert(m->to()).second) c.viol({19, 35}, "takeover-twice", "%d told twice to take over", (int)m->to());
        }
      if (told != now) c.viol({19, 35}, "takeover", "after '%s' %d nodes told to take over (%d first), expected %d (target %d)", what.c_str(), (int)told.size(), told.empty() ? 0 : (int)*told.begin(), (int)now.size(), (int)target);
      auto bs = b->n->GetBasicStatus();
      if ((bs.soft_state.raft_state == kLeader) == gone) c.viol({19, 21}, "role", "after '%s' the node is %s", what.c_str(), gone ? "still leader" : "no longer leader");
      if (bs.lead_transferee != (gone ? 0 : target)) c.viol({19, 31}, "target", "after '%s' the transfer target is %d, should be %d", what.c_str(), (int)bs.lead_transferee, (int)target);
    }
    b->out.clear();
    std::string h = Fmt("%d%d %d %d %d %d|", cq, pv, el, (int)target, props, confs);
    for (auto& x : match) h += Fmt("%d:%d ", (int)x.first, (int)x.second);
    for (U64 x : active) h += Fmt("%d ", (int)x);
    h += Digest(*b);
    h += Fmt("hb%d", hb);
    b->r()->SetRandomizedElectionTimeout(5);
    c.merge(s < depth - 1 ? b->Deep(FNV(h)) : FNV(h), depth - s - 1);
  }
  if (!c.fresh() || gone) return;
  // A leader that gave up works on.
  for (int i = 0; i < 4 && !gone; i++) {
    for (U64 f : {2, 3, 4})
      if (members.count(f)) b->Step(MkMsg(raftpb::MsgHeartbeatResp, f, 1, b->term()));
    b->n->Tick();
    b->Drain();
  }
  if (b->n->GetBasicStatus().lead_transferee != 0) c.viol({19}, "never-gives-up", "still transferring to %d after an election timeout", (int)b->n->GetBasicStatus().lead_transferee);
  U64 at = b->last() + 1;
  auto r = b->n->Propose("after");
  b->Drain();
  if (!r.IsOK() || b->last() != at) c.viol({19, 25}, "blocked", "proposals refused after an abandoned transfer");
  for (U64 f : {2, 3})
    if (voters.count(f)) {
      auto m = MkMsg(raftpb::MsgAppResp, f, 1, b->term());
      m->set_index(at);
      b->Step(m);
    }
  if (b->commit() != at) c.viol({19, 7, 23}, "no-commit", "nothing commits after an abandoned transfer");
}
