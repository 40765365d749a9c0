// One node's part in elections, driven by every sequence of ticks, messages,
// requests and restarts, next to a model of what raft prescribes for it
// (C02 votes and terms, C20 pre-vote, C21 leases and check-quorum, C30 timers).
#include <algorithm>

#include "node_box.h"

using namespace craft;
using namespace hx;

namespace {

const int T = 3, HB = 2;
enum Role { F, C, L, P };  // same order as RaftStateType

struct Model {
  bool pv = false, cq = false, voter = true;
  U64 term = 0, vote = 0, lead = 0;
  int role = F;
  int el = 0, hb = 0, to = 0;
  bool redrawn = false;
  std::map<U64, bool> votes;
  std::set<U64> active;
  std::vector<U64> log;
  std::vector<std::string> out;
  std::set<U64> others{2, 3};
  bool transfer = false;

  U64 li() const { return log.size(); }
  U64 lt() const { return log.empty() ? 0 : log.back(); }
  void Emit(const char* t, U64 to, U64 tm, bool rej, bool force = false) {
    out.push_back(Fmt("%s to %d term %d%s%s", t, (int)to, (int)tm, rej ? " reject" : "", force ? " transfer" : ""));
  }
  void Reset(U64 t) {
    if (t != term) { term = t; vote = 0; }
    lead = 0;
    el = hb = 0;
    redrawn = true;
    votes.clear();
    active.clear();
  }
  void Follow(U64 t, U64 l) { Reset(t); lead = l; role = F; }
  bool Won(bool v) const {
    // voters are {1,2,3} or {2,3}
    size_t n = others.size() + (voter ? 1 : 0), k = 0;
    for (auto& x : votes)
      if (x.second == v && (x.first != 1 || voter)) k++;
    return v ? k > n / 2 : n - k <= n / 2;
  }
  bool quorum() const { return active.size() + (voter ? 1 : 0) > (others.size() + (voter ? 1 : 0)) / 2; }
  void Hup(bool pre, bool force) {
    if (role == L || !voter) return;
    if (pre) {
      lead = 0;
      votes.clear();
      role = P;
    } else {
      Reset(term + 1);
      vote = 1;
      role = C;
    }
    votes[1] = true;
    for (U64 o : others) Emit(pre ? "MsgPreVote" : "MsgVote", o, pre ? term + 1 : term, false, force);
  }
  void Lead() {
    U64 t = term;
    Reset(t);
    lead = 1;
    role = L;
    log.push_back(term);
  }
  void Tick() {
    el++;
    if (role != L) {
      if (voter && el >= to) {
        el = 0;
        Hup(pv, false);
      }
      return;
    }
    hb++;
    if (el >= T) {
      el = 0;
      if (cq) {
        if (!quorum()) Follow(term, 0);
        active.clear();
      }
    }
    if (role == L && hb >= HB) {
      hb = 0;
      for (U64 o : others) Emit("MsgHeartbeat", o, term, false);
    }
  }
  bool UpToDate(U64 i, U64 t) const { return t > lt() || (t == lt() && i >= li()); }
  // true: handled completely
  bool Term(raftpb::MessageType ty, U64 from, U64 t, bool rej, bool force) {
    bool isvote = ty == raftpb::MsgVote || ty == raftpb::MsgPreVote;
    bool fromleader = ty == raftpb::MsgHeartbeat || ty == raftpb::MsgApp;
    if (t > term) {
      if (isvote && !force && cq && lead && el < T) return true;
      if (ty == raftpb::MsgPreVote) return false;
      if (ty == raftpb::MsgPreVoteResp && !rej) return false;
      Follow(t, fromleader ? from : 0);
      return false;
    }
    if (t < term) {
      if (fromleader && (cq || pv)) Emit("MsgAppResp", from, term, false);
      else if (ty == raftpb::MsgPreVote) Emit("MsgPreVoteResp", from, term, true);
      return true;
    }
    return false;
  }
  void VoteReq(bool pre, U64 from, U64 t, U64 i, U64 lgt, bool force) {
    if (Term(pre ? raftpb::MsgPreVote : raftpb::MsgVote, from, t, false, force)) return;
    bool can = vote == from || (vote == 0 && lead == 0) || (pre && t > term);
    bool grant = can && UpToDate(i, lgt);
    Emit(pre ? "MsgPreVoteResp" : "MsgVoteResp", from, grant ? t : term, !grant);
    if (grant && !pre) {
      el = 0;
      vote = from;
    }
  }
  void VoteResp(bool pre, U64 from, U64 t, bool rej) {
    if (Term(pre ? raftpb::MsgPreVoteResp : raftpb::MsgVoteResp, from, t, rej, false)) return;
    if (role != (pre ? P : C)) return;
    if (pre && !rej && t != term + 1) return;
    votes.insert({from, !rej});
    if (Won(true)) {
      if (pre) Hup(false, false);
      else Lead();
    } else if (Won(false)) {
      Follow(term, 0);
    }
  }
  void FromLeader(raftpb::MessageType ty, U64 from, U64 t) {
    if (Term(ty, from, t, false, false)) return;
    if (role == C || role == P) Follow(term, from);
    el = 0;
    lead = from;
  }
};

struct Op {
  int k;
  U64 from = 0;
  int dt = 0;      // term relative to the node's
  int log = 0;     // -1 behind, 0 equal, 1 longer, 2 higher last term, 3 longer but lower last term
  bool rej = false, force = false;
};
enum { kTick1, kQuiet, kHb, kApp, kVoteReq, kPreReq, kVResp, kPResp, kCamp, kNow, kHbResp, kRestart, kSnap };

std::string OpStr(const Op& o) {
  static const char* nm[] = {"tick", "quiet-tick", "heartbeat", "append", "vote-request", "prevote-request", "vote-answer", "prevote-answer", "campaign", "timeout-now", "heartbeat-answer", "restart", "snapshot"};
  return Fmt("%s from %d term%+d%s%s%s", nm[o.k], (int)o.from, o.dt, o.k == kVoteReq || o.k == kPreReq ? Fmt(" log%+d", o.log).c_str() : "", o.rej ? " reject" : "", o.force ? " transfer" : "");
}

void Run(Ch& c, bool pv, bool cq, bool voter, int depth, int to) {
  auto b = std::make_unique<Box>(1, T, HB);
  Model m;
  m.pv = pv;
  m.cq = cq;
  m.voter = voter;
  m.to = to;
  b->cfg.pre_vote = pv;
  b->cfg.check_quorum = cq;
  b->st->cs = voter ? Conf({1, 2, 3}) : Conf({2, 3}, {1});
  b->Log({1, 2});
  m.log = {1, 2};
  m.term = 2;
  m.vote = c.flip() ? 2 : 0;
  b->Hard(2, m.vote, 1);
  b->cfg.applied = 1;
  b->Start();
  b->r()->SetRandomizedElectionTimeout(to);
  b->Drain();
  c.note("prevote %d checkquorum %d %s timeout %d, term 2 vote %d log [1 2]", pv, cq, voter ? "voter" : "learner", to, (int)m.vote);
  std::map<U64, U64> granted;  // term -> whom (self included), over restarts
  if (m.vote) granted[2] = m.vote;
  std::set<U64> led;           // terms this node led
  std::map<U64, U64> known;    // term -> leader it heard from
  bool ticked_campaign = false;

  for (int s = 0; s < depth; s++) {
    std::vector<Op> ops;
    ops.push_back({kTick1});
    ops.push_back({kQuiet});
    ops.push_back({kRestart});
    if (!pv || m.role == F) ops.push_back({kCamp});
    for (U64 x : {2, 3}) {
      bool may = !led.count(m.term) && (!known.count(m.term) || known[m.term] == x);
      if (may) {
        ops.push_back({kHb, x, 0});
        ops.push_back({kApp, x, 0});
        if (x == 2) ops.push_back({kSnap, x, 0});
      }
      if (may && m.lead == x && m.role == F) ops.push_back({kNow, x, 0});
      if (x == 3) {
        ops.push_back({kHb, x, 1});
        ops.push_back({kHb, x, -1});
      }
      for (int dt : {0, 1, -1})
        for (int lg : {0, -1, 1, 2, 3}) {
          if (x == 3 && lg != 0 && lg != -1) continue;
          if (lg > 0 && dt < 0) continue;
          ops.push_back({kVoteReq, x, dt, lg});
          if (pv) ops.push_back({kPreReq, x, dt, lg});
          if (dt == 1 && lg == 0 && x == 3) {
            ops.push_back({kVoteReq, x, dt, lg, false, true});
            if (pv) ops.push_back({kPreReq, x, dt, lg, false, true});
          }
        }
      if (m.vote == 1) {
        ops.push_back({kVResp, x, 0, 0, false});
        ops.push_back({kVResp, x, 0, 0, true});
      }
      if (m.role != F) ops.push_back({kVResp, x, -1, 0, false});
      if (pv) {
        ops.push_back({kPResp, x, 1, 0, false});
        ops.push_back({kPResp, x, 0, 0, false});
        ops.push_back({kPResp, x, 0, 0, true});
        if (x == 2) ops.push_back({kPResp, x, 1, 0, true});
      }
      if (m.role == L) ops.push_back({kHbResp, x, 0});
    }
    Op o = ops[c.pick((int)ops.size())];
    c.note("%s", OpStr(o).c_str());
    c.step();
    Model before = m;
    m.out.clear();
    m.redrawn = false;
    b->must_sync = false;
    b->r()->SetRandomizedElectionTimeout(m.to);
    U64 t = m.term + o.dt;
    auto send = [&](raftpb::MessageType ty) {
      auto msg = MkMsg(ty, o.from, 1, t);
      msg->set_reject(o.rej);
      return msg;
    };
    bool self_led = false;
    switch (o.k) {
      case kTick1: m.Tick(); b->n->Tick(); break;
      case kQuiet: m.el++; b->n->TickQuiesced(); break;
      case kCamp:
        m.Hup(m.pv, false);
        b->n->Campaign();
        break;
      case kRestart: {
        auto nb = std::make_unique<Box>(1, T, HB);
        nb->cfg.pre_vote = pv;
        nb->cfg.check_quorum = cq;
        nb->st->cs = b->st->cs;
        nb->st->ents = b->st->ents;
        nb->st->hs = b->st->hs;
        nb->cfg.applied = b->applied_to;
        b = std::move(nb);
        b->Start();
        U64 v = m.vote;
        m.Reset(m.term);
        m.vote = v;
        m.role = F;
        break;
      }
      case kHb: {
        auto msg = send(raftpb::MsgHeartbeat);
        msg->set_commit(1);
        m.FromLeader(msg->type(), o.from, t);
        if (o.dt >= 0) known[t] = o.from;
        b->Step(msg);
        break;
      }
      case kApp: {
        auto msg = send(raftpb::MsgApp);
        msg->set_index(1);
        msg->set_logterm(1);
        msg->set_commit(1);
        m.FromLeader(msg->type(), o.from, t);
        known[t] = o.from;
        b->Step(msg);
        break;
      }
      case kSnap: {  // one that brings nothing new
        auto msg = send(raftpb::MsgSnap);
        msg->mutable_snapshot()->mutable_metadata()->set_index(1);
        msg->mutable_snapshot()->mutable_metadata()->set_term(1);
        *msg->mutable_snapshot()->mutable_metadata()->mutable_conf_state() = b->st->cs;
        m.FromLeader(msg->type(), o.from, t);
        known[t] = o.from;
        b->Step(msg);
        break;
      }
      case kVoteReq:
      case kPreReq: {
        bool pre = o.k == kPreReq;
        auto msg = send(pre ? raftpb::MsgPreVote : raftpb::MsgVote);
        U64 i = m.li(), lt = m.lt();
        if (o.log == -1) i--;
        if (o.log == 1) i++;
        if (o.log == 2) { lt++; i = 1; }
        if (o.log == 3) { lt--; i += 3; }
        msg->set_index(i);
        msg->set_logterm(lt);
        if (o.force) msg->set_context(CampaignTypeName(CampaignType::kTransfer));
        m.VoteReq(pre, o.from, t, i, lt, o.force);
        b->Step(msg);
        break;
      }
      case kVResp:
      case kPResp: {
        auto msg = send(o.k == kPResp ? raftpb::MsgPreVoteResp : raftpb::MsgVoteResp);
        m.VoteResp(o.k == kPResp, o.from, t, o.rej);
        b->Step(msg);
        break;
      }
      case kNow: {
        auto msg = send(raftpb::MsgTimeoutNow);
        m.Hup(false, true);
        b->Step(msg);
        break;
      }
      case kHbResp: {
        auto msg = send(raftpb::MsgHeartbeatResp);
        m.active.insert(o.from);
        b->Step(msg);
        break;
      }
    }
    (void)self_led;
    // what the node says
    bool nredrawn = b->r()->RandomizedElectionTimeout() != m.to;
    int draw = (int)b->r()->RandomizedElectionTimeout();
    auto out = b->Take();
    if (m.role == L) led.insert(m.term);
    if (!c.fresh()) {
      for (auto& x : out) {
        if (x->type() == raftpb::MsgVoteResp && !x->reject()) granted[x->term()] = x->to();
        if (x->type() == raftpb::MsgVote) granted[x->term()] = 1;
      }
      continue;
    }
    U64 nt = b->term(), nv = b->vote(), nl = b->lead();
    int nr = (int)b->role();
    if (nt < before.term) c.viol({2, 12}, "term-regress", "term went from %d to %d on %s", (int)before.term, (int)nt, OpStr(o).c_str());
    if (nt == before.term && before.vote && nv != before.vote) c.viol({2, 12}, "vote-changed", "vote in term %d changed from %d to %d on %s", (int)nt, (int)before.vote, (int)nv, OpStr(o).c_str());
    if ((nt != before.term || nv != before.vote) && o.k != kRestart && !b->must_sync) c.viol({2, 12, 24}, "must-sync", "term or vote changed without a synchronous write being asked for on %s", OpStr(o).c_str());
    if (b->st->hs.term() != nt || b->st->hs.vote() != nv) c.viol({2, 12, 24}, "hard-state", "the node is at term %d vote %d, saved %s", (int)nt, (int)nv, b->st->hs.ShortDebugString().c_str());
    std::vector<std::string> got;
    for (auto& x : out) {
      std::string y = raftpb::MessageType_Name(x->type());
      if (x->type() == raftpb::MsgVoteResp && !x->reject()) {
        if (x->term() != nt || nv != x->to()) c.viol({2, 12, 35}, "vote-unrecorded", "vote granted to %d in term %d but recorded is %d in term %d", (int)x->to(), (int)x->term(), (int)nv, (int)nt);
        auto g = granted.find(x->term());
        if (g != granted.end() && g->second != x->to()) c.viol({2, 1}, "two-votes", "granted votes to %d and %d in term %d", (int)g->second, (int)x->to(), (int)x->term());
        granted[x->term()] = x->to();
      }
      if (x->type() == raftpb::MsgVote) {
        auto g = granted.find(x->term());
        if (g != granted.end() && g->second != 1) c.viol({2, 1}, "two-votes", "candidate in term %d having voted for %d in it", (int)x->term(), (int)g->second);
        granted[x->term()] = 1;
        if (x->index() != before.li() || x->logterm() != before.lt()) c.viol({2, 5, 35}, "vote-request-log", "vote request claims a log ending at %d/%d, it ends at %d/%d", (int)x->index(), (int)x->logterm(), (int)before.li(), (int)before.lt());
      }
      if (x->type() == raftpb::MsgPreVote && (x->index() != before.li() || x->logterm() != before.lt()))
        c.viol({20, 35}, "prevote-request-log", "pre-vote request claims a log ending at %d/%d, it ends at %d/%d", (int)x->index(), (int)x->logterm(), (int)before.li(), (int)before.lt());
      switch (x->type()) {
        case raftpb::MsgVote: case raftpb::MsgPreVote: case raftpb::MsgVoteResp: case raftpb::MsgPreVoteResp: case raftpb::MsgHeartbeat: break;
        case raftpb::MsgAppResp: if (x->index() == 0 && (o.k == kHb || o.k == kApp) && o.dt < 0) break; else continue;
        default: continue;
      }
      got.push_back(Fmt("%s to %d term %d%s%s", y.c_str(), (int)x->to(), (int)x->term(), x->reject() ? " reject" : "", x->context() == CampaignTypeName(CampaignType::kTransfer) ? " transfer" : ""));
    }
    bool campaigned = nr == P || nr == C, mcamp = m.role == P || m.role == C;
    if (o.k == kTick1 && before.role != L) {
      bool did = got.size() > 0, should = m.out.size() > 0;
      if (did != should) c.viol({30}, did ? "early-campaign" : "late-campaign", "%s an election at tick %d of timeout %d%s", did ? "started" : "did not start", before.el + 1, m.to, voter ? "" : " (not a voter)");
    }
    if (o.k == kQuiet && (got.size() || nr != before.role || nt != before.term)) c.viol({30}, "quiesced-tick", "a quiesced tick did something");
    if (before.role == L && (o.k == kTick1)) {
      if ((nr == L) != (m.role == L)) c.viol({21}, m.role == L ? "leader-gave-up" : "leader-kept", "leader with active members %zu at elapsed %d (of %d): is %d now", before.active.size(), before.el + 1, T, nr);
      if (campaigned) c.viol({30}, "leader-campaigned", "a leader started an election on a tick");
      if (got != m.out) {
        auto a = got, z = m.out;
        std::sort(a.begin(), a.end());
        std::sort(z.begin(), z.end());
        if (a != z) c.viol({30}, "heartbeats", "leader tick %d of %d: sent %zu heartbeats, should be %zu", before.hb + 1, HB, got.size(), m.out.size());
      }
    }
    if (o.k == kVoteReq || o.k == kPreReq) {
      bool leased = before.cq && before.lead && before.el < T && !o.force && o.dt > 0;
      bool g = false, r = false;
      for (auto& y : got) (y.find("reject") == std::string::npos ? g : r) = true;
      if (leased && (g || r || nt != before.term)) c.viol({21}, "lease-ignored", "%s with a leader heard %d ticks ago was not ignored", OpStr(o).c_str(), before.el);
      bool mg = false, mr = false;
      for (auto& y : m.out) (y.find("reject") == std::string::npos ? mg : mr) = true;
      if (o.k == kPreReq && (nt != before.term || nv != before.vote || nr != before.role || nl != before.lead)) c.viol({20}, "prevote-effect", "a pre-vote request changed term/vote/role/leader to %d/%d/%d/%d", (int)nt, (int)nv, nr, (int)nl);
      if (g && !mg) {
        if (o.k == kPreReq) c.viol({20, 2}, "prevote-granted", "pre-vote granted on %s", OpStr(o).c_str());
        c.viol({2}, "vote-granted", "vote granted on %s at term %d vote %d lead %d log %s", OpStr(o).c_str(), (int)before.term, (int)before.vote, (int)before.lead, Show(before.log).c_str());
      }
      if (!g && mg) {
        if (o.k == kPreReq) c.viol({20, 21, 23}, "prevote-refused", "pre-vote not granted on %s at term %d vote %d lead %d elapsed %d", OpStr(o).c_str(), (int)before.term, (int)before.vote, (int)before.lead, before.el);
        c.viol({2, 21, 23}, "vote-refused", "vote not granted on %s at term %d vote %d lead %d elapsed %d", OpStr(o).c_str(), (int)before.term, (int)before.vote, (int)before.lead, before.el);
      }
      if (mr != r) c.viol({2, 20, 23, 35}, "vote-answer", "%s %s answered with a rejection", OpStr(o).c_str(), r ? "was" : "was not");
    }
    if (o.k == kPResp && nt != m.term) c.viol({20}, "prevote-term", "term is %d after %s, should be %d", (int)nt, OpStr(o).c_str(), (int)m.term);
    if ((o.k == kVResp || o.k == kPResp) && nr != m.role) {
      if (nr == L) c.viol({1, 2, 20}, "elected-without-votes", "leader after %s", OpStr(o).c_str());
      if (nr == C && o.k == kPResp) c.viol({20}, "campaign-without-prevote", "candidate after %s", OpStr(o).c_str());
      c.viol({2, 20, 23}, "role", "role %d after %s, should be %d", nr, OpStr(o).c_str(), m.role);
    }
    if (nr == C && before.pv && before.role != P && o.k != kNow && nt != before.term) c.viol({20}, "campaign-without-prevote", "raised its term to campaign on %s without a pre-vote", OpStr(o).c_str());
    if (nt != m.term || nv != m.vote) c.viol({2, 20, 23}, "term-vote", "term %d vote %d after %s, should be %d and %d", (int)nt, (int)nv, OpStr(o).c_str(), (int)m.term, (int)m.vote);
    if (nr != m.role) c.viol({2, 20, 23, 30}, "role", "role %d after %s, should be %d", nr, OpStr(o).c_str(), m.role);
    if (nl != m.lead) c.viol({2, 21, 25, 31}, "lead", "leader %d after %s, should be %d", (int)nl, OpStr(o).c_str(), (int)m.lead);
    {
      auto a = got, z = m.out;
      std::sort(a.begin(), a.end());
      std::sort(z.begin(), z.end());
      if (a != z) {
        std::string sa, sz;
        for (auto& y : a) sa += "[" + y + "]";
        for (auto& y : z) sz += "[" + y + "]";
        c.viol({2, 20, 23, 30, 35}, "messages", "after %s sent %s, should be %s", OpStr(o).c_str(), sa.c_str(), sz.c_str());
      }
    }
    // the election timeout is drawn again exactly when the timer starts afresh in a new role or term
    if (m.redrawn && (nr != before.role || nt != before.term) && nr != P) {
      if (draw < T || draw > 2 * T - 1) c.viol({30}, "timeout-range", "election timeout %d drawn on %s, outside [%d,%d]", draw, OpStr(o).c_str(), T, 2 * T - 1);
    }
    if (!m.redrawn && nredrawn && (draw < T || draw > 2 * T - 1)) c.viol({30}, "timeout-range", "election timeout %d", draw);
    (void)mcamp;
    (void)ticked_campaign;
    U64 h = 0;
    for (U64 x : {(U64)pv, (U64)cq, (U64)voter, m.term, m.vote, m.lead, (U64)m.role, (U64)m.el, (U64)m.hb, (U64)m.to, m.li(), m.lt()}) h = Mix(h, x);
    for (auto& x : m.votes) h = Mix(h, x.first * 2 + x.second);
    for (auto x : m.active) h = Mix(h, 100 + x);
    for (auto& x : granted) h = Mix(h, x.first * 8 + x.second);
    for (auto& x : known) h = Mix(h, 1000 + x.first * 8 + x.second);
    for (auto x : led) h = Mix(h, 5000 + x);
    h = Mix(h, b->r()->ElectionElapsed());
    for (auto& x : b->r()->GetTracker().Votes()) h = Mix(h, x.first * 2 + x.second);
    for (auto& x : b->r()->GetTracker().GetProgressMap()) h = Mix(h, x.first * 2 + x.second->RecentActive());
    b->r()->SetRandomizedElectionTimeout(m.to);
    c.merge(b->Deep(h), depth - s - 1);
  }
}

}  // namespace

UNIT(elect_seq, Fmt("one node of three (voter or learner; pre-vote and check-quorum on or off; election tick 3, heartbeat tick 2, randomized timeout 3 or 5; log of 2 entries, saved term 2, with or without a vote): every sequence of %d of: tick, quiesced tick, heartbeat, append, snapshot, vote and pre-vote requests (term -1/0/+1, five kinds of log, transfer flag), their answers, campaign, timeout-now, heartbeat answer, restart; equal states merged", (thorough ? 7 : 5) - kLess)) {
  bool pv = c.flip();
  int k = c.pick(5);  // cq/timeout combinations, and the learner
  int depth = (c.thorough ? 7 : 5) - kLess;
  Run(c, pv, k & 1, k < 4, depth, k & 2 ? 5 : 3);
}

// A leader's clock: heartbeats come every HB ticks whatever else happens, and with
// check-quorum it steps down exactly at an election timeout without a quorum.
UNIT(leader_clock, Fmt("a leader of three with election ticks 2..%d and every smaller heartbeat tick, check-quorum on or off: %s ticks, after each of which one peer answers or not; a transfer or a proposal at any one of the ticks; heartbeats and step-down compared with the clock", thorough ? 6 : 5, thorough ? "3T" : "2T+2")) {
  int t = 2 + c.pick(c.thorough ? 5 : 4);
  int hb = 1 + c.pick(t - 1);
  bool cq = c.flip();
  int ticks = c.thorough ? std::min(3 * t, 15) : 2 * t + 2;
  int what = c.pick(3);  // nothing, proposal, transfer
  int when = what ? c.pick(ticks) : -1;
  auto b = std::make_unique<Box>(1, t, hb);
  b->cfg.check_quorum = cq;
  b->st->cs = Conf({1, 2, 3});
  b->Log({1});
  b->Hard(1, 0, 1);
  b->cfg.applied = 1;
  b->Start();
  b->n->Campaign();
  b->Drain();
  b->Step(MkMsg(raftpb::MsgVoteResp, 2, 1, b->term()));
  if (b->role() != kLeader) c.viol({2, 23}, "not-elected", "no leader after a quorum of votes");
  b->Drain();
  for (U64 p : {2, 3}) {
    auto m = MkMsg(raftpb::MsgAppResp, p, 1, b->term());
    m->set_index(b->last());
    b->Step(m);
  }
  b->Drain();
  b->out.clear();
  c.note("T=%d heartbeat tick %d checkquorum %d %s at tick %d", t, hb, cq, what == 1 ? "proposal" : what ? "transfer" : "nothing", when);
  bool active = true;
  int el = 0;
  for (int k = 0; k < ticks; k++) {
    c.step();
    if (k == when) {
      if (what == 1) b->n->Propose("p");
      else { b->n->TransferLeader(2); el = 0; }
      b->Drain();
      b->out.clear();
    }
    b->n->Tick();
    b->Drain();
    bool down = false;
    if (++el >= t) {
      el = 0;
      down = cq && !active;
      active = false;
    }
    int beats[4] = {0, 0, 0, 0};
    for (auto& m : b->out)
      if (m->type() == raftpb::MsgHeartbeat && m->to() < 4) beats[m->to()]++;
    b->out.clear();
    bool leads = b->role() == kLeader;
    if (leads == down) c.viol({21}, down ? "leader-kept" : "leader-gave-up", "tick %d: %s", k + 1, down ? "no quorum answered for a whole election timeout, but it still leads" : "gave up leadership");
    if (down) return;
    int due = (k + 1) % hb == 0;
    for (int p : {2, 3})
      if (beats[p] != due) c.viol({30}, "heartbeats", "tick %d of a leader with heartbeat tick %d: %d heartbeats to %d", k + 1, hb, beats[p], p);
    if (c.flip()) {
      active = true;
      c.note("tick %d, 3 answers", k + 1);
      b->Step(MkMsg(raftpb::MsgHeartbeatResp, 3, 1, b->term()));
      b->Drain();
      b->out.clear();
    }
    c.merge(Mix(Mix(Mix(b->Deep(3), t * 16 + hb), (cq * 4 + what) * 2 + (k >= when)), (el * 2 + active) * 32 + when), ticks - k - 1);
  }
}

// Each role change draws a fresh timeout in [T, 2T-1]; the campaign comes exactly then; every value occurs.
UNIT(timer_draws, "election ticks 2, 3, 5 and 10: 400 draws each over five ways to restart the timer (higher-term heartbeat, vote request, campaign, lost election, step-down of a leader): every draw in [T,2T-1], the election starts exactly at it, every value of the range occurs") {
  static const int Ts[] = {2, 3, 5, 10};
  int t = Ts[c.pick(4)];
  int way = c.pick(5);
  std::map<int, int> seen;
  c.note("T=%d way %d", t, way);
  Box b(1, t, 1);
  b.st->cs = Conf({1, 2, 3});
  b.Start();
  b.Drain();
  std::string first;
  for (int i = 0; i < 400; i++) {
    b.r()->SetRandomizedElectionTimeout(1000000);  // a value no draw can give
    U64 tm = b.term();
    auto msg = MkMsg(raftpb::MsgHeartbeat, 2, 1, tm + 1);
    switch (way) {
      case 0: b.Step(msg); break;
      case 1: {
        auto v = MkMsg(raftpb::MsgVote, 2, 1, tm + 1);
        v->set_index(b.last() + 5);
        v->set_logterm(tm + 1);
        b.Step(v);
        break;
      }
      case 2: b.n->Campaign(); break;
      case 3:
        b.n->Campaign();
        b.r()->SetRandomizedElectionTimeout(1000000);
        for (U64 x : {2, 3}) {
          auto r = MkMsg(raftpb::MsgVoteResp, x, 1, b.term());
          r->set_reject(true);
          b.Step(r);
        }
        break;
      case 4: {
        b.n->Campaign();
        b.Step(MkMsg(raftpb::MsgVoteResp, 2, 1, b.term()));
        b.r()->SetRandomizedElectionTimeout(1000000);
        b.Step(MkMsg(raftpb::MsgHeartbeat, 3, 1, b.term() + 1));
        break;
      }
    }
    c.step();
    int to = (int)b.r()->RandomizedElectionTimeout();
    if (to == 1000000) c.viol({30}, "timeout-not-drawn", "T=%d way %d: no new election timeout was drawn", t, way);
    if (to < t || to > 2 * t - 1) c.viol({30}, "timeout-range", "T=%d: timeout %d outside [%d,%d]", t, to, t, 2 * t - 1);
    seen[to]++;
    b.Drain();
    U64 before = b.term();
    int n = 0;
    while (b.term() == before && n < 3 * t) {
      b.n->Tick();
      n++;
    }
    if (n != to) c.viol({30}, "timeout-not-used", "T=%d: the election started after %d ticks, the timeout drawn was %d", t, n, to);
    b.Take();
  }
  if ((int)seen.size() != t) c.viol({30}, "timeout-values", "T=%d: only %zu of %d values occurred in 400 draws", t, seen.size(), t);
  c.state(t * 10 + way);
}

// C21: a leader with check-quorum, every pattern of who answers in which tick.
UNIT(check_quorum, Fmt("leader with check-quorum (election tick 3) in eight configurations (3 voters, 5 voters, joint halves of different size, learners, single voter): every assignment of answering members to %d windows of one election timeout, answers at the first or the last tick of each window, as heartbeat or append answers", thorough ? 4 : 3)) {
  struct Cf { std::vector<U64> in, out, learn; };
  static const std::vector<Cf> cfs = {
      {{1, 2, 3}, {}, {}}, {{1, 2, 3, 4}, {}, {}}, {{1, 2, 3, 4, 5}, {}, {}}, {{1, 2, 3}, {}, {4}}, {{1}, {}, {2}}, {{1, 2, 3}, {1, 2, 4}, {}}, {{1, 2}, {1, 3, 4}, {}}, {{2, 3}, {1, 2, 4}, {}}};
  int k = c.pick((int)cfs.size());
  const Cf& f = cfs[k];
  int at = c.pick(2) ? T - 1 : 0;
  bool app = c.flip();
  Box b(1, T, 1);
  b.cfg.check_quorum = true;
  b.st->cs = Conf(f.in, f.learn, f.out);
  b.Log({1});
  b.Hard(1, 0, 1);
  b.cfg.applied = 1;
  b.Start();
  std::set<U64> peers;
  for (auto& v : {f.in, f.out, f.learn})
    for (U64 x : v)
      if (x != 1) peers.insert(x);
  b.n->Campaign();
  b.Drain();
  for (U64 x : peers) b.Step(MkMsg(raftpb::MsgVoteResp, x, 1, b.term()));
  b.Drain();
  if (b.role() != kLeader) c.viol({21, 23}, "not-elected", "all votes but no leader");
  // joint configurations: keep the entry that would leave them uncommitted (append answers carry an old index)
  auto quorum = [&](const std::set<U64>& s) {
    auto half = [&](const std::vector<U64>& v) {
      size_t n = 0;
      for (U64 x : v) n += x == 1 || s.count(x);
      return v.empty() || n > v.size() / 2;
    };
    return half(f.in) && half(f.out);
  };
  std::vector<std::set<U64>> win;
  std::vector<U64> pl(peers.begin(), peers.end());
  int W = c.thorough ? 4 : 3;
  bool lost = false;
  std::string hist;
  for (int w = 0; w < W; w++) {
    int mask = pl.size() > 3 && w > 0 ? c.pick(1 << pl.size()) : c.pick(1 << pl.size());
    std::set<U64> s;
    for (size_t i = 0; i < pl.size(); i++)
      if (mask >> i & 1) s.insert(pl[i]);
    win.push_back(s);
    hist += Fmt(" %d", mask);
    c.note("window %d: %zu members answer", w, s.size());
    for (int i = 0; i < T; i++) {
      if (i == at)
        for (U64 x : s) {
          auto m = MkMsg(app ? raftpb::MsgAppResp : raftpb::MsgHeartbeatResp, x, 1, b.term());
          if (app) m->set_index(1);
          if (b.role() == kLeader) b.Step(m);
        }
      b.n->Tick();
      b.Drain();
    }
    c.step();
    bool leader = b.role() == kLeader && !lost;
    if (!leader && !lost) {
      // legitimate only if some window so far lacked a quorum
      bool all = true;
      for (auto& x : win) all = all && quorum(x);
      if (all) c.viol({21}, "leader-gave-up", "configuration %d: a quorum answered in every election timeout (%s) but the leader stepped down", k, hist.c_str());
      lost = true;
    }
    if (w >= 1 && leader) {
      std::set<U64> u = win[w];
      u.insert(win[w - 1].begin(), win[w - 1].end());
      if (!quorum(u)) c.viol({21}, "leader-kept", "configuration %d: no quorum answered for two election timeouts (%s) but it still leads", k, hist.c_str());
    }
    if (lost) break;
  }
  c.state(HashStr(hist, k * 4 + at * 2 + app));
}
