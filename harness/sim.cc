#include "sim.h"

#include <alloca.h>

#include <cstdlib>

namespace hx {

using craft::Raft;
using raftpb::MessageType;

const char* kKindName[] = {"campaign", "propose", "beat", "cc", "read", "transfer", "compact",
                           "crash", "deliver", "dup", "tick", "unreach", "snapfail", "step"};

std::string EvStr(const Ev& e) {
  return Fmt("%s n=%d arg=%d S=%d H=%d crash=%d stage=%d flags=%d", kKindName[e.kind], e.node, e.arg,
             e.S, e.H, e.cnode, e.cstage, e.flags);
}
bool EvParse(const std::string& s, Ev* e) {
  char k[32];
  int n, a, S, H, c, st, f;
  if (sscanf(s.c_str(), "%31s n=%d arg=%d S=%d H=%d crash=%d stage=%d flags=%d", k, &n, &a, &S, &H, &c,
             &st, &f) != 8)
    return false;
  for (int i = 0; i < kKinds; i++)
    if (!strcmp(k, kKindName[i])) {
      *e = Ev{(uint8_t)i, (uint8_t)n, (uint8_t)a, (uint8_t)S, (uint8_t)H, (uint8_t)c, (uint8_t)st, (uint8_t)f};
      return true;
    }
  return false;
}

// ---------------------------------------------------------------- logger
class SimLogger : public craft::Logger {
 public:
  SimLogger() : craft::Logger(craft::LogLevel::kFatal) {}
  void Logv(craft::LogLevel l, const char* f, va_list ap) override {
    char buf[512];
    vsnprintf(buf, sizeof buf, f, ap);
    if (l == craft::LogLevel::kFatal) Panic("FATAL: %s", buf);
  }
};
static SimLogger g_logger;

// ---------------------------------------------------------------- stack painting (calibration)
static int g_paint = -1;
__attribute__((noinline)) static void PaintStack() {
  volatile char* p = static_cast<volatile char*>(alloca(24576));
  for (int i = 0; i < 24576; i++) p[i] = static_cast<char>(g_paint);
}
static inline void Paint() {
  if (__builtin_expect(g_paint >= 0, 0)) PaintStack();
}

static uint64_t EntHash(const raftpb::Entry& e) {
  return HashStr(e.data(), e.type() + 77);
}
static std::string CanonConf(raftpb::ConfState cs) {
  std::sort(cs.mutable_voters()->begin(), cs.mutable_voters()->end());
  std::sort(cs.mutable_learners()->begin(), cs.mutable_learners()->end());
  std::sort(cs.mutable_voters_outgoing()->begin(), cs.mutable_voters_outgoing()->end());
  std::sort(cs.mutable_learners_next()->begin(), cs.mutable_learners_next()->end());
  auto ids = [](const auto& r) {
    std::string s;
    for (auto v : r) s += Fmt("%d,", (int)v);
    return s;
  };
  return "v" + ids(cs.voters()) + " o" + ids(cs.voters_outgoing()) + " l" + ids(cs.learners()) + " n" +
         ids(cs.learners_next()) + (cs.auto_leave() ? " auto" : "");
}
static bool ConfHasVoter(const raftpb::ConfState& cs, int id) {
  for (auto v : cs.voters()) if ((int)v == id) return true;
  for (auto v : cs.voters_outgoing()) if ((int)v == id) return true;
  return false;
}
static std::string SnapData(uint64_t idx, uint64_t hash) {
  return Fmt("S%llu:%016llx", (unsigned long long)idx, (unsigned long long)hash);
}

Sim::Sim(const Opts& opts, uint64_t prop_mask) : o(opts), mask_(prop_mask) {
  logger_ = std::shared_ptr<craft::Logger>(std::shared_ptr<void>(), &g_logger);
  g_logger.SetLogLevel(o.fmt_log ? craft::LogLevel::kDebug : craft::LogLevel::kFatal);
  Calibrate();
}

void Sim::Note(const char* f, ...) {
  if (!trace) return;
  Enter out(-1);  // the trace outlives the node
  char buf[1024];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  trace->push_back(buf);
}

void Sim::V(std::initializer_list<int> props, const char* monitor, const std::string& text) {
  uint64_t m = 0;
  for (int p : props) m |= 1ull << p;
  if (!(m & mask_)) return;
  if (found_) return;
  Enter out(-1);  // the finding outlives the node
  found_ = true;
  finding.props = m;
  finding.monitor = monitor;
  finding.text = text;
  Note("!! VIOLATED [%s] %s", monitor, text.c_str());
}

// ---------------------------------------------------------------- start / restart
void Sim::StartNode(int i, bool fresh) {
  msgs_seen_[i] = 0;
  Disk& d = w.disk[i];
  App& a = w.app[i];
  ArenaReset(i);
  Enter en(i);
  NodeBox* b = new NodeBox;
  box_[i] = b;
  b->st = std::make_shared<HStorage>(logger_);
  if (d.snap) {
    auto s = std::make_shared<raftpb::Snapshot>();
    s->ParseFromString(*d.snap);
    b->st->ApplySnapshot(s);
  }
  raftpb::HardState hs;
  if (d.term || d.vote || d.commit) {
    hs.set_term(d.term);
    hs.set_vote(d.vote);
    hs.set_commit(d.commit);
    b->st->SetHardState(hs);
  }
  craft::EntryPtrs es;
  for (size_t k = 0; k < d.ents.size(); k++) {
    uint64_t idx = d.first + k;
    if (idx <= d.snap_index) continue;
    auto e = std::make_shared<raftpb::Entry>();
    e->set_index(idx);
    e->set_term(d.ents[k].term);
    e->set_type(static_cast<raftpb::EntryType>(d.ents[k].type));
    e->set_data(*d.ents[k].data);
    es.push_back(e);
  }
  b->st->Append(es);
  Raft::Config c;
  c.id = i;
  c.election_tick = o.T;
  c.heartbeat_tick = o.HB;
  c.storage = b->st;
  c.max_size_per_msg = o.max_size;
  c.max_committed_size_per_ready = o.max_committed;
  c.max_uncommitted_entries_size = o.max_uncommitted;
  c.max_inflight_msgs = o.inflight;
  c.check_quorum = CheckQuorum(i);
  c.pre_vote = PreVote(i);
  c.read_only_option =
      o.lease_read ? craft::ReadOnly::kLeaseBased : craft::ReadOnly::kSafe;
  c.disable_proposal_forwarding = o.nofwd;
  c.logger = logger_;
  if (!fresh && o.restart_applied) {
    c.applied = a.applied;
    if (a.conf) {
      b->st->have_conf = true;
      b->st->conf.ParseFromString(*a.conf);
    }
  }
  Paint();
  if (fresh && o.bootstrap) {
    std::vector<craft::Peer> peers;
    for (int v : o.voters) peers.push_back(craft::Peer{(uint64_t)v, Fmt("ctx%d", v)});
    if (std::find(o.voters.begin(), o.voters.end(), i) != o.voters.end())
      b->rn = RawNode::Start(c, peers);
    else
      b->rn = RawNode::ReStart(c);
  } else {
    b->rn = RawNode::ReStart(c);
  }
  b->rn->GetRaft()->SetRandomizedElectionTimeout(o.T);
  g_progress++;
  lib_calls++;
}

void Sim::Init() {
  found_ = false;
  finding = Finding();
  w = World();
  w.propn = 0;
  healing_ = heal_ticks_ = false;
  q_.clear();
  reports_.clear();
  down_ = 0;
  Ghost& g = w.g;
  g.leader_of.assign(64, 0);
  g.chosen.assign(1, Chosen());
  raftpb::ConfState cs;
  for (int v : o.voters) cs.add_voters(v);
  for (int l : o.learners) cs.add_learners(l);
  cs.set_auto_leave(false);
  uint64_t h0 = Mix(7, 1);
  if (!o.bootstrap) {
    Chosen c;
    c.term = 1; c.cterm = 1; c.h = 0; c.chain = h0; c.type = 99;
    g.chosen.push_back(c);
    g.max_commit = 1;
  }
  for (int i = 1; i <= o.n; i++) {
    bool member = std::find(o.voters.begin(), o.voters.end(), i) != o.voters.end() ||
                  std::find(o.learners.begin(), o.learners.end(), i) != o.learners.end();
    Disk& d = w.disk[i];
    if (member && !o.bootstrap) {
      raftpb::Snapshot s;
      s.mutable_metadata()->set_index(1);
      s.mutable_metadata()->set_term(1);
      *s.mutable_metadata()->mutable_conf_state() = cs;
      s.set_data(SnapData(1, h0));
      d.snap = std::make_shared<const std::string>(s.SerializeAsString());
      d.snap_index = 1;
      d.snap_term = 1;
      d.first = 2;
      d.term = d.dterm = 1;
      d.commit = d.dcommit = 1;
      w.app[i].applied = 1;
      w.app[i].hash = h0;
      w.app[i].conf = std::make_shared<const std::string>(cs.SerializeAsString());
      w.app[i].conf_self_voter = ConfHasVoter(cs, i);
    }
  }
  g.confs.clear();
  if (!o.bootstrap) g.confs.push_back({1, HashStr(CanonConf(cs))});
  for (int i = 1; i <= o.n; i++) StartNode(i, true);
  if (o.bootstrap) {
    uint64_t first;
    auto lg = ReadLog(o.voters[0], &first);
    uint64_t chain = 0;
    for (size_t k = 0; k < lg.size(); k++) {
      Chosen c;
      c.term = lg[k].term; c.h = lg[k].h; c.type = lg[k].type; c.cterm = 1;
      chain = Mix(Mix(Mix(chain, k + 1), c.term), c.h);
      c.chain = chain;
      g.chosen.push_back(c);
    }
    g.max_commit = lg.size();
    if (lg.size() != o.voters.size())
      V({28}, "bootstrap-log", Fmt("bootstrap with %zu peers produced %zu entries", o.voters.size(), lg.size()));
  }
  for (int i = 1; i <= o.n; i++) {
    Obs& ob = w.obs[i];
    ob = Obs();
    Raft* r = raft(i);
    ob.term = r->Term();
    ob.vote = r->Vote();
    ob.state = r->State();
    ob.commit = r->GetRaftLog()->Committed();
    ob.applied = r->GetRaftLog()->Applied();
    ob.last = r->GetRaftLog()->LastIndex();
    if (o.bootstrap && std::find(o.voters.begin(), o.voters.end(), i) != o.voters.end()) {
      if (ob.term != 1 || ob.commit != o.voters.size() || ob.last != o.voters.size() ||
          ob.state != craft::kFollower || ob.vote != 0)
        V({28}, "bootstrap-state",
          Fmt("node %d after bootstrap: term=%d vote=%d commit=%d last=%d state=%d", i, (int)ob.term,
              (int)ob.vote, (int)ob.commit, (int)ob.last, ob.state));
    }
  }
  S_ = (1 << o.n) - 1;
  H_ = 0;
  hop_ = 0;
  crash_node_ = 0;
  for (int i = 1; i <= o.n; i++)
    while (!found_ && ProcessReady(i)) {}
  if (!found_) CheckLogs();
  g_arena = -1;
}

void Sim::Restart(int i, bool lost) {
  Disk& d = w.disk[i];
  App& a = w.app[i];
  if (lost) {
    d.term = d.dterm; d.vote = d.dvote; d.commit = d.dcommit;
  } else {
    d.dterm = d.term; d.dvote = d.vote; d.dcommit = d.commit;
  }
  if (d.commit < d.snap_index) d.commit = d.dcommit = d.snap_index;
  if (o.upgrade) w.upgraded ^= 1 << (i - 1);
  if (!o.restart_applied) {
    // the application restarts from its snapshot
    a = App();
    if (d.snap) {
      raftpb::Snapshot s;
      s.ParseFromString(*d.snap);
      a.applied = d.snap_index;
      unsigned long long si = 0, sh = 0;
      sscanf(s.data().c_str(), "S%llu:%llx", &si, &sh);
      a.hash = sh;
      a.conf = std::make_shared<const std::string>(s.metadata().conf_state().SerializeAsString());
      a.conf_self_voter = ConfHasVoter(s.metadata().conf_state(), i);
    }
  }
  stat_restarts++;
  Note("   node %d restarts from term=%d vote=%d commit=%d log=[%d..%d] applied=%d", i, (int)d.term,
       (int)d.vote, (int)d.commit, (int)d.first, (int)d.Last(), (int)a.applied);
  // drop the compacted-away prefix kept below the snapshot
  if (d.first <= d.snap_index) {
    size_t k = std::min<uint64_t>(d.snap_index + 1 - d.first, d.ents.size());
    d.ents.erase(d.ents.begin(), d.ents.begin() + k);
    d.first = d.snap_index + 1;
  }
  StartNode(i, false);
  Raft* r = raft(i);
  Obs ob;
  ob.term = r->Term();
  ob.vote = r->Vote();
  ob.lead = r->Lead();
  ob.state = r->State();
  ob.commit = r->GetRaftLog()->Committed();
  ob.applied = r->GetRaftLog()->Applied();
  ob.last = r->GetRaftLog()->LastIndex();
  if (ob.term != d.term || ob.vote != d.vote)
    V({2, 12}, "restart-hardstate", Fmt("node %d restarted with term=%d vote=%d but storage has term=%d vote=%d", i,
                                       (int)ob.term, (int)ob.vote, (int)d.term, (int)d.vote));
  if (ob.commit != std::max(d.commit, d.snap_index))
    V({5, 12}, "restart-commit", Fmt("node %d restarted with commit=%d, storage has %d (snapshot %d)", i,
                                    (int)ob.commit, (int)d.commit, (int)d.snap_index));
  if (ob.last != d.Last())
    V({3, 12}, "restart-log", Fmt("node %d restarted with last index %d, storage has %d", i, (int)ob.last, (int)d.Last()));
  uint64_t want = o.restart_applied ? std::max(a.applied, d.snap_index) : d.snap_index;
  if (ob.applied != want)
    V({6, 12}, "restart-applied", Fmt("node %d restarted with applied=%d, expected %d", i, (int)ob.applied, (int)want));
  if (ob.state != craft::kFollower)
    V({12, 1}, "restart-role", Fmt("node %d restarted in role %d", i, ob.state));
  if (a.conf) {
    raftpb::ConfState cs;
    cs.ParseFromString(*a.conf);
    if (CanonConf(cs) != CanonConf(r->GetTracker().ConfState()))
      V({8, 12}, "restart-conf", Fmt("node %d restarted with configuration %s instead of %s", i,
                                    CanonConf(r->GetTracker().ConfState()).c_str(), CanonConf(cs).c_str()));
  }
  w.obs[i] = ob;
}

// ---------------------------------------------------------------- observation
std::vector<LogE> Sim::ReadLog(int i, uint64_t* first) {
  auto* l = raft(i)->GetRaftLog();
  *first = l->FirstIndex();
  std::vector<LogE> out;
  auto [es, st] = l->Entries(*first, Raft::kNoLimit);
  if (!st.IsOK()) {
    V({15, 26}, "log-read", Fmt("node %d: reading its own log fails: %s", i, st.Str()));
    return out;
  }
  out.reserve(es.size());
  uint64_t idx = *first;
  for (auto& e : es) {
    if (e->index() != idx)
      V({15, 3}, "log-index", Fmt("node %d: entry at position %d carries index %d", i, (int)idx, (int)e->index()));
    idx++;
    out.push_back(LogE{e->term(), EntHash(*e), (uint32_t)e->type()});
  }
  return out;
}

void Sim::BecameLeader(int i) {
  Obs& ob = w.obs[i];
  Ghost& g = w.g;
  stat_leaders++;
  Raft* r = raft(i);
  auto pr = r->GetTracker().GetProgress(i);
  if (!pr || pr->IsLearner() || !w.app[i].conf_self_voter)
    V({1, 22}, "nonvoter-leader", Fmt("node %d became leader of term %d but is no voter in its configuration", i, (int)ob.term));
  uint64_t first;
  auto lg = ReadLog(i, &first);
  for (uint64_t idx = 1; idx <= g.max_commit; idx++) {
    const Chosen& c = g.chosen[idx];
    if (c.cterm >= ob.term) continue;
    if (idx < first) {
      // compacted here: must be covered by its snapshot, i.e. by what it committed
      if (idx > ob.commit)
        V({5}, "leader-completeness", Fmt("leader %d of term %d has compacted index %d beyond its commit", i, (int)ob.term, (int)idx));
      continue;
    }
    if (idx - first >= lg.size() || lg[idx - first].term != c.term || lg[idx - first].h != c.h)
      V({5, 1, 12, 19, 7, 8}, "leader-completeness",
        Fmt("node %d became leader of term %d without entry (index %d, term %d) committed in term %d", i,
            (int)ob.term, (int)idx, (int)c.term, (int)c.cterm));
  }
}

static bool MajorityOf(const std::set<uint64_t>& s, const std::function<bool(uint64_t)>& f) {
  size_t k = 0;
  for (auto v : s) k += f(v) ? 1 : 0;
  return s.empty() || k > s.size() / 2;
}

void Sim::CheckLeaderCommit(int i, uint64_t from, uint64_t to) {
  Ghost& g = w.g;
  Obs& ob = w.obs[i];
  stat_commits++;
  uint64_t first;
  auto lg = ReadLog(i, &first);
  if (to < first || to - first >= lg.size()) {
    V({7, 5}, "commit-range", Fmt("leader %d commits index %d outside its log", i, (int)to));
    return;
  }
  if (lg[to - first].term != ob.term)
    V({7}, "commit-old-term", Fmt("leader %d of term %d commits up to index %d of term %d", i, (int)ob.term,
                                 (int)to, (int)lg[to - first].term));
  auto& cfg = raft(i)->GetTracker().GetConfig();
  uint64_t t = lg[to - first].term;
  auto has = [&](uint64_t v) {
    if ((int)v == i) return true;
    if (v < 1 || (int)v > o.n) return false;
    return w.disk[v].Has(to, t);
  };
  std::set<uint64_t> in = cfg.voters.Incoming().IDs(), out = cfg.voters.Outgoing().IDs();
  if (in.empty() || !MajorityOf(in, has) || !MajorityOf(out, has))
    V({7, 5, 22, 8}, "commit-quorum",
      Fmt("leader %d of term %d commits (index %d, term %d) which is not durable on a majority of %s", i,
          (int)ob.term, (int)to, (int)t, cfg.String().c_str()));
  for (uint64_t idx = from + 1; idx <= to; idx++) {
    if (idx < first) continue;
    const LogE& e = lg[idx - first];
    if (idx < g.chosen.size()) {
      if (g.chosen[idx].term != e.term || g.chosen[idx].h != e.h)
        V({4, 5, 7, 12, 8}, "commit-conflict",
          Fmt("leader %d of term %d commits (index %d, term %d), but (term %d) was committed there before", i,
              (int)ob.term, (int)idx, (int)e.term, (int)g.chosen[idx].term));
    } else {
      Chosen c;
      c.term = e.term; c.h = e.h; c.type = e.type; c.cterm = ob.term;
      c.chain = Mix(Mix(Mix(g.chosen.back().chain, idx), c.term), c.h);
      g.chosen.push_back(c);
    }
  }
  if (to > g.max_commit) g.max_commit = to;
}

void Sim::Observe(int i) {
  Raft* r = raft(i);
  Obs& ob = w.obs[i];
  Ghost& g = w.g;
  auto* l = r->GetRaftLog();
  uint64_t term = r->Term(), vote = r->Vote(), lead = r->Lead(), commit = l->Committed(),
           applied = l->Applied(), last = l->LastIndex();
  int state = r->State();
  checks++;
  if (term < ob.term)
    V({2}, "term-regress", Fmt("node %d: term went from %d to %d", i, (int)ob.term, (int)term));
  if (term == ob.term && ob.vote != 0 && vote != ob.vote)
    V({2, 1}, "vote-change", Fmt("node %d: vote in term %d changed from %d to %d", i, (int)term, (int)ob.vote, (int)vote));
  if (commit < ob.commit)
    V({5}, "commit-regress", Fmt("node %d: commit index went from %d to %d", i, (int)ob.commit, (int)commit));
  if (commit > last)
    V({5}, "commit-beyond-log", Fmt("node %d: commit index %d beyond last index %d", i, (int)commit, (int)last));
  if (applied < ob.applied)
    V({6}, "applied-regress", Fmt("node %d: applied index went from %d to %d", i, (int)ob.applied, (int)applied));
  if (applied > commit)
    V({6}, "applied-beyond-commit", Fmt("node %d: applied %d beyond commit %d", i, (int)applied, (int)commit));
  uint64_t old_term = ob.term, old_commit = ob.commit, old_last = ob.last;
  int old_state = ob.state;
  ob.term = term; ob.vote = vote; ob.lead = lead; ob.commit = commit; ob.applied = applied;
  ob.last = last; ob.state = state;
  if (state != old_state || term != old_term)
    Note("   node %d: term=%d role=%s lead=%d vote=%d last=%d commit=%d", i, (int)term,
         craft::RaftStateTypeName((craft::RaftStateType)state).c_str(), (int)lead, (int)vote, (int)last, (int)commit);
  bool campaign_started =
      (state == craft::kCandidate || state == craft::kPreCandidate || state == craft::kLeader) &&
      (state != old_state || term != old_term) &&
      !(state == craft::kLeader && old_state == craft::kCandidate && term == old_term);
  if (campaign_started) {
    auto pr = r->GetTracker().GetProgress(i);
    if (!pr || pr->IsLearner())
      V({22}, "nonvoter-campaign", Fmt("node %d campaigns although it is no voter in its configuration", i));
    if (old_state != craft::kPreCandidate || state == craft::kPreCandidate) {
      for (uint64_t idx = applied + 1; idx <= old_commit && idx < g.chosen.size(); idx++)
        if (g.chosen[idx].type == raftpb::EntryConfChange || g.chosen[idx].type == raftpb::EntryConfChangeV2)
          V({8}, "campaign-pending-conf", Fmt("node %d campaigns with committed but unapplied configuration change at %d", i, (int)idx));
    }
  }
  if (term > old_term && vote == (uint64_t)i && PreVote(i)) {
    // raised its term for its own election
    bool ok = g.tnow.count((uint32_t)(i << 16 | term)) > 0;
    if (!ok) {
      auto& cfg = r->GetTracker().GetConfig();
      auto gr = [&](uint64_t v) {
        return (int)v == i || g.grants.count((uint32_t)(i << 16 | v << 12 | term)) > 0;
      };
      if (MajorityOf(cfg.voters.Incoming().IDs(), gr) && MajorityOf(cfg.voters.Outgoing().IDs(), gr)) ok = true;
    }
    if (!ok) V({20}, "campaign-without-prevote", Fmt("node %d started an election at term %d without a pre-vote quorum", i, (int)term));
  }
  if (o.lease_read) {
    bool newer = false;
    for (uint64_t t = term + 1; t < g.leader_of.size(); t++) newer = newer || g.leader_of[t] != 0;
    auto give = [&](const std::string& ctx) {
      int k = -1;
      sscanf(ctx.c_str(), "r%d", &k);
      if (k < 0 || k >= (int)g.reads.size()) return;
      if (state != craft::kLeader && old_state != craft::kLeader) return;
      if (newer) g.reads[k].superseded = true;
    };
    for (auto& m : r->Msgs())
      if (m->type() == MessageType::MsgReadIndexResp) {
        if (m->entries_size() == 1) give(m->entries(0).data());
        if (state != craft::kLeader && (int)m->from() == i && old_state != craft::kLeader)
          V({34}, "answer-by-follower", Fmt("node %d answers a read request without being leader", i));
      }
    for (auto& x : r->GetReadStates()) give(x.request_ctx);
  }
  if (state == craft::kLeader) {
    if (term < g.leader_of.size()) {
      if (g.leader_of[term] != 0 && g.leader_of[term] != i)
        V({1, 8, 12, 22}, "two-leaders", Fmt("nodes %d and %d are both leader of term %d", g.leader_of[term], i, (int)term));
      g.leader_of[term] = i;
    }
    if (lead != (uint64_t)i)
      V({31}, "leader-lead", Fmt("leader %d says the leader is %d", i, (int)lead));
    bool fresh_leader = old_state != craft::kLeader || old_term != term;
    uint64_t first = l->FirstIndex();
    bool look = fresh_leader || last != old_last || first != ob.log_first;  // (contents are compared after every event)
    std::vector<LogE> lg;
    if (look) lg = ReadLog(i, &first);
    if (!look) {
    } else if (fresh_leader) {
      BecameLeader(i);
    } else {
      // append-only: everything seen before must still be there
      for (size_t k = 0; k < ob.log.size(); k++) {
        uint64_t idx = ob.log_first + k;
        if (idx < first) continue;
        if (idx - first >= lg.size() || lg[idx - first].term != ob.log[k].term || lg[idx - first].h != ob.log[k].h) {
          V({3}, "leader-append-only", Fmt("leader %d of term %d changed or deleted its entry %d", i, (int)term, (int)idx));
          break;
        }
      }
      for (size_t k = 0; k < lg.size(); k++) {
        uint64_t idx = first + k;
        if (idx < ob.log_first + ob.log.size()) continue;
        if (lg[k].type != raftpb::EntryNormal) {
          // a newly accepted configuration change: nothing may be pending before it
          for (uint64_t j = applied + 1; j < idx; j++)
            if (j >= first && lg[j - first].type != raftpb::EntryNormal)
              V({8}, "overlapping-conf-change", Fmt("leader %d accepted a configuration change at %d while the one at %d is not applied (applied=%d)", i, (int)idx, (int)j, (int)applied));
        }
      }
    }
    for (auto& e : lg) if (e.term > term) V({3, 2}, "future-term-entry", Fmt("leader %d of term %d holds an entry of term %d", i, (int)term, (int)e.term));
    if (look) {
      ob.log_first = first;
      ob.log = lg;
    }
  } else {
    ob.log.clear();
  }
  if (commit > old_commit && !found_) {
    if (state == craft::kLeader) {
      CheckLeaderCommit(i, old_commit, commit);
    } else {
      if (commit > g.max_commit)
        V({7, 5}, "follower-overcommit", Fmt("node %d commits index %d, but no leader ever committed beyond %d", i, (int)commit, (int)g.max_commit));
      uint64_t first;
      auto lg = ReadLog(i, &first);
      for (uint64_t idx = std::max(old_commit + 1, first); idx <= commit && idx < g.chosen.size(); idx++)
        if (idx - first >= lg.size() || lg[idx - first].term != g.chosen[idx].term || lg[idx - first].h != g.chosen[idx].h) {
          V({4, 5, 7, 3, 32, 12, 8}, "follower-commit-conflict", Fmt("node %d commits a different entry at index %d than a leader did", i, (int)idx));
          break;
        }
    }
  }
}

void Sim::After(int i) {
  g_progress++;
  lib_calls++;
  Raft* r = raft(i);
  if (heal_ticks_)
    r->SetRandomizedElectionTimeout(o.T + (i + (int)r->Term()) % o.T);
  else
    r->SetRandomizedElectionTimeout(o.T);
  int old_state = w.obs[i].state;
  uint64_t old_term = w.obs[i].term;
  Observe(i);
  if (On(35) && !found_) CheckMsgs(i, old_state, old_term);
}

// Judges the messages the call that just returned has queued, against the node as it is now.
void Sim::CheckMsgs(int i, int old_state, uint64_t old_term) {
  Raft* r = raft(i);
  auto* l = r->GetRaftLog();
  auto& ms = r->Msgs();
  if (msgs_seen_[i] > ms.size()) msgs_seen_[i] = 0;
  auto& cfg = r->GetTracker().GetConfig();
  auto term_at = [&](uint64_t idx, uint64_t* t) {
    auto [tt, st] = l->Term(idx);
    *t = tt;
    return st.IsOK();
  };
  std::set<uint64_t> asked;
  bool asks = false;
  uint64_t now = r->Term();
  for (size_t k = msgs_seen_[i]; k < ms.size() && !found_; k++) {
    const raftpb::Message& m = *ms[k];
    auto t = m.type();
    auto bad = [&](const char* mon, const std::string& why) {
      V({35}, mon, Fmt("node %d (term %d) sends a %s to %d: %s", i, (int)now, raftpb::MessageType_Name(t).c_str(), (int)m.to(), why.c_str()));
    };
    bool fwd = t == MessageType::MsgProp || t == MessageType::MsgReadIndex || t == MessageType::MsgTransferLeader;
    if (m.to() == 0 || (int)m.to() == i) bad("message-receiver", "not another node");
    if (!fwd && (int)m.from() != i) bad("message-sender", Fmt("it names %d as its sender", (int)m.from()));
    if (fwd && (m.to() != r->Lead() || r->State() != craft::kFollower)) bad("forward-target", "not the leader it follows");
    bool grant = t == MessageType::MsgPreVoteResp && !m.reject();
    uint64_t want = t == MessageType::MsgProp || t == MessageType::MsgReadIndex ? 0 : t == MessageType::MsgPreVote ? now + 1 : now;
    if (!grant && m.term() != want) bad("message-term", Fmt("term %d instead of %d", (int)m.term(), (int)want));
    switch (t) {
      case MessageType::MsgVote:
      case MessageType::MsgPreVote: {
        asks = true;
        if (!asked.insert(m.to()).second) bad("request-twice", "asked twice");
        if (m.index() != l->LastIndex() || m.logterm() != l->LastTerm())
          bad("request-position", Fmt("states a log ending at (%d, term %d), it ends at (%d, term %d)", (int)m.index(), (int)m.logterm(), (int)l->LastIndex(), (int)l->LastTerm()));
        bool forced = m.context() == "CampaignTransfer";
        if (forced != told_to_campaign_) bad("request-force", forced ? "marked as a transfer, which it is not" : "not marked as a transfer");
        break;
      }
      case MessageType::MsgApp: {
        if (r->State() != craft::kLeader) bad("not-leader", "the sender is no leader");
        uint64_t tt = 0;
        if (m.index() > l->LastIndex() || !term_at(m.index(), &tt) || tt != m.logterm())
          bad("append-anchor", Fmt("anchored at (index %d, term %d), which its log does not hold", (int)m.index(), (int)m.logterm()));
        auto [es, st] = l->Entries(m.index() + 1, Raft::kNoLimit);
        for (int j = 0; j < m.entries_size() && !found_; j++) {
          auto& e = m.entries(j);
          if (!st.IsOK() || j >= (int)es.size() || e.index() != es[j]->index() || e.term() != es[j]->term() ||
              EntHash(e) != EntHash(*es[j]) || e.index() != m.index() + 1 + j)
            bad("append-content", Fmt("entry %d of it is not the sender's own entry %d", j, (int)(m.index() + 1 + j)));
        }
        if (m.commit() > l->Committed()) bad("append-commit", Fmt("commit %d, own commit %d", (int)m.commit(), (int)l->Committed()));
        break;
      }
      case MessageType::MsgHeartbeat: {
        if (r->State() != craft::kLeader) bad("not-leader", "the sender is no leader");
        auto pr = r->GetTracker().GetProgress(m.to());
        uint64_t c = pr ? std::min(pr->Match(), l->Committed()) : 0;
        if (m.commit() != c) bad("heartbeat-commit", Fmt("commit %d instead of %d", (int)m.commit(), (int)c));
        if (m.entries_size() > 0) bad("heartbeat-entries", "carries entries");
        break;
      }
      case MessageType::MsgSnap: {
        if (r->State() != craft::kLeader) bad("not-leader", "the sender is no leader");
        auto& md = m.snapshot().metadata();
        auto& g = w.g;
        if (md.index() > l->Committed() || md.index() >= g.chosen.size() || g.chosen[md.index()].term != md.term())
          bad("snapshot-position", Fmt("snapshot at (index %d, term %d) is not committed history", (int)md.index(), (int)md.term()));
        auto pr = r->GetTracker().GetProgress(m.to());
        if (!pr || pr->State() != craft::StateType::kSnapshot || pr->PendingSnapshot() != md.index())
          bad("snapshot-unrecorded", "the receiver is not recorded as waiting for it");
        else if (pr->Next() >= l->FirstIndex())
          bad("snapshot-needless", Fmt("the log still holds what the receiver needs ([%d..], next %d)", (int)l->FirstIndex(), (int)pr->Next()));
        break;
      }
      case MessageType::MsgTimeoutNow: {
        auto pr = r->GetTracker().GetProgress(m.to());
        if (r->State() != craft::kLeader || r->LeadTransferee() != m.to() || !pr || pr->Match() != l->LastIndex())
          bad("handover", "not the up-to-date target of its transfer");
        break;
      }
      case MessageType::MsgAppResp: {
        if (!m.reject() && m.index() > l->LastIndex()) bad("ack-range", Fmt("acknowledges %d, its log ends at %d", (int)m.index(), (int)l->LastIndex()));
        uint64_t tt = 0;
        if (m.reject() && (m.rejecthint() > m.index() || !term_at(m.rejecthint(), &tt) || tt != m.logterm()))
          bad("reject-hint", Fmt("hint (index %d, term %d) is not in its log", (int)m.rejecthint(), (int)m.logterm()));
        break;
      }
      case MessageType::MsgVoteResp:
        if (!m.reject() && r->Vote() != m.to()) bad("grant-unrecorded", "grants a vote it does not record");
        break;
      case MessageType::MsgReadIndexResp:
        if (r->State() != craft::kLeader && old_state != craft::kLeader) bad("not-leader", "the sender is no leader");
        if (m.index() > l->Committed()) bad("read-commit", Fmt("index %d, own commit %d", (int)m.index(), (int)l->Committed()));
        break;
      default:
        break;
    }
  }
  bool started = (r->State() == craft::kCandidate && now > old_term) ||
                 (r->State() == craft::kPreCandidate && old_state != craft::kPreCandidate);
  if ((asks || started) && !found_) {
    std::set<uint64_t> all = cfg.voters.IDs();
    all.erase(i);
    if (asked != all) V({35}, "request-receivers", Fmt("node %d asks %zu nodes for their vote, there are %zu other voters", i, asked.size(), all.size()));
  }
  msgs_seen_[i] = ms.size();
}

// A request has been handed to node i: who gets which answer, and did an old message change anything?
void Sim::CheckAnswer(const raftpb::Message& pm, int i, const Obs& pre, size_t pre_msgs, uint64_t h0) {
  Raft* r = raft(i);
  auto& ms = r->Msgs();
  auto t = pm.type();
  const char* tn = raftpb::MessageType_Name(t).c_str();
  MessageType at;
  switch (t) {
    case MessageType::MsgApp: case MessageType::MsgSnap: at = MessageType::MsgAppResp; break;
    case MessageType::MsgHeartbeat: at = MessageType::MsgHeartbeatResp; break;
    case MessageType::MsgVote: at = MessageType::MsgVoteResp; break;
    case MessageType::MsgPreVote: at = MessageType::MsgPreVoteResp; break;
    default: at = MessageType::MsgHup; break;
  }
  bool old = pm.term() > 0 && pm.term() < pre.term;
  int want = at == MessageType::MsgHup ? 0 : 1, least = want;
  bool wakes = PreVote(i) || CheckQuorum(i);
  if (old) {
    want = t == MessageType::MsgPreVote || (wakes && (t == MessageType::MsgApp || t == MessageType::MsgHeartbeat));
    least = want;
    if (want && t == MessageType::MsgHeartbeat) at = MessageType::MsgAppResp;
  } else if (at == MessageType::MsgVoteResp || at == MessageType::MsgPreVoteResp) {
    if (pm.term() > pre.term && CheckQuorum(i) && pre.lead != 0 && pm.context() != "CampaignTransfer") least = 0;
  }
  if (at == MessageType::MsgHup && !old) return;
  int n = (int)ms.size() - (int)pre_msgs;
  if (n > want || n < least) {
    V({35}, old ? "answer-old" : "answer-count", Fmt("node %d (term %d) sends %d messages on a %s of term %d from %d, expected %d", i, (int)pre.term, n, tn, (int)pm.term(), (int)pm.from(), want));
    return;
  }
  if (n == 1) {
    auto& a = *ms.back();
    if (a.type() != at || a.to() != pm.from())
      V({35}, "answer-kind", Fmt("node %d answers a %s from %d with a %s to %d", i, tn, (int)pm.from(), raftpb::MessageType_Name(a.type()).c_str(), (int)a.to()));
    if (at == MessageType::MsgHeartbeatResp && a.context() != pm.context())
      V({35, 11}, "answer-context", Fmt("node %d answers a heartbeat with context '%s' with '%s'", i, pm.context().c_str(), a.context().c_str()));
    if (at == MessageType::MsgPreVoteResp && !a.reject() && a.term() != pm.term())
      V({35, 20}, "grant-term", Fmt("node %d grants a pre-vote of term %d for term %d", i, (int)pm.term(), (int)a.term()));
    if (old && t == MessageType::MsgPreVote && !a.reject())
      V({35, 20}, "answer-old", Fmt("node %d of term %d grants a pre-vote of term %d", i, (int)pre.term, (int)pm.term()));
  }
  if (old && !found_) {
    craft::MsgPtr keep;
    if (n == 1) {
      Enter en(i);
      keep = ms.back();
      const_cast<craft::MsgPtrs&>(ms).pop_back();
    }
    if (NodeHash(i) != h0) V({35}, "old-message-effect", Fmt("a %s of term %d from %d changed node %d of term %d", tn, (int)pm.term(), (int)pm.from(), i, (int)pre.term));
    if (n == 1) {
      Enter en(i);
      const_cast<craft::MsgPtrs&>(ms).push_back(keep);
      keep.reset();
    }
  }
}

// ---------------------------------------------------------------- consistency of logs / disks
void Sim::CheckLogs() {
  Ghost& g = w.g;
  for (int i = 1; i <= o.n; i++) {
    uint64_t first;
    auto lg = ReadLog(i, &first);
    auto* l = raft(i)->GetRaftLog();
    if (w.obs[i].state == craft::kLeader) {
      Obs& ob = w.obs[i];
      for (size_t k = 0; k < ob.log.size(); k++) {
        uint64_t idx = ob.log_first + k;
        if (idx < first) continue;
        if (idx - first >= lg.size() || lg[idx - first].term != ob.log[k].term || lg[idx - first].h != ob.log[k].h) {
          V({3}, "leader-append-only", Fmt("leader %d of term %d changed or deleted its entry %d", i, (int)ob.term, (int)idx));
          break;
        }
      }
    }
    uint64_t prev = 0;
    bool have_prev = false;
    if (first > 1) {
      auto [t, st] = l->Term(first - 1);
      if (!st.IsOK()) V({15}, "term-of-dummy", Fmt("node %d cannot tell the term before its first entry", i));
      prev = t;
      have_prev = true;
    } else {
      have_prev = true;
    }
    if (first > 1 && first - 1 < g.chosen.size() && prev != g.chosen[first - 1].term)
      V({3, 15, 18}, "compacted-term", Fmt("node %d reports term %d for compacted index %d, committed was term %d", i, (int)prev, (int)(first - 1), (int)g.chosen[first - 1].term));
    for (size_t k = 0; k < lg.size(); k++) {
      uint64_t idx = first + k;
      uint64_t key = idx << 20 | lg[k].term;
      uint64_t val = Mix(lg[k].h, have_prev ? prev : 0);
      bool seen = false;
      for (auto& p : g.byterm)
        if (p.first == key) {
          seen = true;
          if (p.second != val)
            V({3, 1, 4, 12}, "log-matching", Fmt("node %d: entry (index %d, term %d) or its predecessor differs from the same entry elsewhere", i, (int)idx, (int)lg[k].term));
        }
      if (!seen) g.byterm.push_back({key, val});
      if (lg[k].term < prev)
        V({3, 32}, "term-order", Fmt("node %d: entry %d has term %d after term %d", i, (int)idx, (int)lg[k].term, (int)prev));
      prev = lg[k].term;
      have_prev = true;
      if (idx <= w.obs[i].commit && idx < g.chosen.size() &&
          (lg[k].term != g.chosen[idx].term || lg[k].h != g.chosen[idx].h))
        V({5, 4}, "committed-entry-changed", Fmt("node %d: committed entry %d differs from what was committed", i, (int)idx));
      if (lg[k].type == raftpb::EntryNormal && lg[k].h != HashStr("", 77)) {
        bool known = false;
        for (auto& p : g.props) if (p.h == lg[k].h && p.accepted > 0) known = true;
        if (!known) V({25}, "unknown-entry", Fmt("node %d: entry %d holds data no leader accepted", i, (int)idx));
      }
    }
    // accepted proposals occur at most once per acceptance
    for (size_t a = 0; a < g.props.size(); a++) {
      int c = 0;
      for (auto& e : lg) if (e.type == raftpb::EntryNormal && e.h == g.props[a].h) c++;
      if (c > g.props[a].accepted)
        V({25}, "duplicated-proposal", Fmt("node %d: proposal %zu occurs %d times, accepted %d times", i, a, c, g.props[a].accepted));
    }
  }
}

void Sim::CheckDisk(int i) {
  Disk& d = w.disk[i];
  auto& es = box_[i]->st->GetEntries();
  if (es.empty() || es[0]->index() + 1 != d.first || es.size() - 1 != d.ents.size()) {
    V({16, 15, 24}, "storage-shape", Fmt("node %d: storage holds [%d..%d], the application wrote [%d..%d]", i,
                               es.empty() ? -1 : (int)es[0]->index() + 1, es.empty() ? -1 : (int)(es[0]->index() + es.size() - 1),
                               (int)d.first, (int)d.Last()));
    return;
  }
  for (size_t k = 0; k < d.ents.size(); k++) {
    auto& e = *es[k + 1];
    if (e.index() != d.first + k || e.term() != d.ents[k].term || EntHash(e) != d.ents[k].h)
      V({16, 15}, "storage-entry", Fmt("node %d: stored entry %d changed after it was written", i, (int)(d.first + k)));
  }
  auto sp = box_[i]->st->GetSnapshot();
  if (sp && sp->metadata().index() != d.snap_index)
    V({16, 18}, "storage-snapshot", Fmt("node %d: storage snapshot index %d, application stored %d", i, (int)sp->metadata().index(), (int)d.snap_index));
  if (box_[i]->rd == nullptr && w.obs[i].last != d.Last() && !healing_)
    V({24, 15, 12}, "unpersisted-log", Fmt("node %d: last index is %d but only [%d..%d] was handed out for persisting", i, (int)w.obs[i].last, (int)d.first, (int)d.Last()));
}

void Sim::CheckStatus(int i) {
  Raft* r = raft(i);
  auto* l = r->GetRaftLog();
  uint64_t h0 = NodeHash(i);
  auto bs = rn(i)->GetBasicStatus();
  if (bs.id != (uint64_t)i || bs.hard_state.term() != r->Term() || bs.hard_state.vote() != r->Vote() ||
      bs.hard_state.commit() != l->Committed() || bs.applied != l->Applied() ||
      bs.soft_state.lead != r->Lead() || bs.soft_state.raft_state != r->State() ||
      bs.lead_transferee != r->LeadTransferee())
    V({31}, "basic-status", Fmt("node %d: basic status does not match the node", i));
  auto st = rn(i)->GetStatus();
  if (st.basic.id != bs.id || st.basic.applied != bs.applied || st.basic.hard_state.term() != bs.hard_state.term() ||
      st.basic.hard_state.commit() != bs.hard_state.commit() || st.basic.hard_state.vote() != bs.hard_state.vote() ||
      !(st.basic.soft_state == bs.soft_state) || st.basic.lead_transferee != bs.lead_transferee)
    V({31}, "status-basic", Fmt("node %d: status and basic status differ", i));
  // hard/soft state as reported must be what the last Readys announced
  if (bs.hard_state.term() != w.disk[i].term || bs.hard_state.vote() != w.disk[i].vote)
    if (box_[i]->rd == nullptr)
      V({31, 24}, "status-hardstate", Fmt("node %d: status term/vote %d/%d differ from the persisted %d/%d", i, (int)bs.hard_state.term(), (int)bs.hard_state.vote(), (int)w.disk[i].term, (int)w.disk[i].vote));
  if (!(st.config == r->GetTracker().GetConfig()))
    V({31}, "status-config", Fmt("node %d: status reports a different configuration", i));
  auto same = [](craft::Progress& a, craft::Progress& b) {
    return a.Match() == b.Match() && a.Next() == b.Next() && a.State() == b.State() &&
           a.PendingSnapshot() == b.PendingSnapshot() && a.RecentActive() == b.RecentActive() &&
           a.ProbeSent() == b.ProbeSent() && a.IsLearner() == b.IsLearner() &&
           a.GetInflights()->Count() == b.GetInflights()->Count() &&
           a.GetInflights()->Full() == b.GetInflights()->Full();
  };
  auto& prs = r->GetTracker().GetProgressMap();
  if (r->State() == craft::kLeader) {
    if (st.progress.size() != prs.size()) V({31}, "status-progress", Fmt("leader %d: progress of wrong set of nodes", i));
    for (auto& p : prs) {
      auto it = st.progress.find(p.first);
      if (it == st.progress.end() || !same(*it->second, *p.second))
        V({31}, "status-progress", Fmt("leader %d: progress of %d wrong", i, (int)p.first));
      else if (it->second.get() == p.second.get() || it->second->GetInflights() == p.second->GetInflights())
        V({31}, "status-alias", Fmt("leader %d: progress of %d is not a copy", i, (int)p.first));
    }
  } else if (!st.progress.empty()) {
    V({31}, "status-progress", Fmt("non-leader %d reports progress", i));
  }
  std::set<uint64_t> seen;
  auto& cfg = r->GetTracker().GetConfig();
  rn(i)->WithProgress([&](uint64_t id, craft::ProgressType t, craft::ProgressPtr pr) {
    seen.insert(id);
    auto it = prs.find(id);
    if (it == prs.end() || !same(*pr, *it->second)) V({31}, "with-progress", Fmt("node %d: visit of %d wrong", i, (int)id));
    bool learner = cfg.learners.count(id) > 0;
    if ((t == craft::kLearner) != learner) V({31, 22}, "with-progress-role", Fmt("node %d: visit marks %d wrongly as %s", i, (int)id, learner ? "peer" : "learner"));
    // damage the copy
    pr->SetMatch(777);
    pr->SetNext(3);
    pr->SetProbeSent(!pr->ProbeSent());
    if (!pr->GetInflights()->Full()) pr->GetInflights()->Add(999);
    pr->GetInflights()->Reset();
  });
  std::set<uint64_t> members = cfg.voters.IDs();
  members.insert(cfg.learners.begin(), cfg.learners.end());
  if (seen != members) V({31, 9}, "with-progress-members", Fmt("node %d: progress is tracked for a different set than the members", i));
  for (auto& p : st.progress) {
    p.second->SetMatch(12345);
    p.second->GetInflights()->Reset();
    p.second->SetState(craft::StateType::kSnapshot);
  }
  st.config.learners.insert(99);
  if (NodeHash(i) != h0) V({31}, "status-damage", Fmt("node %d: using the returned status changed the node", i));
}

// ---------------------------------------------------------------- Ready processing
uint64_t Sim::ReadyDigest(const craft::Ready& rd) {
  uint64_t h = 1;
  if (rd.soft_state) h = Mix(h, rd.soft_state->lead * 8 + rd.soft_state->raft_state + 1);
  h = Mix(h, rd.hard_state.term());
  h = Mix(h, rd.hard_state.vote());
  h = Mix(h, rd.hard_state.commit());
  for (auto& x : rd.read_states) h = HashStr(x.request_ctx, Mix(h, x.index));
  h = Mix(h, 1001);
  for (auto& e : rd.entries) h = Mix(Mix(Mix(h, e->index()), e->term()), EntHash(*e));
  h = Mix(h, 1002);
  for (auto& e : rd.committed_entries) h = Mix(Mix(Mix(h, e->index()), e->term()), EntHash(*e));
  h = Mix(h, 1003);
  if (rd.snapshot) h = Mix(h, rd.snapshot->metadata().index() * 64 + rd.snapshot->metadata().term());
  for (auto& m : rd.messages) h = HashStr(m->SerializeAsString(), h);
  h = Mix(h, rd.must_sync);
  return h;
}

void Sim::Persist(int i, const craft::Ready& rd, int stage) {
  Disk& d = w.disk[i];
  auto& st = box_[i]->st;
  bool snap = !craft::IsEmptySnap(rd.snapshot);
  if (snap) {
    // snapshot and hard state are stored together, synchronously
    uint64_t idx = rd.snapshot->metadata().index(), term = rd.snapshot->metadata().term();
    if (o.sched == Sched::kImmediate && !o.lag && !o.split && idx >= d.first && idx <= d.Last() && d.ents[idx - d.first].term == term)
      V({18, 5}, "snapshot-discards-log", Fmt("node %d installs snapshot %d although its log already contains that entry", i, (int)idx));
    {
      Enter en(i);
      auto s = st->ApplySnapshot(rd.snapshot);
      if (!s.IsOK()) V({18, 16, 26}, "snapshot-refused", Fmt("node %d: storage refuses snapshot %d: %s", i, (int)idx, s.Str()));
    }
    d.snap = std::make_shared<const std::string>(rd.snapshot->SerializeAsString());
    d.snap_index = idx;
    d.snap_term = term;
    d.first = idx + 1;
    d.ents.clear();
  }
  if (!rd.entries.empty()) {
    {
      Enter en(i);
      st->Append(rd.entries);
    }
    uint64_t f = rd.entries.front()->index();
    if (f < d.first || f > d.Last() + 1) {
      V({24, 15}, "entries-gap", Fmt("node %d: Ready asks to store [%d..] but the log holds [%d..%d]", i, (int)f, (int)d.first, (int)d.Last()));
      return;
    }
    d.ents.resize(f - d.first);
    for (auto& e : rd.entries) {
      EntRec r;
      r.term = e->term();
      r.type = e->type();
      r.h = EntHash(*e);
      r.data = std::make_shared<const std::string>(e->data());
      d.ents.push_back(std::move(r));
    }
    if (!rd.must_sync)
      V({12, 5}, "must-sync-entries", Fmt("node %d: Ready with entries does not ask for a synchronous write", i));
  }
  if (stage == 2) return;
  if (!craft::IsEmptyHardState(rd.hard_state)) {
    {
      Enter en(i);
      st->SetHardState(rd.hard_state);
    }
    if ((rd.hard_state.term() != d.term || rd.hard_state.vote() != d.vote) && !rd.must_sync)
      V({12, 2}, "must-sync-hardstate", Fmt("node %d: new term/vote does not ask for a synchronous write", i));
    if (rd.hard_state.commit() < d.commit)
      V({5, 12}, "hardstate-commit-regress", Fmt("node %d: hard state commit went from %d to %d", i, (int)d.commit, (int)rd.hard_state.commit()));
    if (rd.hard_state.term() < d.term)
      V({2, 12}, "hardstate-term-regress", Fmt("node %d: hard state term went from %d to %d", i, (int)d.term, (int)rd.hard_state.term()));
    d.term = rd.hard_state.term();
    d.vote = rd.hard_state.vote();
    d.commit = rd.hard_state.commit();
  }
  if (rd.must_sync || snap) {
    d.dterm = d.term; d.dvote = d.vote; d.dcommit = d.commit;
  }
  if (d.commit > d.Last())
    V({5, 12}, "hardstate-commit-beyond-log", Fmt("node %d: persisted commit %d beyond persisted log %d", i, (int)d.commit, (int)d.Last()));
}

void Sim::CheckPromise(int i, const raftpb::Message& m, uint64_t) {
  Disk& d = w.disk[i];
  checks++;
  Ghost& g = w.g;
  auto t = m.type();
  const char* tn = raftpb::MessageType_Name(t).c_str();
  if ((int)m.from() != i && t != MessageType::MsgProp && t != MessageType::MsgReadIndex && t != MessageType::MsgTransferLeader)
    V({26, 24}, "wrong-sender", Fmt("node %d sends a %s as %d", i, tn, (int)m.from()));
  if (m.to() == 0 || (int)m.to() == i)
    V({26, 24}, "self-message", Fmt("node %d sends a %s to %d", i, tn, (int)m.to()));
  bool pre = t == MessageType::MsgPreVote || (t == MessageType::MsgPreVoteResp && !m.reject());
  if (!pre && m.term() > 0 && d.dterm < m.term())
    V({12, 2}, "promise-term", Fmt("node %d sends %s of term %d while only term %d is durable", i, tn, (int)m.term(), (int)d.dterm));
  if (t == MessageType::MsgVoteResp && !m.reject()) {
    stat_votes++;
    if (d.dterm == m.term() && d.dvote != m.to())
      V({12, 2}, "promise-vote", Fmt("node %d tells %d it voted for it in term %d, durable vote is %d", i, (int)m.to(), (int)m.term(), (int)d.dvote));
    uint32_t key = (uint32_t)(i << 16 | m.term());
    bool seen = false;
    for (auto& p : g.votes)
      if (p.first == key) {
        seen = true;
        if (p.second != m.to())
          V({2, 12, 1}, "double-vote", Fmt("node %d voted for %d and for %d in term %d", i, p.second, (int)m.to(), (int)m.term()));
      }
    if (!seen) g.votes.push_back({key, (uint8_t)m.to()});
    if (o.learners.empty() && false) {}
  }
  if (t == MessageType::MsgVote) {
    if (d.dterm == m.term() && d.dvote != (uint64_t)i)
      V({12, 2}, "promise-self-vote", Fmt("node %d asks for votes in term %d, durable vote is %d", i, (int)m.term(), (int)d.dvote));
    uint32_t key = (uint32_t)(i << 16 | m.term());
    bool seen = false;
    for (auto& p : g.votes)
      if (p.first == key) {
        seen = true;
        if (p.second != i) V({2, 12, 1}, "double-vote", Fmt("node %d voted for %d and for itself in term %d", i, p.second, (int)m.term()));
      }
    if (!seen) g.votes.push_back({key, (uint8_t)i});
  }
  if (t == MessageType::MsgAppResp && !m.reject() && d.dterm == m.term() && d.Last() < m.index())
    V({12, 7, 5}, "promise-append", Fmt("node %d acknowledges index %d but only has [%d..%d] durable", i, (int)m.index(), (int)d.first, (int)d.Last()));
  if (t == MessageType::MsgApp) {
    uint64_t idx = m.index(), size = 0;
    for (auto& e : m.entries()) {
      if (e.index() != ++idx) V({13, 3}, "append-gap", Fmt("leader %d sends entries that do not follow index %d", i, (int)m.index()));
      size += e.ByteSizeLong();
      if (e.term() > m.term()) V({3}, "append-future", Fmt("leader %d of term %d sends an entry of term %d", i, (int)m.term(), (int)e.term()));
      // content must be the leader's own entry
      uint64_t key = e.index() << 20 | e.term();
      (void)key;
    }
    if (m.entries_size() > 1 && size > o.max_size)
      V({13}, "append-size", Fmt("leader %d sends %d entries of %d bytes, limit %d", i, m.entries_size(), (int)size, (int)o.max_size));
    if (d.dterm == m.term() && d.Last() < idx)
      V({12, 5}, "promise-leader-append", Fmt("leader %d sends entries up to %d before persisting them (durable up to %d)", i, (int)idx, (int)d.Last()));
    if (m.commit() > g.max_commit)
      V({7, 5}, "append-commit", Fmt("leader %d announces commit %d, only %d is committed", i, (int)m.commit(), (int)g.max_commit));
    if (d.dterm == m.term() && m.index() >= d.first && m.index() <= d.Last() && m.logterm() != d.ents[m.index() - d.first].term)
      V({3, 32}, "append-logterm", Fmt("leader %d sends an append anchored at (index %d, term %d), its own entry has term %d", i, (int)m.index(), (int)m.logterm(), (int)d.ents[m.index() - d.first].term));
  }
  if (t == MessageType::MsgHeartbeat && m.commit() > g.max_commit)
    V({7, 5}, "heartbeat-commit", Fmt("leader %d announces commit %d, only %d is committed", i, (int)m.commit(), (int)g.max_commit));
  if (t == MessageType::MsgHeartbeat && m.to() >= 1 && (int)m.to() <= o.n) {
    Disk& dd = w.disk[m.to()];
    if (w.obs[m.to()].term <= m.term() && dd.Last() < m.commit())
      V({7}, "heartbeat-commit-match", Fmt("leader %d tells %d that %d is committed, beyond what it has", i, (int)m.to(), (int)m.commit()));
  }
  if (t == MessageType::MsgSnap) {
    stat_snaps++;
    auto& s = m.snapshot();
    if (s.metadata().index() == 0) V({18}, "empty-snapshot", Fmt("leader %d sends an empty snapshot", i));
    if (s.metadata().index() > w.app[i].applied && s.metadata().index() > d.snap_index)
      V({18}, "snapshot-future", Fmt("leader %d sends a snapshot it does not have", i));
  }
}

void Sim::ApplyReady(int i, const craft::Ready& rd) {
  App& a = w.app[i];
  Ghost& g = w.g;
  auto record_conf = [&](uint64_t idx) {
    if (!a.conf) return;
    raftpb::ConfState cs;
    cs.ParseFromString(*a.conf);
    uint64_t h = HashStr(CanonConf(cs));
    if (o.bootstrap && idx < o.voters.size()) return;  // bootstrap entries are applied twice
    for (auto& p : g.confs)
      if (p.first == idx) {
        if (p.second != h)
          V({8, 4, 9, 18}, "conf-divergence", Fmt("node %d has configuration %s at applied index %d, another node had a different one", i, CanonConf(cs).c_str(), (int)idx));
        return;
      }
    g.confs.push_back({(uint32_t)idx, h});
  };
  if (!craft::IsEmptySnap(rd.snapshot)) {
    uint64_t idx = rd.snapshot->metadata().index();
    if (idx <= a.applied)
      V({6, 18, 4}, "snapshot-rollback", Fmt("node %d told to install snapshot %d, already applied %d", i, (int)idx, (int)a.applied));
    unsigned long long si = 0, sh = 0;
    sscanf(rd.snapshot->data().c_str(), "S%llu:%llx", &si, &sh);
    if (si != idx) V({18, 16}, "snapshot-content", Fmt("node %d gets snapshot %d with the data of %d", i, (int)idx, (int)si));
    if (idx >= g.chosen.size() || g.chosen[idx].chain != sh || g.chosen[idx].term != rd.snapshot->metadata().term())
      V({4, 18}, "snapshot-state", Fmt("node %d gets a snapshot at %d that does not match the committed history", i, (int)idx));
    a.applied = idx;
    a.hash = sh;
    a.conf = std::make_shared<const std::string>(rd.snapshot->metadata().conf_state().SerializeAsString());
    a.conf_self_voter = ConfHasVoter(rd.snapshot->metadata().conf_state(), i);
    record_conf(idx);
    auto cs = raft(i)->GetTracker().ConfState();
    if (CanonConf(cs) != CanonConf(rd.snapshot->metadata().conf_state()))
      V({18, 8, 9}, "snapshot-conf", Fmt("node %d: configuration after snapshot %d is %s, snapshot has %s", i, (int)idx, CanonConf(cs).c_str(), CanonConf(rd.snapshot->metadata().conf_state()).c_str()));
  }
  uint64_t size = 0;
  for (auto& ep : rd.committed_entries) {
    auto& e = *ep;
    size += e.ByteSizeLong();
    if (e.index() != a.applied + 1) {
      V({6}, "apply-order", Fmt("node %d is told to apply %d after %d", i, (int)e.index(), (int)a.applied));
      return;
    }
    if (e.index() > g.max_commit || e.index() >= g.chosen.size()) {
      V({4, 5, 6, 7}, "apply-uncommitted", Fmt("node %d is told to apply %d, committed is only %d", i, (int)e.index(), (int)g.max_commit));
      return;
    }
    const Chosen& c = g.chosen[e.index()];
    if (c.term != e.term() || c.h != EntHash(e))
      V({4, 6}, "state-machine-safety", Fmt("node %d applies a different entry at %d (term %d) than was committed (term %d)", i, (int)e.index(), (int)e.term(), (int)c.term));
    a.applied = e.index();
    a.hash = Mix(Mix(Mix(a.hash, e.index()), e.term()), EntHash(e));
    if (a.hash != c.chain) V({4}, "state-divergence", Fmt("node %d: application state diverges at %d", i, (int)e.index()));
    if (e.type() != raftpb::EntryNormal) {
      stat_confs++;
      raftpb::ConfState cs;
      {
        Enter en(i);
        Paint();
        if (e.type() == raftpb::EntryConfChange) {
          raftpb::ConfChange cc;
          cc.ParseFromString(e.data());
          cs = rn(i)->ApplyConfChange(craft::ConfChangeI(cc));
        } else {
          raftpb::ConfChangeV2 cc;
          cc.ParseFromString(e.data());
          cs = rn(i)->ApplyConfChange(craft::ConfChangeI(cc));
        }
      }
      std::string ser = cs.SerializeAsString();
      Enter out(-1);
      a.conf = std::make_shared<const std::string>(ser);
      a.conf_self_voter = ConfHasVoter(cs, i);
      Note("   node %d applies conf change %d -> %s", i, (int)e.index(), CanonConf(cs).c_str());
      After(i);
    }
    record_conf(e.index());
  }
  if (rd.committed_entries.size() > 1) {
    stat_multi++;
    uint64_t lim = o.max_committed ? o.max_committed : o.max_size;
    if (size > lim) V({6}, "apply-page-size", Fmt("node %d gets %zu entries of %d bytes to apply, limit %d", i, rd.committed_entries.size(), (int)size, (int)lim));
  }
  for (auto& rs : rd.read_states) {
    stat_reads++;
    int k = -1;
    sscanf(rs.request_ctx.c_str(), "r%d", &k);
    if (k < 0 || k >= (int)g.reads.size()) {
      V({11, 34}, "read-unknown", Fmt("node %d gets an answer to unknown request '%s'", i, rs.request_ctx.c_str()));
      continue;
    }
    Read& rq = g.reads[k];
    Note("   node %d: read %s answered with index %d (floor %d)", i, rs.request_ctx.c_str(), (int)rs.index, (int)rq.floor);
    if (rq.node != i) V({11, 34}, "read-wrong-node", Fmt("answer to read %d of node %d arrives at node %d", k, rq.node, i));
    if (rs.index < rq.floor && !(o.lease_read && rq.superseded))
      V({11, 22, 34}, "stale-read", Fmt("read %d at node %d answered with index %d although %d was committed when it was issued", k, i, (int)rs.index, (int)rq.floor));
    if (rs.index > g.max_commit)
      V({11, 34}, "read-uncommitted", Fmt("read %d answered with index %d, only %d is committed", k, (int)rs.index, (int)g.max_commit));
    if (++rq.answered > rq.deliveries)
      V({11, 34, 24}, "read-twice", Fmt("read %d answered %d times", k, rq.answered));
  }
  if (o.restart_applied) {
    Disk& d = w.disk[i];
    d.dterm = d.term; d.dvote = d.vote; d.dcommit = d.commit;
  }
}

void Sim::FinishReady(int i) {
  auto rd = box_[i]->rd;
  if (On(15) || On(24)) {
    if (ReadyDigest(*rd) != box_[i]->rd_digest)
      V({15, 24}, "ready-mutated", Fmt("node %d: a Ready changed after it was handed out", i));
  }
  ApplyReady(i, *rd);
  if (found_) return;
  std::vector<LogE> before;
  uint64_t first0 = 0;
  if (On(15) || On(24)) before = ReadLog(i, &first0);
  {
    Enter en(i);
    Paint();
    rn(i)->Advance();
    rd.reset();
    box_[i]->rd.reset();
  }
  if ((On(15) || On(24)) && !found_) {
    // Advance only moves cursors; at most a leader adds the entry that leaves
    // an automatic joint configuration
    uint64_t first1;
    auto after = ReadLog(i, &first1);
    bool same = first1 == first0 && after.size() >= before.size() && after.size() <= before.size() + 1;
    for (size_t k = 0; same && k < before.size(); k++)
      same = before[k].term == after[k].term && before[k].h == after[k].h;
    if (!same && !found_)
      V({15, 24}, "advance-changes-log", Fmt("node %d: Advance changed the log from [%d..%d] to [%d..%d] or replaced entries", i, (int)first0,
                                            (int)(first0 + before.size() - 1), (int)first1, (int)(first1 + after.size() - 1)));
  }
  After(i);
  if (w.obs[i].applied != w.app[i].applied && w.app[i].applied > 0)
    V({6, 24}, "applied-cursor", Fmt("node %d: applied index is %d after the application applied %d", i, (int)w.obs[i].applied, (int)w.app[i].applied));
}

bool Sim::ProcessReady(int i) {
  if (found_ || (down_ >> i & 1)) return false;
  if (box_[i]->rd) return false;
  bool has = rn(i)->HasReady();
  if (On(24)) {
    uint64_t h0 = NodeHash(i);
    bool contains;
    uint64_t dg;
    {
      Enter en(i);
      auto rd1 = rn(i)->ReadyWithoutAccept();
      contains = rd1->soft_state.has_value() || !craft::IsEmptyHardState(rd1->hard_state) ||
                 !craft::IsEmptySnap(rd1->snapshot) || !rd1->entries.empty() || !rd1->committed_entries.empty() ||
                 !rd1->messages.empty() || !rd1->read_states.empty();
      dg = ReadyDigest(*rd1);
      rd1.reset();
      auto rd2 = rn(i)->ReadyWithoutAccept();
      if (dg != ReadyDigest(*rd2)) V({24}, "peek-unstable", Fmt("node %d: looking at a Ready twice gives different results", i));
    }
    if (NodeHash(i) != h0) V({24}, "peek-effect", Fmt("node %d: looking at a Ready changed the node", i));
    if (contains != has)
      V({24}, "has-ready", Fmt("node %d: HasReady says %d, but a Ready taken now %s", i, has, contains ? "has content" : "is empty"));
  }
  bool soft_due = raft(i)->Lead() != box_[i]->told_lead || (int)raft(i)->State() != box_[i]->told_role;
  bool hard_due = raft(i)->Term() != w.disk[i].term || raft(i)->Vote() != w.disk[i].vote || raft(i)->GetRaftLog()->Committed() != w.disk[i].commit;
  if ((soft_due || hard_due) && !has)
    V({24}, "change-not-announced", Fmt("node %d: its %s changed and HasReady says no", i, soft_due ? "role or leader" : "term, vote or commit index"));
  if (!has) return false;
  readys++;
  std::shared_ptr<craft::Ready> rd;
  auto ss_before = raft(i)->GetSoftState();
  {
    Enter en(i);
    Paint();
    rd = rn(i)->GetReady();
    msgs_seen_[i] = 0;
    box_[i]->rd = rd;
    box_[i]->rd_digest = (On(15) || On(24)) ? ReadyDigest(*rd) : 0;
  }
  g_progress++;
  lib_calls++;
  if (rd->soft_state && !(*rd->soft_state == ss_before))
    V({24, 31}, "soft-state", Fmt("node %d: soft state in Ready is not the current one", i));
  if (rd->soft_state.has_value() != soft_due)
    V({24}, "soft-state-once", Fmt("node %d: role and leader %s since they were last announced and the Ready %s them", i, soft_due ? "changed" : "did not change", soft_due ? "omits" : "repeats"));
  if (!hard_due && !craft::IsEmptyHardState(rd->hard_state))
    V({24}, "hard-state-repeated", Fmt("node %d: Ready repeats a hard state that is stored already", i));
  if (rd->soft_state) {
    box_[i]->told_lead = rd->soft_state->lead;
    box_[i]->told_role = rd->soft_state->raft_state;
  }
  if (!raft(i)->Msgs().empty() || !raft(i)->GetReadStates().empty())
    V({24}, "messages-kept", Fmt("node %d: messages or read states are still queued after Ready was taken", i));
  Disk& d = w.disk[i];
  // the hard state must be announced when it differs from what was persisted
  if (craft::IsEmptyHardState(rd->hard_state) &&
      (raft(i)->Term() != d.term || raft(i)->Vote() != d.vote) && (raft(i)->Term() || raft(i)->Vote()))
    V({24, 12}, "hard-state-omitted", Fmt("node %d: term/vote changed but Ready has no hard state", i));
  if (hard_due && craft::IsEmptyHardState(rd->hard_state))
    V({24}, "commit-omitted", Fmt("node %d: the commit index changed but Ready has no hard state", i));
  if (rd->committed_entries.empty() && w.obs[i].commit > w.app[i].applied && !raft(i)->GetRaftLog()->HasPendingSnapshot())
    V({6, 24}, "apply-starved", Fmt("node %d: committed %d, applied %d, but Ready has nothing to apply", i, (int)w.obs[i].commit, (int)w.app[i].applied));
  bool crash_here = crash_node_ == i && ++crash_seen_ == crash_nth_;
  if (crash_here && crash_stage_ == 0) {
    down_ |= 1 << i;
    return true;
  }
  Persist(i, *rd, crash_here ? crash_stage_ : 9);
  if (crash_here && crash_stage_ <= 3) {
    down_ |= 1 << i;
    return true;
  }
  for (auto& m : rd->messages) {
    NetMsg nm;
    nm.from = i;
    nm.to = m->to() <= 255 ? (uint8_t)m->to() : 255;
    nm.type = m->type();
    nm.term = m->term();
    nm.hop = hop_ + 1;
    auto raw = std::make_shared<std::string>();
    m->SerializeToString(raw.get());
    nm.h = HashStr(*raw);
    nm.raw = raw;
    CheckPromise(i, *m, nm.h);
    q_.push_back(nm);
  }
  if (found_) return true;
  if (crash_here) {
    down_ |= 1 << i;
    return true;
  }
  rd.reset();
  if (o.sched != Sched::kAsync && !Lags(i)) FinishReady(i);
  return true;
}

// ---------------------------------------------------------------- network
void Sim::Undelivered(const NetMsg& m) {
  bool snap = m.type == MessageType::MsgSnap;
  if ((o.hold > 0 || o.micro) && m.to >= 1 && m.to <= o.n && !healing_) {
    for (auto& x : w.held)
      if (x.h == m.h && x.from == m.from) return;
    w.held.push_back(m);
    w.held.back().hop = 0;
    if ((int)w.held.size() > o.hold) {
      NetMsg drop = w.held.front();
      w.held.erase(w.held.begin());
      if (drop.type == MessageType::MsgSnap) reports_.push_back({drop.from, drop.to, false});
    }
    return;
  }
  if (snap) reports_.push_back({m.from, m.to, false});
}

void Sim::Route(NetMsg m) {
  bool ok = m.to >= 1 && m.to <= o.n && !(down_ >> m.to & 1) && (S_ >> (m.from - 1) & 1) && (S_ >> (m.to - 1) & 1) &&
            (H_ == 0 || m.hop <= H_) && !o.micro;
  if (healing_) ok = m.to >= 1 && m.to <= o.n;
  if (!ok) {
    Note("   %s %d->%d not delivered", raftpb::MessageType_Name((MessageType)m.type).c_str(), m.from, m.to);
    Undelivered(m);
    return;
  }
  hop_ = m.hop;
  Deliver(m);
}

void Sim::Deliver(const NetMsg& m) {
  int i = m.to;
  Ghost& g = w.g;
  Raft* r = raft(i);
  Obs pre = w.obs[i];
  auto pre_tr = r->LeadTransferee();
  size_t pre_msgs = r->Msgs().size();
  auto* l = r->GetRaftLog();
  delivered++;
  MessageType t = (MessageType)m.type;
  raftpb::Message pm;  // harness copy
  pm.ParseFromString(*m.raw);
  if (trace) {
    Note("   deliver %s %d->%d term=%d index=%d logterm=%d commit=%d ents=%d reject=%d hint=%d%s", raftpb::MessageType_Name(t).c_str(), m.from, i,
         (int)pm.term(), (int)pm.index(), (int)pm.logterm(), (int)pm.commit(), pm.entries_size(), pm.reject(), (int)pm.rejecthint(),
         pm.context().empty() ? "" : (" ctx=" + pm.context()).c_str());
  }
  uint64_t last_term = 0, last_index = l->LastIndex();
  bool is_vote = t == MessageType::MsgVote || t == MessageType::MsgPreVote;
  if (is_vote) last_term = l->LastTerm();
  if (t == MessageType::MsgPreVoteResp && !pm.reject())
    g.grants.insert((uint32_t)(i << 16 | m.from << 12 | pm.term()));
  if (t == MessageType::MsgTimeoutNow && pm.term() >= pre.term)
    g.tnow.insert((uint32_t)(i << 16 | (pm.term() + 1)));
  if (t == MessageType::MsgReadIndex && pm.entries_size() == 1) {
    int k = -1;
    sscanf(pm.entries(0).data().c_str(), "r%d", &k);
    (void)k;
  }
  bool from_leader = t == MessageType::MsgApp || t == MessageType::MsgHeartbeat || t == MessageType::MsgSnap;
  craft::Status st;
  uint64_t pre_last = last_index;
  uint64_t h0 = On(35) && pm.term() > 0 && pm.term() < pre.term ? NodeHash(i) : 0;
  {
    Enter en(i);
    auto mp = std::make_shared<raftpb::Message>();
    mp->ParseFromString(*m.raw);
    Paint();
    st = rn(i)->Step(mp);
  }
  if (On(35)) CheckAnswer(pm, i, pre, pre_msgs, h0);
  told_to_campaign_ = t == MessageType::MsgTimeoutNow;
  if (from_leader && pm.term() >= pre.term) w.obs[i].heard = 0;
  if (t == MessageType::MsgProp && pre.state == craft::kLeader && st.IsOK()) {
    // forwarded proposal accepted
    uint64_t first;
    auto lg = ReadLog(i, &first);
    if (l->LastIndex() != pre_last + pm.entries_size())
      V({25}, "forwarded-append", Fmt("leader %d accepted a forwarded proposal but its log grew from %d to %d", i, (int)pre_last, (int)l->LastIndex()));
    for (auto& e : pm.entries())
      for (auto& p : g.props)
        if (p.h == HashStr(e.data(), e.type() + 77)) p.accepted++;
    for (int k = 0; k < pm.entries_size() && !found_; k++) {
      auto& le = lg[pre_last + 1 + k - first];
      if (pm.entries(k).type() == raftpb::EntryNormal && (le.h != EntHash(pm.entries(k)) || le.term != r->Term()))
        V({25}, "forwarded-content", Fmt("leader %d appended something else than the forwarded proposal", i));
    }
    if (pre_tr != 0) V({19}, "proposal-during-transfer", Fmt("leader %d accepted a proposal while transferring leadership", i));
  }
  if (t == MessageType::MsgProp && pre.state == craft::kLeader && !st.IsOK() && l->LastIndex() != pre_last)
    V({25}, "refused-but-appended", Fmt("leader %d refused a proposal but its log grew", i));
  if (is_vote) {
    bool utd = pm.logterm() > last_term || (pm.logterm() == last_term && pm.index() >= last_index);
    auto& ms = r->Msgs();
    bool granted = false, answered = false;
    for (size_t k = pre_msgs; k < ms.size(); k++) {
      if (ms[k]->to() == m.from && (ms[k]->type() == MessageType::MsgVoteResp || ms[k]->type() == MessageType::MsgPreVoteResp)) {
        answered = true;
        if (!ms[k]->reject()) granted = true;
      }
    }
    if (granted && !utd)
      V({2, 5, 20}, "vote-outdated", Fmt("node %d (last index %d term %d) grants %s to %d (last index %d term %d)", i, (int)last_index, (int)last_term,
                                     raftpb::MessageType_Name(t).c_str(), m.from, (int)pm.index(), (int)pm.logterm()));
    if (t == MessageType::MsgVote && granted && pm.term() == pre.term && pre.lead != 0 && pre.vote != m.from)
      V({2}, "vote-with-leader", Fmt("node %d votes for %d in term %d although it knows leader %d", i, m.from, (int)pm.term(), (int)pre.lead));
    if (t == MessageType::MsgVote && granted && r->Vote() != m.from)
      V({2}, "vote-unrecorded", Fmt("node %d grants its vote to %d but records %d", i, m.from, (int)r->Vote()));
    if (t == MessageType::MsgVote && granted && pm.term() < pre.term)
      V({2}, "vote-old-term", Fmt("node %d of term %d grants a vote of term %d", i, (int)pre.term, (int)pm.term()));
    if (t == MessageType::MsgPreVote) {
      stat_prevotes++;
      if (r->Term() != pre.term || r->Vote() != pre.vote || r->State() != pre.state || r->Lead() != pre.lead)
        V({20}, "prevote-effect", Fmt("a pre-vote request changed node %d: term %d->%d vote %d->%d", i, (int)pre.term, (int)r->Term(), (int)pre.vote, (int)r->Vote()));
      if (granted && pm.term() <= pre.term && pre.vote != m.from && !(pre.vote == 0 && pre.lead == 0))
        V({20}, "prevote-grant", Fmt("node %d of term %d grants a pre-vote of term %d", i, (int)pre.term, (int)pm.term()));
    }
    if (CheckQuorum(i) && pm.term() > pre.term && pre.state == craft::kFollower && pre.lead != 0 && pre.heard < o.T &&
        pm.context() != "CampaignTransfer") {
      if (r->Term() != pre.term || answered)
        V({21, 20}, "lease-ignored", Fmt("node %d heard from leader %d %d ticks ago but reacted to %s of term %d", i, (int)pre.lead, pre.heard, raftpb::MessageType_Name(t).c_str(), (int)pm.term()));
    }
  }
  After(i);
  told_to_campaign_ = false;
  if (t == MessageType::MsgSnap) reports_.push_back({m.from, m.to, true});
}

void Sim::Settle() {
  int rounds = 0;
  for (;;) {
    if (found_) return;
    if (++rounds > 4000) {
      V({24, 23, 26, 13}, "livelock", "the group does not become quiet without new input");
      return;
    }
    bool any = false;
    for (int i = 1; i <= o.n; i++) {
      if (down_ >> i & 1) continue;
      if (box_[i]->rd) {  // async: the application finishes a Ready taken earlier
        if (Lags(i)) continue;
        FinishReady(i);
        any = true;
        if (found_) return;
      }
      int k = 0;
      if (o.sched == Sched::kAsync) {
        if (ProcessReady(i)) any = true;
      } else {
        while (ProcessReady(i)) {
          any = true;
          if (++k > 200) {
            V({24, 26}, "ready-livelock", Fmt("node %d never runs out of Readys", i));
            return;
          }
        }
      }
      if (found_) return;
    }
    if (!reports_.empty()) {
      auto [from, to, okk] = reports_.front();
      reports_.pop_front();
      if (!(down_ >> from & 1)) {
        Note("   report snapshot %d->%d %s", from, to, okk ? "ok" : "failed");
        {
          Enter en(from);
          Paint();
          rn(from)->ReportSnapshot(to, okk ? craft::kFinish : craft::kFailure);
        }
        After(from);
      }
      continue;
    }
    if (q_.empty()) {
      if (any && o.sched == Sched::kAsync) continue;
      bool pend = false;
      for (int i = 1; i <= o.n; i++) if (!(down_ >> i & 1) && box_[i]->rd && !Lags(i)) pend = true;
      if (!pend) break;
      continue;
    }
    if (o.sched == Sched::kImmediate) {
      NetMsg m = q_.front();
      q_.pop_front();
      Route(m);
    } else {
      Msgs wave;
      wave.swap(q_);
      for (auto& m : wave) {
        Route(m);
        if (found_) return;
      }
    }
  }
}

// ---------------------------------------------------------------- events
static craft::ConfChangeI MakeCC(const std::string& spec) {
  // "v4" -> V1 single change; "2:v4" -> V2 single; "2e:r1 v4" explicit; "2i:.." implicit; "2:" with several -> auto; "leave"
  if (spec == "leave") return craft::ConfChangeI(raftpb::ConfChangeV2());
  auto type = [](char c) {
    return c == 'v' ? raftpb::ConfChangeAddNode : c == 'l' ? raftpb::ConfChangeAddLearnerNode
         : c == 'r' ? raftpb::ConfChangeRemoveNode : raftpb::ConfChangeUpdateNode;
  };
  if (spec[0] != '2') {
    raftpb::ConfChange cc;
    cc.set_type(type(spec[0]));
    cc.set_node_id(atoi(spec.c_str() + 1));
    return craft::ConfChangeI(cc);
  }
  raftpb::ConfChangeV2 cc;
  size_t p = spec.find(':');
  for (size_t k = 1; k < p; k++) {
    if (spec[k] == 'e') cc.set_transition(raftpb::ConfChangeTransitionJointExplicit);
    if (spec[k] == 'i') cc.set_transition(raftpb::ConfChangeTransitionJointImplicit);
  }
  size_t q = p + 1;
  while (q < spec.size()) {
    auto* c = cc.add_changes();
    c->set_type(type(spec[q]));
    c->set_node_id(spec[q + 1] - '0');
    q += 3;
  }
  return craft::ConfChangeI(cc);
}

// An application must not propose a change that leaves no voter at all (the
// library treats applying one as fatal).
static bool RemovesAllVoters(const raftpb::ConfState& cs, const craft::ConfChangeI& cci) {
  std::set<uint64_t> in(cs.voters().begin(), cs.voters().end());
  auto cc = cci.AsV2();
  for (auto& c : cc.changes()) {
    if (c.type() == raftpb::ConfChangeAddNode) in.insert(c.node_id());
    else if (c.type() != raftpb::ConfChangeUpdateNode) in.erase(c.node_id());
  }
  return in.empty();
}

void Sim::Input(const Ev& e) {
  int n = e.node;
  Ghost& g = w.g;
  Raft* r = raft(n);
  Obs pre = w.obs[n];
  auto* l = r->GetRaftLog();
  switch (e.kind) {
    case kCampaign: {
      {
        Enter en(n);
        Paint();
        rn(n)->Campaign();
      }
      After(n);
      break;
    }
    case kPropose: {
      std::string data = Fmt("p%d", w.propn++);
      Prop p;
      p.node = n;
      p.accepted = p.refused = 0;
      p.h = HashStr(data, raftpb::EntryNormal + 77);
      uint64_t last0 = l->LastIndex();
      uint64_t tr = r->LeadTransferee();
      bool member = r->GetTracker().GetProgress(n) != nullptr;
      size_t m0 = r->Msgs().size();
      craft::Status st;
      {
        Enter en(n);
        Paint();
        st = rn(n)->Propose(data);
      }
      Note("   propose at %d -> %s", n, st.Str());
      if (pre.state == craft::kLeader) {
        bool want = tr == 0 && member;
        if (st.IsOK() != want) {
          if (tr != 0)
            V({19, 25}, "proposal-during-transfer", Fmt("leader %d %s a proposal while transferring leadership", n, st.IsOK() ? "accepts" : "refuses"));
          else
            V({25}, "propose-status", Fmt("leader %d %s a proposal", n, st.IsOK() ? "accepts" : "refuses"));
        }
        if (st.IsOK()) {
          p.accepted = 1;
          uint64_t first;
          auto lg = ReadLog(n, &first);
          if (l->LastIndex() != last0 + 1 || lg.empty() || lg.back().h != p.h || lg.back().term != r->Term())
            V({25}, "propose-append", Fmt("leader %d accepted a proposal but it is not the new last entry", n));
        } else if (l->LastIndex() != last0 || r->Msgs().size() != m0) {
          V({25}, "refused-but-appended", Fmt("leader %d refused a proposal but left a trace", n));
        }
      } else {
        bool fwd = pre.state == craft::kFollower && pre.lead != 0 && !o.nofwd;
        if (st.IsOK() != fwd)
          V({25}, "propose-status", Fmt("node %d (role %d, lead %d) returned %s for a proposal", n, pre.state, (int)pre.lead, st.Str()));
        if (l->LastIndex() != last0) V({25}, "follower-appended", Fmt("non-leader %d appended a proposal", n));
        size_t m1 = r->Msgs().size();
        if (fwd) {
          if (m1 != m0 + 1 || r->Msgs().back()->type() != MessageType::MsgProp || r->Msgs().back()->to() != pre.lead ||
              r->Msgs().back()->entries_size() != 1 || r->Msgs().back()->entries(0).data() != data)
            V({25}, "forward", Fmt("node %d does not forward the proposal unchanged to leader %d", n, (int)pre.lead));
        } else if (m1 != m0) {
          V({25}, "refused-but-sent", Fmt("node %d refused a proposal but sent messages", n));
        }
      }
      g.props.push_back(p);
      After(n);
      break;
    }
    case kBeat: {
      {
        Enter en(n);
        auto m = std::make_shared<raftpb::Message>();
        m->set_type(MessageType::MsgBeat);
        m->set_from(n);
        Paint();
        r->Step(m);
      }
      After(n);
      break;
    }
    case kCC: {
      auto cc = MakeCC(o.cc_list[e.arg]);
      uint64_t last0 = l->LastIndex();
      craft::Status st;
      {
        Enter en(n);
        Paint();
        st = rn(n)->ProposeConfChange(cc);
      }
      Note("   conf change '%s' at %d -> %s", o.cc_list[e.arg].c_str(), n, st.Str());
      if (pre.state == craft::kLeader && st.IsOK()) {
        if (l->LastIndex() != last0 + 1) V({8, 25}, "cc-append", Fmt("leader %d: conf change added %d entries", n, (int)(l->LastIndex() - last0)));
        uint64_t first;
        auto lg = ReadLog(n, &first);
        if (!lg.empty() && lg.back().type == raftpb::EntryNormal && lg.back().h != HashStr("", 77))
          V({8}, "cc-refused-entry", Fmt("leader %d: refused conf change is not an empty entry", n));
      }
      After(n);
      break;
    }
    case kRead: {
      Read rq;
      rq.node = n;
      rq.floor = g.max_commit;
      rq.answered = 0;
      rq.deliveries = 1;
      std::string ctx = Fmt("r%zu", g.reads.size());
      g.reads.push_back(rq);
      {
        Enter en(n);
        Paint();
        rn(n)->ReadIndex(ctx);
      }
      Note("   read %s at %d, floor %d", ctx.c_str(), n, (int)rq.floor);
      After(n);
      break;
    }
    case kTransfer: {
      {
        Enter en(n);
        Paint();
        rn(n)->TransferLeader(e.arg);
      }
      After(n);
      if (pre.state == craft::kLeader && r->LeadTransferee() != 0) {
        auto pr = r->GetTracker().GetProgress(r->LeadTransferee());
        if (!pr || pr->IsLearner() || (int)r->LeadTransferee() == n)
          V({19, 22}, "transfer-target", Fmt("leader %d starts a transfer to %d which is no other voter", n, (int)r->LeadTransferee()));
      }
      break;
    }
    case kCompact: {
      if (TakeSnapshot(n, e.arg ? 1 : 0)) After(n);
      break;
    }
    case kTick: {
      for (int k = 0; k < e.arg && !found_; k++) {
        Obs p2 = w.obs[n];
        uint64_t vote0 = p2.vote, term0 = p2.term;
        {
          Enter en(n);
          Paint();
          rn(n)->Tick();
        }
        if (w.obs[n].heard < 1000) w.obs[n].heard++;
        (void)vote0;
        (void)term0;
        After(n);
        // process Readys between ticks, like an application loop does
        if (o.sched == Sched::kImmediate)
          while (!found_ && ProcessReady(n)) {}
      }
      break;
    }
    case kUnreach: {
      {
        Enter en(n);
        Paint();
        rn(n)->ReportUnreachable(e.arg);
      }
      After(n);
      break;
    }
    case kSnapFail: {  // toggle: snapshot temporarily unavailable
      Enter en(n);
      box_[n]->st->snap_unavailable = !box_[n]->st->snap_unavailable;
      break;
    }
    case kDeliver:
    case kDup: {
      NetMsg m = w.held[e.arg];
      if (e.kind == kDeliver)
        w.held.erase(w.held.begin() + e.arg);
      else if ((MessageType)m.type == MessageType::MsgReadIndex || (MessageType)m.type == MessageType::MsgReadIndexResp)
        for (auto& rq : g.reads) rq.deliveries++;
      else if ((MessageType)m.type == MessageType::MsgProp) {}
      hop_ = 0;
      Deliver(m);
      break;
    }
    case kCrash:
      break;
    case kStep:
      if (box_[n]->rd) FinishReady(n);
      break;
  }
}

void Sim::EndChecks(const Ev& e) {
  if (found_) return;
  CheckLogs();
  for (int i = 1; i <= o.n && !found_; i++) {
    CheckDisk(i);
    auto& a = w.app[i];
    if (a.conf) {
      raftpb::ConfState cs;
      cs.ParseFromString(*a.conf);
      auto cur = raft(i)->GetTracker().ConfState();
      if (box_[i]->rd == nullptr && cur.SerializeAsString() != *a.conf && CanonConf(cs) != CanonConf(cur))
        V({8, 9}, "conf-in-force", Fmt("node %d uses configuration %s, applied changes give %s", i, CanonConf(raft(i)->GetTracker().ConfState()).c_str(), CanonConf(cs).c_str()));
      if (box_[i]->rd == nullptr && raft(i)->IsLearner() != (cs.learners().end() != std::find(cs.learners().begin(), cs.learners().end(), (uint64_t)i)))
        V({22, 8}, "learner-flag", Fmt("node %d: learner flag does not match the configuration", i));
    }
    if (On(31)) CheckStatus(i);
    if (On(24) && !o.micro && o.sched == Sched::kImmediate && box_[i]->rd == nullptr && rn(i)->HasReady())
      V({24}, "not-quiet", Fmt("node %d still has a Ready after everything was processed", i));
  }
  // a transfer to an up-to-date reachable voter takes effect
  if (e.kind == kTransfer && On(19) && !o.micro && e.cnode == 0 && e.H == 0 && e.S == (1 << o.n) - 1 && !found_) {
    // evaluated with the pre-state recorded by Apply
  }
}

bool Sim::Apply(const Ev& e) {
  S_ = e.S ? e.S : (uint8_t)((1 << o.n) - 1);
  H_ = e.H;
  hop_ = 0;
  q_.clear();
  reports_.clear();
  down_ = 0;
  lag_ = o.split ? 0xff : e.flags >> 2;
  crash_node_ = e.cnode;
  crash_stage_ = e.cstage;
  crash_nth_ = (e.flags & 2) ? 2 : 1;
  crash_seen_ = 0;
  w.cnt.c[e.kind]++;
  if (e.cnode) w.cnt.c[kCrash]++;
  Note(">> %s", EvStr(e).c_str());
  // preconditions for the transfer-liveness check
  bool want_transfer = false;
  uint64_t tr_term = 0;
  int tr_leader = 0;
  if (e.kind == kTransfer && On(19) && !o.micro && e.cnode == 0 && e.H == 0 && S_ == (1 << o.n) - 1 &&
      o.sched == Sched::kImmediate && !lag_) {
    int lead = IsLeader(e.node) ? e.node : (int)w.obs[e.node].lead;
    if (lead >= 1 && lead <= o.n && IsLeader(lead) && e.arg >= 1 && e.arg <= o.n && e.arg != lead &&
        raft(lead)->LeadTransferee() == 0) {
      auto& cfg = raft(lead)->GetTracker().GetConfig();
      auto pr = raft(lead)->GetTracker().GetProgress(e.arg);
      if (pr && !pr->IsLearner() && pr->Match() == w.obs[lead].last && w.app[e.arg].conf_self_voter && cfg.voters.Outgoing().Size() == 0) {
        want_transfer = true;
        tr_term = w.obs[lead].term;
        tr_leader = lead;
        for (int i = 1; i <= o.n; i++) {
          if (w.obs[i].term != tr_term || w.obs[i].commit != w.obs[i].applied) want_transfer = false;
          if (w.obs[i].last > w.obs[lead].last) want_transfer = false;
          if (box_[i]->rd) want_transfer = false;
          if (w.app[i].applied != w.app[lead].applied) want_transfer = false;
        }
        if (w.obs[e.arg].lead != (uint64_t)lead && w.obs[e.arg].state != craft::kFollower) want_transfer = false;
        for (int i = 1; i <= o.n; i++) if (w.obs[i].state == craft::kCandidate || w.obs[i].state == craft::kPreCandidate) want_transfer = false;
      }
    }
  }
  bool ok = Guard([&] {
    Input(e);
    if (!found_) Settle();
    if (!found_ && (e.kind == kCrash)) down_ |= 1 << e.node;
    uint8_t dn = down_;
    down_ = 0;
    for (int i = 1; i <= o.n && !found_; i++)
      if (dn >> i & 1) {
        crash_node_ = 0;
        Restart(i, e.flags & 1);
        while (!found_ && ProcessReady(i)) {}
        if (o.sched == Sched::kAsync && !found_ && box_[i]->rd) FinishReady(i);
      }
    crash_node_ = 0;
    if (!found_ && dn) Settle();
    if (!found_ && want_transfer && (!IsLeader(e.arg) || w.obs[e.arg].term <= tr_term))
      V({19}, "transfer-ineffective", Fmt("leader %d of term %d was asked to transfer to up-to-date voter %d, which did not become leader", tr_leader, (int)tr_term, e.arg));
    EndChecks(e);
  });
  g_arena = -1;
  if (!ok) {
    if (!found_) {
      found_ = true;
      finding.props = ~0ull;
      finding.monitor = "abort";
      finding.text = std::string("the library aborted in a legal history: ") + g_panic_msg;
      Note("!! ABORT %s", g_panic_msg);
    }
  }
  return !found_;
}

// The application of node n makes a snapshot of what it has applied and drops
// the log up to there, except for the last `keep` entries (keep < 0: drops nothing).
bool Sim::TakeSnapshot(int n, int keep) {
  App& a = w.app[n];
  Disk& d = w.disk[n];
  if (a.applied <= d.snap_index || !a.conf) return false;
  d.dterm = d.term; d.dvote = d.vote; d.dcommit = d.commit;
  Enter en(n);
  raftpb::ConfState cs;
  cs.ParseFromString(*a.conf);
  auto [s, st] = box_[n]->st->CreateSnapshot(a.applied, &cs, SnapData(a.applied, a.hash));
  if (!st.IsOK()) { V({16, 18}, "create-snapshot", Fmt("node %d: creating a snapshot at %d fails: %s", n, (int)a.applied, st.Str())); return false; }
  uint64_t to = keep < 0 ? 0 : a.applied - keep;
  if (to >= d.first) {
    auto st2 = box_[n]->st->Compact(to);
    if (!st2.IsOK()) V({16}, "compact", Fmt("node %d: compacting to %d fails: %s", n, (int)to, st2.Str()));
  }
  auto ser = s->SerializeAsString();
  Enter out(-1);
  uint64_t term = d.ents[a.applied - d.first].term;
  d.snap = std::make_shared<const std::string>(ser);
  d.snap_index = a.applied;
  d.snap_term = term;
  if (to >= d.first) {
    d.ents.erase(d.ents.begin(), d.ents.begin() + (to + 1 - d.first));
    d.first = to + 1;
  }
  return true;
}

// ---------------------------------------------------------------- convergence
bool Sim::HealCheck() {
  healing_ = true;
  heal_ticks_ = true;
  heals++;
  S_ = (1 << o.n) - 1;
  H_ = 0;
  hop_ = 0;
  q_.clear();
  reports_.clear();
  down_ = 0;
  lag_ = 0;
  crash_node_ = 0;
  Note(">> heal");
  std::string why = "no leader";
  bool ok = Guard([&] {
    // lost in the network: pending snapshots are reported as failed
    for (auto& m : w.held)
      if (m.type == MessageType::MsgSnap) reports_.push_back({m.from, m.to, false});
    w.held.clear();
    for (int i = 1; i <= o.n; i++) {
      Enter en(i);
      box_[i]->st->snap_unavailable = false;
    }
    // A member with neither pre-vote nor check-quorum that is ahead in term cannot
    // make a check-quorum leader step down: the upgrade is completed first.
    if (o.upgrade && w.upgraded)
      for (int i = 1; i <= o.n; i++)
        if (!Upgraded(i)) Restart(i, false);
    Settle();
    int phase1 = 3 * o.T, rounds = 60 * o.T;
    std::string data;
    uint64_t idx = 0;
    int prop_leader = 0;
    uint64_t prop_term = 0;
    bool done = false;
    for (int k = 0; k < rounds && !found_ && !done; k++) {
      // members of the newest configuration anybody applied
      raftpb::ConfState cs;
      uint64_t best = 0;
      for (int i = 1; i <= o.n; i++)
        if (w.app[i].conf && w.app[i].applied >= best) {
          best = w.app[i].applied;
          cs.ParseFromString(*w.app[i].conf);
        }
      std::set<int> members;
      for (auto v : cs.voters()) members.insert(v);
      for (auto v : cs.voters_outgoing()) members.insert(v);
      for (auto v : cs.learners()) members.insert(v);
      // an application asked for a snapshot makes one that knows all members
      for (int i = 1; i <= o.n && !found_; i++) {
        Disk& d = w.disk[i];
        if (!IsLeader(i) || !w.app[i].conf || !d.snap || w.app[i].applied <= d.snap_index) continue;
        raftpb::Snapshot sn;
        raftpb::ConfState mine;
        sn.ParseFromString(*d.snap);
        mine.ParseFromString(*w.app[i].conf);
        auto ids = [](const raftpb::ConfState& c) {
          std::set<uint64_t> s(c.voters().begin(), c.voters().end());
          s.insert(c.voters_outgoing().begin(), c.voters_outgoing().end());
          s.insert(c.learners().begin(), c.learners().end());
          return s;
        };
        auto have = ids(sn.metadata().conf_state()), want = ids(mine);
        if (!std::includes(have.begin(), have.end(), want.begin(), want.end())) TakeSnapshot(i, -1);
      }
      for (int i = 1; i <= o.n && !found_; i++) {
        if (!members.count(i) && !(k < phase1 && IsLeader(i))) continue;
        {
          Enter en(i);
          Paint();
          rn(i)->Tick();
        }
        if (w.obs[i].heard < 1000) w.obs[i].heard++;
        After(i);
        Settle();
      }
      if (found_) break;
      // a leader among the members, highest term
      int lead = 0;
      for (int i : members)
        if (i >= 1 && i <= o.n && IsLeader(i) && (!lead || w.obs[i].term > w.obs[lead].term)) lead = i;
      if (!lead) { why = "no leader is elected"; continue; }
      if (prop_leader != lead || prop_term != w.obs[lead].term) {
        data = Fmt("h%d", k);
        Prop p;
        p.node = lead; p.accepted = 1; p.refused = 0;
        p.h = HashStr(data, raftpb::EntryNormal + 77);
        craft::Status st;
        {
          Enter en(lead);
          Paint();
          st = rn(lead)->Propose(data);
        }
        if (!st.IsOK()) { why = Fmt("leader %d refuses proposals", lead); continue; }
        w.g.props.push_back(p);
        idx = raft(lead)->GetRaftLog()->LastIndex();
        prop_leader = lead;
        prop_term = w.obs[lead].term;
        After(lead);
        Settle();
        if (found_) break;
      }
      bool all = true;
      for (int i : members) {
        if (i < 1 || i > o.n) continue;
        if (w.app[i].applied < idx) { all = false; why = Fmt("node %d has applied only %d, the proposal at %d does not get there", i, (int)w.app[i].applied, (int)idx); }
      }
      if (!all) continue;
      for (int i : members) {
        if (i < 1 || i > o.n) continue;
        if (w.obs[i].last != w.obs[lead].last) { all = false; why = Fmt("logs of %d and leader %d differ", i, lead); }
        if (w.app[i].applied != w.app[lead].applied || w.app[i].hash != w.app[lead].hash) { all = false; why = Fmt("node %d and leader %d have different applications", i, lead); }
        if (CanonConf(raft(i)->GetTracker().ConfState()) != CanonConf(raft(lead)->GetTracker().ConfState())) { all = false; why = "configurations differ"; }
      }
      if (raft(lead)->GetTracker().GetConfig().auto_leave) { all = false; why = "the automatic joint configuration is not left"; }
      done = all;
      if (done) {
        // reads are answered on a settled group
        for (int i : members) {
          if (i < 1 || i > o.n || found_) continue;
          Read rq;
          rq.node = i; rq.floor = w.g.max_commit; rq.answered = 0; rq.deliveries = 1;
          std::string ctx = Fmt("r%zu", w.g.reads.size());
          size_t ri = w.g.reads.size();
          w.g.reads.push_back(rq);
          {
            Enter en(i);
            Paint();
            rn(i)->ReadIndex(ctx);
          }
          After(i);
          Settle();
          if (!found_ && w.g.reads[ri].answered != 1)
            V({23, 11, 34}, "read-unanswered", Fmt("a read at node %d of a healthy group is answered %d times", i, w.g.reads[ri].answered));
        }
      }
    }
    if (!found_ && !done) V({23, 18, 8, 13, 19, 26}, "no-convergence", "after healing the group does not converge: " + why);
    if (!found_) CheckLogs();
  });
  g_arena = -1;
  healing_ = heal_ticks_ = false;
  if (!ok && !found_) {
    found_ = true;
    finding.props = ~0ull;
    finding.monitor = "abort";
    finding.text = std::string("the library aborted while the healed group ran: ") + g_panic_msg;
  }
  return !found_;
}

// ---------------------------------------------------------------- hashing
uint64_t Sim::HashObj(const void* p, size_t n, const std::vector<uint8_t>& mask, uint64_t h) {
  const char* c = static_cast<const char*>(p);
  const char* m = mask.empty() ? nullptr : reinterpret_cast<const char*>(mask.data());
  for (size_t k = 0; k + 8 <= n; k += 8) {
    uint64_t x;
    memcpy(&x, c + k, 8);
    if (InArena(x)) {
      x = 0xA;
    } else if (m) {
      uint64_t mm;
      memcpy(&mm, m + k, 8);
      x &= mm;
    }
    h = Mix(h, x);
  }
  return h;
}

uint64_t Sim::NodeHash(int i) {
  NodeBox* b = box_[i];
  RawNode* rnp = b->rn.get();
  Raft* r = rnp->GetRaft();
  auto* l = r->GetRaftLog();
  uint64_t h = 99;
  h = HashObj(rnp, sizeof(RawNode), m_rn_, h);
  h = HashObj(r, sizeof(Raft), m_raft_, h);
  h = HashObj(l, sizeof(craft::RaftLog), m_log_, h);
  auto& trk = r->GetTracker();
  for (auto& p : trk.GetProgressMap()) {
    h = Mix(h, p.first);
    h = HashObj(p.second.get(), sizeof(craft::Progress), m_prog_, h);
    auto* in = p.second->GetInflights();
    int64_t c = in->Count();
    h = Mix(h, c);
    auto& buf = in->Buffer();
    for (int64_t k = 0; k < c; k++) {
      size_t at = (in->Start() + k) % std::max<int64_t>(in->Size(), 1);
      if (at < buf.size()) h = Mix(h, buf[at]);
    }
  }
  auto set = [&](const std::set<uint64_t>& s) {
    h = Mix(h, 500);
    for (auto v : s) h = Mix(h, v);
  };
  auto& cfg = trk.GetConfig();
  set(cfg.voters.Incoming().IDs());
  set(cfg.voters.Outgoing().IDs());
  set(cfg.learners);
  set(cfg.learners_next);
  h = Mix(h, cfg.auto_leave);
  for (auto& v : trk.Votes()) h = Mix(h, v.first * 2 + v.second);
  auto* ro = r->GetReadOnly();
  for (auto& p : ro->GetPendingReadIndex()) {
    h = HashStr(p.first, Mix(h, p.second->index));
    for (auto& a : p.second->acks) h = Mix(h, a.first * 2 + a.second);
    h = Mix(h, p.second->req ? p.second->req->from() : 0);
  }
  for (auto& c : ro->GetReadIndexQueue()) h = HashStr(c, h);
  for (auto& c : r->GetReadStates()) h = HashStr(c.request_ctx, Mix(h, c.index));
  for (auto& m : r->Msgs()) h = HashStr(m->SerializeAsString(), h);
  auto& u = l->GetUnstable();
  h = Mix(h, u.Offset());
  for (auto& e : u.Entries()) h = Mix(Mix(Mix(h, e->index()), e->term()), EntHash(*e));
  if (u.Snapshot()) h = Mix(h, u.Snapshot()->metadata().index() * 64 + u.Snapshot()->metadata().term());
  for (auto& e : b->st->GetEntries()) h = Mix(Mix(Mix(h, e->index()), e->term()), EntHash(*e));
  h = Mix(h, b->st->snap_unavailable);
  if (b->rd) h = Mix(h, ReadyDigest(*b->rd));
  return h;
}

uint64_t Sim::Hash() {
  uint64_t h = 5;
  uint64_t min_term = ~0ull;
  for (int i = 1; i <= o.n; i++) {
    h = Mix(h, NodeHash(i));
    Disk& d = w.disk[i];
    h = Mix(h, d.term * 4096 + d.vote * 512 + d.commit);
    h = Mix(h, d.dterm * 4096 + d.dvote * 512 + d.dcommit);
    h = Mix(h, d.snap_index * 64 + d.snap_term);
    h = Mix(h, d.first);
    for (auto& e : d.ents) h = Mix(h, e.h + e.term);
    App& a = w.app[i];
    h = Mix(h, a.applied);
    if (o.checkq || o.prevote || o.upgrade) h = Mix(h, w.obs[i].heard > o.T ? o.T : w.obs[i].heard);
    min_term = std::min(min_term, w.obs[i].term);
  }
  Ghost& g = w.g;
  for (uint64_t t = min_term; t < g.leader_of.size(); t++)
    if (g.leader_of[t]) h = Mix(h, t * 8 + g.leader_of[t]);
  h = Mix(h, 71);
  for (size_t k = 1; k < g.chosen.size(); k++) h = Mix(h, g.chosen[k].chain + g.chosen[k].cterm);
  h = Mix(h, 72);
  for (auto& r : g.reads) h = Mix(h, r.node * 4096 + r.floor * 64 + r.answered * 8 + r.deliveries + (r.superseded ? 1 << 20 : 0));
  for (auto& p : g.props) h = Mix(h, p.node * 16 + p.accepted);
  for (auto x : g.grants) if ((x & 0xfff) > min_term) h = Mix(h, x);
  for (auto x : g.tnow) if ((x & 0xffff) > min_term) h = Mix(h, x + 7);
  if (o.micro) {
    uint64_t s = 0;
    for (auto& m : w.held) s += Mix(m.h, m.from);
    h = Mix(h, s);
  } else {
    for (auto& m : w.held) h = Mix(Mix(h, m.h), m.from);
  }
  for (int k = 0; k < kKinds; k++)
    if (k != kBeat && k != kTick) h = Mix(h, w.cnt.c[k]);
  h = Mix(h, w.upgraded);
  return h;
}

uint64_t Sim::Fingerprint() {
  uint64_t h = 3;
  for (int i = 1; i <= o.n; i++) {
    Raft* r = raft(i);
    auto* l = r->GetRaftLog();
    for (uint64_t v : {r->Term(), r->Vote(), (uint64_t)r->State(), r->Lead(), l->Committed(), l->Applied(),
                       l->FirstIndex(), l->LastIndex(), r->LeadTransferee(), r->PendingConfIndex(),
                       r->UncommittedSize(), (uint64_t)r->ElectionElapsed()})
      h = Mix(h, v);
    uint64_t first;
    for (auto& e : ReadLog(i, &first)) h = Mix(h, e.h + e.term);
    for (auto& p : r->GetTracker().GetProgressMap())
      for (uint64_t v : {p.first, p.second->Match(), p.second->Next(), (uint64_t)p.second->State(),
                         p.second->PendingSnapshot(), (uint64_t)p.second->RecentActive(),
                         (uint64_t)p.second->ProbeSent(), (uint64_t)p.second->IsLearner(),
                         (uint64_t)p.second->GetInflights()->Count()})
        h = Mix(h, v);
    h = HashStr(CanonConf(r->GetTracker().ConfState()), h);
    h = Mix(h, w.disk[i].term * 100 + w.disk[i].vote * 10 + w.disk[i].commit);
    h = Mix(h, w.app[i].hash);
  }
  for (auto& m : w.held) h = Mix(h, m.h);
  for (size_t k = 1; k < w.g.chosen.size(); k++) h = Mix(h, w.g.chosen[k].chain);
  return h;
}

void Sim::Calibrate() {
  // Some bytes of the library objects are never written (padding copied from
  // uninitialised stack).  Find them: run the same little history with two
  // different stack contents and mask what differs.
  std::vector<std::string> img[2];
  auto save_opts = o;
  for (int pass = 0; pass < 2; pass++) {
    g_paint = pass ? 0x55 : 0xAA;
    Guard([&] {
      Init();
      Ev e;
      e.kind = kCampaign; e.node = o.voters[0];
      Apply(e);
      e.kind = kPropose;
      Apply(e);
      if (o.voters.size() > 1) {
        e.kind = kCampaign; e.node = o.voters[1];
        Apply(e);
      }
      e.kind = kTransfer; e.arg = o.voters[0];
      Apply(e);
      e.kind = kRead; e.node = o.voters[0];
      Apply(e);
    });
    g_paint = -1;
    g_arena = -1;
    for (int i = 1; i <= o.n; i++) {
      img[pass].push_back(std::string((char*)rn(i), sizeof(RawNode)));
      img[pass].push_back(std::string((char*)raft(i), sizeof(Raft)));
      img[pass].push_back(std::string((char*)raft(i)->GetRaftLog(), sizeof(craft::RaftLog)));
      for (auto& p : raft(i)->GetTracker().GetProgressMap())
        img[pass].push_back("P" + std::string((char*)p.second.get(), sizeof(craft::Progress)));
    }
  }
  m_rn_.assign((sizeof(RawNode) + 7) / 8 * 8, 0xff);
  m_raft_.assign((sizeof(Raft) + 7) / 8 * 8, 0xff);
  m_log_.assign((sizeof(craft::RaftLog) + 7) / 8 * 8, 0xff);
  m_prog_.assign((sizeof(craft::Progress) + 7) / 8 * 8, 0xff);
  if (img[0].size() == img[1].size())
    for (size_t k = 0; k < img[0].size(); k++) {
      auto &a = img[0][k], &b = img[1][k];
      if (a.size() != b.size()) continue;
      std::vector<uint8_t>* m = nullptr;
      size_t off = 0;
      if (a.size() == sizeof(craft::Progress) + 1 && a[0] == 'P') { m = &m_prog_; off = 1; }
      else if (a.size() == sizeof(RawNode)) m = &m_rn_;
      else if (a.size() == sizeof(Raft)) m = &m_raft_;
      else if (a.size() == sizeof(craft::RaftLog)) m = &m_log_;
      if (!m) continue;
      for (size_t x = off; x < a.size(); x++)
        if (a[x] != b[x]) (*m)[x - off] = 0;
    }
  // the stats of the calibration do not count
  lib_calls = readys = delivered = heals = checks = 0;
  stat_leaders = stat_commits = stat_restarts = stat_snaps = stat_confs = stat_reads = stat_multi = stat_votes = stat_prevotes = 0;
  o = save_opts;
}

Snap Sim::Save() {
  Snap s;
  for (int i = 1; i <= o.n; i++) s.img[i] = ArenaSave(i);
  s.w = w;
  return s;
}
void Sim::Restore(const Snap& s) {
  for (int i = 1; i <= o.n; i++) ArenaRestore(i, s.img[i]);
  if (On(35))
    for (int i = 1; i <= o.n; i++) msgs_seen_[i] = box_[i] ? raft(i)->Msgs().size() : 0;
  w = s.w;
  found_ = false;
  q_.clear();
  reports_.clear();
  down_ = 0;
}

std::string Sim::Describe() {
  std::string out;
  for (int i = 1; i <= o.n; i++) {
    auto& ob = w.obs[i];
    out += Fmt("%sn%d:%s t%d c%d a%d l%d", i > 1 ? " | " : "", i,
               craft::RaftStateTypeName((craft::RaftStateType)ob.state).c_str() + 9, (int)ob.term, (int)ob.commit,
               (int)ob.applied, (int)ob.last);
  }
  return out;
}

// ---------------------------------------------------------------- enumeration
void Sim::Enum(std::vector<Ev>* out, std::vector<int>* cost, int budget, bool first) {
  out->clear();
  cost->clear();
  int all = (1 << o.n) - 1;
  auto push = [&](Ev e, int c) {
    if (c > budget) return;
    out->push_back(e);
    cost->push_back(c);
  };
  auto variants = [&](Ev e, int base) {
    e.S = all;
    push(e, base);
    if (o.micro) return;
    int vc = base + 1;
    if (vc <= budget) {
      if (o.part)
        for (int S = 1; S < all; S++) {
          if (!(S >> (e.node - 1) & 1)) continue;
          if (S == (1 << (e.node - 1)) && (e.kind == kBeat || e.kind == kTransfer)) continue;
          if (first && o.sym && e.kind != kDeliver) {
            // only canonical subsets {1},{1,2},{1,2,3}..
            if (((S + 1) & S) != 0) continue;
          }
          Ev v = e;
          v.S = S;
          push(v, vc);
          if (o.combo && (S & (S - 1)))
            for (int H : o.hops) {
              v.H = H;
              push(v, vc + 1);
            }
        }
      for (int H : o.hops) {
        Ev v = e;
        v.H = H;
        push(v, vc);
      }
      if (o.lag)
        for (int i = 1; i <= o.n; i++) {
          Ev v = e;
          v.flags = 4 << (i - 1);
          push(v, vc);
          for (int H : o.hops) {
            v.H = H;
            push(v, vc + 1);
          }
        }
      if (w.cnt.c[kCrash] < o.crashes)
        for (int c = 1; c <= o.n; c++)
          for (int st : {0, 2, 3, 4}) {
            if (st == 2 && !o.crash_entries_only) continue;
            for (int nth = 0; nth < (o.crash_nth2 ? 2 : 1); nth++) {
              Ev v = e;
              v.cnode = c;
              v.cstage = st;
              v.flags = nth ? 2 : 0;
              push(v, vc);
              if (st >= 3) {
                v.flags |= 1;
                push(v, vc);
              }
            }
          }
    }
  };
  auto allowed = [&](int n) {
    if (!o.only_nodes.empty() && std::find(o.only_nodes.begin(), o.only_nodes.end(), n) == o.only_nodes.end()) return false;
    return !(first && o.sym) || n == 1;
  };
  for (int n = 1; n <= o.n; n++) {
    bool lead = IsLeader(n);
    Ev e;
    e.node = n;
    if (o.split && box_[n]->rd) {
      Ev c = e;
      c.kind = kStep;
      c.S = all;
      push(c, 0);
    }
    if (lead && w.cnt.c[kPropose] < o.props && allowed(n)) {
      e.kind = kPropose;
      variants(e, 0);
    }
    if (lead && w.cnt.c[kBeat] < o.beats) {
      e.kind = kBeat;
      variants(e, 0);
    }
    if (!lead && w.cnt.c[kCampaign] < o.campaigns && allowed(n)) {
      e.kind = kCampaign;
      variants(e, 0);
    }
    if (!lead && o.fwd_props && w.cnt.c[kPropose] < o.props && w.obs[n].lead != 0 && allowed(n)) {
      e.kind = kPropose;
      e.S = all;
      push(e, 0);
    }
    if (lead && w.cnt.c[kCC] < o.ccs)
      for (size_t k = 0; k < o.cc_list.size(); k++) {
        raftpb::ConfState cs;
        if (w.app[n].conf) cs.ParseFromString(*w.app[n].conf);
        if (RemovesAllVoters(cs, MakeCC(o.cc_list[k]))) continue;
        Ev c = e;
        c.kind = kCC;
        c.arg = k;
        variants(c, 0);
      }
    if (w.cnt.c[kRead] < o.reads && (lead || w.obs[n].lead != 0)) {
      e.kind = kRead;
      variants(e, 0);
    }
    if (w.cnt.c[kTransfer] < o.transfers && (lead || w.obs[n].lead != 0))
      for (int t = 1; t <= o.n; t++) {
        if (!lead && t != n) continue;  // followers only ask for themselves
        Ev c = e;
        c.kind = kTransfer;
        c.arg = t;
        variants(c, 0);
      }
    if (w.cnt.c[kCompact] < o.compacts && w.app[n].applied > w.disk[n].snap_index && w.app[n].conf) {
      Ev c = e;
      c.kind = kCompact;
      c.S = all;
      push(c, 0);
      if (o.compact_keep && w.app[n].applied > w.disk[n].first) {
        c.arg = 1;
        push(c, 0);
      }
    }
    if (w.cnt.c[kCrash] < o.crashes) {
      Ev c = e;
      c.kind = kCrash;
      c.S = all;
      push(c, 1);
      Disk& d = w.disk[n];
      if (d.dcommit != d.commit || d.dterm != d.term || d.dvote != d.vote) {
        c.flags = 1;
        push(c, 1);
      }
    }
    if (w.cnt.c[kTick] < o.ticks)
      for (int k : o.tick_ks) {
        Ev c = e;
        c.kind = kTick;
        c.arg = k;
        variants(c, 0);
      }
    if (lead && w.cnt.c[kUnreach] < o.unreach)
      for (int t = 1; t <= o.n; t++) {
        if (t == n) continue;
        Ev c = e;
        c.kind = kUnreach;
        c.arg = t;
        c.S = all;
        push(c, 1);
      }
    if (lead && w.cnt.c[kSnapFail] < o.snapfail) {
      Ev c = e;
      c.kind = kSnapFail;
      c.S = all;
      push(c, 1);
    }
  }
  for (size_t k = 0; k < w.held.size(); k++) {
    Ev c;
    c.node = w.held[k].to;
    c.arg = k;
    c.S = all;
    if (w.cnt.c[kDeliver] < o.delivers) {
      c.kind = kDeliver;
      if (o.micro) push(c, 0);
      else {
        push(c, 1);
        if (o.hold) {
          Ev v = c;
          v.H = 1;  // late delivery, the answers get lost or held again
          push(v, 1);
        }
      }
    }
    if (w.cnt.c[kDup] < o.dups) {
      c.kind = kDup;
      push(c, 1);
    }
  }
}

}  // namespace hx
