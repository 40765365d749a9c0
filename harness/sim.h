// A whole raft group under harness control: real RawNodes in arenas, plus the
// harness-owned network, disks, applications and ghost history (the monitors'
// memory).  Used by the cluster explorer.
#pragma once
#include <algorithm>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "arena.h"
#include "src/rawnode.h"
#include "src/raftpb/confchange.h"
#include "src/storage.h"
#include "src/util.h"
#include "util.h"

namespace hx {

using craft::RawNode;
using Bytes = std::shared_ptr<const std::string>;
constexpr int kMaxN = 5;

enum class Sched { kImmediate, kWave, kAsync };

struct Opts {
  std::string name;
  int n = 3;
  std::vector<int> voters{1, 2, 3};
  std::vector<int> learners;
  bool bootstrap = false;           // RawNode::Start instead of a prepared storage
  bool prevote = false, checkq = false, lease_read = false, nofwd = false;
  uint8_t pv_off = 0, cq_off = 0;   // nodes (bits) without pre-vote / check-quorum
  bool upgrade = false;             // a restart switches the node's pre-vote and check-quorum options
  int T = 3, HB = 1;                // election / heartbeat ticks
  uint64_t max_size = 1 << 20, max_committed = 0, max_uncommitted = 0;
  int inflight = 8;
  Sched sched = Sched::kImmediate;
  bool restart_applied = false;     // restart with Config.applied (app durable) or from the snapshot
  // alphabet (limits per history)
  int campaigns = 9, props = 2, ccs = 0, reads = 0, transfers = 0, compacts = 0, crashes = 0,
      delivers = 0, dups = 0, ticks = 0, unreach = 0, snapfail = 0, beats = 99, forgets = 0;
  std::vector<std::string> cc_list;
  bool part = true;                 // partial connectivity variants
  std::vector<int> hops{1, 2};      // hop limits tried
  bool combo = false;               // partial connectivity x hop limit
  bool crash_entries_only = false;  // crash between entries and hard state
  bool crash_nth2 = false;
  int hold = 0;                     // how many undelivered messages are kept for late delivery
  bool micro = false;               // every message is delivered by its own event
  bool split = false;               // Advance is an event of its own (kStep)
  bool lag = false;                 // variants where one node does not Advance within the event
  bool fwd_props = true;            // propose at followers too
  bool compact_keep = false;        // compaction may keep one trailing entry
  bool campaign_any = true;
  std::vector<int> tick_ks{1};
  std::vector<std::string> prop_sizes;  // not used yet
  std::vector<int> only_nodes;      // restrict campaign/propose nodes
  int depth = 5, budget = 2;
  bool heal = false;                // convergence check from every state
  bool sym = true;
  bool dedup = true;
  bool fmt_log = false;             // format log lines too
  std::vector<std::string> prefix;  // events executed before exploration starts
};

enum Kind : uint8_t {
  kCampaign, kPropose, kBeat, kCC, kRead, kTransfer, kCompact, kCrash, kDeliver, kDup, kTick,
  kUnreach, kSnapFail, kStep, kKinds
};
extern const char* kKindName[];

struct Ev {
  uint8_t kind = 0, node = 0, arg = 0, S = 0, H = 0, cnode = 0, cstage = 0, flags = 0;
  // flags: 1 = unsynced writes are lost at the crash, 2 = second Ready,
  //        4 << (i-1) = node i handles at most one Ready and does not Advance
  bool operator==(const Ev& o) const { return memcmp(this, &o, sizeof(Ev)) == 0; }
};
std::string EvStr(const Ev& e);
bool EvParse(const std::string& s, Ev* e);

struct EntRec {
  uint64_t term = 0;
  uint32_t type = 0;
  uint64_t h = 0;
  Bytes data;
};
struct Disk {
  uint64_t term = 0, vote = 0, commit = 0;
  uint64_t dterm = 0, dvote = 0, dcommit = 0;
  Bytes snap;
  uint64_t snap_index = 0, snap_term = 0;
  uint64_t first = 1;  // index of ents[0]
  std::vector<EntRec> ents;
  uint64_t Last() const { return first + ents.size() - 1; }
  bool Has(uint64_t i, uint64_t t) const {
    if (i == snap_index && snap_index) return t == snap_term;
    if (i < first) return i <= snap_index;  // compacted: was there
    if (i > Last()) return false;
    return ents[i - first].term == t;
  }
};
struct App {
  uint64_t applied = 0, hash = 0;
  Bytes conf;  // serialized canonical ConfState
  bool conf_self_voter = false;
};
struct LogE { uint64_t term, h; uint32_t type; };
struct Obs {
  bool up = true;
  uint64_t term = 0, vote = 0, lead = 0, commit = 0, applied = 0, last = 0;
  int state = 0;
  uint64_t log_first = 1;
  std::vector<LogE> log;   // leader's log as last seen
  int heard = 1000;        // ticks since it heard from a current leader
};
struct Chosen { uint64_t term = 0, h = 0, chain = 0, cterm = 0; uint32_t type = 0; };
// superseded: some answer was given by a leader while a newer one existed
struct Read { int node; uint64_t floor; int answered, deliveries; bool superseded = false; };
struct Prop { int node; int accepted; int refused; uint64_t h; };
struct Ghost {
  std::vector<uint8_t> leader_of;            // by term
  std::vector<Chosen> chosen;                // by index
  uint64_t max_commit = 0;
  std::vector<std::pair<uint32_t, uint8_t>> votes;       // (node<<16|term) -> candidate
  std::vector<std::pair<uint64_t, uint64_t>> byterm;     // (idx<<20|term) -> hash(entry, prev term)
  std::vector<std::pair<uint32_t, uint64_t>> confs;      // idx -> conf hash
  std::vector<std::pair<uint64_t, uint64_t>> cand;       // (node<<20|term) -> lastterm<<20|lastidx
  std::set<uint32_t> grants;                 // prevote grants delivered: node<<16|from<<12|term
  std::set<uint32_t> tnow;                   // TimeoutNow delivered: node<<16|term
  std::vector<Read> reads;
  std::vector<Prop> props;
  uint64_t any_conf = 0;
};
struct NetMsg {
  uint8_t from = 0, to = 0, type = 0;
  uint16_t hop = 0;
  uint64_t term = 0, h = 0;
  Bytes raw;
};
struct Counters {
  uint8_t c[kKinds] = {0};
};
struct World {
  Disk disk[kMaxN + 1];
  App app[kMaxN + 1];
  Obs obs[kMaxN + 1];
  Ghost g;
  std::vector<NetMsg> held;
  Counters cnt;
  uint8_t propn = 0;
  uint8_t upgraded = 0;              // nodes (bits) restarted with the other options
};

class HStorage : public craft::MemoryStorage {
 public:
  explicit HStorage(std::shared_ptr<craft::Logger> l) : craft::MemoryStorage(l) {}
  std::tuple<raftpb::HardState, raftpb::ConfState, craft::Status> InitialState() const override {
    auto t = craft::MemoryStorage::InitialState();
    if (have_conf) std::get<1>(t) = conf;
    return t;
  }
  std::tuple<craft::SnapshotPtr, craft::Status> SnapShot() override {
    if (snap_unavailable)
      return std::make_tuple(craft::SnapshotPtr(),
                             craft::Status::Error(craft::kErrSnapshotTemporarilyUnavailable));
    return craft::MemoryStorage::SnapShot();
  }
  bool have_conf = false;
  raftpb::ConfState conf;
  bool snap_unavailable = false;
};

struct NodeBox {
  std::shared_ptr<HStorage> st;
  std::unique_ptr<RawNode> rn;
  std::shared_ptr<craft::Ready> rd;   // taken, not yet advanced (async scheduling)
  uint64_t rd_digest = 0;
  uint64_t told_lead = 0;             // soft state last announced in a Ready
  int told_role = craft::kFollower;
};

struct Snap {  // saved global state
  ImgPtr img[kMaxN + 1];
  World w;
};

struct Finding {
  uint64_t props = 0;
  std::string monitor, text;
};

class Sim {
 public:
  explicit Sim(const Opts& o, uint64_t prop_mask);
  void Init();                       // fresh world, initial state
  // Executes one event.  Returns false if the branch ended (violation or panic).
  bool Apply(const Ev& e);
  void Enum(std::vector<Ev>* out, std::vector<int>* cost, int budget, bool first);
  Snap Save();
  void Restore(const Snap& s);
  uint64_t Hash();
  uint64_t Fingerprint();            // logical content only
  bool HealCheck();
  bool TakeSnapshot(int n, int keep);                  // destroys the state
  std::string Describe();
  bool violated() const { return found_; }
  Finding finding;
  World w;
  Opts o;
  uint64_t lib_calls = 0, readys = 0, delivered = 0, heals = 0, checks = 0;
  uint64_t stat_leaders = 0, stat_commits = 0, stat_restarts = 0, stat_snaps = 0, stat_confs = 0,
           stat_reads = 0, stat_multi = 0, stat_votes = 0, stat_prevotes = 0;
  std::vector<std::string>* trace = nullptr;  // verbose narration when replaying

 private:
  using Msgs = std::deque<NetMsg>;
  RawNode* rn(int i) { return box_[i]->rn.get(); }
  craft::Raft* raft(int i) { return box_[i]->rn->GetRaft(); }
  void V(std::initializer_list<int> props, const char* monitor, const std::string& text);
  void StartNode(int i, bool fresh);
  void After(int i);                 // bookkeeping after a library call on i
  void Observe(int i);
  void BecameLeader(int i);
  void CheckLeaderCommit(int i, uint64_t from, uint64_t to);
  std::vector<LogE> ReadLog(int i, uint64_t* first);
  void CheckLogs();
  void CheckDisk(int i);
  void CheckMsgs(int i, int old_state, uint64_t old_term);
  void CheckAnswer(const raftpb::Message& pm, int i, const Obs& pre, size_t pre_msgs, uint64_t h0);
  void CheckStatus(int i);
  bool ProcessReady(int i);
  void FinishReady(int i);
  void CheckPromise(int i, const raftpb::Message& m, uint64_t raw_h);
  void Persist(int i, const craft::Ready& rd, int stage);
  void ApplyReady(int i, const craft::Ready& rd);
  void Settle();
  void Route(NetMsg m);
  void Deliver(const NetMsg& m);
  void Undelivered(const NetMsg& m);
  void Restart(int i, bool lost);
  void Input(const Ev& e);
  void EndChecks(const Ev& e);
  bool Upgraded(int i) const { return o.upgrade && (w.upgraded >> (i - 1) & 1); }
  bool PreVote(int i) const { return (o.prevote && !(o.pv_off >> (i - 1) & 1)) != Upgraded(i); }
  bool CheckQuorum(int i) const { return (o.checkq && !(o.cq_off >> (i - 1) & 1)) != Upgraded(i); }
  bool Lags(int i) const { return lag_ >> (i - 1) & 1; }
  bool IsLeader(int i) { return w.obs[i].state == craft::kLeader; }
  uint64_t NodeHash(int i);
  uint64_t ReadyDigest(const craft::Ready& rd);
  void Calibrate();
  uint64_t HashObj(const void* p, size_t n, const std::vector<uint8_t>& mask, uint64_t h);
  bool On(int p) const { return (mask_ >> p) & 1; }
  void Note(const char* f, ...);

  uint64_t mask_;
  bool found_ = false;
  std::shared_ptr<craft::Logger> logger_;
  NodeBox* box_[kMaxN + 1] = {nullptr};
  // per macro step
  Msgs q_;
  std::deque<std::tuple<int, int, bool>> reports_;
  uint8_t S_ = 0, H_ = 0;
  uint16_t hop_ = 0;
  uint8_t down_ = 0;
  uint8_t lag_ = 0;
  int crash_node_ = 0, crash_stage_ = 0, crash_nth_ = 0, crash_seen_ = 0;
  bool healing_ = false;
  size_t msgs_seen_[kMaxN + 1] = {0};  // queued messages already judged by CheckMsgs
  bool told_to_campaign_ = false;      // the call in progress delivers a MsgTimeoutNow
  bool heal_ticks_ = false;
  std::vector<uint8_t> m_rn_, m_raft_, m_log_, m_prog_;
};

}  // namespace hx
