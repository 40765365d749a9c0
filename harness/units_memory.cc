// C37: a node gives back everything it takes, and going through the same rounds
// over and over does not make it grow.  Every node lives in an arena of its own,
// which counts what is in use.
#include <deque>

#include "node_box.h"

using namespace hx;
using craft::kLeader;

namespace {

constexpr int kN = 4;  // voters 1 2 3, learner 4

bool g_warming = false;
int Where(int i) { return g_warming ? -1 : i; }

const char* kRounds[] = {"proposal at the leader", "five proposals at a follower", "read at the leader", "reads at a follower and the learner", "two reads at a leader that is cut off for a while", "the leader is cut off with proposals and reads pending, another takes over",
                         "another campaigns", "transfer of leadership", "transfer to a dead node", "a learner is added and removed", "joint change there and back", "a node needs a snapshot", "a snapshot is lost", "unreachable report",
                         "a cut-off node campaigns ten times", "heartbeats", "a follower restarts", "proposals beyond the quota", "a hopeless candidate", "looking at the status", "reads at a follower without leader", "change refused", "a leader that cannot commit gets reads", "one read asked three times, the answer to it lost"};
const int kRoundsN = sizeof kRounds / sizeof *kRounds;

struct Group {
  Ch& c;
  Box* b[kN + 1] = {};
  std::deque<std::string> q;  // encoded
  std::set<U64> cut;
  int opt = 0;
  bool lose_snaps = false, lose_apps = false;
  long delivered = 0;
  int reads = 0, now = 0;

  explicit Group(Ch& ch, int o) : c(ch), opt(o) {
    for (int i = 1; i <= kN; i++) {
      ArenaReset(i);
      Make(i, 0);
    }
  }
  ~Group() {
    for (int i = 1; i <= kN; i++) Kill(i);
  }
  void Kill(int i) {
    Enter e(Where(i));
    delete b[i];
    b[i] = nullptr;
  }
  void Make(int i, U64 applied, std::shared_ptr<BoxStore> st = nullptr) {
    Enter e(Where(i));
    b[i] = new Box(i, 4, 1);
    if (st) {
      b[i]->st = st;
      b[i]->cfg.storage = st;
    }
    else b[i]->st->cs = Conf({1, 2, 3}, {4});
    auto& g = b[i]->cfg;
    g.pre_vote = opt > 0;
    g.check_quorum = opt > 0;
    if (opt == 2) g.read_only_option = craft::ReadOnly::ReadOnlyOption::kLeaseBased;
    g.max_inflight_msgs = 2;
    g.max_size_per_msg = 40;
    g.max_uncommitted_entries_size = 60;
    g.applied = applied;
    b[i]->Start();
  }
  template <class F>
  void At(int i, F f) {
    {
      Enter e(Where(i));
      f(*b[i]);
    }
    Work(i);
  }
  void Work(int i) {
    std::vector<std::string> outs;
    {
      Enter e(Where(i));
      b[i]->Drain();
      b[i]->applied.clear();
      reads += (int)b[i]->reads.size();
      b[i]->reads.clear();
    }
    for (auto& m : b[i]->out) {
      if (cut.count(i) || cut.count(m->to()) || m->to() > kN) continue;
      if (m->type() == raftpb::MsgSnap && lose_snaps) continue;
      if (m->type() == raftpb::MsgApp && lose_apps) continue;
      q.push_back(m->SerializeAsString());
    }
    Enter e(Where(i));
    b[i]->out.clear();
    b[i]->out.shrink_to_fit();
    b[i]->applied.shrink_to_fit();
    b[i]->reads.shrink_to_fit();
  }
  void Quiet() {
    while (!q.empty()) {
      std::string s = q.front();
      q.pop_front();
      c.step();
      raftpb::Message probe;
      probe.ParseFromString(s);
      if (cut.count(probe.to()) || cut.count(probe.from())) continue;
      if (++delivered > 300000) c.viol({37}, "no-end", "the group exchanges messages for ever");
      int to = (int)probe.to();
      if (c.tracing && getenv("DBG")) c.note("%s", Show(std::make_shared<raftpb::Message>(probe)).c_str());
      At(to, [&](Box& x) {
        auto m = std::make_shared<raftpb::Message>();
        m->ParseFromString(s);
        x.answer = x.n->Step(m);
      });
      if (probe.type() == raftpb::MsgSnap && Leader() && Leader() != to) At(Leader(), [&](Box& x) { x.n->ReportSnapshot(to, craft::SnapshotStatus::kFinish); });
    }
  }
  int Leader() {
    int l = 0;
    U64 t = 0;
    for (int i = 1; i <= kN; i++)
      if (!cut.count(i) && b[i]->role() == kLeader && b[i]->term() >= t) l = i, t = b[i]->term();
    return l;
  }
  void Tick(int i) {
    At(i, [](Box& x) {
      x.r()->SetRandomizedElectionTimeout(4);
      x.n->Tick();
    });
  }
  void Beat(int times) {
    for (int k = 0; k < times; k++) {
      int l = Leader();
      if (!l) return;
      Tick(l);
      Quiet();
    }
  }
  // Lets the leases of everybody but i run out quietly.
  void Rest(int i) {
    for (int j = 1; j <= kN; j++)
      if (j != i && !cut.count(j))
        for (int t = 0; t < 4 && opt; t++) {
          Enter e(Where(j));
          b[j]->n->TickQuiesced();
        }
  }
  // Makes i the leader: without check-quorum leases in the way.
  void Lead(int i) {
    for (int k = 0; k < 30 && Leader() != i; k++) {
      Rest(i);
      At(i, [](Box& x) { x.n->Campaign(); });
      Quiet();
    }
    if (Leader() != i) c.viol({37}, "no-leader", "node %d cannot be elected (%s, leader %d, term %d, last %d/%d/%d)", i, kRounds[now], Leader(), (int)b[i]->term(), (int)b[1]->last(), (int)b[2]->last(), (int)b[3]->last());
    Beat(2);
  }
  void Propose(int i, int n = 1) {
    for (int k = 0; k < n; k++) At(i, [](Box& x) { x.answer = x.n->Propose("12345678"); x.answer2 = x.answer; });
    Quiet();
  }
  void Compact() {
    for (int i = 1; i <= kN; i++) {
      Enter e(Where(i));
      auto& x = *b[i];
      if (x.applied_to > x.st->base) x.st->Compact(x.applied_to, x.applied_to, x.st->cs);
      x.st->ents.shrink_to_fit();
      x.st->snap->set_data("s");
    }
  }
  void Home() {
    cut.clear();
    lose_snaps = lose_apps = false;
    Quiet();
    Beat(1);
    for (int i = 1; i <= 3; i++)  // a lower term's heartbeats mean nothing to it: it has to ask for votes
      if (Leader() && b[i]->term() > b[Leader()]->term()) {
        At(i, [](Box& x) { x.n->Campaign(); });
        Quiet();
      }
    Lead(1);
    Beat(3);
    for (int k = 0; k < 40; k++) {
      bool ok = true;
      for (int i = 1; i <= kN; i++) ok = ok && b[i]->applied_to == b[1]->last();
      if (ok) break;
      Beat(1);
    }
    for (int i = 1; i <= kN; i++)
      if (b[i]->applied_to != b[1]->last()) c.viol({37}, "behind", "node %d applied %d of %d (%s): %s", i, (int)b[i]->applied_to, (int)b[1]->last(), kRounds[now], b[1]->n->GetStatus().progress[i]->String().c_str());
    Compact();
  }
  size_t Live() {
    size_t s = 0;
    for (int i = 1; i <= kN; i++) s += ArenaLive(i);
    return s;
  }
  void Change(std::vector<std::pair<raftpb::ConfChangeType, int>> cs) {
    At(1, [&](Box& x) {
      raftpb::ConfChangeV2 cc;
      for (auto& p : cs) {
        auto* y = cc.add_changes();
        y->set_type(p.first);
        y->set_node_id(p.second);
      }
      x.answer2 = x.n->ProposeConfChange(craft::ConfChangeI(std::move(cc)));
    });
    Quiet();
    Beat(2);
  }
};

bool c_debug = getenv("DBG") != nullptr;
void Round(Group& g, int k) {
  g.now = k;
  if (c_debug) g.c.note("--- %s", kRounds[k]);
  switch (k) {
    case 0: g.Propose(1); break;
    case 1: g.Propose(2, 5); break;
    case 2: g.At(1, [](Box& x) { x.n->ReadIndex("read1"); }); g.Quiet(); g.Beat(1); break;
    case 3:
      g.At(3, [](Box& x) { x.n->ReadIndex("read3"); });
      g.At(4, [](Box& x) { x.n->ReadIndex("read4"); });
      g.Quiet();
      g.Beat(1);
      break;
    case 4:
      g.cut = {1};
      g.At(1, [](Box& x) { x.n->ReadIndex("lost1"); x.n->ReadIndex("lost2"); });
      g.cut.clear();
      g.Beat(2);
      break;
    case 5:
      g.cut = {1};
      g.At(1, [](Box& x) { x.n->Propose("12345678"); x.n->ReadIndex("lost3"); x.n->Propose("12345678"); });
      g.Lead(2);
      g.Propose(2, 2);
      break;
    case 6: g.Lead(3); break;
    case 7: g.At(1, [](Box& x) { x.n->TransferLeader(2); }); g.Quiet(); break;
    case 8:
      g.cut = {3};
      g.Propose(1);
      g.At(1, [](Box& x) { x.n->TransferLeader(3); });
      g.Propose(1);
      for (int t = 0; t < 5; t++) g.Tick(1);
      break;
    case 9:
      g.Change({{raftpb::ConfChangeAddLearnerNode, 9}});
      g.Change({{raftpb::ConfChangeRemoveNode, 9}});
      break;
    case 10:
      g.Change({{raftpb::ConfChangeAddLearnerNode, 3}, {raftpb::ConfChangeAddNode, 4}});
      g.Change({{raftpb::ConfChangeAddNode, 3}, {raftpb::ConfChangeAddLearnerNode, 4}});
      break;
    case 11:
    case 12:
      g.cut = {3};
      g.Propose(1, 3);
      g.Compact();
      g.lose_snaps = k == 12;
      g.cut.clear();
      g.Beat(2);
      if (k == 12) {
        g.At(1, [](Box& x) { x.n->ReportSnapshot(3, craft::SnapshotStatus::kFailure); });
        g.lose_snaps = false;
        g.Beat(2);
      }
      break;
    case 13: g.At(1, [](Box& x) { x.n->ReportUnreachable(2); }); g.Beat(1); break;
    case 14:
      g.cut = {3};
      for (int t = 0; t < 10; t++) g.At(3, [](Box& x) { x.n->Campaign(); });
      break;
    case 15: g.Beat(5); break;
    case 16: {
      std::shared_ptr<BoxStore> st = g.b[2]->st;
      U64 ap = g.b[2]->applied_to;
      g.Kill(2);
      g.Make(2, ap, st);
      {
        Enter e(Where(2));
        st = nullptr;
      }
      break;
    }
    case 17:
      g.cut = {1};
      for (int t = 0; t < 12; t++) g.At(1, [](Box& x) { x.answer = x.n->Propose("12345678"); x.answer2 = x.answer; });
      g.cut.clear();
      g.Beat(2);
      break;
    case 18:
      g.cut = {3};
      g.Propose(1, 2);
      g.cut.clear();
      if (g.opt == 0) g.At(3, [](Box& x) { x.n->Campaign(); });
      g.Quiet();
      break;
    case 19:
      for (int i = 1; i <= kN; i++)
        g.At(i, [](Box& x) {
          x.n->GetStatus();
          x.n->GetBasicStatus();
          x.n->WithProgress([](uint64_t, craft::ProgressType, craft::ProgressPtr) {});
        });
      break;
    case 20:
      g.cut = {2};
      for (int t = 0; t < 3; t++) g.At(2, [](Box& x) { x.n->Campaign(); });
      g.At(2, [](Box& x) { x.n->ReadIndex("nobody"); for (int t = 0; t < 3; t++) { x.answer = x.n->Propose("12345678"); x.answer2 = x.answer; } });
      break;
    case 21:
      g.cut = {1};
      g.At(1, [](Box& x) {
        for (int id : {7, 8}) {
          raftpb::ConfChange cc;
          cc.set_type(raftpb::ConfChangeAddLearnerNode);
          cc.set_node_id(id);
          x.answer2 = x.n->ProposeConfChange(craft::ConfChangeI(std::move(cc)));
        }
      });
      g.Lead(2);
      break;
    case 22: {
      g.lose_apps = true;
      for (int t = 0; t < 30 && g.Leader() != 2; t++) {
        g.Rest(2);
        g.At(2, [](Box& x) { x.n->Campaign(); });
        g.Quiet();
      }
      if (g.Leader() != 2) g.c.viol({37}, "no-leader", "node 2 cannot be elected");
      g.At(2, [](Box& x) { x.n->ReadIndex("early"); });
      g.cut = {2};
      g.lose_apps = false;
      g.Lead(1);
      break;
    }
    case 23:
      for (int t = 0; t < 3; t++) g.At(2, [](Box& x) { x.n->ReadIndex("same"); });
      g.Quiet();
      g.cut = {2};
      g.Beat(1);
      break;
  }
  g.Home();
}

}  // namespace

UNIT(memory, Fmt("three voters and a learner, each in memory of its own; plain, with pre-vote and check-quorum, or with lease-based reads: every sequence of 3 of 24 rounds (proposals, reads answered, delayed and lost, elections won and lost, transfers, membership changes, snapshots, restarts, refused proposals, status), each sequence repeated %d times; what the nodes hold half way and after the last repetition; everything is given back at the end", thorough ? 40 : 14)) {
  static bool ready = false;
  if (!ready) {  // whatever is set up once per process must not count
    ready = true;
    ArenaInit();
    g_warming = true;
    for (int o = 0; o < 3; o++) {
      Group g(c, o);
      g.Lead(1);
      g.Home();
      for (int k = 0; k < kRoundsN; k++) Round(g, k);
    }
    g_warming = false;
  }
  int opt = c.pick(3), len = 3, reps = c.thorough ? 40 : 14;
  std::vector<int> seq;
  for (int k = 0; k < len; k++) seq.push_back(c.pick(kRoundsN));
  for (int k : seq) c.note("%s", kRounds[k]);
  size_t at7 = 0, last = 0;
  {
    Group g(c, opt);
    g.Lead(1);
    g.Home();
    for (int rep = 1; rep <= reps; rep++) {
      for (int k : seq) Round(g, k);
      last = g.Live();
      if (rep == reps / 2) at7 = last;
      c.note("after %d repetitions %zu bytes are in use", rep, last);
    }
    U64 h = opt;
    for (int k : seq) h = Mix(h, k);
    c.state(h);
  }
  if (last > at7 + 80) c.viol({37}, "growth", "the nodes hold %zu bytes after %d repetitions and %zu after %d", at7, reps / 2, last, reps);
  for (int i = 1; i <= kN; i++)
    if (ArenaLive(i)) c.viol({37}, "not-given-back", "node %d is gone and %zu bytes of its memory are still in use", i, ArenaLive(i));
}
