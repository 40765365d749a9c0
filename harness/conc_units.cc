// Thread programs for C17 (in-memory storage), C29 (separate nodes) and C24
// (what a Ready hands out).  Compiled with -fsanitize=thread, like the library.
#include <algorithm>
#include <deque>
#include <map>
#include <memory>
#include <set>

#include "conc_rt.h"
#include "src/raftpb/confchange.h"
#include "src/rawnode.h"
#include "src/storage.h"
#include "storage_ref.h"
#include "util.h"

using namespace craft;
using hx::Fmt;
using hx::RefStorage;
using U64 = uint64_t;

namespace rt {
// The protobuf library initialises its own tables on first use; not under test.
void WarmUp() {
  raftpb::Message m;
  m.add_entries()->set_data("x");
  m.mutable_snapshot()->mutable_metadata()->mutable_conf_state()->add_voters(1);
  raftpb::ConfChange c;
  raftpb::ConfChangeV2 c2;
  c2.add_changes();
  raftpb::HardState h;
  std::string s = m.ShortDebugString() + c.ShortDebugString() + c2.ShortDebugString() + h.ShortDebugString();
  raftpb::Message n;
  n.ParseFromString(m.SerializeAsString());
  s += raftpb::MessageType_Name(raftpb::MsgApp) + raftpb::EntryType_Name(raftpb::EntryNormal) + raftpb::ConfChangeType_Name(raftpb::ConfChangeAddNode) + raftpb::ConfChangeTransition_Name(raftpb::ConfChangeTransitionAuto);
  n.CopyFrom(m);
}
}  // namespace rt

namespace {

class RtLogger : public Logger {
 public:
  RtLogger() : Logger(LogLevel::kFatal) {}
  void Logv(LogLevel l, const char* f, va_list ap) override {
    char b[600];
    vsnprintf(b, sizeof b, f, ap);
    if (l == LogLevel::kFatal) rt::Abort("FATAL: %s", b);
  }
};

EntryPtr Ent(U64 i, U64 t, int size) {
  auto e = std::make_shared<raftpb::Entry>();
  e->set_index(i);
  e->set_term(t);
  e->set_data(std::string(size, 'a' + (i + t) % 26));
  return e;
}

// ------------------------------------------------------------------ storage

enum Kind { oInitial, oFirst, oLast, oTerm, oEntries, oSnap, oHard, oAppend, oCompact, oCreate, oApply };
struct Op {
  Kind k;
  U64 a = 0, b = 0, c = 0;
  const char* name;
};
// Valid in every order: appended ranges start at most at 6, compaction and
// snapshots stop at 4.
const Op kOps[] = {
    {oTerm, 4, 0, 0, "Term(4)"},
    {oEntries, 3, 6, ~0ull, "Entries(3,6)"},
    {oSnap, 0, 0, 0, "SnapShot"},
    {oInitial, 0, 0, 0, "InitialState"},
    {oFirst, 0, 0, 0, "FirstIndex"},
    {oLast, 0, 0, 0, "LastIndex"},
    {oEntries, 5, 6, 0, "Entries(5,6)"},
    {oTerm, 7, 0, 0, "Term(7)"},
    {oAppend, 6, 2, 3, "Append(6,7)"},
    {oAppend, 4, 3, 4, "Append(4,5,6 of a new term)"},
    {oCompact, 4, 0, 0, "Compact(4)"},
    {oCreate, 4, 1, 0, "CreateSnapshot(4)"},
    {oHard, 5, 0, 0, "SetHardState(5)"},
    {oApply, 9, 5, 0, "ApplySnapshot(9)"},
    {oCompact, 3, 0, 0, "Compact(3)"},
    {oCreate, 3, 0, 0, "CreateSnapshot(3, no configuration)"},
    {oHard, 6, 0, 0, "SetHardState(6)"},
    {oAppend, 3, 1, 0, "Append()"},
};
const int kReads = 8, kAll = sizeof kOps / sizeof kOps[0];

struct Held {  // something handed out by the storage, and what it was then
  EntryPtrs ents;
  SnapshotPtr snap;
  std::string was;
};
std::string Dump(const EntryPtrs& es) {
  std::string s;
  for (auto& e : es) s += Fmt("%d.%d.%d ", (int)e->index(), (int)e->term(), (int)e->data().size());
  return s;
}
std::string Dump(const SnapshotPtr& s) {
  return s ? Fmt("%d/%d %s {%s}", (int)s->metadata().index(), (int)s->metadata().term(), s->data().c_str(), s->metadata().conf_state().voters_size() ? Fmt("%d", (int)s->metadata().conf_state().voters(0)).c_str() : "") : "null";
}
std::string Err(const Status& s) {
  if (s.IsOK()) return "ok";
  for (auto e : {kErrCompacted, kErrUnavailable, kErrSnapOutOfDate})
    if (strstr(s.Str(), e)) return e;
  return s.Str();
}

std::string Real(MemoryStorage& st, const Op& o, Held* h) {
  switch (o.k) {
    case oInitial: {
      auto [hs, cs, s] = st.InitialState();
      return Fmt("%d %d %d {%s} %s", (int)hs.term(), (int)hs.vote(), (int)hs.commit(), cs.voters_size() ? Fmt("%d", (int)cs.voters(0)).c_str() : "", Err(s).c_str());
    }
    case oFirst: { auto [i, s] = st.FirstIndex(); return Fmt("%d %s", (int)i, Err(s).c_str()); }
    case oLast: { auto [i, s] = st.LastIndex(); return Fmt("%d %s", (int)i, Err(s).c_str()); }
    case oTerm: { auto [t, s] = st.Term(o.a); return Fmt("%d %s", (int)t, Err(s).c_str()); }
    case oEntries: {
      auto [es, s] = st.Entries(o.a, o.b, o.c);
      h->ents = es;
      h->was = Dump(es);
      return h->was + Err(s);
    }
    case oSnap: {
      auto [sn, s] = st.SnapShot();
      h->snap = sn;
      h->was = Dump(sn);
      return h->was + " " + Err(s);
    }
    case oHard: {
      raftpb::HardState hs;
      hs.set_term(o.a);
      hs.set_vote(o.a + 1);
      hs.set_commit(o.a + 2);
      return Err(st.SetHardState(hs));
    }
    case oAppend: {
      EntryPtrs es;
      for (U64 i = 0; i < o.b && o.c; i++) es.push_back(Ent(o.a + i, o.c, 3));
      return Err(st.Append(es));
    }
    case oCompact: return Err(st.Compact(o.a));
    case oCreate: {
      raftpb::ConfState cs;
      cs.add_voters(o.a + 10);
      auto [sn, s] = st.CreateSnapshot(o.a, o.b ? &cs : nullptr, Fmt("data%d", (int)o.a));
      h->snap = sn;
      if (sn) h->was = Dump(sn);
      return (sn ? h->was + " " : "") + Err(s);
    }
    case oApply: {
      auto sn = std::make_shared<raftpb::Snapshot>();
      sn->mutable_metadata()->set_index(o.a);
      sn->mutable_metadata()->set_term(o.b);
      sn->mutable_metadata()->mutable_conf_state()->add_voters(o.a + 20);
      sn->set_data("applied");
      h->snap = sn;
      h->was = Dump(sn);
      return Err(st.ApplySnapshot(sn));
    }
  }
  return "";
}
std::string RefSnap(const RefStorage& r) { return Fmt("%d/%d %s {%s}", (int)r.snap, (int)r.snap_term, r.snap_data.c_str(), r.snap_conf.c_str()); }
std::string Ref(RefStorage& r, const Op& o) {
  switch (o.k) {
    case oInitial: return Fmt("%d %d %d {%s} ok", (int)r.hs_term, (int)r.hs_vote, (int)r.hs_commit, r.snap_conf.c_str());
    case oFirst: return Fmt("%d ok", (int)r.base + 1);
    case oLast: return Fmt("%d ok", (int)r.last());
    case oTerm:
      if (o.a < r.base) return Fmt("0 %s", kErrCompacted);
      if (o.a > r.last()) return Fmt("0 %s", kErrUnavailable);
      return Fmt("%d ok", (int)r.term(o.a));
    case oEntries: {
      if (o.a <= r.base) return kErrCompacted;
      std::string s;
      for (U64 i = o.a; i < o.b; i++) {
        if (i > o.a && o.c != ~0ull) break;
        s += Fmt("%d.%d.%d ", (int)i, (int)r.term(i), r.at(i).size);
      }
      return s + "ok";
    }
    case oSnap: return RefSnap(r) + " ok";
    case oHard: r.hs_term = o.a; r.hs_vote = o.a + 1; r.hs_commit = o.a + 2; return "ok";
    case oAppend: {
      std::vector<RefStorage::E> v;
      for (U64 i = 0; i < o.b && o.c; i++) v.push_back({o.c, 3});
      r.Append(o.a, v);
      return "ok";
    }
    case oCompact: return r.Compact(o.a) ? "ok" : kErrCompacted;
    case oCreate: {
      int ok = r.CreateSnapshot(o.a, Fmt("%d", (int)o.a + 10), o.b, Fmt("data%d", (int)o.a));
      return ok == 0 ? RefSnap(r) + " ok" : ok == 1 ? kErrSnapOutOfDate : kErrCompacted;
    }
    case oApply: return r.ApplySnapshot(o.a, o.b, Fmt("%d", (int)o.a + 20), "applied") ? "ok" : kErrSnapOutOfDate;
  }
  return "";
}

struct Call {
  const Op* o;
  U64 begin = 0, end = 0;
  std::string res;
  Held held;
};

bool Linear(const std::vector<std::vector<Call>>& h, std::vector<size_t> at, const RefStorage& r, MemoryStorage& st) {
  bool any = false;
  // a call may come next when no other pending call ended before it began
  U64 first_end = ~0ull;
  for (size_t t = 0; t < h.size(); t++)
    if (at[t] < h[t].size()) {
      any = true;
      first_end = std::min(first_end, h[t][at[t]].end);
    }
  if (!any) {  // the final state must be that of this order, too
    RefStorage q = r;
    Held x;
    static const Op fin[] = {{oInitial, 0, 0, 0, ""}, {oFirst, 0, 0, 0, ""}, {oLast, 0, 0, 0, ""}, {oSnap, 0, 0, 0, ""}};
    for (auto& o : fin)
      if (Real(st, o, &x) != Ref(q, o)) return false;
    for (U64 i = r.base; i <= r.last() + 1; i++) {
      Op o{oTerm, i, 0, 0, ""};
      if (Real(st, o, &x) != Ref(q, o)) return false;
    }
    if (r.last() > r.base) {
      Op o{oEntries, r.base + 1, r.last() + 1, ~0ull, ""};
      if (Real(st, o, &x) != Ref(q, o)) return false;
    }
    return true;
  }
  for (size_t t = 0; t < h.size(); t++) {
    if (at[t] >= h[t].size() || h[t][at[t]].begin > first_end) continue;
    RefStorage q = r;
    if (Ref(q, *h[t][at[t]].o) != h[t][at[t]].res) continue;
    auto n = at;
    n[t]++;
    if (Linear(h, n, q, st)) return true;
  }
  return false;
}

void RunStorage(const std::vector<std::vector<const Op*>>& prog, bool compacted) {
  auto logger = std::make_shared<RtLogger>();
  MemoryStorage st(logger);
  RefStorage r;
  EntryPtrs es;
  for (int i = 1; i <= 5; i++) {
    U64 t = i < 3 ? 1 : 2;
    es.push_back(Ent(i, t, 3));
    r.ents.push_back({t, 3});
  }
  st.Append(es);
  if (compacted) {
    raftpb::ConfState cs;
    cs.add_voters(7);
    st.CreateSnapshot(2, &cs, "first");
    st.Compact(2);
    r.CreateSnapshot(2, "7", true, "first");
    r.Compact(2);
  }
  std::vector<std::vector<Call>> h;
  std::string what;
  for (auto& p : prog) {
    h.emplace_back();
    what += what.empty() ? "" : " || ";
    for (auto o : p) {
      h.back().push_back(Call{o});
      what += (&o == &p[0] ? "" : "; ") + std::string(o->name);
    }
  }
  rt::Note("%s%s", what.c_str(), compacted ? " on a compacted storage" : "");
  std::vector<std::function<void()>> bodies;
  for (size_t t = 0; t < h.size(); t++)
    bodies.push_back([&st, &h, t] {
      auto& mine = h[t];
      for (size_t k = 0; k < mine.size(); k++) {
        if (k) rt::Point();
        mine[k].begin = rt::Now();
        mine[k].res = Real(st, *mine[k].o, &mine[k].held);
        mine[k].end = rt::Now();
        rt::Note("%s: %s", mine[k].o->name, mine[k].res.c_str());
        for (size_t j = 0; j <= k; j++)  // what was handed out stays as it was
          if ((!mine[j].held.ents.empty() && Dump(mine[j].held.ents) != mine[j].held.was) || (mine[j].held.snap && Dump(mine[j].held.snap) != mine[j].held.was))
            rt::Viol({17, 16}, "changed", "what %s handed out changed from %s", mine[j].o->name, mine[j].held.was.c_str());
      }
    });
  rt::Run(bodies);
  for (auto& v : h)
    for (auto& c : v)
      if ((!c.held.ents.empty() && Dump(c.held.ents) != c.held.was) || (c.held.snap && Dump(c.held.snap) != c.held.was))
        rt::Viol({17, 16}, "changed", "what %s handed out changed from %s", c.o->name, c.held.was.c_str());
  U64 hash = 0;
  for (auto& v : h)
    for (auto& c : v) hash = hx::HashStr(c.res, hx::HashStr(c.o->name, hash));
  rt::State(hash);
  if (!Linear(h, std::vector<size_t>(h.size()), r, st)) {
    std::string s;
    for (size_t t = 0; t < h.size(); t++)
      for (auto& c : h[t]) s += Fmt(" [thread %d, %d-%d] %s = %s;", (int)t + 1, (int)c.begin, (int)c.end, c.o->name, c.res.c_str());
    rt::Viol({17}, "not-linearizable", "no sequential order explains the results and the final content:%s", s.c_str());
  }
}

}  // namespace

CONC_UNIT(storage_1v1, Fmt("two threads, one call against %s, all %d calls, fresh and compacted storage: every interleaving at lock operations", thorough ? "three" : "two", kAll)) {
  bool comp = rt::Flip();
  std::vector<std::vector<const Op*>> p(2);
  p[0].push_back(&kOps[rt::Pick(kAll)]);
  int n = rt::Thorough() ? 3 : 2;
  for (int i = 0; i < n; i++) p[1].push_back(&kOps[rt::Pick(kAll)]);
  RunStorage(p, comp);
}
CONC_UNIT(storage_2v2, thorough ? "two threads with two calls each, all calls: every interleaving at lock operations" : "two threads with two calls each, one reading (8 reads), one writing (6 writes): every interleaving at lock operations") {
  bool comp = rt::Flip();
  std::vector<std::vector<const Op*>> p(2);
  if (rt::Thorough()) {
    int a = rt::Pick(kAll), b = rt::Pick(kAll), c = a + rt::Pick(kAll - a), d = rt::Pick(kAll);
    p[0] = {&kOps[a], &kOps[b]};
    p[1] = {&kOps[c], &kOps[d]};
  } else {
    int a = rt::Pick(kReads - 2), b = rt::Pick(kReads - 2), c = kReads + rt::Pick(6), d = kReads + rt::Pick(6);
    p[0] = {&kOps[a], &kOps[b]};
    p[1] = {&kOps[c], &kOps[d]};
  }
  RunStorage(p, comp);
}
CONC_UNIT(storage_3, Fmt("three threads with one call each%s, all calls: every interleaving at lock operations", thorough ? ", or two, one and one" : "")) {
  bool comp = rt::Flip();
  int a = rt::Pick(kAll), b = a + rt::Pick(kAll - a), c = b + rt::Pick(kAll - b);
  std::vector<std::vector<const Op*>> p = {{&kOps[a]}, {&kOps[b]}, {&kOps[c]}};
  if (rt::Thorough()) {
    int d = rt::Pick(kAll + 1);
    if (d < kAll) p[0].push_back(&kOps[d]);
  }
  RunStorage(p, comp);
}

// ------------------------------------------------------------------ nodes

namespace {

struct Node {
  std::shared_ptr<MemoryStorage> st;
  std::unique_ptr<RawNode> n;
  std::string log;  // everything observable
  std::vector<MsgPtr> out;
  raftpb::ConfState cs;
  U64 id;

  Node(U64 i, const std::vector<U64>& voters, std::function<void(Raft::Config&)> f = nullptr, bool console = false) : id(i) {
    std::shared_ptr<Logger> lg;
    if (console) lg = std::make_shared<ConsoleLogger>(LogLevel::kWarning);
    else lg = std::make_shared<RtLogger>();
    st = std::make_shared<MemoryStorage>(lg);
    if (!voters.empty()) {
      auto s = std::make_shared<raftpb::Snapshot>();
      s->mutable_metadata()->set_index(1);
      s->mutable_metadata()->set_term(1);
      for (U64 v : voters) s->mutable_metadata()->mutable_conf_state()->add_voters(v);
      st->ApplySnapshot(s);
      raftpb::HardState hs;
      hs.set_term(1);
      hs.set_commit(1);
      st->SetHardState(hs);
      cs = s->metadata().conf_state();
    }
    Raft::Config c;
    c.id = i;
    c.election_tick = 3;
    c.heartbeat_tick = 1;
    c.storage = st;
    c.max_size_per_msg = 1 << 20;
    c.max_inflight_msgs = 4;
    c.logger = lg;
    if (f) f(c);
    n = RawNode::New(c);
  }
  void Say(const std::string& s) { log += s + "\n"; }
  void Ready() {
    int guard = 0;
    while (n->HasReady() && ++guard < 50) {
      auto rd = n->GetReady();
      if (!IsEmptySnap(rd->snapshot)) {
        st->ApplySnapshot(rd->snapshot);
        Say("snap " + rd->snapshot->SerializeAsString());
      }
      st->Append(rd->entries);
      if (!IsEmptyHardState(rd->hard_state)) {
        st->SetHardState(rd->hard_state);
        Say(Fmt("hs %d %d %d", (int)rd->hard_state.term(), (int)rd->hard_state.vote(), (int)rd->hard_state.commit()));
      }
      for (auto& m : rd->messages) {
        Say(Fmt("msg %d to %d term %d index %d commit %d n %d", (int)m->type(), (int)m->to(), (int)m->term(), (int)m->index(), (int)m->commit(), m->entries_size()));
        out.push_back(m);
      }
      for (auto& r : rd->read_states) Say(Fmt("read %d %s", (int)r.index, r.request_ctx.c_str()));
      for (auto& e : rd->committed_entries) {
        Say(Fmt("apply %d.%d %s", (int)e->index(), (int)e->term(), e->data().c_str()));
        if (e->type() == raftpb::EntryConfChange) {
          raftpb::ConfChange cc;
          cc.ParseFromString(e->data());
          cs = n->ApplyConfChange(ConfChangeI(std::move(cc)));
        } else if (e->type() == raftpb::EntryConfChangeV2) {
          raftpb::ConfChangeV2 cc;
          cc.ParseFromString(e->data());
          cs = n->ApplyConfChange(ConfChangeI(std::move(cc)));
        }
      }
      n->Advance();
    }
    auto b = n->GetBasicStatus();
    Say(Fmt("role %d lead %d term %d", (int)b.soft_state.raft_state, (int)b.soft_state.lead, (int)b.hard_state.term()));
  }
  U64 term() { return n->GetBasicStatus().hard_state.term(); }
  void Step(raftpb::MessageType t, U64 from, std::function<void(raftpb::Message&)> f = nullptr) {
    auto m = std::make_shared<raftpb::Message>();
    m->set_type(t);
    m->set_from(from);
    m->set_to(id);
    m->set_term(term());
    if (f) f(*m);
    auto s = n->Step(m);
    Say(Fmt("step %d: %s", (int)t, s.Str()));
  }
  void Ack(U64 from, U64 index) {
    Step(raftpb::MsgAppResp, from, [&](raftpb::Message& m) { m.set_index(index); });
  }
  U64 last() { return n->GetRaft()->GetRaftLog()->LastIndex(); }
};

using Act = std::function<void(Node&)>;
struct Script {
  const char* name;
  std::function<std::unique_ptr<Node>(bool)> make;
  std::vector<Act> acts;
};

std::vector<Script> MakeScripts() {
  std::vector<Script> v;
  auto three = [](std::function<void(Raft::Config&)> f = nullptr) {
    return [f](bool con) { return std::make_unique<Node>(1, std::vector<U64>{1, 2, 3}, f, con); };
  };
  Act elect = [](Node& n) { n.n->Campaign(); n.Ready(); n.Step(raftpb::MsgVoteResp, 2); n.Ready(); };
  v.push_back({"elect, propose, commit, read", three(),
               {elect, [](Node& n) { n.Ack(2, n.last()); n.Ready(); }, [](Node& n) { n.Say(n.n->Propose("a").Str()); n.Say(n.n->Propose("b").Str()); n.Ready(); n.Ack(2, n.last()); n.Ready(); },
                [](Node& n) { n.n->ReadIndex("r1"); n.Ready(); n.Step(raftpb::MsgHeartbeatResp, 3, [](raftpb::Message& m) { m.set_context("r1"); }); n.Ready(); },
                [](Node& n) { n.n->Tick(); n.Ready(); n.n->TransferLeader(3); n.Ready(); }}});
  v.push_back({"bootstrap, change membership", [](bool con) { return std::make_unique<Node>(1, std::vector<U64>{}, nullptr, con); },
               {[](Node& n) { n.Say(n.n->Bootstrap({{1, "one"}}).Str()); n.Ready(); }, [](Node& n) { n.n->Campaign(); n.Ready(); },
                [](Node& n) { raftpb::ConfChange c; c.set_type(raftpb::ConfChangeAddLearnerNode); c.set_node_id(2); n.n->ProposeConfChange(ConfChangeI(std::move(c))); n.Ready(); n.Say(ConfChangesToString({})); },
                [](Node& n) {
                  auto [cs, s] = ConfChangesFromString("v2 l3");
                  raftpb::ConfChangeV2 c;
                  for (auto& x : cs) *c.add_changes() = x;
                  c.set_transition(raftpb::ConfChangeTransitionJointImplicit);
                  n.n->ProposeConfChange(ConfChangeI(std::move(c)));
                  n.Ready();
                },
                [](Node& n) { n.Ack(2, n.last()); n.Ready(); n.Ack(2, n.last()); n.Ready(); n.Say(n.n->GetStatus().config.String()); }}});
  v.push_back({"follower: append, reject, vote, snapshot", three(),
               {[](Node& n) { n.Step(raftpb::MsgApp, 2, [](raftpb::Message& m) { m.set_term(2); m.set_index(1); m.set_logterm(1); *m.add_entries() = *Ent(2, 2, 3); m.set_commit(2); }); n.Ready(); },
                [](Node& n) { n.Step(raftpb::MsgApp, 2, [](raftpb::Message& m) { m.set_index(5); m.set_logterm(2); }); n.Ready(); },
                [](Node& n) { n.Step(raftpb::MsgVote, 3, [](raftpb::Message& m) { m.set_term(3); m.set_index(9); m.set_logterm(3); }); n.Ready(); },
                [](Node& n) { n.Step(raftpb::MsgSnap, 2, [](raftpb::Message& m) { m.set_term(4); auto* s = m.mutable_snapshot(); s->set_data("s"); s->mutable_metadata()->set_index(8); s->mutable_metadata()->set_term(3); for (int i = 1; i <= 3; i++) s->mutable_metadata()->mutable_conf_state()->add_voters(i); }); n.Ready(); },
                [](Node& n) { n.Step(raftpb::MsgReadIndex, 1, [](raftpb::Message& m) { m.set_term(0); m.add_entries()->set_data("q"); }); n.Say(n.n->Propose("fwd").Str()); n.Ready(); n.Step(raftpb::MsgTimeoutNow, 2); n.Ready(); }}});
  v.push_back({"pre-vote, check-quorum, ticks", three([](Raft::Config& c) { c.pre_vote = true; c.check_quorum = true; c.read_only_option = ReadOnly::kLeaseBased; }),
               {[](Node& n) { n.n->GetRaft()->SetRandomizedElectionTimeout(4); for (int i = 0; i < 4; i++) n.n->Tick(); n.Ready(); }, [](Node& n) { n.Step(raftpb::MsgPreVoteResp, 2, [&](raftpb::Message& m) { m.set_term(n.term() + 1); }); n.Ready(); n.Step(raftpb::MsgVoteResp, 2); n.Ready(); },
                [](Node& n) { n.Ack(2, n.last()); n.Ready(); n.n->ReadIndex("lease"); n.Ready(); }, [](Node& n) { for (int i = 0; i < 3; i++) n.n->Tick(); n.Ready(); },
                [](Node& n) { for (int i = 0; i < 3; i++) n.n->Tick(); n.Ready(); }}});
  v.push_back({"leader: window, probe, snapshot, reports", three([](Raft::Config& c) { c.max_inflight_msgs = 1; c.max_size_per_msg = 0; c.max_uncommitted_entries_size = 4; }),
               {elect, [](Node& n) { n.Ack(2, n.last()); n.Ready(); n.Say(n.n->Propose("12345").Str()); n.Say(n.n->Propose("67890").Str()); n.Ready(); },
                [](Node& n) { n.Ack(2, n.last()); n.Ready(); auto cs = n.cs; n.st->CreateSnapshot(n.last(), &cs, "d"); n.st->Compact(n.last()); n.Step(raftpb::MsgAppResp, 3, [](raftpb::Message& m) { m.set_reject(true); m.set_index(1); m.set_rejecthint(0); }); n.Ready(); },
                [](Node& n) { n.Step(raftpb::MsgHeartbeatResp, 3); n.Ready(); n.n->ReportSnapshot(3, SnapshotStatus::kFailure); n.n->ReportUnreachable(2); n.Ready(); },
                [](Node& n) { n.n->Tick(); n.Ready(); std::string s; n.n->WithProgress([&](U64 id, ProgressType, ProgressPtr p) { s += Fmt("%d: %d %d ", (int)id, (int)p->Match(), (int)p->Next()); }); n.Say(s); n.Say(n.n->GetStatus().progress.size() == 3 ? "3" : "?"); }}});
  v.push_back({"lost election, restart, errors", three(),
               {[](Node& n) { n.n->Campaign(); n.Ready(); n.Step(raftpb::MsgVoteResp, 2, [](raftpb::Message& m) { m.set_reject(true); }); n.Step(raftpb::MsgVoteResp, 3, [](raftpb::Message& m) { m.set_reject(true); }); n.Ready(); },
                [](Node& n) { n.Say(n.n->Propose("x").Str()); n.Step(raftpb::MsgHup, 1); n.Step(raftpb::MsgAppResp, 9); n.n->ReadIndex("none"); n.Ready(); },
                [](Node& n) { Raft::Config c; c.id = 1; c.election_tick = 3; c.heartbeat_tick = 1; c.storage = n.st; c.max_inflight_msgs = 4; c.max_size_per_msg = 100; c.logger = std::make_shared<RtLogger>(); n.n = RawNode::ReStart(c); n.Ready(); },
                [](Node& n) { Raft::Config c; n.Say(c.Validate().Str()); n.Say(std::get<1>(ConfChangesFromString("v1 x")).Str()); n.Say(RaftStateTypeName(n.n->GetBasicStatus().soft_state.raft_state)); },
                [](Node& n) { n.n->TickQuiesced(); n.Ready(); n.Step(raftpb::MsgHeartbeat, 3, [](raftpb::Message& m) { m.set_term(9); }); n.Ready(); }}});
  return v;
}

std::string RunAll(const Script& s, bool console, bool points) {
  auto n = s.make(console);
  bool first = true;
  for (auto& a : s.acts) {
    if (points && !first) rt::Point();
    first = false;
    a(*n);
  }
  return n->log;
}

}  // namespace

CONC_UNIT(two_nodes, Fmt("every pair of %d scripts (all kinds of calls), each node built and driven by its own thread, schedules with at most %d deviations from running one after the other: race check of every memory access, results compared with the node driven alone", 6, thorough ? 4 : 2)) {
  auto scripts = MakeScripts();
  int k = (int)scripts.size();
  int a = rt::Pick(k), b = a + rt::Pick(k - a);
  bool console = rt::Flip();
  rt::Note("%s || %s", scripts[a].name, scripts[b].name);
  std::string solo[2], got[2];
  int id[2] = {a, b};
  for (int i = 0; i < 2; i++) solo[i] = rt::Solo(id[i], [&] { return RunAll(scripts[id[i]], console, false); });
  std::vector<std::function<void()>> bodies;
  for (int i = 0; i < 2; i++) bodies.push_back([&, i] { got[i] = RunAll(scripts[id[i]], console, true); });
  rt::Run(bodies, rt::Thorough() ? 4 : 2, true);
  rt::State(hx::HashStr(got[0], hx::HashStr(got[1])));
  for (int i = 0; i < 2; i++)
    if (got[i] != solo[i]) {
      size_t p = 0;
      while (p < got[i].size() && p < solo[i].size() && got[i][p] == solo[i][p]) p++;
      size_t q = got[i].rfind('\n', p);
      q = q == std::string::npos ? 0 : q + 1;
      rt::Viol({29}, "interference", "'%s' next to '%s' gives '%s', alone '%s'", scripts[id[i]].name, scripts[id[1 - i]].name, got[i].substr(q, 120).c_str(), solo[i].substr(std::min(q, solo[i].size()), 120).c_str());
    }
}

// ------------------------------------------------------------------ a group, one node per thread

namespace {

struct Channel {
  std::deque<MsgPtr> q;
  int mutex_ = 0;
  void Push(const MsgPtr& m) {
    rt::Lock(&mutex_);
    q.push_back(m);
    rt::Unlock(&mutex_);
  }
  MsgPtr Pop() {
    rt::Lock(&mutex_);
    MsgPtr m;
    if (!q.empty()) {
      m = q.front();
      q.pop_front();
    }
    rt::Unlock(&mutex_);
    return m;
  }
};

}  // namespace

CONC_UNIT(group_threads, Fmt("a group of %s, one node per thread, messages handed over through queues as in the example program; election, proposals, forwarding, membership change, read, snapshot to a lagging member in %d variants; schedules with at most %d deviations from the default order: race check of every memory access, agreement of the applied entries", "two or three", 6, thorough ? 2 : 1)) {
  int variant = rt::Pick(6);
  int nn = variant >= 4 ? 3 : 2;
  std::vector<U64> voters;
  for (int i = 1; i <= nn; i++) voters.push_back(i);
  std::vector<std::unique_ptr<Node>> nodes;
  std::vector<Channel> ch(nn + 1);
  for (int i = 1; i <= nn; i++) nodes.push_back(std::make_unique<Node>(i, voters, [&](Raft::Config& c) { c.pre_vote = variant == 3; }));
  int busy = 0;  // messages in flight or being handled (runtime only)
  int done = 0;
  rt::Note("variant %d", variant);
  std::vector<std::function<void()>> bodies;
  for (int i = 1; i <= nn; i++)
    bodies.push_back([&, i] {
      Node& n = *nodes[i - 1];
      auto flush = [&] {
        n.Ready();
        for (auto& m : n.out)
          if (m->to() >= 1 && m->to() <= (U64)nn) ch[m->to()].Push(m);
        n.out.clear();
      };
      auto pump = [&](int max) {
        for (int k = 0; k < max; k++) {
          auto m = ch[i].Pop();
          if (!m) break;
          n.n->Step(m);
          m.reset();
          flush();
        }
      };
      auto over = [&] {
        rt::Lock(&done);
        bool d = done >= 1;
        rt::Unlock(&done);
        return d;
      };
      auto wait = [&](std::function<bool()> until) {
        int guard = 0;
        while (!until() && ++guard < 60) {
          rt::Wait([&] { return !ch[i].q.empty() || done >= 1; });
          bool last = over();
          pump(100);
          if (last) break;
        }
      };
      if (i == 1) {
        n.n->Campaign();
        flush();
        wait([&] { return n.n->GetBasicStatus().soft_state.raft_state == kLeader && n.n->GetBasicStatus().applied >= 2; });
        switch (variant) {
          case 0: n.n->Propose("a"); n.n->Propose("b"); flush(); break;
          case 1: n.n->ReadIndex("rd"); flush(); break;
          case 2: {
            raftpb::ConfChangeV2 c;
            auto* x = c.add_changes();
            x->set_type(raftpb::ConfChangeAddLearnerNode);
            x->set_node_id(9);
            n.n->ProposeConfChange(ConfChangeI(std::move(c)));
            flush();
            break;
          }
          case 3: n.n->TransferLeader(2); flush(); break;
          case 4: n.n->Propose("a"); flush(); break;
          case 5: {  // node 3 is sent a snapshot
            n.n->Propose("a");
            flush();
            wait([&] { return n.n->GetBasicStatus().applied >= 3; });
            auto cs = n.cs;
            n.st->CreateSnapshot(n.n->GetBasicStatus().applied, &cs, "state");
            n.st->Compact(n.n->GetBasicStatus().applied);
            n.Step(raftpb::MsgAppResp, 3, [](raftpb::Message& m) { m.set_reject(true); m.set_index(0); });
            n.n->ReportUnreachable(3);
            flush();
            n.n->Propose("c");
            flush();
            break;
          }
        }
        U64 want = n.last();
        if (variant == 3) wait([&] { return n.n->GetBasicStatus().soft_state.raft_state != kLeader; });
        else wait([&] { return n.n->GetBasicStatus().applied >= want; });
        rt::Lock(&done);
        done++;
        rt::Unlock(&done);
      } else {
        if (variant == 4 && i == 2) {
          wait([&] { return n.n->GetBasicStatus().soft_state.lead == 1; });
          n.n->Propose("forwarded");
          n.n->ReadIndex("fr");
          flush();
        }
        wait([] { return false; });
      }
    });
  (void)busy;
  rt::Run(bodies, rt::Thorough() ? 2 : 1, true);
  // whatever was applied is the same everywhere
  std::map<int, std::string> applied;
  U64 h = 0;
  for (auto& n : nodes) {
    size_t p = 0;
    h = hx::HashStr(n->log, h);
    while ((p = n->log.find("apply ", p)) != std::string::npos) {
      size_t q = n->log.find('\n', p);
      std::string s = n->log.substr(p, q - p);
      int idx = atoi(s.c_str() + 6);
      if (applied.count(idx) && applied[idx] != s) rt::Viol({29, 4}, "disagreement", "'%s' and '%s' were applied", applied[idx].c_str(), s.c_str());
      applied[idx] = s;
      p = q;
    }
  }
  rt::State(h);
  if (applied.size() < 1) rt::Viol({29, 23}, "stuck", "nothing was applied although no message was lost");
}

// ------------------------------------------------------------------ a Ready is read by another thread

CONC_UNIT(ready_reader, Fmt("one thread keeps stepping the node while another reads everything its last Ready handed out, for every one of 6 scripts and every step of it: race check and comparison with the content at the time, at most %s deviations from running one after the other", thorough ? "3" : "2")) {
  auto scripts = MakeScripts();
  int k = rt::Pick((int)scripts.size());
  auto& s = scripts[k];
  int at = rt::Pick((int)s.acts.size());
  rt::Note("%s, a Ready taken after step %d", s.name, at);
  auto n = s.make(false);
  // the Ready of step `at` is taken before it is processed
  for (int i = 0; i < at; i++) s.acts[i](*n);
  std::shared_ptr<Ready> rd;
  // inputs that produce work of every kind
  switch (k) {
    case 0: case 4:
      if (n->n->GetBasicStatus().soft_state.raft_state == kLeader) { n->n->Propose("zz"); n->n->ReadIndex("rr"); n->Step(raftpb::MsgAppResp, 2, [&](raftpb::Message& m) { m.set_index(n->last() - 1); }); }
      else n->n->Campaign();
      break;
    case 2:
      n->Step(raftpb::MsgApp, 2, [&](raftpb::Message& m) { U64 l = n->last(); m.set_term(n->term() + 1); m.set_index(l); auto [t, st] = n->n->GetRaft()->GetRaftLog()->Term(l); m.set_logterm(t); *m.add_entries() = *Ent(l + 1, m.term(), 3); *m.add_entries() = *Ent(l + 2, m.term(), 4); m.set_commit(l + 1); });
      break;
    default: n->n->Campaign(); break;
  }
  if (!n->n->HasReady()) return;
  rd = n->n->GetReady();
  auto dump = [&](std::shared_ptr<Ready> r) {
    std::string o = Fmt("%d %d %d|", (int)r->hard_state.term(), (int)r->hard_state.vote(), (int)r->hard_state.commit());
    for (auto& e : r->entries) o += e->SerializeAsString() + "|";
    for (auto& e : r->committed_entries) o += e->SerializeAsString() + "|";
    for (auto& m : r->messages) o += m->SerializeAsString() + "|";
    for (auto& x : r->read_states) o += Fmt("%d", (int)x.index) + x.request_ctx;
    if (r->snapshot) o += r->snapshot->SerializeAsString();
    return o;
  };
  std::string before = dump(rd), during;
  std::vector<std::function<void()>> bodies;
  bodies.push_back([&] {
    // input goes on before Advance
    U64 t = n->term();
    bool lead = n->n->GetBasicStatus().soft_state.raft_state == kLeader;
    if (lead) {
      n->n->Propose("more");
      rt::Point();
      n->Step(raftpb::MsgAppResp, 2, [&](raftpb::Message& m) { m.set_index(n->last()); });
      n->Step(raftpb::MsgHeartbeatResp, 3);
      n->n->Tick();
    }
    rt::Point();
    n->Step(raftpb::MsgApp, 2, [&](raftpb::Message& m) { U64 l = n->last(); m.set_term(t + 1); auto [tt, st] = n->n->GetRaft()->GetRaftLog()->Term(l); m.set_index(l); m.set_logterm(tt); *m.add_entries() = *Ent(l + 1, t + 1, 3); });
    rt::Point();
    // and a conflicting leader overwrites the uncommitted tail
    n->Step(raftpb::MsgApp, 3, [&](raftpb::Message& m) { U64 c = n->n->GetBasicStatus().hard_state.commit(); m.set_term(t + 2); auto [tt, st] = n->n->GetRaft()->GetRaftLog()->Term(c); m.set_index(c); m.set_logterm(tt); *m.add_entries() = *Ent(c + 1, t + 2, 5); });
    rt::Point();
    n->n->Campaign();
    n->n->Tick();
  });
  bodies.push_back([&] {
    during = dump(rd);
    rt::Point();
    if (dump(rd) != during) rt::Viol({24}, "ready-changed", "what a Ready handed out changed while the node went on");
  });
  rt::Run(bodies, rt::Thorough() ? 3 : 2, true);
  rt::State(hx::HashStr(before));
  if (during != before || dump(rd) != before) rt::Viol({24}, "ready-changed", "what a Ready handed out changed while the node went on");
}
