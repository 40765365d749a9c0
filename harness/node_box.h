// One real RawNode with a harness-owned storage, for the component checkers.
#pragma once
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "src/rawnode.h"
#include "src/raftpb/confchange.h"
#include "src/storage.h"
#include "units.h"

namespace hx {

using craft::EntryPtr;
using craft::EntryPtrs;
using craft::MsgPtr;
using craft::SnapshotPtr;
using U64 = uint64_t;
using craft::Raft;
using craft::RawNode;

// A straightforward Storage: a vector with an offset.
class BoxStore : public craft::Storage {
 public:
  raftpb::HardState hs;
  raftpb::ConfState cs;
  U64 base = 0, bterm = 0;
  EntryPtrs ents;
  SnapshotPtr snap = std::make_shared<raftpb::Snapshot>();
  bool snap_unavailable = false;

  U64 last() const { return base + ents.size(); }
  U64 term(U64 i) const { return i == base ? bterm : ents[i - base - 1]->term(); }
  std::tuple<raftpb::HardState, raftpb::ConfState, craft::Status> InitialState() const override {
    return {hs, cs, craft::Status::OK()};
  }
  std::tuple<EntryPtrs, craft::Status> Entries(U64 lo, U64 hi, U64 max) override {
    if (lo <= base) return {EntryPtrs{}, craft::Status::Error(craft::kErrCompacted)};
    if (hi > last() + 1) Panic("storage asked for entries up to %llu, last is %llu", (unsigned long long)hi, (unsigned long long)last());
    EntryPtrs out;
    U64 sum = 0;
    for (U64 i = lo; i < hi; i++) {
      auto& e = ents[i - base - 1];
      sum += e->ByteSizeLong();
      if (!out.empty() && sum > max) break;
      out.push_back(e);
    }
    return {out, craft::Status::OK()};
  }
  std::tuple<U64, craft::Status> Term(U64 i) override {
    if (i < base) return {0, craft::Status::Error(craft::kErrCompacted)};
    if (i > last()) return {0, craft::Status::Error(craft::kErrUnavailable)};
    return {term(i), craft::Status::OK()};
  }
  std::tuple<U64, craft::Status> LastIndex() override { return {last(), craft::Status::OK()}; }
  std::tuple<U64, craft::Status> FirstIndex() override { return {base + 1, craft::Status::OK()}; }
  std::tuple<SnapshotPtr, craft::Status> SnapShot() override {
    if (snap_unavailable) return {nullptr, craft::Status::Error(craft::kErrSnapshotTemporarilyUnavailable)};
    return {snap, craft::Status::OK()};
  }
  // the application's side
  void Append(const EntryPtrs& es) {
    for (auto& e : es) {
      if (e->index() <= base) continue;
      if (e->index() > last() + 1) Panic("gap: saving entry %llu after %llu", (unsigned long long)e->index(), (unsigned long long)last());
      ents.resize(e->index() - base - 1);
      ents.push_back(std::make_shared<raftpb::Entry>(*e));
    }
  }
  void Install(const SnapshotPtr& s) {
    snap = std::make_shared<raftpb::Snapshot>(*s);
    base = s->metadata().index();
    bterm = s->metadata().term();
    ents.clear();
    cs = s->metadata().conf_state();
  }
  // Makes a snapshot at i and drops the entries up to keep_after.
  void Compact(U64 i, U64 upto, const raftpb::ConfState& conf) {
    snap = std::make_shared<raftpb::Snapshot>();
    snap->mutable_metadata()->set_index(i);
    snap->mutable_metadata()->set_term(term(i));
    *snap->mutable_metadata()->mutable_conf_state() = conf;
    snap->set_data("snap" + std::to_string(i));
    if (upto <= base) return;
    U64 t = term(upto);
    ents.erase(ents.begin(), ents.begin() + (upto - base));
    base = upto;
    bterm = t;
  }
};

inline EntryPtr MkEnt(U64 index, U64 term, const std::string& data = "x") {
  auto e = std::make_shared<raftpb::Entry>();
  e->set_index(index);
  e->set_term(term);
  e->set_data(data);
  return e;
}
inline MsgPtr MkMsg(raftpb::MessageType t, U64 from, U64 to, U64 term) {
  auto m = std::make_shared<raftpb::Message>();
  m->set_type(t);
  m->set_from(from);
  m->set_to(to);
  m->set_term(term);
  return m;
}
inline raftpb::ConfState Conf(std::vector<U64> voters, std::vector<U64> learners = {}, std::vector<U64> outgoing = {}, std::vector<U64> next = {}, bool leave = false) {
  raftpb::ConfState c;
  for (U64 v : voters) c.add_voters(v);
  for (U64 v : learners) c.add_learners(v);
  for (U64 v : outgoing) c.add_voters_outgoing(v);
  for (U64 v : next) c.add_learners_next(v);
  c.set_auto_leave(leave);
  return c;
}

inline U64 HashWords(const void* p, size_t n, U64 h, long skip = -1) {
  const char* q = static_cast<const char*>(p);
  for (size_t k = 0; k + 8 <= n; k += 8) {
    if ((long)k == skip) continue;
    U64 x;
    memcpy(&x, q + k, 8);
    if ((x >> 44) == 5 || (x >> 44) == 7) x = 0xA;  // an address
    h = Mix(h, x);
  }
  return h;
}

struct Box {
  std::shared_ptr<BoxStore> st = std::make_shared<BoxStore>();
  craft::Raft::Config cfg;
  std::unique_ptr<craft::RawNode> n;
  std::vector<MsgPtr> out;         // sent, in order
  EntryPtrs applied;               // delivered for application, in order
  std::vector<craft::ReadState> reads;
  craft::Status answer, answer2;   // an application may keep assigning to the same variables
  bool apply_confs = true;
  bool must_sync = false;          // some Ready asked for a synchronous write since cleared
  U64 applied_to = 0;

  explicit Box(U64 id, int T = 3, int HB = 1) {
    cfg.id = id;
    cfg.election_tick = T;
    cfg.heartbeat_tick = HB;
    cfg.storage = st;
    cfg.max_size_per_msg = 1 << 20;
    cfg.max_inflight_msgs = 16;
    cfg.logger = QuietLogger();
  }
  // log entries with these terms, starting right after the storage's base
  void Log(const std::vector<U64>& terms, const char* tag = "e") {
    for (U64 t : terms) st->ents.push_back(MkEnt(st->last() + 1, t, Fmt("%s%llu.%llu", tag, (unsigned long long)st->last() + 1, (unsigned long long)t)));
  }
  void Hard(U64 term, U64 vote, U64 commit) {
    st->hs.set_term(term);
    st->hs.set_vote(vote);
    st->hs.set_commit(commit);
  }
  void Start() {
    n = craft::RawNode::New(cfg);
    applied_to = std::max(st->base, cfg.applied);
  }
  craft::Raft* r() { return n->GetRaft(); }
  // Handles one Ready completely; false if there was none.
  bool One() {
    if (!n->HasReady()) return false;
    auto rd = n->GetReady();
    if (!craft::IsEmptySnap(rd->snapshot)) {
      st->Install(rd->snapshot);
      applied_to = rd->snapshot->metadata().index();
    }
    st->Append(rd->entries);
    if (!craft::IsEmptyHardState(rd->hard_state)) st->hs = rd->hard_state;
    must_sync |= rd->must_sync;
    for (auto& m : rd->messages) out.push_back(std::make_shared<raftpb::Message>(*m));
    for (auto& s : rd->read_states) reads.push_back(s);
    for (auto& e : rd->committed_entries) {
      applied.push_back(std::make_shared<raftpb::Entry>(*e));
      applied_to = e->index();
      if (!apply_confs) continue;
      if (e->type() == raftpb::EntryType::EntryConfChange) {
        raftpb::ConfChange cc;
        cc.ParseFromString(e->data());
        st->cs = n->ApplyConfChange(craft::ConfChangeI(std::move(cc)));
      } else if (e->type() == raftpb::EntryType::EntryConfChangeV2) {
        raftpb::ConfChangeV2 cc;
        cc.ParseFromString(e->data());
        st->cs = n->ApplyConfChange(craft::ConfChangeI(std::move(cc)));
      }
    }
    n->Advance();
    return true;
  }
  void Drain(int max = 200) {
    while (One())
      if (--max == 0) Panic("the node keeps producing Readys without input");
  }
  std::vector<MsgPtr> Take() {
    Drain();
    auto o = out;
    out.clear();
    return o;
  }
  craft::Status Step(MsgPtr m) { return n->Step(std::make_shared<raftpb::Message>(*m)); }
  // Everything the node holds, private members included: states may only be
  // merged when the future is the same.
  // With timers false the election clock is left out (for checkers whose
  // inputs never let it run out).
  U64 Deep(U64 h, bool timers = true) {
    Raft* r = n->GetRaft();
    auto* l = r->GetRaftLog();
    h = HashWords(n.get(), sizeof(RawNode), h);
    h = HashWords(r, sizeof(Raft), h, timers ? -1 : ClockOffset());
    h = HashWords(l, sizeof(craft::RaftLog), h);
    auto& trk = r->GetTracker();
    for (auto& p : trk.GetProgressMap()) {
      h = HashWords(p.second.get(), sizeof(craft::Progress), Mix(h, p.first));
      auto* in = p.second->GetInflights();
      h = Mix(h, in->Count());
      auto& buf = in->Buffer();
      for (int64_t k = 0; k < in->Count(); k++) {
        size_t at = (in->Start() + k) % std::max<int64_t>(in->Size(), 1);
        if (at < buf.size()) h = Mix(h, buf[at]);
      }
    }
    auto set = [&](const std::set<uint64_t>& s) {
      h = Mix(h, 500);
      for (auto v : s) h = Mix(h, v);
    };
    auto& cfg = trk.GetConfig();
    set(cfg.voters.Incoming().IDs());
    set(cfg.voters.Outgoing().IDs());
    set(cfg.learners);
    set(cfg.learners_next);
    h = Mix(h, cfg.auto_leave);
    for (auto& v : trk.Votes()) h = Mix(h, v.first * 2 + v.second);
    auto* ro = r->GetReadOnly();
    for (auto& p : ro->GetPendingReadIndex()) {
      h = HashStr(p.first, Mix(h, p.second->index));
      for (auto& a : p.second->acks) h = Mix(h, a.first * 2 + a.second);
    }
    for (auto& c : ro->GetReadIndexQueue()) h = HashStr(c, h);
    for (auto& c : r->GetReadStates()) h = HashStr(c.request_ctx, Mix(h, c.index));
    for (auto& m : r->Msgs()) h = HashStr(m->SerializeAsString(), h);
    auto ent = [&](const EntryPtr& e) { h = HashStr(e->data(), Mix(Mix(Mix(h, e->index()), e->term()), e->type())); };
    auto& u = l->GetUnstable();
    h = Mix(h, u.Offset());
    for (auto& e : u.Entries()) ent(e);
    if (u.Snapshot()) h = Mix(h, u.Snapshot()->metadata().index() * 64 + u.Snapshot()->metadata().term());
    for (auto& e : st->ents) ent(e);
    h = Mix(Mix(h, st->base), st->snap->metadata().index());
    h = Mix(h, st->snap_unavailable);
    return h;
  }
  // Where a Raft keeps its election clock: the word a follower's tick changes.
  static long ClockOffset() {
    static long at = [] {
      Box b(1, 50, 25);
      b.st->cs = Conf({1, 2, 3});
      b.Start();
      std::string a((char*)b.r(), sizeof(Raft));
      b.n->Tick();
      std::string z((char*)b.r(), sizeof(Raft));
      long off = -1;
      int diff = 0;
      for (size_t k = 0; k + 8 <= a.size(); k += 8)
        if (a.compare(k, 8, z, k, 8) != 0) { off = (long)k; diff++; }
      return diff == 1 ? off : -1l;
    }();
    return at;
  }
  U64 term() { return n->GetBasicStatus().hard_state.term(); }
  U64 vote() { return n->GetBasicStatus().hard_state.vote(); }
  U64 commit() { return n->GetBasicStatus().hard_state.commit(); }
  U64 lead() { return n->GetBasicStatus().soft_state.lead; }
  craft::RaftStateType role() { return n->GetBasicStatus().soft_state.raft_state; }
  U64 last() { return r()->GetRaftLog()->LastIndex(); }
  // terms of the whole log as the node sees it, from base+1
  std::vector<U64> Terms() {
    std::vector<U64> v;
    for (U64 i = st->base + 1; i <= last(); i++) {
      auto [t, s] = r()->GetRaftLog()->Term(i);
      v.push_back(s.IsOK() ? t : 0);
    }
    return v;
  }
};

inline std::string Show(const std::vector<U64>& v) {
  std::string s = "[";
  for (auto x : v) s += (s.size() > 1 ? " " : "") + std::to_string(x);
  return s + "]";
}
inline std::string Show(const MsgPtr& m) {
  return Fmt("%s %d->%d term %d index %d logterm %d commit %d entries %d%s%s%s", raftpb::MessageType_Name(m->type()).c_str(), (int)m->from(), (int)m->to(), (int)m->term(),
             (int)m->index(), (int)m->logterm(), (int)m->commit(), m->entries_size(), m->reject() ? Fmt(" reject hint %d", (int)m->rejecthint()).c_str() : "", m->context().empty() ? "" : " ctx ", m->context().c_str());
}

}  // namespace hx
