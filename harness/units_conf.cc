// C09, C27: configuration-change algebra, ConfState round trips, encodings.
#include <algorithm>
#include <set>

#include "src/confchange/confchange.h"
#include "src/confchange/restore.h"
#include "src/raftpb/confchange.h"
#include "src/raftpb/confstate.h"
#include "src/tracker/tracker.h"
#include "units.h"

using namespace craft;
using namespace hx;
using raftpb::ConfChangeSingle;

namespace {

using S = std::set<uint64_t>;
constexpr uint64_t kLast = 17;
constexpr int kInf = 4;

struct RefPr { uint64_t match = 0, next = 0; int state = 0; bool active = false, fresh = false; int inflight = 0; bool probe = false; };
struct RefCfg {
  S in, out, learn, next;
  bool autol = false;
  std::map<uint64_t, RefPr> pr;  // exactly in + out + learn
  bool joint() const { return !out.empty(); }
};
std::string Str(const S& s) {
  std::string r = "{";
  for (uint64_t x : s) r += (r.size() > 1 ? " " : "") + std::to_string(x);
  return r + "}";
}
std::string Str(const RefCfg& r) {
  return Str(r.in) + "&&" + Str(r.out) + " learners " + Str(r.learn) + " next " + Str(r.next) + (r.autol ? " auto" : "");
}
std::string Str(const std::vector<ConfChangeSingle>& v) {
  std::string r;
  for (auto& c : v) r += (r.empty() ? "" : " ") + std::string(1, "vrul"[c.type()]) + std::to_string(c.node_id());
  return "[" + r + "]";
}
ConfChangeSingle Single(int type, uint64_t id) {
  ConfChangeSingle s;
  s.set_type(static_cast<raftpb::ConfChangeType>(type));
  s.set_node_id(id);
  return s;
}

// ---- the specification
bool RefApply(RefCfg& r, const std::vector<ConfChangeSingle>& ccs) {
  for (auto& c : ccs) {
    uint64_t id = c.node_id();
    if (id == 0) continue;
    bool tracked = r.in.count(id) || r.out.count(id) || r.learn.count(id);
    if (c.type() == raftpb::ConfChangeAddNode) {
      r.learn.erase(id);
      r.next.erase(id);
      r.in.insert(id);
      if (!tracked) { r.pr[id] = RefPr(); r.pr[id].fresh = true; }
    } else if (c.type() == raftpb::ConfChangeAddLearnerNode) {
      if (r.learn.count(id)) continue;
      r.in.erase(id);
      r.next.erase(id);
      if (r.out.count(id)) r.next.insert(id);
      else r.learn.insert(id);
      if (!tracked) { r.pr[id] = RefPr(); r.pr[id].fresh = true; }
    } else if (c.type() == raftpb::ConfChangeRemoveNode) {
      r.in.erase(id);
      r.learn.erase(id);
      r.next.erase(id);
      if (!r.out.count(id)) r.pr.erase(id);
    }
  }
  return !r.in.empty();
}
bool RefSimple(RefCfg& r, const std::vector<ConfChangeSingle>& ccs) {
  if (r.joint()) return false;
  S before = r.in;
  if (!RefApply(r, ccs)) return false;
  int n = 0;
  for (uint64_t x : before) n += !r.in.count(x);
  for (uint64_t x : r.in) n += !before.count(x);
  return n <= 1;
}
bool RefEnter(RefCfg& r, bool autol, const std::vector<ConfChangeSingle>& ccs) {
  if (r.joint() || r.in.empty()) return false;
  r.out = r.in;
  if (!RefApply(r, ccs)) return false;
  r.autol = autol;
  return true;
}
bool RefLeave(RefCfg& r) {
  if (!r.joint()) return false;
  for (uint64_t x : r.next) r.learn.insert(x);
  r.next.clear();
  for (uint64_t x : r.out)
    if (!r.in.count(x) && !r.learn.count(x)) r.pr.erase(x);
  r.out.clear();
  r.autol = false;
  return true;
}

// ---- binding to library objects
ProgressTracker Build(const RefCfg& r) {
  ProgressTracker t(kInf);
  ProgressTracker::Config cfg;
  cfg.voters = JointConfig(r.in, r.out);
  cfg.learners = r.learn;
  cfg.learners_next = r.next;
  cfg.auto_leave = r.autol;
  ProgressMap pm;
  for (auto& p : r.pr) {
    auto pr = std::make_shared<Progress>(QuietLogger(), p.second.next, p.second.match, kInf, r.learn.count(p.first) != 0, p.second.active);
    pr->SetState(static_cast<StateType>(p.second.state));
    pr->SetProbeSent(p.second.probe);
    for (int k = 0; k < p.second.inflight; k++) pr->GetInflights()->Add(p.second.match + 1 + k);
    pm[p.first] = pr;
  }
  t.SetConfig(cfg);
  t.SetProgressMap(pm);
  return t;
}
void CheckCfg(Ch& c, const char* what, const RefCfg& r, const ProgressTracker::Config& cfg, const ProgressMap& pm, const std::string& ctx) {
  if (cfg.voters.Incoming().IDs() != r.in || cfg.voters.Outgoing().IDs() != r.out || cfg.learners != r.learn || cfg.learners_next != r.next || cfg.auto_leave != r.autol)
    c.fail("config-algebra", "%s: %s gives %s, specification says %s", ctx.c_str(), what, cfg.String().c_str(), Str(r).c_str());
  S have, want;
  for (auto& p : pm) have.insert(p.first);
  for (auto& p : r.pr) want.insert(p.first);
  if (have != want) c.fail("config-progress", "%s: %s tracks progress of %s, members are %s", ctx.c_str(), what, Str(have).c_str(), Str(want).c_str());
  for (auto& p : r.pr) {
    auto& q = *pm.at(p.first);
    bool l = r.learn.count(p.first) != 0;
    if (q.IsLearner() != l) c.fail("config-progress", "%s: %s marks %d as learner=%d, it is %d", ctx.c_str(), what, (int)p.first, q.IsLearner(), l);
    if (p.second.fresh) {
      if (q.Match() != 0 || q.Next() < 1 || q.Next() > kLast + 1 || q.GetInflights()->Count() != 0 || q.PendingSnapshot() != 0)
        c.fail("config-progress", "%s: %s starts new member %d with %s", ctx.c_str(), what, (int)p.first, q.String().c_str());
      if (!q.RecentActive()) c.fail("config-progress", "%s: %s starts new member %d as inactive", ctx.c_str(), what, (int)p.first);
    } else if (q.Match() != p.second.match || q.Next() != p.second.next || (int)q.State() != p.second.state || q.RecentActive() != p.second.active ||
               q.GetInflights()->Count() != p.second.inflight || q.ProbeSent() != p.second.probe) {
      c.fail("config-progress", "%s: %s changed the progress of %d to %s", ctx.c_str(), what, (int)p.first, q.String().c_str());
    }
  }
}

// roles: 0 none, 1 incoming, 2 outgoing, 3 both, 4 learner, 5 outgoing + staged learner
RefCfg Roles(Ch& c, int ids, bool joint, uint64_t* h) {
  RefCfg r;
  static const int kPlain[] = {0, 1, 4};
  *h = joint;
  for (int id = 1; id <= ids; id++) {
    int role = joint ? c.pick(6) : kPlain[c.pick(3)];
    *h = *h * 7 + role;
    if (role == 1 || role == 3) r.in.insert(id);
    if (role == 2 || role == 3 || role == 5) r.out.insert(id);
    if (role == 4) r.learn.insert(id);
    if (role == 5) r.next.insert(id);
    if (role) {
      RefPr p;
      p.match = id * 3;
      p.next = id * 3 + 2;
      p.state = id % 2;
      p.active = id % 3 == 1;
      p.inflight = id % 2;
      p.probe = id == 4;
      r.pr[id] = p;
    }
  }
  return r;
}

void RunOps(Ch& c, const RefCfg& r0, int op, bool autol, const std::vector<ConfChangeSingle>& ccs) {
  ProgressTracker t = Build(r0);
  Changer ch(QuietLogger(), t, kLast);
  RefCfg r = r0;
  bool want;
  ProgressTracker::Config cfg;
  ProgressMap pm;
  Status s;
  std::string what;
  if (op == 0) {
    want = RefSimple(r, ccs);
    std::tie(cfg, pm, s) = ch.Simple(ccs);
    what = "simple change " + Str(ccs);
  } else if (op == 1) {
    want = RefEnter(r, autol, ccs);
    std::tie(cfg, pm, s) = ch.EnterJoint(autol, ccs);
    what = std::string("entering joint ") + (autol ? "auto " : "") + Str(ccs);
  } else {
    want = RefLeave(r);
    std::tie(cfg, pm, s) = ch.LeaveJoint();
    what = "leaving joint";
  }
  c.step();
  std::string ctx = "from " + Str(r0);
  if (s.IsOK() != want)
    c.fail("config-legality", "%s: %s is %s by the library, the specification %s it (%s)", ctx.c_str(), what.c_str(), s.IsOK() ? "accepted" : "refused", want ? "accepts" : "refuses", s.Str());
  if (want) CheckCfg(c, what.c_str(), r, cfg, pm, ctx);
  // the inputs are untouched
  CheckCfg(c, ("the input of " + what).c_str(), r0, t.GetConfig(), t.GetProgressMap(), ctx);
  CheckCfg(c, ("the changer's own tracker after " + what).c_str(), r0, ch.GetProgressTracker().GetConfig(), ch.GetProgressTracker().GetProgressMap(), ctx);
}

}  // namespace

UNIT(conf_simple_joint, Fmt("every non-joint configuration over %d ids (incl. empty) x every list of up to 3 changes (voter, learner, remove, update; ids 0..%d) as a simple change, entering joint (auto and explicit), and leaving", thorough ? 4 : 3, thorough ? 4 : 3)) {
  uint64_t h;
  int ids = c.thorough ? 4 : 3;
  RefCfg r = Roles(c, ids, false, &h);
  c.state(h);
  c.note("from %s", Str(r).c_str());
  int n = c.pick(4);
  std::vector<ConfChangeSingle> ccs;
  for (int k = 0; k < n; k++) {
    int t = c.pick(4), id = c.pick(ids + 1);
    ccs.push_back(Single(t, id));
  }
  c.note("changes %s", Str(ccs).c_str());
  RunOps(c, r, 0, false, ccs);
  RunOps(c, r, 1, false, ccs);
  RunOps(c, r, 1, true, ccs);
  if (n == 0) RunOps(c, r, 2, false, ccs);
}
UNIT(conf_two4, "every non-joint configuration over 4 ids x every list of up to 2 changes (ids 0..4)") {
  uint64_t h;
  RefCfg r = Roles(c, 4, false, &h);
  c.state(h);
  c.note("from %s", Str(r).c_str());
  int n = 1 + c.pick(2);
  std::vector<ConfChangeSingle> ccs;
  for (int k = 0; k < n; k++) { int t = c.pick(4), id = c.pick(5); ccs.push_back(Single(t, id)); }
  c.note("changes %s", Str(ccs).c_str());
  RunOps(c, r, 0, false, ccs);
  RunOps(c, r, 1, true, ccs);
}
UNIT(conf_joint, "every legal joint configuration over 4 ids (auto-leave and explicit): leaving it, and the refusal of every simple or joint change of up to 1 change") {
  uint64_t h;
  RefCfg r = Roles(c, 4, true, &h);
  if (r.out.empty() || r.in.empty()) { c.note("not joint"); return; }
  r.autol = c.flip();
  c.state(h * 2 + r.autol);
  c.note("from %s", Str(r).c_str());
  RunOps(c, r, 2, false, {});
  RunOps(c, r, 0, false, {});
  RunOps(c, r, 1, true, {});
  for (int t = 0; t < 4; t++)
    for (int id = 0; id <= 4; id++) {
      RunOps(c, r, 0, false, {Single(t, id)});
      RunOps(c, r, 1, id & 1, {Single(t, id)});
    }
}
// chains: enter, leave, simple, over real results (not rebuilt from the reference)
UNIT(conf_chain, Fmt("every chain of up to %d operations from {1} or {1,2,3} over ids 1..3 (simple with 1 change, entering joint with up to 2 as the first operation and 1 later, leaving), each on the configuration the library produced before", thorough ? 4 : 3)) {
  RefCfg r;
  int start = c.pick(2);
  r.in = start ? S{1, 2, 3} : S{1};
  for (uint64_t id : r.in) { r.pr[id] = RefPr(); r.pr[id].match = id; r.pr[id].next = id + 1; }
  ProgressTracker t = Build(r);
  int n = c.thorough ? 4 : 3;
  for (int k = 0; k < n; k++) {
    int op = c.pick(4);
    std::vector<ConfChangeSingle> ccs;
    if (op != 2) {
      int m = op == 0 || k ? 1 : 1 + c.pick(2);
      for (int j = 0; j < m; j++) {
        static const int types[] = {0, 1, 3};
        int ty = types[c.pick(3)], id = 1 + c.pick(3);
        ccs.push_back(Single(ty, id));
      }
    }
    Changer ch(QuietLogger(), t, kLast);
    RefCfg r2 = r;
    bool want;
    ProgressTracker::Config cfg;
    ProgressMap pm;
    Status s;
    if (op == 0) { want = RefSimple(r2, ccs); std::tie(cfg, pm, s) = ch.Simple(ccs); }
    else if (op == 2) { want = RefLeave(r2); std::tie(cfg, pm, s) = ch.LeaveJoint(); }
    else { want = RefEnter(r2, op == 3, ccs); std::tie(cfg, pm, s) = ch.EnterJoint(op == 3, ccs); }
    c.step();
    c.note("op %d %s -> %s", op, Str(ccs).c_str(), s.Str());
    if (s.IsOK() != want) c.fail("config-legality", "from %s: op %d %s: library %s, specification %s", Str(r).c_str(), op, Str(ccs).c_str(), s.Str(), want ? "accepts" : "refuses");
    if (!want) continue;
    CheckCfg(c, Fmt("op %d %s", op, Str(ccs).c_str()).c_str(), r2, cfg, pm, "from " + Str(r));
    r = r2;
    t.SetConfig(cfg);
    t.SetProgressMap(pm);
    uint64_t h = 5;
    for (uint64_t id = 1; id <= 3; id++) h = h * 64 + r.in.count(id) + 2 * r.out.count(id) + 4 * r.learn.count(id) + 8 * r.next.count(id) + 16 * r.autol;
    c.state(h);
  }
}

UNIT(conf_restore, "every legal ConfState over 4 ids (plain and joint, auto-leave or not), members listed in ascending, descending and rotated order: restored configuration, tracked members, and the ConfState produced again") {
  uint64_t h;
  bool joint = c.flip();
  RefCfg r = Roles(c, 4, joint, &h);
  if (r.in.empty() || (joint && r.out.empty())) { c.note("not legal"); return; }
  if (joint) r.autol = c.flip();
  int order = c.pick(3);
  c.state(h * 2 + r.autol);
  raftpb::ConfState cs;
  auto fill = [&](const S& s, auto add) {
    std::vector<uint64_t> v(s.begin(), s.end());
    if (order == 1) std::reverse(v.begin(), v.end());
    if (order == 2 && v.size() > 1) std::rotate(v.begin(), v.begin() + 1, v.end());
    for (uint64_t x : v) add(x);
  };
  fill(r.in, [&](uint64_t x) { cs.add_voters(x); });
  fill(r.out, [&](uint64_t x) { cs.add_voters_outgoing(x); });
  fill(r.learn, [&](uint64_t x) { cs.add_learners(x); });
  fill(r.next, [&](uint64_t x) { cs.add_learners_next(x); });
  cs.set_auto_leave(r.autol);
  raftpb::ConfState before = cs;
  for (auto& p : r.pr) p.second.fresh = true;
  Changer ch(QuietLogger(), ProgressTracker(kInf), kLast);
  auto [cfg, pm, s] = Restore(ch, cs);
  c.step();
  c.note("restore %s", Str(r).c_str());
  if (!s.IsOK()) c.fail("restore-refused", "restoring legal ConfState %s fails: %s", Str(r).c_str(), s.Str());
  CheckCfg(c, "restoring", r, cfg, pm, Str(r));
  ProgressTracker t(kInf);
  t.SetConfig(cfg);
  t.SetProgressMap(pm);
  auto cs2 = t.ConfState();
  if (!(cs2 == cs)) c.fail("restore-roundtrip", "ConfState %s becomes %s", Str(r).c_str(), cs2.ShortDebugString().c_str());
  if (before.SerializeAsString() != cs.SerializeAsString()) c.fail("restore-roundtrip", "restoring or comparing changed the ConfState given");
}

UNIT(conf_state_eq, "every pair of ConfStates with each of the four lists in {empty, 1, 2, 12, 21} (three at a time) and both auto-leave values") {
  static const std::vector<std::vector<uint64_t>> L = {{}, {1}, {2}, {1, 2}, {2, 1}};
  auto make = [&](int* key) {
    raftpb::ConfState cs;
    int which = 0;
    int a = c.pick(5), b = c.pick(5), f = c.pick(3);
    for (uint64_t x : L[a]) cs.add_voters(x);
    for (uint64_t x : L[b]) {
      if (f == 0) cs.add_learners(x);
      if (f == 1) cs.add_voters_outgoing(x);
      if (f == 2) cs.add_learners_next(x);
    }
    bool al = c.flip();
    cs.set_auto_leave(al);
    auto norm = [](int i) { return i == 4 ? 3 : i; };
    which = norm(a) * 100 + norm(b) * 10 + (norm(b) ? f : 0) + (al ? 1000 : 0);
    *key = which;
    return cs;
  };
  int ka, kb;
  auto a = make(&ka), b = make(&kb);
  c.step();
  c.state(ka * 2003 + kb);
  c.note("%s == %s", a.ShortDebugString().c_str(), b.ShortDebugString().c_str());
  if ((a == b) != (ka == kb)) c.fail("conf-state-equal", "comparison of {%s} and {%s} says %d", a.ShortDebugString().c_str(), b.ShortDebugString().c_str(), a == b);
}

// ------------------------------------------------------------------ C27
UNIT(conf_text_roundtrip, "every list of up to 3 changes of 4 kinds over ids {0,1,9,10,2^32,2^64-1}") {
  static const uint64_t kIds[] = {0, 1, 9, 10, 1ull << 32, ~0ull};
  int n = c.pick(4);
  std::vector<ConfChangeSingle> v;
  std::string want;
  for (int k = 0; k < n; k++) {
    int t = c.pick(4);
    uint64_t id = kIds[c.pick(6)];
    v.push_back(Single(t, id));
    want += (k ? " " : "") + std::string(1, "vrul"[t]) + std::to_string(id);
  }
  std::string text = ConfChangesToString(v);
  c.step();
  c.state(HashStr(text));
  c.note("'%s'", text.c_str());
  if (text != want) c.fail("conf-text", "changes %s print as '%s'", want.c_str(), text.c_str());
  auto [back, s] = ConfChangesFromString(text);
  if (!s.IsOK()) c.fail("conf-text", "'%s' is refused: %s", text.c_str(), s.Str());
  if (back.size() != v.size()) c.fail("conf-text", "'%s' parses to %zu changes", text.c_str(), back.size());
  for (int k = 0; k < n; k++)
    if (back[k].type() != v[k].type() || back[k].node_id() != v[k].node_id()) c.fail("conf-text", "'%s': change %d parses as %s", text.c_str(), k, back[k].ShortDebugString().c_str());
}
namespace {
// 1 accepted with *out, 0 refused, -1 not specified (e.g. double spaces, leading zeros)
int RefParse(const std::string& s, std::vector<std::pair<char, uint64_t>>* out) {
  size_t a = s.find_first_not_of(' '), b = s.find_last_not_of(' ');
  if (a == std::string::npos) return 1;
  bool loose = false;
  std::string t = s.substr(a, b - a + 1);
  size_t p = 0;
  while (p <= t.size()) {
    size_t q = t.find(' ', p);
    if (q == std::string::npos) q = t.size();
    std::string tok = t.substr(p, q - p);
    p = q + 1;
    if (tok.empty()) { loose = true; continue; }
    if (tok.size() < 2) return 0;
    if (std::string("vlru").find(tok[0]) == std::string::npos) return 0;
    unsigned __int128 v = 0;
    for (size_t k = 1; k < tok.size(); k++) {
      if (tok[k] < '0' || tok[k] > '9') return 0;
      v = v * 10 + (tok[k] - '0');
      if (v > ~0ull) return 0;
    }
    if (tok.size() > 2 && tok[1] == '0') loose = true;
    out->push_back({tok[0], (uint64_t)v});
  }
  return loose ? -1 : 1;
}
void CheckParse(Ch& c, const std::string& s) {
  std::vector<std::pair<char, uint64_t>> want;
  int r = RefParse(s, &want);
  auto [got, st] = ConfChangesFromString(s);
  c.step();
  if (r == 0 && st.IsOK()) {
    c.fail("conf-text-malformed", "malformed text '%s' is accepted as '%s'", s.c_str(), ConfChangesToString(got).c_str());
  }
  if (r == 1 && !st.IsOK()) c.fail("conf-text", "well-formed text '%s' is refused: %s", s.c_str(), st.Str());
  if (st.IsOK()) {
    bool same = got.size() == want.size();
    for (size_t k = 0; same && k < got.size(); k++) same = "vrul"[got[k].type()] == want[k].first && got[k].node_id() == want[k].second;
    if (!same) c.fail("conf-text", "text '%s' parses as '%s'", s.c_str(), ConfChangesToString(got).c_str());
  } else if (!got.empty()) {
    c.fail("conf-text", "refused text '%s' still returns changes", s.c_str());
  }
}
}  // namespace
UNIT(conf_text_all, Fmt("every string of length up to %d over the alphabet \"vlrux 0159-+.\" against a reference parser", thorough ? 6 : 5)) {
  static const char* A = "vlrux 0159-+.";
  int max = c.thorough ? 6 : 5;
  int len = c.pick(max + 1);
  std::string s;
  for (int k = 0; k < len - 1; k++) s += A[c.pick(13)];
  c.state(HashStr(s) + len);
  if (len == 0) { CheckParse(c, s); return; }
  for (int k = 0; k < 13; k++) CheckParse(c, s + A[k]);
  c.note("all 13 extensions of '%s'", s.c_str());
}
UNIT(conf_text_numbers, "numbers around 2^32, 2^63, 2^64 and up to 25 digits, in every position of one- and two-token texts, with 6 prefixes and 7 suffixes") {
  static const char* N[] = {"1", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616",
                            "18446744073709551617", "99999999999999999999", "36893488147419103233", "1000000000000000000000", "184467440737095516150", "1844674407370955161500001"};
  static const char* P[] = {"v", "l", "r", "u", "v1 r", "l2 u"};
  static const char* Q[] = {"", " ", "x", " v1", "-", ".0", " r2 l3"};
  int p = c.pick(6), q = c.pick(7);
  for (auto n : N) CheckParse(c, std::string(P[p]) + n + Q[q]);
  c.state(p * 7 + q);
  c.note("%sN%s", P[p], Q[q]);
}
UNIT(conf_encode, "both wire formats: every kind x ids {0,1,300,2^64-1} x contexts, and every transition x up to 2 changes x contexts; decoding, V1/V2 equivalence, joint-mode decisions") {
  static const uint64_t kIds[] = {0, 1, 300, ~0ull};
  static const std::string kCtx[] = {"", "c", std::string("\0\x80z", 3)};
  if (c.flip()) {
    raftpb::ConfChange cc;
    int t = c.pick(4);
    cc.set_type(static_cast<raftpb::ConfChangeType>(t));
    cc.set_node_id(kIds[c.pick(4)]);
    cc.set_context(kCtx[c.pick(3)]);
    cc.set_id(c.pick(2) * 7);
    ConfChangeI ci(cc);
    auto [type, data, ok] = ci.Marshal();
    c.step();
    c.state(HashStr(data));
    c.note("v1 %s", cc.ShortDebugString().c_str());
    raftpb::ConfChange back;
    if (!ok || type != raftpb::EntryConfChange || !back.ParseFromString(data)) c.fail("conf-encode", "v1 change %s does not decode", cc.ShortDebugString().c_str());
    if (back.type() != cc.type() || back.node_id() != cc.node_id() || back.context() != cc.context()) c.fail("conf-encode", "v1 change %s decodes as %s", cc.ShortDebugString().c_str(), back.ShortDebugString().c_str());
    auto v2 = ConfChangeI(back).AsV2();
    if (v2.changes_size() != 1 || v2.changes(0).type() != cc.type() || v2.changes(0).node_id() != cc.node_id() || v2.context() != cc.context() || v2.transition() != raftpb::ConfChangeTransitionAuto)
      c.fail("conf-encode", "v1 change %s as v2 is %s", cc.ShortDebugString().c_str(), v2.ShortDebugString().c_str());
    auto [al, joint] = EnterJoint(QuietLogger(), v2);
    if (al || joint) c.fail("conf-encode", "a v1 change asks for joint consensus");
    auto [v1, isv1] = ci.AsV1();
    if (!isv1 || v1.SerializeAsString() != cc.SerializeAsString()) c.fail("conf-encode", "AsV1 of a v1 change differs");
    if (ci.IsNull()) c.fail("conf-encode", "a v1 change is reported as null");
  } else {
    raftpb::ConfChangeV2 cc;
    int tr = c.pick(3);
    cc.set_transition(static_cast<raftpb::ConfChangeTransition>(tr));
    cc.set_context(kCtx[c.pick(3)]);
    int n = c.pick(4);
    for (int k = 0; k < n; k++) {
      int t = n == 3 ? k : c.pick(4);
      uint64_t id = n == 3 ? kIds[k + 1] : kIds[c.pick(4)];
      *cc.add_changes() = Single(t, id);
    }
    ConfChangeI ci(cc);
    auto [type, data, ok] = ci.Marshal();
    c.step();
    c.state(HashStr(data) + 1);
    c.note("v2 %s", cc.ShortDebugString().c_str());
    raftpb::ConfChangeV2 back;
    if (!ok || type != raftpb::EntryConfChangeV2 || !back.ParseFromString(data)) c.fail("conf-encode", "v2 change %s does not decode", cc.ShortDebugString().c_str());
    auto v2 = ConfChangeI(back).AsV2();
    if (v2.transition() != cc.transition() || v2.context() != cc.context() || v2.changes_size() != n) c.fail("conf-encode", "v2 change %s decodes as %s", cc.ShortDebugString().c_str(), v2.ShortDebugString().c_str());
    for (int k = 0; k < n; k++)
      if (v2.changes(k).type() != cc.changes(k).type() || v2.changes(k).node_id() != cc.changes(k).node_id()) c.fail("conf-encode", "v2 change %s decodes as %s", cc.ShortDebugString().c_str(), v2.ShortDebugString().c_str());
    auto [al, joint] = EnterJoint(QuietLogger(), v2);
    bool wj = tr != 0 || n > 1, wa = wj && tr != 2;
    if (joint != wj || al != wa) c.fail("conf-encode", "v2 change %s: joint=%d auto=%d, should be %d %d", cc.ShortDebugString().c_str(), joint, al, wj, wa);
    raftpb::ConfChangeV2 copy = cc;
    if (LeaveJoint(copy) != (n == 0 && tr == 0)) c.fail("conf-encode", "v2 change %s: wrong leave-joint decision", cc.ShortDebugString().c_str());
    if (ConfChangeI(cc).IsNull()) c.fail("conf-encode", "a v2 change is reported as null");
  }
}
