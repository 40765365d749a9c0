// Cluster explorer: enumerates every history of a flavour up to its depth and
// budget on the real library and evaluates the monitors on every one.
#include <sys/resource.h>
#include <unistd.h>

#include <chrono>
#include <cstdlib>
#include <fstream>
#include <iostream>

#include "flavours.h"
#include "sim.h"
#include "src/logger.h"

using namespace hx;

namespace {

double Now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

uint64_t ParseMask(const std::string& s) {
  uint64_t m = 0;
  size_t i = 0;
  while (i < s.size()) {
    size_t j = s.find(',', i);
    if (j == std::string::npos) j = s.size();
    int v = atoi(s.substr(i, j - i).c_str() + (s[i] == 'C' ? 1 : 0));
    m |= 1ull << v;
    i = j + 1;
  }
  return m;
}

struct Sample {
  std::vector<Ev> path;
  uint64_t fp = 0;
  std::string desc;
};

class Explorer {
 public:
  Explorer(Sim* s, double deadline, int shard, int shards)
      : sim_(s), deadline_(deadline), shard_(shard), shards_(shards), vis_(18) {}

  // Explores to depth d completely unless time runs out.  Returns false on violation.
  bool Run(int d) {
    vis_.Clear();
    depth_ = d;
    timeout_ = false;
    if (!Start()) return false;
    path_.clear();
    bool fresh;
    vis_.Visit(sim_->Hash(), d, sim_->o.budget, &fresh);
    Dfs(d, sim_->o.budget);
    return !bad_;
  }
  bool Start() {
    sim_->Init();
    if (sim_->violated()) { bad_ = true; return false; }
    for (auto& p : sim_->o.prefix) {
      Ev e;
      if (!EvParse(p, &e)) { fprintf(stderr, "bad prefix event %s\n", p.c_str()); _exit(3); }
      uint8_t keep[kKinds];
      memcpy(keep, sim_->w.cnt.c, sizeof keep);
      if (!sim_->Apply(e)) { bad_ = true; return false; }
      memcpy(sim_->w.cnt.c, keep, sizeof keep);  // the prefix does not use up the alphabet
    }
    return true;
  }
  // Replays from scratch.  Returns true if a violation occurred.
  bool Replay(const std::vector<Ev>& path, bool heal, std::vector<std::string>* trace) {
    sim_->trace = trace;
    bool save_bad = bad_;
    bad_ = false;
    bool v = !Start();
    for (auto& e : path) {
      if (v) break;
      v = !sim_->Apply(e);
    }
    if (!v && heal) v = !sim_->HealCheck();
    sim_->trace = nullptr;
    bad_ = save_bad;
    return v;
  }

  bool bad_ = false, bad_heal_ = false, timeout_ = false;
  std::vector<Ev> path_, bad_path_;
  uint64_t states_ = 0, transitions_ = 0, leaves_ = 0, expanded_ = 0;
  std::vector<Sample> samples_;
  size_t visited() const { return vis_.size(); }
  std::set<uint64_t> unconfirmed_;

 private:
  void Found(bool heal) {
    bad_path_ = path_;
    bad_heal_ = heal;
    bad_ = true;
  }
  void Dfs(int d, int b) {
    if (d == 0) { leaves_++; return; }
    expanded_++;
    bool first = path_.empty() && sim_->o.prefix.empty();
    std::vector<Ev> evs;
    std::vector<int> cost;
    sim_->Enum(&evs, &cost, b, first);
    Snap s = sim_->Save();
    for (size_t k = 0; k < evs.size(); k++) {
      if ((transitions_ & 63) == 0 && Now() > deadline_) { timeout_ = true; }
      if (timeout_ || bad_) return;
      sim_->Restore(s);
      transitions_++;
      path_.push_back(evs[k]);
      if (!sim_->Apply(evs[k])) {
        Found(false);
        return;
      }
      uint64_t h = sim_->Hash();
      bool fresh, go = true;
      int nb = b - cost[k];
      if (sim_->o.dedup) go = vis_.Visit(h, d - 1, nb, &fresh);
      else fresh = true;
      if (shards_ > 1 && path_.size() == 2 && (int)((h >> 7) % shards_) != shard_) go = false;
      if (go && fresh) {
        states_++;
        if (samples_.size() < 400 && (states_ % stride_ == 1)) {
          Sample sm;
          sm.path = path_;
          sm.fp = sim_->Fingerprint();
          sm.desc = sim_->Describe();
          samples_.push_back(sm);
          if (samples_.size() == 200) {
            std::vector<Sample> half;
            for (size_t i = 0; i < samples_.size(); i += 2) half.push_back(samples_[i]);
            samples_.swap(half);
            stride_ *= 2;
          }
        }
        if (sim_->o.heal) {
          Snap after = sim_->Save();
          if (!sim_->HealCheck()) {
            Found(true);
            return;
          }
          sim_->Restore(after);
        }
      }
      if (go) Dfs(d - 1, nb);
      if (bad_ || timeout_) return;
      path_.pop_back();
    }
  }
  Sim* sim_;
  double deadline_;
  int shard_, shards_;
  Visited vis_;
  int depth_ = 0;
  uint64_t stride_ = 7;
};

void Warm() {
  // everything that lazily allocates process-wide state
  for (int i = 0; i < 40; i++)
    if (raftpb::MessageType_IsValid(i)) (void)raftpb::MessageType_Name(i).size();
  for (int i = 0; i < 4; i++) {
    if (raftpb::EntryType_IsValid(i)) (void)raftpb::EntryType_Name(i).size();
    if (raftpb::ConfChangeType_IsValid(i)) (void)raftpb::ConfChangeType_Name(i).size();
    if (raftpb::ConfChangeTransition_IsValid(i)) (void)raftpb::ConfChangeTransition_Name(i).size();
  }
  (void)craft::Util::Random(1, 2);
  raftpb::Message m, m2;
  m.mutable_snapshot()->mutable_metadata()->mutable_conf_state()->add_voters(1);
  m.add_entries()->set_data("x");
  m2.ParseFromString(m.SerializeAsString());
  (void)m.DebugString();
  (void)m.ShortDebugString();
}

}  // namespace

int main(int argc, char** argv) {
  std::string flavour, props = "1", out, replays = ".", primary = "C01", replay_file;
  int depth = -1, budget = -1, shard = 0, shards = 1, min_depth = 1, deeper = 0;
  double tlimit = 30;
  bool list = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--flavour") flavour = next();
    else if (a == "--props") props = next();
    else if (a == "--depth") depth = atoi(next().c_str());
    else if (a == "--budget") budget = atoi(next().c_str());
    else if (a == "--time") tlimit = atof(next().c_str());
    else if (a == "--out") out = next();
    else if (a == "--replays") replays = next();
    else if (a == "--primary") primary = next();
    else if (a == "--replay") replay_file = next();
    else if (a == "--shard") { std::string s = next(); sscanf(s.c_str(), "%d/%d", &shard, &shards); }
    else if (a == "--min-depth") min_depth = atoi(next().c_str());
    else if (a == "--deeper") deeper = atoi(next().c_str());
    else if (a == "--list") list = true;
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
  }
  if (list) {
    for (auto& o : Flavours()) printf("%s\n", o.name.c_str());
    return 0;
  }
  Warm();
  ArenaInit();
  InstallHandlers();

  std::vector<Ev> rp;
  bool rp_heal = false;
  if (!replay_file.empty()) {
    std::ifstream in(replay_file);
    std::string line;
    while (std::getline(in, line)) {
      if (line.rfind("flavour ", 0) == 0) flavour = line.substr(8);
      else if (line.rfind("props ", 0) == 0) props = line.substr(6);
      else if (line.rfind("heal", 0) == 0) rp_heal = true;
      else if (line.rfind("event ", 0) == 0) {
        Ev e;
        if (EvParse(line.substr(6), &e)) rp.push_back(e);
      }
    }
  }
  Opts o;
  bool ok = false;
  for (auto& f : Flavours())
    if (f.name == flavour) { o = f; ok = true; }
  if (!ok) { fprintf(stderr, "unknown flavour %s\n", flavour.c_str()); return 3; }
  if (depth > 0) o.depth = depth;
  o.depth += deeper;
  if (budget >= 0) o.budget = budget;
  uint64_t mask = ParseMask(props);
  if (!(mask >> 23 & 1)) o.heal = o.heal && (mask & (1ull << 18 | 1ull << 8 | 1ull << 13 | 1ull << 19 | 1ull << 26));
  Sim sim(o, mask);
  double t0 = Now();
  Explorer ex(&sim, t0 + tlimit, shard, shards);

  if (!replay_file.empty()) {
    std::vector<std::string> tr;
    bool v = ex.Replay(rp, rp_heal, &tr);
    for (auto& s : tr) printf("%s\n", s.c_str());
    if (v) {
      printf("VIOLATION property=%s replay=%s\n  %s: %s\n", primary.c_str(), replay_file.c_str(),
             sim.finding.monitor.c_str(), sim.finding.text.c_str());
      return 1;
    }
    printf("no violation\n");
    return 0;
  }

  int done = 0;
  int rc = 0;
  std::string vfile, vtext, vmon;
  uint64_t last_visited = 0, states_done = 0, transitions_done = 0, leaves_done = 0;
  for (int d = std::min(min_depth, o.depth); d <= o.depth; d++) {
    uint64_t st0 = ex.states_, lv0 = ex.leaves_;
    uint64_t tr0 = ex.transitions_;
    bool good = ex.Run(d);
    if (!good) {
      // confirm from scratch
      Finding f = sim.finding;
      auto path = ex.bad_path_;
      bool heal = ex.bad_heal_;
      bool conf = false;
      std::vector<std::string> tr;
      for (int k = 0; k < 2 && !conf; k++) {
        tr.clear();
        conf = ex.Replay(path, heal, &tr);
      }
      vfile = replays + "/" + primary + "-" + o.name + "-" + std::to_string(getpid()) + ".txt";
      std::ofstream of(vfile);
      of << "# replay with: " << "cluster --replay <this file>\n";
      of << "flavour " << o.name << "\nprops " << props << "\n";
      for (auto& e : path) of << "event " << EvStr(e) << "\n";
      if (heal) of << "heal\n";
      of << "# monitor " << f.monitor << ": " << f.text << "\n";
      of << "# confirmed by replay from scratch: " << (conf ? "yes" : "NO") << "\n";
      for (auto& s : tr) of << "# " << s << "\n";
      vtext = f.text;
      vmon = f.monitor;
      if (conf) rc = 1;
      else rc = 4;
      transitions_done = ex.transitions_ - tr0;
      states_done = ex.states_ - st0;
      break;
    }
    last_visited = ex.visited();
    states_done = ex.states_ - st0;
    leaves_done = ex.leaves_ - lv0;
    transitions_done = ex.transitions_ - tr0;
    if (ex.timeout_) break;
    done = d;
  }
  // validate samples: replay from scratch, same logical state
  uint64_t validated = 0, mismatched = 0;
  std::vector<std::string> shown;
  double vt0 = Now();
  if (rc == 0) {
    for (auto& s : ex.samples_) {
      if (Now() - vt0 > 4 && validated > 20) break;
      std::vector<std::string> none;
      bool v = ex.Replay(s.path, false, nullptr);
      if (!v && sim.Fingerprint() == s.fp) validated++;
      else mismatched++;
    }
    if (!ex.samples_.empty()) {
      for (size_t k : {ex.samples_.size() / 3, ex.samples_.size() - 1}) {
        auto& s = ex.samples_[k];
        std::string t;
        for (auto& e : s.path) t += (t.empty() ? "" : "; ") + EvStr(e);
        shown.push_back(t + " => " + s.desc);
      }
    }
  }
  rusage ru;
  getrusage(RUSAGE_SELF, &ru);
  std::string js = "{";
  auto num = [&](const char* k, double v) { js += Fmt("\"%s\": %.0f, ", k, v); };
  js += "\"flavour\": \"" + JsonEsc(o.name) + "\", ";
  num("shard", shard); num("shards", shards);
  num("depth_bound", o.depth); num("budget", o.budget); num("depth_completed", done);
  num("states", (double)states_done); num("transitions", (double)transitions_done);
  num("all_transitions", (double)ex.transitions_); num("histories", (double)leaves_done);
  num("validated", (double)validated); num("mismatched", (double)mismatched);
  num("lib_calls", (double)sim.lib_calls); num("readys", (double)sim.readys); num("delivered", (double)sim.delivered);
  num("heals", (double)sim.heals); num("checks", (double)sim.checks);
  num("leaders", (double)sim.stat_leaders); num("commits", (double)sim.stat_commits); num("restarts", (double)sim.stat_restarts);
  num("snapshots", (double)sim.stat_snaps); num("conf_applied", (double)sim.stat_confs); num("reads", (double)sim.stat_reads);
  num("multi_apply", (double)sim.stat_multi); num("votes", (double)sim.stat_votes); num("prevotes", (double)sim.stat_prevotes);
  num("rss_mb", ru.ru_maxrss / 1024.0);
  js += Fmt("\"timeout\": %s, \"wall\": %.2f, \"rc\": %d, ", ex.timeout_ ? "true" : "false", Now() - t0, rc);
  js += "\"violation\": \"" + JsonEsc(vtext) + "\", \"monitor\": \"" + JsonEsc(vmon) + "\", \"replay\": \"" + JsonEsc(vfile) + "\", \"samples\": [";
  for (size_t k = 0; k < shown.size(); k++) js += (k ? ", \"" : "\"") + JsonEsc(shown[k]) + "\"";
  js += "]}";
  (void)last_visited;
  if (!out.empty()) {
    std::ofstream of(out);
    of << js << "\n";
  } else {
    printf("%s\n", js.c_str());
  }
  if (rc == 1) printf("VIOLATION property=%s replay=%s\n  %s: %s\n", primary.c_str(), vfile.c_str(), vmon.c_str(), vtext.c_str());
  if (mismatched) rc = rc ? rc : 5;
  return rc;
}
