#include <sys/resource.h>
#include <unistd.h>

#include <chrono>
#include <fstream>

#include "units.h"

using namespace hx;

namespace hx {
std::vector<UnitDef>& Units() {
  static std::vector<UnitDef> v;
  return v;
}
class UnitLogger : public craft::Logger {
 public:
  UnitLogger() : craft::Logger(kLess ? craft::LogLevel::kDebug : craft::LogLevel::kFatal) {}
  void Logv(craft::LogLevel l, const char* f, va_list ap) override {
    char buf[512];
    vsnprintf(buf, sizeof buf, f, ap);
    if (l == craft::LogLevel::kFatal) Panic("FATAL: %s", buf);
  }
};
std::shared_ptr<craft::Logger> QuietLogger() {
  static UnitLogger* l = new UnitLogger;
  return std::shared_ptr<craft::Logger>(std::shared_ptr<void>(), l);
}
}  // namespace hx

#ifdef __SANITIZE_ADDRESS__
// The sanitizers end the process; what was being explored is written down first.
extern "C" const char* __asan_default_options() { return "detect_leaks=0:quarantine_size_mb=16:detect_odr_violation=0:handle_segv=0"; }
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1"; }
extern "C" void __sanitizer_set_death_callback(void (*)());
extern "C" int __asan_report_present();
extern "C" const char* __asan_get_report_description();
static std::function<void(const char*)> g_on_death;
static void OnDeath() {
  if (g_on_death) g_on_death(__asan_report_present() ? __asan_get_report_description() : "undefined behaviour");
}
#endif

static double Now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

// 0 ok, 1 failed, 2 skipped (other shard)
static int RunOnce(Ch& c, const UnitDef& u, Failure* f) {
  int rc = 0;
  c.begin();
  g_progress = g_progress + 1;
  bool ok = Guard([&] {
    try {
      u.run(c);
    } catch (Failure& x) {
      *f = x;
      rc = 1;
    } catch (Skip&) {
      rc = 2;
    } catch (Cut&) {
      rc = 3;
    } catch (Foreign&) {
      rc = 4;
    } catch (std::exception& x) {
      f->monitor = "abort";
      f->text = std::string("exception escaped from library code: ") + x.what();
      rc = 1;
    }
  });
  if (!ok) {
    f->monitor = "abort";
    f->text = g_panic_msg;
    if (c.tracing) c.trace.push_back(std::string("ABORT ") + g_panic_msg);
    rc = 1;
  }
  return rc;
}

int main(int argc, char** argv) {
  std::string name, out, replays = ".", primary = "C00", replay;
  double tlimit = 60;
  Ch c;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--out") out = next();
    else if (a == "--replays") replays = next();
    else if (a == "--primary") { primary = next(); c.prop = atoi(primary.c_str() + 1); }
    else if (a == "--replay") replay = next();
    else if (a == "--time") tlimit = atof(next().c_str());
    else if (a == "--tier") c.thorough = next() == "thorough";
    else if (a == "--shard") sscanf(next().c_str(), "%d/%d", &c.shard, &c.shards);
    else if (a == "--list") { for (auto& u : Units()) printf("%s: %s\n", u.name, u.bounds(c.thorough).c_str()); return 0; }
    else name = a;
  }
  std::vector<int> rpath;
  if (!replay.empty()) {
    std::ifstream in(replay);
    std::string line;
    while (std::getline(in, line)) {
      if (line.rfind("unit ", 0) == 0) name = line.substr(5);
      if (line.rfind("tier thorough", 0) == 0) c.thorough = true;
      if (line.rfind("picks ", 0) == 0) {
        std::string s = line.substr(6);
        size_t p = 0;
        while (p < s.size()) {
          size_t q = s.find(',', p);
          if (q == std::string::npos) q = s.size();
          rpath.push_back(atoi(s.substr(p, q - p).c_str()));
          p = q + 1;
        }
      }
    }
  }
  const UnitDef* u = nullptr;
  for (auto& d : Units())
    if (name == d.name) u = &d;
  if (!u) { fprintf(stderr, "unknown unit %s\n", name.c_str()); return 3; }
  InstallHandlers();
  Failure f;
#ifdef __SANITIZE_ADDRESS__
  __sanitizer_set_death_callback(OnDeath);
  g_on_death = [&](const char* what) {
    g_on_death = nullptr;
    if (!replay.empty()) {
      for (auto& t : c.trace) printf("%s\n", t.c_str());
      printf("VIOLATION property=%s replay=%s\n  sanitizer: %s\n", primary.c_str(), replay.c_str(), what);
      fflush(stdout);
      _exit(1);
    }
    std::string vf = replays + "/" + primary + "-" + name + "-san-" + std::to_string(getpid()) + ".txt";
    std::ofstream of(vf);
    of << "# replay with: units (sanitizer build) --replay <this file>\nunit " << name << "\ntier " << (c.thorough ? "thorough" : "quick") << "\npicks " << c.path() << "\n# sanitizer: " << what << "\n";
    of.close();
    std::string js = Fmt("{\"unit\": \"%s\", \"shard\": %d, \"shards\": %d, \"states\": 1, \"transitions\": %llu, \"histories\": 1, \"validated\": 1, \"timeout\": false, \"wall\": 0, \"rss_mb\": 0, \"rc\": 1, \"violation\": \"%s\", \"monitor\": \"sanitizer\", \"replay\": \"%s\", \"samples\": []}",
                         name.c_str(), c.shard, c.shards, (unsigned long long)c.transitions, JsonEsc(what).c_str(), JsonEsc(vf).c_str());
    if (!out.empty()) std::ofstream(out) << js << "\n";
    printf("VIOLATION property=%s replay=%s\n  sanitizer: %s\n", primary.c_str(), vf.c_str(), what);
    fflush(stdout);
    _exit(1);
  };
#endif
  if (!replay.empty()) {
    c.setPath(rpath);
    c.tracing = true;
    int rc = RunOnce(c, *u, &f);
    for (auto& s : c.trace) printf("%s\n", s.c_str());
    if (rc == 1) {
      printf("VIOLATION property=%s replay=%s\n  %s: %s\n", primary.c_str(), replay.c_str(), f.monitor.c_str(), f.text.c_str());
      return 1;
    }
    printf("no violation\n");
    return 0;
  }
  double t0 = Now();
  uint64_t runs = 0;
  bool timeout = false;
  int rc = 0;
  std::vector<std::vector<int>> keep;
  uint64_t stride = 1;
  for (;;) {
    int r = RunOnce(c, *u, &f);
    if (r == 1) { rc = 1; break; }
    if (r == 0 || r == 3) {
      if (runs % stride == 0) {
        keep.push_back(c.positions());
        if (keep.size() >= 64) {
          std::vector<std::vector<int>> h;
          for (size_t i = 0; i < keep.size(); i += 2) h.push_back(keep[i]);
          keep.swap(h);
          stride *= 2;
        }
      }
      runs++;
    }
    if ((runs & 31) == 0 && Now() - t0 > tlimit) { timeout = true; break; }
    if (!c.advance()) break;
  }
  uint64_t transitions = c.transitions, states = c.states.empty() ? runs : c.states.size();
  std::string vfile;
  std::vector<std::string> shown;
  if (rc == 1) {
    std::vector<int> p = c.positions();
    Ch d;
    d.thorough = c.thorough;
    d.tracing = true;
    d.prop = c.prop;
    d.setPath(p);
    Failure g;
    int r2 = RunOnce(d, *u, &g);
    if (r2 != 1) rc = 4;
    vfile = replays + "/" + primary + "-" + name + "-" + std::to_string(getpid()) + ".txt";
    std::ofstream of(vfile);
    of << "# replay with: units --replay <this file>\nunit " << name << "\ntier " << (c.thorough ? "thorough" : "quick") << "\npicks " << c.path() << "\n";
    of << "# " << f.monitor << ": " << f.text << "\n# confirmed by re-execution: " << (r2 == 1 ? "yes" : "NO") << "\n";
    for (auto& s : d.trace) of << "# " << s << "\n";
  } else {
    for (size_t k : {keep.size() / 3, keep.size() - 1}) {
      if (k >= keep.size()) continue;
      Ch d;
      d.thorough = c.thorough;
      d.tracing = true;
      d.prop = c.prop;
      d.setPath(keep[k]);
      Failure g;
      RunOnce(d, *u, &g);
      std::string t;
      for (auto& s : d.trace) if (t.size() < 1200) t += (t.empty() ? "" : "; ") + s;
      if (t.empty()) {
        t = "picks";
        for (int x : keep[k]) t += " " + std::to_string(x);
      }
      shown.push_back(t);
    }
  }
  rusage ru;
  getrusage(RUSAGE_SELF, &ru);
  std::string js = Fmt("{\"unit\": \"%s\", \"shard\": %d, \"shards\": %d, \"states\": %llu, \"transitions\": %llu, \"histories\": %llu, \"validated\": %llu, \"timeout\": %s, \"wall\": %.2f, \"rss_mb\": %.0f, \"rc\": %d, ",
                       name.c_str(), c.shard, c.shards, (unsigned long long)states, (unsigned long long)transitions, (unsigned long long)runs, (unsigned long long)runs,
                       timeout ? "true" : "false", Now() - t0, ru.ru_maxrss / 1024.0, rc);
  js += Fmt("\"merged_paths\": %llu, \"abandoned_paths\": %llu, ", (unsigned long long)c.merged, (unsigned long long)c.foreign);
  js += "\"bounds\": \"" + JsonEsc(u->bounds(c.thorough) + (timeout ? " (time limit reached: not all of it)" : "")) + "\", ";
  js += "\"violation\": \"" + JsonEsc(rc ? f.text : "") + "\", \"monitor\": \"" + JsonEsc(rc ? f.monitor : "") + "\", \"replay\": \"" + JsonEsc(vfile) + "\", \"samples\": [";
  for (size_t k = 0; k < shown.size(); k++) js += (k ? ", \"" : "\"") + JsonEsc(shown[k]) + "\"";
  js += "]}";
  if (!out.empty()) {
    std::ofstream of(out);
    of << js << "\n";
  } else {
    printf("%s\n", js.c_str());
  }
  if (rc == 1) printf("VIOLATION property=%s replay=%s\n  %s: %s\n", primary.c_str(), vfile.c_str(), f.monitor.c_str(), f.text.c_str());
  return rc;
}
