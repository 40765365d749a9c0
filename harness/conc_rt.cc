// Scheduler, race detector and driver of the concurrency checkers (see conc_rt.h).
// Compiled without -fsanitize=thread.
#include "conc_rt.h"

#include <dlfcn.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/single_threaded.h>
#include <sys/wait.h>
#include <unistd.h>

#include <chrono>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <unordered_set>

#include "util.h"

#define RTTLS __attribute__((tls_model("initial-exec")))

namespace rt {

using hx::Fmt;

constexpr int kMax = 4;  // threads, main (0) included
constexpr int kPicks = 20000;

// ---- shared with the parent
enum Result { kRunning = 0, kOk = 1, kViolation = 2, kSkip = 3, kForeign = 4, kHarness = 5 };
struct Shared {
  int result;
  int preset, n;
  int pos[kPicks], lim[kPicks];
  char monitor[64];
  char text[4000];
  size_t trace_len;
  char trace[1 << 18];
  uint64_t steps, accesses, state;
  char solo[64][20000];
  int solo_set[64];
};
static Shared* S;
static uintptr_t g_base;
static int g_prop, g_shard, g_shards = 1;
static bool g_thorough, g_tracing;

// ---- threads
enum Want { wNone, wRd, wWr, wCond, wGuard, wDone };
static bool g_shared_only = false;
struct LockState {
  int users = 0;   // threads that used it, as bits
  int writer = 0;  // thread holding it exclusively
  int readers = 0;
  uint32_t W[kMax] = {}, R[kMax] = {};
};
struct Thr {
  pthread_t th;
  sem_t sem;
  Want want = wNone;
  void* on = nullptr;
  const std::function<bool()>* cond = nullptr;
  const std::function<void()>* body = nullptr;
  uint32_t vc[kMax] = {};
  int held = 0;
};
static Thr T[kMax];
static int g_n = 0;          // number of scenario threads
static bool g_running = false;
static int g_preempt = -1, g_preempted = 0;
static sem_t g_main;
static uint64_t g_clock = 0;
static std::map<void*, LockState>* g_locks;
static std::map<void*, std::vector<uint32_t>>* g_atomics;

static thread_local RTTLS int t_id = 0;
static thread_local RTTLS int t_rt = 0;     // inside the runtime
static thread_local RTTLS int t_fresh = 0;  // at a call boundary: the first lock needs no decision

struct In {
  In() { t_rt++; }
  ~In() { t_rt--; }
};
static inline bool Tracked() { return t_id > 0 && t_rt == 0; }

// ---- results
[[noreturn]] static void End(int r) {
  S->result = r;
  _exit(0);
}
[[noreturn]] static void Fail(const char* monitor, const std::string& text) {
  snprintf(S->monitor, sizeof S->monitor, "%s", monitor);
  snprintf(S->text, sizeof S->text, "%s", text.c_str());
  End(kViolation);
}
void Viol(std::initializer_list<int> ps, const char* monitor, const char* f, ...) {
  In in;
  char b[3000];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  bool mine = g_prop == 0;
  for (int p : ps) mine = mine || p == g_prop;
  if (!mine) End(kForeign);
  Fail(monitor, b);
}
void Abort(const char* f, ...) {
  t_rt++;
  char b[3000];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  Fail("abort", b);
}
void Note(const char* f, ...) {
  if (!g_tracing) return;
  In in;
  char b[1500];
  va_list ap;
  va_start(ap, f);
  int n = vsnprintf(b, sizeof b - 2, f, ap);
  va_end(ap);
  if (n > (int)sizeof b - 3) n = sizeof b - 3;
  b[n++] = '\n';
  if (S->trace_len + n < sizeof S->trace) {
    memcpy(S->trace + S->trace_len, b, n);
    S->trace_len += n;
  }
}
void State(uint64_t h) { S->state = hx::Mix(S->state, h); }
bool Thorough() { return g_thorough; }
uint64_t Now() { return ++g_clock; }

int Pick(int n) {
  In in;
  if (n < 1) n = 1;
  int i = S->n;
  if (i >= kPicks) Fail("endless", "more than 20000 decisions in one execution");
  if (i < S->preset) {
    if (S->lim[i] != -1 && S->lim[i] != n) {
      snprintf(S->text, sizeof S->text, "decision %d had %d options, now %d", i, S->lim[i], n);
      End(kHarness);
    }
    S->lim[i] = n;
  } else {
    S->pos[i] = 0;
    S->lim[i] = n;
  }
  S->n++;
  if (g_shards > 1 && S->n == 2 && (S->pos[0] * S->lim[1] + S->pos[1]) % g_shards != g_shard) End(kSkip);
  return S->pos[i];
}

// ---- scheduling
static void Join(uint32_t* a, const uint32_t* b) {
  for (int i = 0; i < kMax; i++)
    if (b[i] > a[i]) a[i] = b[i];
}
static LockState& L(void* p) { return (*g_locks)[p]; }
static bool Can(int t) {
  switch (T[t].want) {
    case wDone: return false;
    case wNone: return true;
    case wRd: return L(T[t].on).writer == 0;
    case wWr: return L(T[t].on).writer == 0 && L(T[t].on).readers == 0;
    case wGuard: return L(T[t].on).writer == 0;
    case wCond: return (*T[t].cond)();
  }
  return false;
}
static std::string Blocked() {
  std::string s;
  for (int t = 1; t <= g_n; t++)
    if (T[t].want != wDone) s += Fmt(" thread %d waits for %s", t, T[t].want == wCond ? "an event" : "a lock");
  return s;
}
// The calling thread offers to be switched out (its want says what it needs).
// decide: false when there is nothing to decide as long as it can go on.
static void Switch(bool decide) {
  int me = t_id;
  bool can = Can(me);
  if (can && !decide) return;
  int en[kMax], k = 0;
  if (can) en[k++] = me;
  for (int t = 1; t <= g_n; t++)
    if (t != me && Can(t)) en[k++] = t;
  if (k == 0) {
    if (T[me].want == wDone) {
      bool all = true;
      for (int t = 1; t <= g_n; t++) all = all && T[t].want == wDone;
      if (all) {
        sem_post(&g_main);
        return;
      }
    }
    Viol({17, 29}, "deadlock", "no thread can go on:%s", Blocked().c_str());
  }
  int c = 0;
  if (g_preempt >= 0 && g_preempted >= g_preempt) c = 0;
  else if (k > 1) c = Pick(k);
  if (c) g_preempted++;
  S->steps++;
  int to = en[c];
  if (to == me) return;
  Note("-- thread %d", to);
  sem_post(&T[to].sem);
  if (T[me].want != wDone)
    while (sem_wait(&T[me].sem) != 0) {}
}
// A lock that only one thread has used so far needs no decision when the program
// runs in shared-only mode (nodes and their private storages).
static bool Contended(void* p) {
  LockState& l = L(p);
  bool c = !g_shared_only || (l.users & ~(1 << t_id));
  l.users |= 1 << t_id;
  return c;
}
static void Acquire(void* p, bool write) {
  Thr& me = T[t_id];
  bool d = Contended(p) && !t_fresh;
  me.want = write ? wWr : wRd;
  me.on = p;
  t_fresh = 0;
  Switch(d);
  me.want = wNone;
  LockState& l = L(p);
  if (write) {
    l.writer = t_id;
    Join(me.vc, l.W);
    Join(me.vc, l.R);
  } else {
    l.readers++;
    Join(me.vc, l.W);
  }
  me.held++;
}
static bool TryAcquire(void* p, bool write) {
  bool d = Contended(p) && !t_fresh;
  t_fresh = 0;
  Switch(d);
  LockState& l = L(p);
  if (l.writer || (write && l.readers)) return false;
  Thr& me = T[t_id];
  if (write) {
    l.writer = t_id;
    Join(me.vc, l.W);
    Join(me.vc, l.R);
  } else {
    l.readers++;
    Join(me.vc, l.W);
  }
  me.held++;
  return true;
}
static void Release(void* p) {
  Thr& me = T[t_id];
  LockState& l = L(p);
  if (l.writer == t_id) {
    l.writer = 0;
    Join(l.W, me.vc);
  } else if (l.readers > 0) {
    l.readers--;
    Join(l.R, me.vc);
  } else {
    Viol({17, 29}, "unlock", "a lock is released that is not held");
  }
  me.vc[t_id]++;
  me.held--;
}
void Point() {
  In in;
  if (t_id == 0) return;
  T[t_id].want = wNone;
  Switch(true);
  t_fresh = 1;
}
void Lock(void* m) { In in; if (t_id) Acquire(m, true); }
void Unlock(void* m) { In in; if (t_id) Release(m); }
void Wait(const std::function<bool()>& cond) {
  In in;
  T[t_id].want = wCond;
  T[t_id].cond = &cond;
  Switch(true);
  T[t_id].want = wNone;
}
static void* Trampoline(void* a) {
  int id = (int)(intptr_t)a;
  t_rt = 1;
  while (sem_wait(&T[id].sem) != 0) {}
  t_id = id;
  t_fresh = 1;
  t_rt = 0;
  bool threw = true;
  std::string what;
  try {
    (*T[id].body)();
    threw = false;
  } catch (std::exception& x) {
    t_rt = 1;
    what = x.what();
  } catch (...) {
  }
  t_rt = 1;
  if (threw) Fail("abort", "exception escaped from library code: " + what);
  if (T[id].held) Viol({17, 29}, "unlock", "thread %d ends holding a lock", id);
  T[id].want = wDone;
  Switch(true);
  return nullptr;
}
void Run(const std::vector<std::function<void()>>& bodies, int preemptions, bool shared_only) {
  In in;
  g_shared_only = shared_only;
  __libc_single_threaded = 0;
  g_locks = new std::map<void*, LockState>;
  g_atomics = new std::map<void*, std::vector<uint32_t>>;
  g_n = (int)bodies.size();
  g_preempt = preemptions;
  sem_init(&g_main, 0, 0);
  for (int i = 1; i <= g_n; i++) {
    sem_init(&T[i].sem, 0, 0);
    T[i].body = &bodies[i - 1];
    T[i].want = wNone;
    T[i].vc[i] = 1;
  }
  g_running = true;
  for (int i = 1; i <= g_n; i++)
    if (pthread_create(&T[i].th, nullptr, Trampoline, (void*)(intptr_t)i) != 0) {
      snprintf(S->text, sizeof S->text, "pthread_create");
      End(kHarness);
    }
  int first = 1 + (g_n > 1 ? Pick(g_n) : 0);
  Note("-- thread %d", first);
  sem_post(&T[first].sem);
  while (sem_wait(&g_main) != 0) {}
  for (int i = 1; i <= g_n; i++) pthread_join(T[i].th, nullptr);
  g_running = false;
}

// ---- race detection
struct Cell {
  uintptr_t g;  // granule (address / 8)
  // bytes the last thread here already read or wrote since its last synchronisation
  uint32_t qclk;
  uint8_t qtid, qr, qw;
  uint32_t wclk[8];
  uint32_t rclk[8][kMax];
  uint8_t wtid[8];
  uint32_t wpc, rpc[kMax];
  uint8_t freed;
};
constexpr size_t kCells = 1 << 20;
static Cell* g_cells;

static Cell& At(uintptr_t g) {
  // neighbours stay neighbours within 2 KB blocks
  size_t i = ((g & 255) | (hx::Mix(1, g >> 8) << 8)) & (kCells - 1);
  for (int k = 0;; k++) {
    Cell& c = g_cells[i];
    if (c.g == g) return c;
    if (c.g == 0) {
      c.g = g;
      return c;
    }
    i = (i + 1) & (kCells - 1);
    if (k > 100000) {
      snprintf(S->text, sizeof S->text, "access table full");
      End(kHarness);
    }
  }
}
static std::string Where(uint32_t pc) {
  char exe[256], cmd[600], out[1000];
  ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
  if (n <= 0 || pc == 0) return "?";
  exe[n] = 0;
  snprintf(cmd, sizeof cmd, "addr2line -Cfsi -e '%s' 0x%x 2>/dev/null", exe, pc - 1);
  FILE* p = popen(cmd, "r");
  if (!p) return "?";
  std::string s, fn;
  bool even = true;
  int frames = 0;
  while (fgets(out, sizeof out, p) && frames < 12) {
    std::string l = out;
    while (!l.empty() && l.back() == '\n') l.pop_back();
    if (even) fn = l;
    else {
      frames++;
      bool std_ = fn.compare(0, 5, "std::") == 0 || fn.find("__gnu_cxx") != std::string::npos;
      if (!std_ || s.empty()) {
        size_t b = fn.find('(');
        s += (s.empty() ? "" : " < ") + fn.substr(0, b) + " (" + l + ")";
      }
    }
    even = !even;
  }
  pclose(p);
  return s.empty() ? "?" : s;
}
[[noreturn]] static void Race(const char* what, uintptr_t a, int other, uint32_t opc, const char* owhat, uint32_t pc) {
  In in;
  std::string me = Where(pc), o = Where(opc);
  Note("thread %d %s at %s; thread %d %s at %s", t_id, what, me.c_str(), other, owhat, o.c_str());
  Viol({17, 29, 24}, "race", "data race: thread %d %s in %s while thread %d %s in %s", t_id, what, me.c_str(), other, owhat, o.c_str());
}
static void Access(uintptr_t a, size_t n, bool write, uintptr_t pc) {
  if (!Tracked() || n == 0) return;
  uintptr_t sp = (uintptr_t)__builtin_frame_address(0);
  if (a > sp - (256 << 10) && a < sp + (8 << 20) && a > sp - 65536) {
    // own stack (thread stacks are 8 MB apart)
    pthread_attr_t at;
    static thread_local RTTLS uintptr_t lo = 0, hi = 0;
    if (!lo) {
      In in;
      void* base;
      size_t size;
      pthread_getattr_np(pthread_self(), &at);
      pthread_attr_getstack(&at, &base, &size);
      pthread_attr_destroy(&at);
      lo = (uintptr_t)base;
      hi = lo + size;
    }
    if (a >= lo && a < hi) return;
  }
  In in;
  S->accesses++;
  Thr& me = T[t_id];
  uint32_t opc = (uint32_t)(pc - g_base);
  const char* what = write ? "writes" : "reads";
  for (uintptr_t e = a + n; a < e;) {
    Cell& c = At(a >> 3);
    uintptr_t ge = (a | 7) + 1 < e ? (a | 7) + 1 : e;
    uint8_t mask = (uint8_t)((0xff << (a & 7)) & (0xff >> (7 - ((ge - 1) & 7))));
    if (c.qtid == t_id && c.qclk == me.vc[t_id]) {
      if (((write ? c.qw : (c.qr | c.qw)) & mask) == mask && !c.freed) {
        a = ge;
        continue;
      }
    } else {
      c.qtid = t_id;
      c.qclk = me.vc[t_id];
      c.qr = c.qw = 0;
    }
    (write ? c.qw : c.qr) |= mask;
    if (c.freed) Race(what, a, c.freed, c.wpc, "had freed the memory", opc);
    for (; a < e; a++) {
      int b = a & 7;
      int wt = c.wtid[b];
      if (wt && wt != t_id && c.wclk[b] > me.vc[wt]) Race(what, a, wt, c.wpc, "wrote it", opc);
      if (write) {
        for (int t = 1; t <= g_n; t++)
          if (t != t_id && c.rclk[b][t] > me.vc[t]) Race(what, a, t, c.rpc[t], "read it", opc);
        c.wtid[b] = t_id;
        c.wclk[b] = me.vc[t_id];
        c.wpc = opc;
      } else {
        c.rclk[b][t_id] = me.vc[t_id];
        c.rpc[t_id] = opc;
      }
      if (b == 7) {
        a++;
        break;
      }
    }
  }
}
static void Freed(void* p, uintptr_t pc) {
  size_t n = malloc_usable_size(p);
  Access((uintptr_t)p, n, true, pc);
  In in;
  for (uintptr_t g = (uintptr_t)p >> 3; g < ((uintptr_t)p + n) >> 3; g++) At(g).freed = t_id;
}

// ---- atomics: acquire/release edges, and a decision before anything but a counter update
static std::vector<uint32_t>& A(void* p) {
  auto& v = (*g_atomics)[p];
  if (v.empty()) v.resize(kMax);
  return v;
}
static void AtomicBefore(void* p, int mo, bool decide) {
  T[t_id].want = wNone;
  if (decide && mo != 0) Switch(!t_fresh);
  t_fresh = 0;
  if (mo == 1 || mo == 2 || mo == 4 || mo == 5) Join(T[t_id].vc, A(p).data());
}
static void AtomicAfter(void* p, int mo) {
  if (mo >= 3) {
    Join(A(p).data(), T[t_id].vc);
    T[t_id].vc[t_id]++;
  }
}

// ---- driver
std::vector<Unit>& Units() {
  static std::vector<Unit> v;
  return v;
}
std::string Solo(int key, const std::function<std::string()>& f) {
  In in;
  if (!S->solo_set[key]) {
    pid_t p = fork();
    if (p == 0) {
      t_rt = 0;
      std::string s = f();
      t_rt = 1;
      snprintf(S->solo[key], sizeof S->solo[key], "%s", s.c_str());
      _exit(7);
    }
    int st = 0;
    waitpid(p, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 7) {
      if (S->result == kViolation) _exit(0);
      Fail("abort", Fmt("a node driven alone ends with status %d", st));
    }
    S->solo_set[key] = 1;
  }
  return S->solo[key];
}
static void Crash(int sig) {
  if (sig == SIGALRM) Fail("hang", "library call does not terminate");
  Fail("abort", Fmt("fatal signal %d (%s) in library code", sig, strsignal(sig)));
}
static void Child(const Unit& u) {
  static char stack[1 << 16];
  stack_t ss{};
  ss.ss_sp = stack;
  ss.ss_size = sizeof stack;
  sigaltstack(&ss, nullptr);
  struct sigaction sa{};
  sa.sa_handler = Crash;
  sa.sa_flags = SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGALRM}) sigaction(s, &sa, nullptr);
  alarm(60);
  try {
    u.run();
  } catch (std::exception& x) {
    Fail("abort", std::string("exception escaped from library code: ") + x.what());
  }
  End(kOk);
}
static int Execute(const Unit& u, std::vector<int>& pos, std::vector<int>& lim) {
  S->result = kRunning;
  S->preset = (int)pos.size();
  S->n = 0;
  S->state = 0;
  S->trace_len = 0;
  for (size_t i = 0; i < pos.size(); i++) {
    S->pos[i] = pos[i];
    S->lim[i] = i < lim.size() && i + 1 < pos.size() ? lim[i] : -1;
  }
  pid_t p = fork();
  if (p == 0) Child(u);
  if (p < 0) return kHarness;
  int st = 0;
  waitpid(p, &st, 0);
  if (S->result == kRunning) {
    S->result = kViolation;
    snprintf(S->monitor, sizeof S->monitor, "abort");
    snprintf(S->text, sizeof S->text, "the process ended with status %d", st);
  }
  pos.assign(S->pos, S->pos + S->n);
  lim.assign(S->lim, S->lim + S->n);
  return S->result;
}
static std::string Path(const std::vector<int>& v) {
  std::string s;
  for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + std::to_string(v[i]);
  return s;
}
static double Clock() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

void WarmUp();  // conc_units.cc: the protobuf library's own tables

static int Main(int argc, char** argv) {
  std::string name, out, replays = ".", primary = "C00", replay;
  double tlimit = 60;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--out") out = next();
    else if (a == "--replays") replays = next();
    else if (a == "--primary") { primary = next(); g_prop = atoi(primary.c_str() + 1); }
    else if (a == "--replay") replay = next();
    else if (a == "--time") tlimit = atof(next().c_str());
    else if (a == "--tier") g_thorough = next() == "thorough";
    else if (a == "--shard") sscanf(next().c_str(), "%d/%d", &g_shard, &g_shards);
    else name = a;
  }
  std::vector<int> pos, lim;
  if (!replay.empty()) {
    std::ifstream in(replay);
    std::string line;
    while (std::getline(in, line)) {
      if (line.rfind("unit ", 0) == 0) name = line.substr(5);
      if (line.rfind("tier thorough", 0) == 0) g_thorough = true;
      if (line.rfind("picks ", 0) == 0) {
        std::string s = line.substr(6);
        for (size_t p = 0; p < s.size();) {
          size_t q = s.find(',', p);
          if (q == std::string::npos) q = s.size();
          pos.push_back(atoi(s.substr(p, q - p).c_str()));
          p = q + 1;
        }
      }
    }
  }
  const Unit* u = nullptr;
  for (auto& d : Units())
    if (name == d.name) u = &d;
  if (!u) { fprintf(stderr, "unknown unit %s\n", name.c_str()); return 3; }
  auto shared = [](size_t n) {
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) _exit(3);
    return p;
  };
  S = (Shared*)shared(sizeof(Shared));
  g_cells = (Cell*)mmap(nullptr, kCells * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (g_cells == MAP_FAILED) return 3;
  Dl_info di;
  dladdr((void*)&Main, &di);
  g_base = (uintptr_t)di.dli_fbase;
  cpu_set_t cs;
  CPU_ZERO(&cs);
  CPU_SET((sched_getcpu() + g_shard) % (int)sysconf(_SC_NPROCESSORS_ONLN), &cs);
  sched_setaffinity(0, sizeof cs, &cs);  // hand-overs between threads are cheapest on one processor
  mallopt(M_ARENA_MAX, 1);
  mallopt(M_TOP_PAD, 4 << 20);
  WarmUp();
  if (!replay.empty()) {
    g_tracing = true;
    int r = Execute(*u, pos, lim);
    fwrite(S->trace, 1, S->trace_len, stdout);
    if (r == kViolation) {
      printf("VIOLATION property=%s replay=%s\n  %s: %s\n", primary.c_str(), replay.c_str(), S->monitor, S->text);
      return 1;
    }
    printf(r == kOk ? "no violation\n" : "result %d %s\n", r, S->text);
    return r == kOk ? 0 : 3;
  }
  double t0 = Clock();
  uint64_t runs = 0, foreign = 0;
  std::unordered_set<uint64_t> states;
  bool timeout = false;
  int rc = 0;
  std::string monitor, text, vfile;
  std::vector<std::vector<int>> keep;
  uint64_t stride = 1;
  for (;;) {
    int r = Execute(*u, pos, lim);
    if (r == kViolation) { rc = 1; monitor = S->monitor; text = S->text; break; }
    if (r == kHarness) { rc = 3; text = std::string("harness: ") + S->text; break; }
    if (r == kForeign) foreign++;
    if (r == kOk) {
      states.insert(S->state);
      if (runs % stride == 0) {
        keep.push_back(pos);
        if (keep.size() >= 32) {
          std::vector<std::vector<int>> h;
          for (size_t i = 0; i < keep.size(); i += 2) h.push_back(keep[i]);
          keep.swap(h);
          stride *= 2;
        }
      }
      runs++;
    }
    if (Clock() - t0 > tlimit) { timeout = true; break; }
    while (!pos.empty() && pos.back() + 1 >= lim.back()) { pos.pop_back(); lim.pop_back(); }
    if (pos.empty()) break;
    pos.back()++;
  }
  uint64_t steps = S->steps, accesses = S->accesses;
  auto show = [&](std::vector<int> p) {
    std::vector<int> l(p.size(), -1);
    g_tracing = true;
    int r = Execute(*u, p, l);
    g_tracing = false;
    return r;
  };
  std::vector<std::string> samples;
  if (rc == 1) {
    int r2 = show(pos);
    if (r2 != kViolation) rc = 4;
    vfile = replays + "/" + primary + "-" + name + "-" + std::to_string(getpid()) + ".txt";
    std::ofstream of(vfile);
    of << "# replay with: conc --replay <this file>\nunit " << name << "\ntier " << (g_thorough ? "thorough" : "quick") << "\npicks " << Path(pos) << "\n";
    of << "# " << monitor << ": " << text << "\n# confirmed by re-execution: " << (rc == 1 ? "yes" : "NO") << "\n";
    std::string tr(S->trace, S->trace_len);
    size_t p = 0;
    while (p < tr.size()) {
      size_t q = tr.find('\n', p);
      of << "# " << tr.substr(p, q - p) << "\n";
      p = q + 1;
    }
  } else if (!keep.empty()) {
    for (size_t k : {keep.size() / 2, keep.size() - 1}) {
      show(keep[k]);
      std::string tr(S->trace, std::min<size_t>(S->trace_len, 1200));
      for (auto& ch : tr) if (ch == '\n') ch = ';';
      samples.push_back(tr);
    }
  }
  rusage ru;
  getrusage(RUSAGE_CHILDREN, &ru);
  std::string js = Fmt("{\"unit\": \"%s\", \"shard\": %d, \"shards\": %d, \"states\": %llu, \"transitions\": %llu, \"schedules\": %llu, \"validated\": %llu, \"memory_accesses\": %llu, \"abandoned_paths\": %llu, \"timeout\": %s, \"wall\": %.2f, \"rss_mb\": %.0f, \"rc\": %d, ",
                       name.c_str(), g_shard, g_shards, (unsigned long long)states.size(), (unsigned long long)steps, (unsigned long long)runs, (unsigned long long)runs, (unsigned long long)accesses,
                       (unsigned long long)foreign, timeout ? "true" : "false", Clock() - t0, ru.ru_maxrss / 1024.0, rc);
  js += "\"bounds\": \"" + hx::JsonEsc(u->bounds(g_thorough) + (timeout ? " (time limit reached: not all of it)" : "")) + "\", ";
  js += "\"violation\": \"" + hx::JsonEsc(rc ? text : "") + "\", \"monitor\": \"" + hx::JsonEsc(rc ? monitor : "") + "\", \"replay\": \"" + hx::JsonEsc(vfile) + "\", \"samples\": [";
  for (size_t k = 0; k < samples.size(); k++) js += (k ? ", \"" : "\"") + hx::JsonEsc(samples[k]) + "\"";
  js += "]}";
  if (!out.empty()) {
    std::ofstream of(out);
    of << js << "\n";
  } else {
    printf("%s\n", js.c_str());
  }
  if (rc == 1) printf("VIOLATION property=%s replay=%s\n  %s: %s\n", primary.c_str(), vfile.c_str(), monitor.c_str(), text.c_str());
  return rc;
}

}  // namespace rt

int main(int argc, char** argv) { return rt::Main(argc, argv); }

// ---- what -fsanitize=thread calls
using namespace rt;
#define PC ((uintptr_t)__builtin_return_address(0))
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define ACC(N)                                                               \
  void __tsan_read##N(void* p) { if (Tracked()) Access((uintptr_t)p, N, false, PC); }   \
  void __tsan_write##N(void* p) { if (Tracked()) Access((uintptr_t)p, N, true, PC); }   \
  void __tsan_unaligned_read##N(void* p) { if (Tracked()) Access((uintptr_t)p, N, false, PC); } \
  void __tsan_unaligned_write##N(void* p) { if (Tracked()) Access((uintptr_t)p, N, true, PC); } \
  void __tsan_volatile_read##N(void* p) { if (Tracked()) Access((uintptr_t)p, N, false, PC); }  \
  void __tsan_volatile_write##N(void* p) { if (Tracked()) Access((uintptr_t)p, N, true, PC); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void* p, size_t n) { if (Tracked()) Access((uintptr_t)p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { if (Tracked()) Access((uintptr_t)p, n, true, PC); }
void __tsan_vptr_read(void** p) { if (Tracked()) Access((uintptr_t)p, 8, false, PC); }
void __tsan_vptr_update(void** p, void* v) { if (Tracked() && *p != v) Access((uintptr_t)p, 8, true, PC); }

#define ATOMICS(B, TY)                                                                                         \
  TY __tsan_atomic##B##_load(const volatile TY* p, int mo) {                                                   \
    if (!Tracked()) return __atomic_load_n(p, 5);                                                              \
    In in; AtomicBefore((void*)p, mo, B != 8); return *p; }                                                    \
  void __tsan_atomic##B##_store(volatile TY* p, TY v, int mo) {                                                \
    if (!Tracked()) { __atomic_store_n(p, v, 5); return; }                                                     \
    In in; AtomicBefore((void*)p, mo == 3 ? 6 : mo, true); *p = v; AtomicAfter((void*)p, mo); }                               \
  TY __tsan_atomic##B##_exchange(volatile TY* p, TY v, int mo) {                                               \
    if (!Tracked()) return __atomic_exchange_n(p, v, 5);                                                       \
    In in; AtomicBefore((void*)p, mo, true); TY o = *p; *p = v; AtomicAfter((void*)p, mo); return o; }         \
  int __tsan_atomic##B##_compare_exchange_strong(volatile TY* p, TY* e, TY v, int mo, int fmo) {               \
    if (!Tracked()) return __atomic_compare_exchange_n(p, e, v, 0, 5, 5);                                      \
    In in; AtomicBefore((void*)p, mo, true);                                                                   \
    if (*p == *e) { *p = v; AtomicAfter((void*)p, mo); return 1; }                                             \
    *e = *p; return 0; }                                                                                       \
  int __tsan_atomic##B##_compare_exchange_weak(volatile TY* p, TY* e, TY v, int mo, int fmo) {                 \
    return __tsan_atomic##B##_compare_exchange_strong(p, e, v, mo, fmo); }
#define RMW(B, TY, NAME, OP)                                                                                   \
  TY __tsan_atomic##B##_fetch_##NAME(volatile TY* p, TY v, int mo) {                                           \
    if (!Tracked()) return __atomic_fetch_##NAME(p, v, 5);                                                     \
    In in; AtomicBefore((void*)p, mo, false); TY o = *p; *p = OP; AtomicAfter((void*)p, mo); return o; }
#define ALL(B, TY) ATOMICS(B, TY) RMW(B, TY, add, o + v) RMW(B, TY, sub, o - v) RMW(B, TY, and, o & v) RMW(B, TY, or, o | v) RMW(B, TY, xor, o ^ v)
ALL(8, uint8_t) ALL(16, uint16_t) ALL(32, uint32_t) ALL(64, uint64_t)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(5); }
void __tsan_atomic_signal_fence(int) {}

// ---- locks
#define REAL(NAME) static auto real = (int (*)(void*))dlsym(RTLD_NEXT, #NAME)
#define LOCKFN(NAME, TY, CODE)                        \
  int NAME(TY* m) noexcept {                          \
    if (Tracked()) { In in; CODE; }                   \
    REAL(NAME);                                       \
    return real(m);                                   \
  }
LOCKFN(pthread_mutex_lock, pthread_mutex_t, { Acquire(m, true); return 0; })
LOCKFN(pthread_mutex_trylock, pthread_mutex_t, { return TryAcquire(m, true) ? 0 : EBUSY; })
LOCKFN(pthread_mutex_unlock, pthread_mutex_t, { Release(m); return 0; })
LOCKFN(pthread_rwlock_rdlock, pthread_rwlock_t, { Acquire(m, false); return 0; })
LOCKFN(pthread_rwlock_tryrdlock, pthread_rwlock_t, { return TryAcquire(m, false) ? 0 : EBUSY; })
LOCKFN(pthread_rwlock_wrlock, pthread_rwlock_t, { Acquire(m, true); return 0; })
LOCKFN(pthread_rwlock_trywrlock, pthread_rwlock_t, { return TryAcquire(m, true) ? 0 : EBUSY; })
LOCKFN(pthread_rwlock_unlock, pthread_rwlock_t, { Release(m); return 0; })

int rt_guard_acquire(uint64_t* g) __asm__("__cxa_guard_acquire");
int rt_guard_acquire(uint64_t* g) {
  char* b = reinterpret_cast<char*>(g);
  if (!Tracked()) {
    if (*b) return 0;
    return 1;
  }
  In in;
  while (true) {
    if (b[0]) {
      Join(T[t_id].vc, L(g).W);
      return 0;
    }
    if (L(g).writer == 0) break;
    if (L(g).writer == t_id) Abort("recursive initialisation of a static variable");
    T[t_id].want = wGuard;
    T[t_id].on = g;
    Switch(false);
    T[t_id].want = wNone;
  }
  L(g).writer = t_id;
  return 1;
}
void rt_guard_release(uint64_t* g) __asm__("__cxa_guard_release");
void rt_guard_release(uint64_t* g) {
  char* b = reinterpret_cast<char*>(g);
  b[0] = 1;
  if (!Tracked()) return;
  In in;
  L(g).writer = 0;
  Join(L(g).W, T[t_id].vc);
  // the fast path is an acquire load of the same byte
  Join(A(g).data(), T[t_id].vc);
  T[t_id].vc[t_id]++;
}
void rt_guard_abort(uint64_t* g) __asm__("__cxa_guard_abort");
void rt_guard_abort(uint64_t* g) {
  if (!Tracked()) return;
  In in;
  L(g).writer = 0;
}

// ---- memory
__attribute__((optimize("no-tree-loop-distribute-patterns"))) void* memcpy(void* __restrict d, const void* __restrict s, size_t n) {
  if (n && Tracked()) { Access((uintptr_t)s, n, false, PC); Access((uintptr_t)d, n, true, PC); }
  void* r = d;
  asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  return r;
}
void* memmove(void* d, const void* s, size_t n) {
  if (n && Tracked()) { Access((uintptr_t)s, n, false, PC); Access((uintptr_t)d, n, true, PC); }
  void* r = d;
  if (d <= s || (char*)d >= (const char*)s + n) {
    asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  } else {
    char* dd = (char*)d + n - 1;
    const char* sss = (const char*)s + n - 1;
    asm volatile("std\n\trep movsb\n\tcld" : "+D"(dd), "+S"(sss), "+c"(n) : : "memory");
  }
  return r;
}
void* memset(void* d, int v, size_t n) {
  if (n && Tracked()) Access((uintptr_t)d, n, true, PC);
  void* r = d;
  asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory");
  return r;
}

[[noreturn]] void abort() { rt::Abort("abort() called in library code"); }
[[noreturn]] void __assert_fail(const char* e, const char* file, unsigned line, const char* fn) noexcept {
  rt::Abort("assertion failed: %s at %s:%u", e, file, line);
}
}
void* operator new(size_t n) {
  void* p = malloc(n ? n : 1);
  if (!p) { fprintf(stderr, "harness: out of memory\n"); _exit(3); }
  return p;
}
void* operator new[](size_t n) { return operator new(n); }
// In a scenario thread freed memory is only marked, so that no address is used
// twice and later accesses are seen.
void operator delete(void* p) noexcept {
  if (!p) return;
  if (t_id > 0) {
    if (t_rt == 0) Freed(p, PC);
    return;
  }
  free(p);
}
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
