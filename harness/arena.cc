#include "arena.h"

#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <new>

namespace hx {

int g_arena = -1;
uint64_t g_ver[kMaxArenas];
uint64_t g_ver_counter = 0;
sigjmp_buf g_jmp;
volatile sig_atomic_t g_jmp_armed = 0;
char g_panic_msg[1024];
volatile uint64_t g_progress = 0;

namespace {
constexpr int kClasses = 96;  // 16-byte classes up to 1024, then powers of two
struct Head {
  uint64_t bump;   // offset of first unused byte
  uint64_t live;   // live payload bytes
  uint32_t free_list[kClasses];  // offset of block header, 0 = none
};
struct Blk {
  uint32_t cls;
  uint32_t magic;
  uint32_t next;
  uint32_t size;
};
constexpr uint32_t kAlive = 0xA11C0DEDu, kDead = 0xDEADB10Cu;

inline char* Base(int i) { return reinterpret_cast<char*>(kArenaBase + i * kArenaStride); }
inline Head* H(int i) { return reinterpret_cast<Head*>(Base(i)); }

inline int ClassOf(size_t n) {
  if (n == 0) n = 1;
  if (n <= 1024) return static_cast<int>((n + 15) / 16) - 1;  // 0..63
  int c = 64;
  size_t s = 2048;
  while (s < n) { s <<= 1; c++; }
  return c;
}
inline size_t ClassSize(int c) { return c < 64 ? (c + 1) * 16 : (2048ull << (c - 64)); }

void* ArenaAlloc(int i, size_t n) {
  Head* h = H(i);
  int c = ClassOf(n);
  if (c >= kClasses) Panic("huge allocation of %zu bytes", n);
  uint32_t off = h->free_list[c];
  Blk* b;
  if (off) {
    b = reinterpret_cast<Blk*>(Base(i) + off);
    if (b->magic != kDead) Panic("heap corruption (free list)");
    h->free_list[c] = b->next;
  } else {
    size_t need = sizeof(Blk) + ClassSize(c);
    if (h->bump + need > kArenaSize) Panic("memory exhausted (runaway allocation)");
    b = reinterpret_cast<Blk*>(Base(i) + h->bump);
    h->bump += need;
  }
  b->cls = c;
  b->magic = kAlive;
  b->next = 0;
  b->size = static_cast<uint32_t>(n);
  h->live += n;
  void* p = b + 1;
  memset(p, 0, ClassSize(c));
  return p;
}
void ArenaFree(void* p) {
  uint64_t a = reinterpret_cast<uint64_t>(p);
  int i = static_cast<int>((a - kArenaBase) / kArenaStride);
  Head* h = H(i);
  Blk* b = reinterpret_cast<Blk*>(p) - 1;
  if (b->magic != kAlive) Panic("heap corruption (double or invalid free)");
  b->magic = kDead;
  h->live -= b->size;
  memset(p, 0xDD, ClassSize(b->cls));
  b->next = h->free_list[b->cls];
  h->free_list[b->cls] = static_cast<uint32_t>(reinterpret_cast<char*>(b) - Base(i));
}
}  // namespace

void ArenaInit() {
  void* want = reinterpret_cast<void*>(kArenaBase);
  void* p = mmap(want, kMaxArenas * kArenaStride, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != want) {
    fprintf(stderr, "arena mmap failed\n");
    _exit(3);
  }
  for (int i = 0; i < kMaxArenas; i++) ArenaReset(i);
}
static ImgPtr g_cache[kMaxArenas];
void ArenaReset(int i) {
  memset(Base(i), 0, sizeof(Head));
  H(i)->bump = (sizeof(Head) + 63) / 64 * 64;
  g_ver[i] = ++g_ver_counter;
}
size_t ArenaUsed(int i) { return H(i)->bump; }
size_t ArenaLive(int i) { return H(i)->live; }

ImgPtr ArenaSave(int i) {
  if (g_cache[i] && g_cache[i]->ver == g_ver[i]) return g_cache[i];
  auto img = std::make_shared<Img>();
  img->ver = g_ver[i];
  img->bytes.assign(Base(i), Base(i) + H(i)->bump);
  g_cache[i] = img;
  return img;
}
void ArenaRestore(int i, const ImgPtr& img) {
  if (img->ver == g_ver[i]) return;
  memcpy(Base(i), img->bytes.data(), img->bytes.size());
  g_ver[i] = img->ver;
  g_cache[i] = img;
}

void Panic(const char* fmt, ...) {
  g_arena = -1;
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(g_panic_msg, sizeof(g_panic_msg), fmt, ap);
  va_end(ap);
  if (g_jmp_armed) {
    g_jmp_armed = 0;
    siglongjmp(g_jmp, 1);
  }
  fprintf(stderr, "harness: unguarded panic: %s\n", g_panic_msg);
  _exit(3);
}

static void Handler(int sig) {
  if (sig == SIGVTALRM) {
    static uint64_t last = 0;
    static int same = 0;
    if (!g_jmp_armed) { same = 0; return; }
    if (g_progress == last) {
      if (++same >= 4) {
        same = 0;
        Panic("library call does not terminate (no progress for 4 s of CPU time)");
      }
    } else {
      same = 0;
      last = g_progress;
    }
    return;
  }
  Panic("fatal signal %d (%s) in library code", sig, strsignal(sig));
}

void InstallHandlers() {
  static char stack[1 << 16];
  stack_t ss{};
  ss.ss_sp = stack;
  ss.ss_size = sizeof(stack);
  sigaltstack(&ss, nullptr);
  struct sigaction sa{};
  sa.sa_handler = Handler;
  sa.sa_flags = SA_NODEFER | SA_ONSTACK;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL}) sigaction(s, &sa, nullptr);
  sa.sa_flags = SA_NODEFER | SA_ONSTACK | SA_RESTART;
  sigaction(SIGVTALRM, &sa, nullptr);
  itimerval it{};
  it.it_interval.tv_sec = 1;
  it.it_value.tv_sec = 1;
  setitimer(ITIMER_VIRTUAL, &it, nullptr);
}

}  // namespace hx

// ---- global allocation -----------------------------------------------------
#ifndef __SANITIZE_ADDRESS__  // with the sanitizers their allocator does the watching
void* operator new(size_t n) {
  if (hx::g_arena >= 0) return hx::ArenaAlloc(hx::g_arena, n);
  void* p = malloc(n ? n : 1);
  if (!p) { fprintf(stderr, "harness: out of memory\n"); _exit(3); }
  if (n >= 64 && n <= 2048) memset(p, 0xA5, n);  // library objects: never-written bytes look the same every time
  return p;
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept {
  if (!p) return;
  if (hx::InArena(reinterpret_cast<uint64_t>(p))) hx::ArenaFree(p);
  else free(p);
}
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
#endif

// Function-local statics initialised while a node runs must not live in its arena.
extern "C" {
static int g_guard_saved[64];
static int g_guard_depth = 0;
int __cxa_guard_acquire(uint64_t* g) {
  if (*reinterpret_cast<char*>(g)) return 0;
  if (g_guard_depth < 64) g_guard_saved[g_guard_depth] = hx::g_arena;
  g_guard_depth++;
  hx::g_arena = -1;
  return 1;
}
void __cxa_guard_release(uint64_t* g) {
  *reinterpret_cast<char*>(g) = 1;
  g_guard_depth--;
  if (g_guard_depth < 64) hx::g_arena = g_guard_saved[g_guard_depth];
}
void __cxa_guard_abort(uint64_t*) {
  g_guard_depth--;
  if (g_guard_depth < 64) hx::g_arena = g_guard_saved[g_guard_depth];
}
void abort() { hx::Panic("abort() called in library code"); }
void __assert_fail(const char* e, const char* file, unsigned line, const char* fn) {
  hx::Panic("assertion failed: %s at %s:%u", e, file, line);
}
}
