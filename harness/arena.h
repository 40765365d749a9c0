// Per-node memory arenas and crash containment for the cluster explorer.
#pragma once
#include <csetjmp>
#include <csignal>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <memory>
#include <string>
#include <vector>

namespace hx {

constexpr int kMaxArenas = 6;
constexpr uint64_t kArenaBase = 0x510000000000ull;
constexpr uint64_t kArenaStride = 1ull << 24;  // 16 MB address space each
constexpr uint64_t kArenaSize = 1ull << 22;    // 4 MB usable

// Map the arenas; call once.
void ArenaInit();
// Forget everything in arena i.
void ArenaReset(int i);
// Bytes in use (prefix of the arena that must be saved).
size_t ArenaUsed(int i);
size_t ArenaLive(int i);

// Current allocation target: -1 = malloc.
extern int g_arena;
// Version of each arena: changes whenever it may have been modified.
extern uint64_t g_ver[kMaxArenas];
extern uint64_t g_ver_counter;

struct Img {
  uint64_t ver = 0;
  std::vector<char> bytes;
};
using ImgPtr = std::shared_ptr<const Img>;
ImgPtr ArenaSave(int i);              // reuses the cached image when unchanged
void ArenaRestore(int i, const ImgPtr& img);

inline bool InArena(uint64_t w) {
  return w >= kArenaBase && w < kArenaBase + kMaxArenas * kArenaStride;
}

// RAII: library code for node i runs inside.
struct Enter {
  int saved;
  explicit Enter(int i) : saved(g_arena) {
    g_arena = i;
    if (i >= 0) g_ver[i] = ++g_ver_counter;
  }
  ~Enter() { g_arena = saved; }
};
// Read-only access (arena must not be modified; allocations still go there so
// that temporaries have a home, but they are freed again, so the version stays).
struct Peek {
  int saved;
  explicit Peek(int) : saved(g_arena) { g_arena = -1; }
  ~Peek() { g_arena = saved; }
};

// ---- crash containment -------------------------------------------------
extern sigjmp_buf g_jmp;
extern volatile sig_atomic_t g_jmp_armed;
extern char g_panic_msg[1024];
extern volatile uint64_t g_progress;  // bumped by the harness; hang watchdog
[[noreturn]] void Panic(const char* fmt, ...);
void InstallHandlers();

// Guarded execution: returns true if body ran to completion, false if the
// library aborted (g_panic_msg says how).
template <class F>
bool Guard(F&& body) {
  int saved_arena = g_arena;
  struct Outer {  // may be nested
    int armed = g_jmp_armed;
    sigjmp_buf buf;
    Outer() { memcpy(&buf, &g_jmp, sizeof buf); }
    ~Outer() {
      memcpy(&g_jmp, &buf, sizeof buf);
      g_jmp_armed = armed;
    }
  } outer;
  volatile bool done = false;
  if (sigsetjmp(g_jmp, 0) == 0) {
    g_jmp_armed = 1;
    body();
    done = true;
  } else {
    g_arena = saved_arena;
  }
  return done;
}

}  // namespace hx
