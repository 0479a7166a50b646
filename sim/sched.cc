#include "sched.hh"
#ifndef SIM_TSAN
void schedRun(const SchedPlan &, const std::vector<std::function<void()>> &f) { for (auto &g : f) g(); }
bool schedAvailable() { return false; }
#else
// The library is compiled with -fsanitize=thread and linked against the hooks
// below instead of the ThreadSanitizer run time: each instrumented access is a
// place where the scheduler may switch threads, and feeds a race detector.
#include <cerrno>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <iostream>
#include <link.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <unordered_map>
bool schedAvailable() { return true; }
namespace {
constexpr int MAXT = 4;
bool active = false;       // threads are being scheduled
int cur = 0;               // the thread that runs
int nThreads = 0;
int baton[MAXT + 1];       // futex words; MAXT: the main thread
bool done[MAXT];
SchedPlan plan;
Rng srng;
uint64_t points = 0, nextSwitch = 0, nSwitch = 0;
size_t listPos = 0;
__thread int self = -1;
pthread_key_t endKey;
std::vector<std::function<void()>> const *fns;

void fwait(int *w) { while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); __atomic_store_n(w, 0, __ATOMIC_RELEASE); }
void fwake(int *w) { __atomic_store_n(w, 1, __ATOMIC_RELEASE); syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
void arm() { // the next switch
  if (plan.list || nSwitch >= plan.maxSwitches) { nextSwitch = UINT64_MAX; return; }
  nextSwitch = points + 1 + srng.below(2 * plan.quantum);
}
void switchTo(int to) {
  int from = cur;
  if (to == from) return;
  nSwitch++;
  simin::noteSwitch((uint32_t)(from << 8 | to), points);
  cur = to;
  int e = errno;
  fwake(&baton[to]);
  fwait(&baton[from]);
  errno = e;
}
int pickOther() {
  int c[MAXT], n = 0;
  for (int i = 0; i < nThreads; i++) if (i != cur && !done[i]) c[n++] = i;
  return n ? c[srng.below(n)] : cur;
}
inline bool on() { return active && self >= 0 && simin::inSim(); }
void point(bool global) {
  points++;
  if (plan.list) {
    if (listPos < plan.switches.size() && points >= (uint64_t)(plan.switches[listPos] / 8)) {
      int to = (int)(plan.switches[listPos++] % 8);
      if (to < nThreads && !done[to]) switchTo(to);
    }
    return;
  }
  if (points >= nextSwitch || (global && plan.globals && nSwitch < plan.maxSwitches && srng.below(plan.globals) == 0)) {
    switchTo(pickOther());
    arm();
  }
}
void forced() { // the running thread cannot go on
  static uint64_t spins = 0;
  if (++spins > 5000000) { simin::giveUp(); }
  for (int k = 1; k < nThreads; k++) { int t = (cur + k) % nThreads; if (!done[t]) { switchTo(t); return; } }
}
// ---------------------------------------------------------------- races
// per byte: low half the threads that wrote it, high half those that read it, since
// the last synchronisation or since it was allocated
struct Range { uintptr_t lo, hi; uint8_t *shadow; };
std::vector<Range> *ranges;
std::vector<std::pair<uintptr_t, uintptr_t>> *dirty; // pages touched
uintptr_t exeBase = 0;
std::unordered_map<uintptr_t, int> *syncs; // address -> thread that released last
std::pair<uintptr_t, uintptr_t> excl[8];
int nExcl = 0;
constexpr uintptr_t ARENA_LO = 0x200000000000ULL, ARENA_HI = ARENA_LO + (64ULL << 30);
constexpr uintptr_t SHOFF = 0x100000000000ULL; // arena shadow
bool raceFound = false;
void initShadow() {
  ranges = new std::vector<Range>;
  syncs = new std::unordered_map<uintptr_t, int>;
  if (mmap((void *)(ARENA_LO - SHOFF), 64ULL << 30, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) == MAP_FAILED) { perror("sim: shadow"); _exit(2); }
  ranges->push_back({ARENA_LO, ARENA_HI, (uint8_t *)(ARENA_LO - SHOFF)});
  dl_iterate_phdr([](struct dl_phdr_info *i, size_t, void *) {
    if (i->dlpi_name && i->dlpi_name[0]) return 0; // the program itself only
    exeBase = i->dlpi_addr;
    for (int k = 0; k < i->dlpi_phnum; k++) {
      auto &h = i->dlpi_phdr[k];
      if (h.p_type != PT_LOAD || !(h.p_flags & PF_W)) continue;
      uintptr_t lo = i->dlpi_addr + h.p_vaddr, hi = lo + h.p_memsz;
      uint8_t *s = (uint8_t *)mmap(nullptr, hi - lo, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      if (s != MAP_FAILED) ranges->push_back({lo, hi, s});
    }
    return 0;
  }, nullptr);
  auto ex = [](auto &o) { excl[nExcl++] = {(uintptr_t)&o, (uintptr_t)&o + sizeof o}; };
  ex(std::cin); ex(std::cout); ex(std::cerr); ex(std::clog);
}
void clearShadow() {
  for (auto &r : *ranges) {
    if (r.lo == ARENA_LO) madvise(r.shadow, 64ULL << 30, MADV_DONTNEED);
    else memset(r.shadow, 0, r.hi - r.lo);
  }
}
bool note(uintptr_t a, size_t n, bool write, void *pc) { // returns whether it is a global
  for (auto &r : *ranges) {
    if (a < r.lo || a + n > r.hi) continue;
    bool g = r.lo != ARENA_LO;
    if (g) for (int k = 0; k < nExcl; k++) if (a < excl[k].second && a + n > excl[k].first) return false;
    uint8_t me = (uint8_t)(1 << self), *s = r.shadow + (a - r.lo);
    for (size_t i = 0; i < n; i++) {
      uint8_t others = write ? (uint8_t)((s[i] & 15) | s[i] >> 4) : (uint8_t)(s[i] & 15);
      if ((others & ~me) && !raceFound) {
        raceFound = true;
        simin::NoSim q;
        int o = __builtin_ctz(others & ~me);
        simin::text(fmt("!race thread %d %s %zu bytes of %s last %s by thread %d, nothing in between orders them; at code offset 0x%llx\n", self, write ? "writes" : "reads", n,
                        g ? fmt("the global at 0x%llx", (unsigned long long)(a - exeBase)).c_str() : "a heap block", (s[i] & 15 & ~me) ? "written" : "read", o, (unsigned long long)((uintptr_t)pc - exeBase)));
      }
      s[i] |= write ? me : (uint8_t)(me << 4);
    }
    return g;
  }
  return false;
}
void released(const void *p) { if (on()) { simin::NoSim q; (*syncs)[(uintptr_t)p] = self; } }
void acquired(const void *p) {
  if (!on()) return;
  simin::NoSim q;
  auto it = syncs->find((uintptr_t)p);
  if (it != syncs->end() && it->second != self) { clearShadow(); it->second = self; }
}
void access(void *p, size_t n, bool write, void *pc) {
  if (!on()) return;
  bool g = note((uintptr_t)p, n, write, pc);
  point(g);
}
void memHook(int kind, const void *p, size_t n) { // allocation and release of blocks
  if (!on()) return;
  if ((kind == 4 || kind == 1) && (uintptr_t)p >= ARENA_LO && (uintptr_t)p + n <= ARENA_HI) memset((void *)((uintptr_t)p - SHOFF), 0, n);
  if (kind != 4) point(false);
}
void threadEnd(void *) { // after the destructors of thread-local objects
  int me = self;
  done[me] = true;
  self = -1;
  for (int i = 0; i < nThreads; i++) if (!done[i]) { simin::noteSwitch((uint32_t)(me << 8 | i), points); cur = i; fwake(&baton[i]); return; }
  fwake(&baton[MAXT]);
}
void *threadMain(void *a) {
  int me = (int)(intptr_t)a;
  fwait(&baton[me]);
  self = me;
  pthread_setspecific(endKey, (void *)1);
  (*fns)[me]();
  return nullptr;
}
} // namespace
void schedRun(const SchedPlan &p, const std::vector<std::function<void()>> &f) {
  pthread_t th[MAXT];
  {
    simin::NoSim q;
    plan = p;
    srng = Rng(p.seed);
    fns = &f;
    nThreads = (int)std::min<size_t>(f.size(), MAXT);
    initShadow();
    pthread_key_create(&endKey, threadEnd);
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 8u << 20);
    for (int i = 0; i < nThreads; i++) if (pthread_create(&th[i], &at, threadMain, (void *)(intptr_t)i)) { perror("sim: pthread_create"); _exit(2); }
    simin::yieldHook = memHook;
    alarm(120);
    active = true;
    arm();
    cur = 0;
  }
  // the simulated heap stays on while the threads run: only one runs at a time
  fwake(&baton[0]);
  fwait(&baton[MAXT]);
  active = false;
  simin::yieldHook = nullptr;
  simin::NoSim q;
  for (int i = 0; i < nThreads; i++) pthread_join(th[i], nullptr);
}
// ---------------------------------------------------------------- hooks of the instrumentation
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) \
  void __tsan_read##n(void *p) { access(p, n, false, PC); } \
  void __tsan_write##n(void *p) { access(p, n, true, PC); } \
  void __tsan_unaligned_read##n(void *p) { access(p, n, false, PC); } \
  void __tsan_unaligned_write##n(void *p) { access(p, n, true, PC); } \
  void __tsan_volatile_read##n(void *p) { access(p, n, false, PC); } \
  void __tsan_volatile_write##n(void *p) { access(p, n, true, PC); } \
  void __tsan_unaligned_volatile_read##n(void *p) { access(p, n, false, PC); } \
  void __tsan_unaligned_volatile_write##n(void *p) { access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { access(p, n, false, PC); }
void __tsan_write_range(void *p, unsigned long n) { access(p, n, true, PC); }
void __tsan_vptr_update(void **p, void *v) { if (*p != v) access(p, 8, true, PC); else if (on()) point(false); }
void __tsan_vptr_read(void **p) { access(p, 8, false, PC); }
#define AT(b, T) \
  T __tsan_atomic##b##_load(const volatile T *a, int) { if (on()) point(true); acquired((const void *)a); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##b##_store(volatile T *a, T v, int) { if (on()) point(true); released((const void *)a); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_exchange(volatile T *a, T v, int) { if (on()) point(true); acquired((const void *)a); released((const void *)a); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_add(volatile T *a, T v, int) { if (on()) point(true); acquired((const void *)a); released((const void *)a); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_sub(volatile T *a, T v, int) { if (on()) point(true); acquired((const void *)a); released((const void *)a); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_and(volatile T *a, T v, int) { if (on()) point(true); acquired((const void *)a); released((const void *)a); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_or(volatile T *a, T v, int) { if (on()) point(true); acquired((const void *)a); released((const void *)a); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_xor(volatile T *a, T v, int) { if (on()) point(true); acquired((const void *)a); released((const void *)a); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_nand(volatile T *a, T v, int) { if (on()) point(true); acquired((const void *)a); released((const void *)a); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { if (on()) point(true); acquired((const void *)a); released((const void *)a); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile T *a, T *c, T v, int f, int g) { return __tsan_atomic##b##_compare_exchange_strong(a, c, v, f, g); } \
  T __tsan_atomic##b##_compare_exchange_val(volatile T *a, T c, T v, int f, int g) { __tsan_atomic##b##_compare_exchange_strong(a, &c, v, f, g); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { if (on()) { simin::NoSim q; clearShadow(); } }
void __tsan_atomic_signal_fence(int) {}
// ---------------------------------------------------------------- locks
static int (*realTry)(pthread_mutex_t *);
static int (*realLock)(pthread_mutex_t *);
static int (*realUnlock)(pthread_mutex_t *);
static void locks() {
  if (realTry) return;
  realLock = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_lock");
  realUnlock = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
  realTry = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_trylock");
}
int pthread_mutex_lock(pthread_mutex_t *m) {
  locks();
  if (!on()) return realLock(m);
  point(true);
  int r;
  while ((r = realTry(m)) == EBUSY) forced();
  if (r == 0) acquired(m);
  return r;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
  locks();
  released(m);
  int r = realUnlock(m);
  if (on()) point(true);
  return r;
}
int pthread_once(pthread_once_t *o, void (*f)()) {
  volatile int *s = (volatile int *)o;
  for (;;) {
    if (*s == 2) { acquired(o); return 0; }
    if (*s == 1) { if (!on()) return 0; forced(); continue; }
    *s = 1;
    try { f(); } catch (...) { *s = 0; throw; }
    released(o);
    *s = 2;
    return 0;
  }
}
// function-local statics
int __cxa_guard_acquire(uint64_t *g) {
  volatile uint8_t *b = (volatile uint8_t *)g;
  for (;;) {
    if (b[0]) { acquired(g); return 0; }
    if (b[1]) { if (!on()) abort(); forced(); continue; }
    b[1] = 1;
    return 1;
  }
}
void __cxa_guard_release(uint64_t *g) { volatile uint8_t *b = (volatile uint8_t *)g; released(g); b[1] = 0; b[0] = 1; }
void __cxa_guard_abort(uint64_t *g) { ((volatile uint8_t *)g)[1] = 0; }
}
#endif
