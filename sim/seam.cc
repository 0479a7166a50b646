// The seams: allocator, stdio, files, clock, randomness, exit. See exec.hh.
#include "exec.hh"
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <dlfcn.h>
#include <ext/stdio_sync_filebuf.h>
#include <fcntl.h>
#include <iostream>
#include <sys/mman.h>
#include <sys/random.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>

int monaa_main(int, char **);
int tre2ta_main(int, char **);
extern "C" int ascii2bin_main(int, char **) __attribute__((weak));

uint64_t gRuns = 0, gSimUs = 0;

// ---------------------------------------------------------------- shared record
namespace {
constexpr size_t MAXEV = 400000, MAXOUT = 6u << 20, MAXERR = 1 << 16, MAXANS = 400000, MAXTXT = 16u << 20;
struct Shared {
  uint64_t nEv, nOut, nErr, nAns, nTxt;
  uint64_t nAllocs, live, peak, simUs, nIo, nClock;
  uint64_t oom, rerr, werr, blocks, openErr, switches, shortReads;
  int killed, overflow, hang, heapBad;
  char heapMsg[256];
  Event ev[MAXEV];
  Answer ans[MAXANS];
  char out[MAXOUT];
  char err[MAXERR];
  char txt[MAXTXT];
};
Shared *sh;
volatile int simOn = 0;
const Spec *spec;
MemPlan mp;
bool logTouched = false;
Rng memRng, randRng;

[[noreturn]] void dieNow() { syscall(SYS_kill, getpid(), SIGKILL); for (;;) {} }

void event(uint32_t type, uint32_t a, uint64_t b) {
  if (sh->nEv >= MAXEV) { sh->overflow = 1; dieNow(); }
  sh->ev[sh->nEv++] = Event{type, a, b, (uint32_t)sh->nOut, (uint32_t)sh->nAns, sh->simUs, sh->live};
}
// called at each I/O seam crossing
void ioPoint() {
  long n = (long)++sh->nIo;
  sh->simUs += 1;
  if (spec->killAt >= 0 && n == spec->killAt) {
    event(EV_KILL, (uint32_t)n, 0);
    sh->killed = 1;
    dieNow();
  }
}
} // namespace

void (*simin::yieldHook)(int, const void *, size_t) = nullptr;

// ---------------------------------------------------------------- allocator
extern "C" {
void *__libc_malloc(size_t);
void __libc_free(void *);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
}
namespace {
char *const ARENA = (char *)0x200000000000ULL;
constexpr size_t ARENA_SZ = 64ULL << 30;
char *const GARENA = (char *)0x280000000000ULL; // guarded blocks
constexpr size_t GARENA_SZ = 64ULL << 30;
constexpr size_t NCLS = 80;
constexpr size_t FREEMAX = 8u << 20;            // entries per free list
uint32_t *freeList[NCLS];                        // offsets / 16
size_t fHead[NCLS], fTail[NCLS];
struct Slab { uint64_t off; uint32_t cls, count; };
Slab *slabs;
size_t nSlabs, maxSlabs = 4u << 20;
char *bumpLo, *bumpHi;
size_t clsSize[NCLS];                            // payload capacity
char *gBump;
size_t gLive;
struct Hdr { uint32_t magic; uint16_t cls; uint16_t off16; uint64_t size; };
static_assert(sizeof(Hdr) == 16);
constexpr uint32_t M_LIVE = 0x4c495645, M_FREE = 0x46524545, M_VIRG = 0x56495247;
constexpr uint64_t TAIL = 0xc0ffee11deadbeefULL;
constexpr uint16_t CLS_GUARD = 0xfffe;

uint32_t hmac(const Hdr *h) { return (uint32_t)((uintptr_t)h >> 4) * 2654435761u; }
void heapBad(const char *what, const void *p, size_t sz) {
  if (!sh->heapBad) {
    sh->heapBad = 1;
    snprintf(sh->heapMsg, sizeof sh->heapMsg, "%s (block of %zu bytes)", what, sz);
  }
  (void)p;
}
void arenaInit() {
  size_t s = 16, i = 0;
  for (; i < NCLS; i++) {
    clsSize[i] = s;
    if (s < 256) s += 16; else if (s < 1024) s += 64; else s = s + s / 4 + 15 & ~(size_t)15;
  }
  for (size_t c = 0; c < NCLS; c++)
    freeList[c] = (uint32_t *)mmap(nullptr, FREEMAX * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  slabs = (Slab *)mmap(nullptr, maxSlabs * sizeof(Slab), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  void *a = mmap(ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  void *g = mmap(GARENA, GARENA_SZ, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (a != ARENA || g != GARENA) { fprintf(stderr, "sim: cannot reserve the arena\n"); _exit(2); }
  bumpLo = ARENA; bumpHi = ARENA + ARENA_SZ; gBump = GARENA;
}
inline bool inArena(const void *p) { return (const char *)p >= ARENA && (const char *)p < ARENA + ARENA_SZ; }
inline bool inGuard(const void *p) { return (const char *)p >= GARENA && (const char *)p < GARENA + GARENA_SZ; }
size_t clsOf(size_t n) {
  if (n <= 256) return n ? (n + 15) / 16 - 1 : 0;
  size_t lo = 15, hi = NCLS - 1;
  while (lo < hi) { size_t m = (lo + hi) / 2; if (clsSize[m] >= n) hi = m; else lo = m + 1; }
  return lo;
}
void fillBytes(void *p, size_t n, int mode) {
  switch (mode) {
  case 1: memset(p, 0, n); break;
  case 2: memset(p, 0xa5, n); break;
  case 3: memset(p, 0xff, n); break;
  case 4: { uint64_t *q = (uint64_t *)p; for (size_t i = 0; i < n / 8; i++) q[i] = memRng.next(); break; }
  }
}
inline size_t slotSize(size_t cls) { return sizeof(Hdr) + clsSize[cls] + 16; }
void putFree(size_t c, uint32_t o) {
  if (fTail[c] >= FREEMAX) { // compact
    memmove(freeList[c], freeList[c] + fHead[c], (fTail[c] - fHead[c]) * 4);
    fTail[c] -= fHead[c]; fHead[c] = 0;
    if (fTail[c] >= FREEMAX) return;
  }
  freeList[c][fTail[c]++] = o;
}
char *rawSlot(size_t c) {
  if (fHead[c] == fTail[c]) {
    size_t ss = slotSize(c);
    size_t maxn = ss > 4096 ? 1 : ss > 512 ? 8 : 48;
    size_t n = mp.order == 0 && mp.reuse == 0 ? maxn : 1 + memRng.below(maxn);
    bool top = mp.order == 1 || (mp.order == 2 && memRng.below(2));
    size_t bytes = n * ss;
    char *base;
    if (bumpHi - bumpLo < (long)bytes) return nullptr;
    if (top) { bumpHi -= bytes; base = bumpHi; } else { base = bumpLo; bumpLo += bytes; }
    if (nSlabs < maxSlabs) slabs[nSlabs++] = Slab{(uint64_t)(base - ARENA), (uint32_t)c, (uint32_t)n};
    uint32_t idx[64];
    for (size_t i = 0; i < n; i++) idx[i] = mp.order == 0 ? n - 1 - i : i; // LIFO pops the last
    if (mp.reuse != 0) for (size_t i = 0; i < n / 2; i++) std::swap(idx[i], idx[n - 1 - i]);
    if (mp.order == 2) for (size_t i = n; i > 1; --i) std::swap(idx[i - 1], idx[memRng.below(i)]);
    for (size_t i = 0; i < n; i++) {
      char *p = base + idx[i] * ss;
      ((Hdr *)p)->magic = M_VIRG ^ hmac((Hdr *)p);
      putFree(c, (uint32_t)((p - ARENA) / 16));
    }
  }
  uint32_t o;
  if (mp.reuse == 0) o = freeList[c][--fTail[c]];
  else if (mp.reuse == 2) {
    size_t k = fHead[c] + memRng.below(fTail[c] - fHead[c]);
    o = freeList[c][k];
    freeList[c][k] = freeList[c][--fTail[c]];
  } else o = freeList[c][fHead[c]++];
  return ARENA + (size_t)o * 16;
}
void account(long d) {
  sh->live += d;
  if (sh->live > sh->peak) sh->peak = sh->live;
}
bool oomNow() {
  uint64_t n = ++sh->nAllocs;
  if (n > (logTouched ? spec->maxAllocs : spec->maxPatternAllocs)) { sh->hang = 1; dieNow(); }
  if (mp.failAt > 0 && ((long)n == mp.failAt || (mp.failPersist && (long)n > mp.failAt))) {
    sh->oom++;
    if (sh->oom <= 64) event(EV_OOM, (uint32_t)n, 0);
    errno = ENOMEM;
    return true;
  }
  return false;
}
void *guardAlloc(size_t n, size_t align) {
  size_t a = align > 16 ? align : 16;
  size_t body = (n + a - 1) / a * a;
  size_t pages = (body + sizeof(Hdr) + a + 4095) / 4096;
  if (gBump + (pages + 1) * 4096 > GARENA + GARENA_SZ) return nullptr;
  char *base = gBump;
  if (mprotect(base, pages * 4096, PROT_READ | PROT_WRITE)) return nullptr;
  gBump += (pages + 1) * 4096;
  char *p = base + pages * 4096 - body;
  Hdr *h = (Hdr *)(p - sizeof(Hdr));
  h->magic = M_LIVE ^ hmac(h); h->cls = CLS_GUARD; h->off16 = (uint16_t)pages; h->size = n;
  fillBytes(p, body & ~7UL, mp.fill);
  for (size_t i = n; i < body; i++) p[i] = (char)0x77;
  gLive++;
  return p;
}
void *simAlloc(size_t n, size_t align, bool zero) {
  if (simin::yieldHook) simin::yieldHook(0, nullptr, 0);
  if (n > (1ULL << 34)) { errno = ENOMEM; return nullptr; }
  if (oomNow()) return nullptr;
  if (mp.guard && gLive < 25000 && n < (200u << 20)) {
    void *p = guardAlloc(n, align);
    if (p) { account((long)n); if (zero) memset(p, 0, n); return p; }
  }
  size_t need = align > 16 ? n + align : n;
  size_t c = clsOf(need);
  // beyond what the simulated heap can serve: no verdict
  char *s = clsSize[c] < need ? nullptr : rawSlot(c);
  if (!s) { sh->overflow = 1; dieNow(); }
  Hdr *h0 = (Hdr *)s;
  char *p = s + sizeof(Hdr);
  uint32_t was = h0->magic ^ hmac(h0);
  if (was == M_FREE) {
    if (mp.freeFill) {
      unsigned char pat = mp.freeFill == 1 ? 0xdd : 0x00;
      size_t lim = clsSize[c] < 4096 ? clsSize[c] : 4096;
      for (size_t i = 0; i < lim; i++)
        if ((unsigned char)p[i] != pat) { heapBad("write to a freed block", p, clsSize[c]); break; }
    }
  } else if (was != M_VIRG) heapBad("header of a free block overwritten", p, clsSize[c]);
  fillBytes(p, clsSize[c], mp.fill);
  size_t off = 0;
  if (align > 16) { uintptr_t q = ((uintptr_t)p + align - 1) & ~(uintptr_t)(align - 1); off = q - (uintptr_t)p; }
  h0->magic = M_LIVE ^ hmac(h0); h0->cls = (uint16_t)c; h0->off16 = (uint16_t)(off / 16); h0->size = n;
  if (off) { Hdr *h = (Hdr *)(p + off - sizeof(Hdr)); *h = *h0; h->magic = M_LIVE ^ hmac(h); }
  p += off;
  memcpy(p + n, &TAIL, 8);
  account((long)n);
  if (simin::yieldHook) simin::yieldHook(4, p, n);
  if (zero) memset(p, 0, n);
  return p;
}
void simFree(void *vp) {
  char *p = (char *)vp;
  Hdr *h = (Hdr *)(p - sizeof(Hdr));
  if (simin::yieldHook) simin::yieldHook(1, p, !inGuard(p) && (h->magic ^ hmac(h)) == M_LIVE ? h->size : 0);
  if (inGuard(p)) {
    if ((h->magic ^ hmac(h)) != M_LIVE) { heapBad("free of a bad or freed block", p, 0); return; }
    size_t n = h->size, pages = h->off16;
    char *end = (char *)(((uintptr_t)p + n + 4095) & ~4095UL);
    for (char *q = p + n; q < end && q < p + ((n + 15) & ~15UL); q++)
      if (*q != (char)0x77) { heapBad("write past the end of a block", p, n); break; }
    account(-(long)n);
    gLive--;
    char *e = (char *)(((uintptr_t)p + ((n + 15) & ~15UL) + 4095) & ~4095UL);
    mprotect(e - pages * 4096, pages * 4096, PROT_NONE);
    madvise(e - pages * 4096, pages * 4096, MADV_DONTNEED);
    return;
  }
  if ((h->magic ^ hmac(h)) != M_LIVE) { heapBad("free of a bad or freed block", p, 0); return; }
  uint64_t t;
  memcpy(&t, p + h->size, 8);
  if (t != TAIL) heapBad("write past the end of a block", p, h->size);
  account(-(long)h->size);
  size_t c = h->cls, off = (size_t)h->off16 * 16;
  char *s = p - off - sizeof(Hdr);
  Hdr *h0 = (Hdr *)s;
  h->magic = M_FREE ^ hmac(h);
  h0->magic = M_FREE ^ hmac(h0);
  if (mp.freeFill) memset(s + sizeof(Hdr), mp.freeFill == 1 ? 0xdd : 0, clsSize[c]);
  if (mp.reuse != 3) putFree(c, (uint32_t)((s - ARENA) / 16));
}
void heapFinalCheck() {
  for (size_t i = 0; i < nSlabs; i++)
    for (size_t k = 0; k < slabs[i].count; k++) {
      char *s = ARENA + slabs[i].off + k * slotSize(slabs[i].cls);
      Hdr *h = (Hdr *)s;
      uint32_t m = h->magic ^ hmac(h);
      if (m == M_LIVE && h->cls == slabs[i].cls && h->off16 == 0) {
        uint64_t t;
        memcpy(&t, s + sizeof(Hdr) + h->size, 8);
        if (t != TAIL) heapBad("write past the end of a block", s, h->size);
      } else if (m != M_LIVE && m != M_FREE && m != M_VIRG) heapBad("block header overwritten", s, clsSize[slabs[i].cls]);
    }
}
} // namespace
extern "C" {
void *malloc(size_t n) { return simOn ? simAlloc(n, 16, false) : __libc_malloc(n); }
void *calloc(size_t a, size_t b) {
  if (!simOn) return __libc_calloc(a, b);
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
  return simAlloc(n, 16, true);
}
void free(void *p) {
  if (!p) return;
  if (inArena(p) || inGuard(p)) simFree(p);
  else __libc_free(p);
}
void *realloc(void *p, size_t n) {
  if (p && !inArena(p) && !inGuard(p)) return __libc_realloc(p, n);
  if (!p) return malloc(n);
  if (n == 0) { free(p); return nullptr; }
  size_t old = ((Hdr *)((char *)p - sizeof(Hdr)))->size;
  void *q = simAlloc(n, 16, false);
  if (!q) return nullptr;
  memcpy(q, p, old < n ? old : n);
  simFree(p);
  return q;
}
void *memalign(size_t a, size_t n) { return simOn ? simAlloc(n, a, false) : __libc_memalign(a, n); }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **r, size_t a, size_t n) {
  void *p = memalign(a, n);
  if (!p) return ENOMEM;
  *r = p;
  return 0;
}
size_t malloc_usable_size(void *p) {
  if (!p) return 0;
  if (inArena(p) || inGuard(p)) return ((Hdr *)((char *)p - sizeof(Hdr)))->size;
  return 0;
}
}

// ---------------------------------------------------------------- streams
namespace {
struct LogState {
  const ReadPlan *plan;
  size_t pos = 0;       // bytes handed to the program
  size_t avail = 0;     // bytes delivered by the producer
  size_t chunk = 0;
  bool errDone = false, eof = false;
  uint32_t id = 0;
};
ssize_t logRead(void *c, char *buf, size_t n) {
  LogState *s = (LogState *)c;
  if (simin::yieldHook) simin::yieldHook(2, nullptr, 0);
  ioPoint();
  const ReadPlan &p = *s->plan;
  logTouched = true;
  if (n == 0) return 0;
  if (p.errAt >= 0 && (long)s->pos >= p.errAt && !(p.errTransient && s->errDone)) {
    s->errDone = true;
    sh->rerr++;
    event(EV_RERR, s->id, s->pos);
    errno = p.errNo;
    return -1;
  }
  if (s->pos == s->avail) {
    event(EV_BLOCK, s->id, s->pos);
    sh->blocks++;
    if (s->avail >= p.bytes.size()) {
      event(EV_EOF, s->id, s->pos);
      return 0;
    }
    size_t len = p.bytes.size() - s->avail;
    if (s->chunk < p.chunks.size()) {
      if (p.chunks[s->chunk].len < len) len = p.chunks[s->chunk].len ? p.chunks[s->chunk].len : 1;
      sh->simUs += p.chunks[s->chunk].delayUs;
      s->chunk++;
    }
    s->avail += len;
  }
  size_t k = s->avail - s->pos;
  if (k > n) k = n;
  if (p.errAt >= 0 && !(p.errTransient && s->errDone) && (long)(s->pos + k) > p.errAt) k = p.errAt - s->pos;
  memcpy(buf, p.bytes.data() + s->pos, k);
  s->pos += k;
  if (k < n) sh->shortReads++;
  event(EV_READ, (uint32_t)k, s->pos);
  return (ssize_t)k;
}
LogState mainLog;
bool outFailed = false;
ssize_t outWrite(void *, const char *buf, size_t n) {
  if (simin::yieldHook) simin::yieldHook(3, nullptr, 0);
  ioPoint();
  const WritePlan &w = spec->out;
  size_t k = n;
  bool fail = false;
  if (w.limit >= 0 && !(w.transient && outFailed)) {
    long room = w.limit - (long)sh->nOut;
    if (outFailed) room = 0;
    if (room < 0) room = 0;
    if ((long)k > room) { k = room; fail = true; }
  }
  if (sh->nOut + k > MAXOUT) { sh->overflow = 1; dieNow(); }
  memcpy(sh->out + sh->nOut, buf, k);
  sh->nOut += k;
  if (k) event(EV_WRITE, (uint32_t)k, sh->nOut);
  if (fail) {
    outFailed = true;
    sh->werr++;
    if (sh->werr <= 64) event(EV_WERR, (uint32_t)(n - k), sh->nOut);
    errno = w.errNo;
    return k ? (ssize_t)k : 0; // fewer than n: the stream records the error
  }
  return (ssize_t)k;
}
ssize_t errWrite(void *, const char *buf, size_t n) {
  size_t k = n;
  if (sh->nErr + k > MAXERR) k = MAXERR - sh->nErr;
  memcpy(sh->err + sh->nErr, buf, k);
  sh->nErr += k;
  return (ssize_t)n;
}
FILE *makeLog(LogState *s, int buf) {
  cookie_io_functions_t io{};
  io.read = logRead;
  FILE *f = fopencookie(s, "r", io);
  if (!f) return nullptr;
  if (buf == 0) setvbuf(f, nullptr, _IONBF, 0);
  else {
    int sv = simOn;
    simOn = 0;
    char *b = (char *)__libc_malloc(buf);
    simOn = sv;
    setvbuf(f, b, _IOFBF, buf);
  }
  return f;
}
// files other than the log
struct FdState { const VFile *f = nullptr; size_t pos = 0, step = 0; FILE *fp = nullptr; bool failed = false; };
FdState fds[1024];
std::map<std::string, int> *fileFd; // path -> memfd (made in the parent)
const VFile *made[16]; // files made during the run
int nMade;
bool isMade(const VFile *f) { for (int k = 0; k < nMade; k++) if (made[k] == f) return true; return false; }
FILE *(*real_fopen)(const char *, const char *);
int (*real_fclose)(FILE *);
ssize_t (*real_read)(int, void *, size_t);
ssize_t (*real_write)(int, const void *, size_t);
ssize_t (*real_writev)(int, const struct iovec *, int);
int (*real_open)(const char *, int, ...);

ssize_t simFdWrite(FdState &s, int fd, const void *b, size_t n);
// files of a program that uses stdio: glibc reads and writes below the symbols we define
ssize_t cookieWrite(void *c, const char *buf, size_t n) {
  int fd = (int)(intptr_t)c;
  size_t k = 0;
  while (k < n) { // like _IO_new_file_write
    ssize_t r = simFdWrite(fds[fd], fd, buf + k, n - k);
    if (r <= 0) break;
    k += r;
  }
  return (ssize_t)k;
}
int cookieClose(void *c) {
  int fd = (int)(intptr_t)c, err = fds[fd].f ? fds[fd].f->closeErr : 0;
  fds[fd] = FdState{};
  syscall(SYS_close, fd);
  if (!err) return 0;
  event(EV_CLOSEERR, err, 0);
  sh->werr++;
  errno = err;
  return -1;
}
FILE *simFopen(const char *path, const char *mode) {
  if (simin::yieldHook) simin::yieldHook(2, nullptr, 0);
  ioPoint();
  bool wr = mode[0] != 'r' || strchr(mode, '+');
  if (!spec->logName.empty() && spec->logName == path && !wr) {
    if (spec->logOpenErr) {
      sh->openErr++;
      event(EV_OPENERR, spec->logOpenErr, 0);
      errno = spec->logOpenErr;
      return nullptr;
    }
    event(EV_OPEN, 0, 0);
    return makeLog(&mainLog, spec->inBuf);
  }
  auto it = spec->files.find(path);
  if (it == spec->files.end() || (wr && !it->second.writable)) {
    event(EV_OPENERR, it == spec->files.end() ? ENOENT : EACCES, 0);
    errno = it == spec->files.end() ? ENOENT : EACCES;
    return nullptr;
  }
  if (it->second.openErr) {
    sh->openErr++;
    event(EV_OPENERR, it->second.openErr, 0);
    errno = it->second.openErr;
    return nullptr;
  }
  if (!it->second.exists && !isMade(&it->second)) {
    if (mode[0] == 'r') { event(EV_OPENERR, ENOENT, 0); errno = ENOENT; return nullptr; }
    if (nMade < 16) made[nMade++] = &it->second;
  } else if (mode[0] != 'r' && strchr(mode, 'x')) { event(EV_OPENERR, EEXIST, 0); errno = EEXIST; return nullptr; }
  int fd = dup(fileFd->at(path));
  if (fd < 0 || fd >= 1024) return nullptr;
  FILE *fp;
  if (spec->prog == Prog::Ascii2bin) {
    cookie_io_functions_t io{};
    io.write = cookieWrite;
    io.close = cookieClose;
    fp = fopencookie((void *)(intptr_t)fd, "w", io);
  } else fp = fdopen(fd, !wr ? "r" : strchr(mode, '+') ? "r+" : "w");
  if (!fp) { syscall(SYS_close, fd); return nullptr; }
  size_t start = 0;
  if (mode[0] == 'w' && ftruncate(fd, 0)) return nullptr;
  if (mode[0] == 'a') { off_t n = lseek(fd, 0, SEEK_END); start = n > 0 ? n : 0; }
  fds[fd] = FdState{&it->second, start, 0, fp, false};
  event(EV_OPEN, 1, 0);
  return fp;
}
} // namespace

extern "C" {
FILE *fopen(const char *p, const char *m) { return simOn ? simFopen(p, m) : real_fopen ? real_fopen(p, m) : ((FILE * (*)(const char *, const char *)) dlsym(RTLD_NEXT, "fopen"))(p, m); }
FILE *fopen64(const char *p, const char *m) { return fopen(p, m); }
int fclose(FILE *f) {
  if (!real_fclose) real_fclose = (int (*)(FILE *))dlsym(RTLD_NEXT, "fclose");
  if (!simOn) return real_fclose(f);
  ioPoint();
  int fd = fileno(f);
  int err = 0;
  if (fd >= 0 && fd < 1024 && fds[fd].f && fds[fd].fp == f) { err = fds[fd].f->closeErr; fds[fd] = FdState{}; }
  int r = real_fclose(f);
  event(EV_CLOSE, 0, 0);
  if (err) { event(EV_CLOSEERR, err, 0); sh->werr++; errno = err; return EOF; }
  return r;
}
ssize_t read(int fd, void *b, size_t n) {
  if (!real_read) real_read = (ssize_t(*)(int, void *, size_t))dlsym(RTLD_NEXT, "read");
  if (!simOn || fd < 0 || fd >= 1024 || !fds[fd].f) return real_read(fd, b, n);
  ioPoint();
  FdState &s = fds[fd];
  if (s.f->errAt >= 0 && (long)s.pos >= s.f->errAt) {
    sh->rerr++;
    event(EV_FRERR, s.f->errNo, s.pos);
    errno = s.f->errNo;
    return -1;
  }
  size_t k = n;
  if (!s.f->readChunks.empty()) {
    size_t lim = s.f->readChunks[std::min(s.step, s.f->readChunks.size() - 1)];
    s.step++;
    if (k > lim && lim > 0) { k = lim; sh->shortReads++; }
  }
  if (s.f->errAt >= 0 && (long)(s.pos + k) > s.f->errAt) k = s.f->errAt - s.pos;
  ssize_t r = pread(fd, b, k, s.pos);
  if (r > 0) s.pos += r;
  event(r ? EV_FREAD : EV_FEOF, (uint32_t)r, s.pos);
  return r;
}
} // extern
namespace {
ssize_t simFdWrite(FdState &s, int fd, const void *b, size_t n) {
  ioPoint();
  size_t k = n;
  if (!s.f->writeChunks.empty()) {
    size_t lim = s.f->writeChunks[std::min(s.step, s.f->writeChunks.size() - 1)];
    s.step++;
    if (k > lim && lim > 0) k = lim;
  }
  if (s.f->wLimit >= 0) {
    long room = s.f->wLimit - (long)s.pos;
    if (s.failed || room <= 0) {
      if (n == 0) return 0;
      s.failed = true;
      sh->werr++;
      if (sh->werr <= 64) event(EV_FWERR, s.f->wErrNo, s.pos);
      errno = s.f->wErrNo;
      return -1;
    }
    if ((long)k > room) k = room;
  }
  ssize_t r = pwrite(fd, b, k, s.pos);
  if (r > 0) s.pos += r;
  event(EV_FWRITE, (uint32_t)r, s.pos);
  return r;
}
} // namespace
extern "C" {
off_t lseek(int fd, off_t off, int wh) {
  if (!simOn || fd < 0 || fd >= 1024 || !fds[fd].f) return (off_t)syscall(SYS_lseek, fd, off, wh);
  FdState &s = fds[fd];
  off_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (off_t)s.pos : (off_t)syscall(SYS_lseek, fd, 0, SEEK_END);
  if (base + off < 0) { errno = EINVAL; return -1; }
  s.pos = base + off;
  return s.pos;
}
off64_t lseek64(int fd, off64_t off, int wh) { return lseek(fd, off, wh); }
ssize_t write(int fd, const void *b, size_t n) {
  if (!real_write) real_write = (ssize_t(*)(int, const void *, size_t))dlsym(RTLD_NEXT, "write");
  if (!simOn || fd < 0 || fd >= 1024 || !fds[fd].f) return real_write(fd, b, n);
  return simFdWrite(fds[fd], fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (!real_writev) real_writev = (ssize_t(*)(int, const struct iovec *, int))dlsym(RTLD_NEXT, "writev");
  if (!simOn || fd < 0 || fd >= 1024 || !fds[fd].f) return real_writev(fd, v, c);
  ssize_t tot = 0;
  for (int i = 0; i < c; i++) {
    if (v[i].iov_len == 0) continue;
    ssize_t r = simFdWrite(fds[fd], fd, v[i].iov_base, v[i].iov_len);
    if (r < 0) return tot ? tot : -1;
    tot += r;
    if ((size_t)r < v[i].iov_len) break;
  }
  return tot;
}
// no other way to the real file system from inside a simulated execution
int open(const char *p, int fl, ...) {
  va_list ap;
  va_start(ap, fl);
  int m = va_arg(ap, int);
  va_end(ap);
  if (simOn) { errno = ENOENT; return -1; }
  return (int)syscall(SYS_openat, AT_FDCWD, p, fl, m);
}
int open64(const char *p, int fl, ...) {
  va_list ap;
  va_start(ap, fl);
  int m = va_arg(ap, int);
  va_end(ap);
  if (simOn) { errno = ENOENT; return -1; }
  return (int)syscall(SYS_openat, AT_FDCWD, p, fl, m);
}
int unlink(const char *p) { if (simOn) { errno = EPERM; return -1; } return (int)syscall(SYS_unlink, p); }
int remove(const char *p) { if (simOn) { errno = EPERM; return -1; } return (int)syscall(SYS_unlink, p); }
int rename(const char *a, const char *b) { if (simOn) { errno = EPERM; return -1; } return (int)syscall(SYS_rename, a, b); }
int system(const char *) { errno = EPERM; return -1; }
// clocks and randomness
int clock_gettime(clockid_t c, struct timespec *ts) {
  if (!simOn) return (int)syscall(SYS_clock_gettime, c, ts);
  sh->nClock++;
  uint64_t us = 1700000000000000ULL + sh->simUs;
  ts->tv_sec = us / 1000000;
  ts->tv_nsec = us % 1000000 * 1000;
  return 0;
}
int gettimeofday(struct timeval *tv, void *) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
time_t time(time_t *t) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}
ssize_t getrandom(void *b, size_t n, unsigned fl) {
  if (!simOn) return syscall(SYS_getrandom, b, n, fl);
  for (size_t i = 0; i < n; i++) ((char *)b)[i] = (char)randRng.next();
  return (ssize_t)n;
}
int getentropy(void *b, size_t n) { return getrandom(b, n, 0) == (ssize_t)n ? 0 : -1; }
}

// ---------------------------------------------------------------- simin
namespace simin {
NoSim::NoSim() : saved(simOn) { simOn = 0; }
NoSim::~NoSim() { simOn = saved; }
FILE *logFile() { return makeLog(&mainLog, spec->inBuf); }
FILE *openLog(const ReadPlan &p, int buf) {
  static uint32_t ids = 0;
  LogState *s;
  { NoSim g; s = new LogState; s->plan = &p; s->id = ++ids; }
  return makeLog(s, buf);
}
void answer(const double v[6], const uint8_t s[6], int tag) {
  if (sh->nAns >= MAXANS) { sh->overflow = 1; dieNow(); }
  Answer &a = sh->ans[sh->nAns++];
  memcpy(a.v, v, sizeof a.v);
  memcpy(a.s, s, sizeof a.s);
  a.tag = (int16_t)tag;
}
void text(const std::string &s) {
  if (sh->nTxt + s.size() > MAXTXT) { sh->overflow = 1; dieNow(); }
  memcpy(sh->txt + sh->nTxt, s.data(), s.size());
  sh->nTxt += s.size();
}
void mark(uint32_t a, uint64_t b) { event(EV_MARK, a, b); }
uint64_t live() { return sh->live; }
void preparing() { logTouched = false; }
bool inSim() { return simOn; }
void giveUp() { sh->hang = 1; dieNow(); }
void noteSwitch(uint32_t from, uint64_t to) { sh->switches++; if (sh->nEv < MAXEV - 1000) event(EV_SWITCH, from, to); }
void setMem(const MemPlan &m) { long base = (long)sh->nAllocs; mp = m; if (mp.failAt > 0) mp.failAt += base; memRng = Rng(m.seed); }
}

// ---------------------------------------------------------------- run
void simInit() {
  if (sh) return;
  real_fopen = (FILE * (*)(const char *, const char *)) dlsym(RTLD_NEXT, "fopen");
  real_fclose = (int (*)(FILE *))dlsym(RTLD_NEXT, "fclose");
  real_read = (ssize_t(*)(int, void *, size_t))dlsym(RTLD_NEXT, "read");
  real_write = (ssize_t(*)(int, const void *, size_t))dlsym(RTLD_NEXT, "write");
  real_writev = (ssize_t(*)(int, const struct iovec *, int))dlsym(RTLD_NEXT, "writev");
  void *m = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (m == MAP_FAILED) { perror("sim: mmap"); _exit(2); }
  sh = (Shared *)m;
  arenaInit();
  fileFd = new std::map<std::string, int>;
}
namespace {
__attribute__((noinline)) void dirtyStack(int mode, uint64_t seed) {
  volatile char buf[192 << 10];
  Rng r(seed);
  for (size_t i = 0; i < sizeof buf; i++)
    buf[i] = mode == 0 || mode == 1 ? 0 : mode == 2 ? (char)0xa5 : mode == 3 ? (char)0xff : (char)r.next();
}
[[noreturn]] void child(const Spec &s) {
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  rl.rlim_cur = s.cpuSec;
  rl.rlim_max = s.cpuSec + 2;
  setrlimit(RLIMIT_CPU, &rl);
  signal(SIGPIPE, SIG_IGN);
  int nul = (int)syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR);
  dup2(nul, 0); dup2(nul, 1); dup2(nul, 2);
  spec = &s;
  mp = s.mem;
  memRng = Rng(s.mem.seed);
  randRng = Rng(s.mem.seed ^ 0x77);
  mainLog.plan = &s.log;
  cookie_io_functions_t wio{};
  wio.write = outWrite;
  FILE *o = fopencookie(nullptr, "w", wio);
  cookie_io_functions_t eio{};
  eio.write = errWrite;
  FILE *e = fopencookie(nullptr, "w", eio);
  setvbuf(e, nullptr, _IONBF, 0);
  if (s.outBuf == 0) setvbuf(o, nullptr, _IONBF, 0);
  else setvbuf(o, (char *)malloc(s.outBuf < 0 ? 1024 : s.outBuf), s.outBuf < 0 ? _IOLBF : _IOFBF, s.outBuf < 0 ? 1024 : s.outBuf);
  stdout = o;
  stderr = e;
  if (s.logName.empty() && s.prog != Prog::Lib) stdin = makeLog(&mainLog, s.inBuf);
  else { static ReadPlan none; static LogState ls; ls.plan = &none; stdin = makeLog(&ls, 64); }
  std::cout.rdbuf(new __gnu_cxx::stdio_sync_filebuf<char>(stdout));
  std::cerr.rdbuf(new __gnu_cxx::stdio_sync_filebuf<char>(stderr));
  std::clog.rdbuf(new __gnu_cxx::stdio_sync_filebuf<char>(stderr));
  std::cin.rdbuf(new __gnu_cxx::stdio_sync_filebuf<char>(stdin));
  std::vector<std::string> av{s.prog == Prog::Tre2ta ? "tre2ta" : s.prog == Prog::Ascii2bin ? "ascii2bin" : "monaa"};
  for (auto &a : s.argv) av.push_back(a);
  std::vector<char *> cv;
  for (auto &a : av) cv.push_back(&a[0]);
  cv.push_back(nullptr);
  dirtyStack(s.mem.fill, s.mem.seed);
  int rc = 0;
  simOn = 1;
#ifdef SIM_TSAN
  s.lib();
#else
  if (s.prog == Prog::Monaa) rc = monaa_main((int)av.size(), cv.data());
  else if (s.prog == Prog::Tre2ta) rc = tre2ta_main((int)av.size(), cv.data());
  else if (s.prog == Prog::Ascii2bin) rc = ascii2bin_main ? ascii2bin_main((int)av.size(), cv.data()) : 127;
  else s.lib();
#endif
  exit(rc);
}
void atExitCheck() { if (simOn && sh) heapFinalCheck(); }
struct RegisterCheck { RegisterCheck() { } } rc_;
} // namespace

const char *evName(int t) {
  static const char *n[] = {"?", "read", "block", "read-error", "eof", "write", "write-error", "alloc-fail", "open", "open-error",
                            "kill", "file-read", "file-read-error", "file-eof", "file-write", "file-write-error", "close", "close-error", "switch", "mark"};
  return t >= 0 && t < (int)(sizeof n / sizeof *n) ? n[t] : "?";
}

RunResult simRun(const Spec &s) {
  simInit();
  static bool reg = false;
  if (!reg) { reg = true; atexit(atExitCheck); }
  memset(sh, 0, offsetof(Shared, ev));
  for (auto &kv : s.files) {
    int fd = (int)syscall(SYS_memfd_create, "vfile", 0);
    if (fd < 0) { perror("sim: memfd"); _exit(2); }
    size_t off = 0;
    if (kv.second.exists)
      while (off < kv.second.content.size()) {
        ssize_t k = pwrite(fd, kv.second.content.data() + off, kv.second.content.size() - off, off);
        if (k <= 0) break;
        off += k;
      }
    (*fileFd)[kv.first] = fd;
  }
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) { perror("sim: fork"); _exit(2); }
  if (pid == 0) child(s);
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  RunResult r;
  r.killed = sh->killed;
  r.overflow = sh->overflow;
  if (WIFSIGNALED(st)) {
    r.signaled = true;
    r.sig = WTERMSIG(st);
    if (r.sig == SIGXCPU || r.sig == SIGALRM || sh->hang) r.hang = true;
    else if (r.sig == SIGKILL && !sh->killed && !sh->overflow) r.hang = true; // hard CPU limit
  } else r.code = WEXITSTATUS(st);
  r.out.assign(sh->out, sh->nOut);
  r.err.assign(sh->err, sh->nErr);
  r.events.assign(sh->ev, sh->ev + sh->nEv);
  r.answers.assign(sh->ans, sh->ans + sh->nAns);
  r.libText.assign(sh->txt, sh->nTxt);
  r.nAllocs = sh->nAllocs;
  r.peakLive = sh->peak;
  r.endLive = sh->live;
  r.simUs = sh->simUs;
  r.nIo = sh->nIo;
  r.nClockReads = sh->nClock;
  r.heapBad = sh->heapBad;
  r.heapMsg = sh->heapMsg;
  r.oomInjected = sh->oom; r.rerrInjected = sh->rerr; r.werrInjected = sh->werr; r.blocks = sh->blocks;
  r.openErrInjected = sh->openErr; r.switches = sh->switches; r.shortReads = sh->shortReads;
  uint64_t h = 1, h2 = 1;
  for (auto &e : r.events) {
    h = mix64(h ^ e.type); h = mix64(h ^ e.a); h = mix64(h ^ e.b); h = mix64(h ^ e.out); h = mix64(h ^ e.ans); h = mix64(h ^ e.t); h = mix64(h ^ e.live);
    h2 = mix64(h2 ^ e.type);
    if (e.type == EV_SWITCH) h2 = mix64(mix64(h2 ^ e.a) ^ e.b);
  }
  h = hashStr(r.out, h); h = hashStr(r.err, h); h = hashStr(r.libText, h);
  h = mix64(h ^ r.code); h = mix64(h ^ r.sig); h = mix64(h ^ r.nAllocs); h = mix64(h ^ r.peakLive);
  for (auto &a : r.answers) h = hashStr(std::string((const char *)&a, offsetof(Answer, tag)), h);
  if (r.hang) h = h2 = 4; // where it was stopped is not part of what is compared
  r.evHash = h;
  r.shapeHash = h2;
  for (auto &kv : s.files) {
    int fd = (*fileFd)[kv.first];
    if (kv.second.writable) {
      off_t n = lseek(fd, 0, SEEK_END);
      std::string c(n > 0 ? n : 0, 0);
      if (n > 0 && pread(fd, &c[0], n, 0) != n) c.clear();
      r.written[kv.first] = c;
    }
    syscall(SYS_close, fd);
  }
  fileFd->clear();
  gRuns++;
  gSimUs += r.simUs;
  return r;
}
std::string RunResult::describe() const {
  std::string s;
  if (hang) s = "did not finish within the bound";
  else if (killed) s = "killed by the simulator";
  else if (signaled) s = fmt("ended by signal %d", sig);
  else s = fmt("exit status %d", code);
  s += fmt(", %zu bytes of report, stderr \"%s\"", out.size(), esc(err, 200).c_str());
  if (heapBad) s += ", heap: " + heapMsg;
  return s;
}
