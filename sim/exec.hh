// One simulated execution: the real program runs in a forked child of this
// process with every outside interaction behind seams that the Spec decides.
#pragma once
#include <functional>
#include <map>
#include <string>
#include <vector>
#include "util.hh"

struct Chunk { uint32_t len; uint32_t delayUs; };

// What the log producer does.
struct ReadPlan {
  std::string bytes;
  std::vector<Chunk> chunks;   // division of bytes into deliveries (empty or short: the rest in one)
  long errAt = -1;             // byte offset at which reading fails (-1: never)
  int errNo = 5;
  bool errTransient = false;   // a later read succeeds again
};
// What the consumer of the report does.
struct WritePlan {
  long limit = -1;             // bytes accepted before failure (-1: unlimited)
  int errNo = 28;
  bool transient = false;      // only one write fails
};
// What the allocator does.
struct MemPlan {
  uint8_t order = 0;           // fresh slots: 0 ascending, 1 descending, 2 random
  uint8_t reuse = 0;           // freed slots: 0 LIFO, 1 FIFO, 2 random, 3 never
  uint8_t fill = 0;            // fresh memory: 0 leave, 1 zeros, 2 0xa5, 3 0xff, 4 random
  uint8_t freeFill = 0;        // freed memory: 0 leave, 1 0xdd, 2 0x00
  uint8_t guard = 0;           // 1: every block ends at an inaccessible page
  uint64_t seed = 1;
  long failAt = -1;            // the failAt-th allocation fails (1-based)
  bool failPersist = false;    // and all the later ones
};
// Files other than the log.
struct VFile {
  std::string content;
  int openErr = 0;             // errno of open (0: opens)
  long errAt = -1;             // read error at offset
  int errNo = 5;
  std::vector<uint32_t> readChunks;  // short reads (the last one repeats)
  bool writable = false;
  bool exists = true;          // a writable file: whether it is there before the run, with the content
  long wLimit = -1;            // write failure after that many bytes
  int wErrNo = 28;
  std::vector<uint32_t> writeChunks; // short writes (the last one repeats)
  int closeErr = 0;
};
enum class Prog { Monaa, Tre2ta, Lib, Ascii2bin };
struct Spec {
  Prog prog = Prog::Monaa;
  std::vector<std::string> argv;             // without argv[0]
  ReadPlan log;
  std::string logName;                       // "" : the log is standard input
  int logOpenErr = 0;
  WritePlan out;
  MemPlan mem;
  std::map<std::string, VFile> files;
  int inBuf = 4096;                          // stdio buffer of the log, 0: unbuffered
  int outBuf = 4096;                         // stdio buffer of stdout, 0: unbuffered, -1: line buffered
  long killAt = -1;                          // killed at the n-th I/O seam event
  std::function<void()> lib;                 // Prog::Lib
  int cpuSec = 30;
  uint64_t maxPatternAllocs = 3000000;       // the same before the first read of the log
  uint64_t maxAllocs = 3000000;              // deterministic bound on the length of a run
};
enum EvType : uint8_t { EV_READ = 1, EV_BLOCK, EV_RERR, EV_EOF, EV_WRITE, EV_WERR, EV_OOM, EV_OPEN, EV_OPENERR,
                        EV_KILL, EV_FREAD, EV_FRERR, EV_FEOF, EV_FWRITE, EV_FWERR, EV_CLOSE, EV_CLOSEERR, EV_SWITCH, EV_MARK };
const char *evName(int);
struct Event {
  uint32_t type, a;   // a: bytes moved / stream or thread id
  uint64_t b;         // log bytes delivered so far (reads), offset (writes)
  uint32_t out, ans;  // bytes of report accepted, answers handed over so far
  uint64_t t, live;   // simulated time (us), bytes allocated
};
// An answer handed over by the library, as raw bounds
struct Answer { double v[6]; uint8_t s[6]; int16_t tag; };

struct RunResult {
  bool signaled = false;
  int sig = 0;
  int code = -1;
  bool hang = false;          // exceeded the CPU or allocation bound
  bool killed = false;        // by the simulated crash
  bool overflow = false;      // recording space exhausted: no verdict
  std::string out, err;
  std::vector<Event> events;
  std::vector<Answer> answers;
  uint64_t evHash = 0;        // hash of everything observable, in order
  uint64_t shapeHash = 0;     // hash of event types only
  uint64_t nAllocs = 0, peakLive = 0, endLive = 0, simUs = 0, nIo = 0;
  uint64_t nClockReads = 0;
  bool heapBad = false;
  std::string heapMsg;
  std::map<std::string, std::string> written;   // content of writable files afterwards
  uint64_t oomInjected = 0, rerrInjected = 0, werrInjected = 0, blocks = 0, openErrInjected = 0, switches = 0, shortReads = 0;
  std::string libText;        // free text of library runs
  bool crashed() const { return signaled && !killed && !hang; }
  std::string describe() const;
};

void simInit();               // once per process that calls simRun
RunResult simRun(const Spec &);
extern uint64_t gRuns;        // simulated executions made by this process
extern uint64_t gSimUs;

// For code running inside a simulated execution (Prog::Lib)
namespace simin {
FILE *logFile();              // stream over the log of the Spec
FILE *openLog(const ReadPlan &, int buf);   // one more log stream
void answer(const double v[6], const uint8_t s[6], int tag);
void text(const std::string &);
void mark(uint32_t a, uint64_t b);
uint64_t live();
void preparing();             // the log was read before the pattern is prepared
struct NoSim { NoSim(); ~NoSim(); int saved; };  // allocations in this scope are outside the simulated heap
extern void (*yieldHook)(int kind, const void *addr, size_t n);  // 0 allocation, 1 release, 2 read, 3 write, 4 block handed out
void noteSwitch(uint32_t fromTo, uint64_t point);
bool inSim();
[[noreturn]] void giveUp();
void setMem(const MemPlan &); // change allocator policy / failure point during the run
}
