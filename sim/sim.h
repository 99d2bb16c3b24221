// Instruction-level deterministic simulator: interface for workloads.
#ifndef SIM_H
#define SIM_H
#include <cstddef>
#include <cstdint>
#include <cstring>

namespace sim
{
// ---------------------------------------------------------------- randomness
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 0) : s(seed) {}
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    bool chance(unsigned percent) { return below(100) < percent; }
    long range(long lo, long hi) { return lo + long(below(uint64_t(hi - lo + 1))); }
};
uint64_t mix(uint64_t a, uint64_t b);
uint64_t hashBytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull);

// ---------------------------------------------------------------- plan
enum { MaxThreads = 4, MaxOps = 40, MaxCfg = 16, MaxSegs = 1 << 15, MaxFaults = 64 };
struct Op {
    int thread;
    int op;
    uint64_t seed;
    long a[4];
};
struct Fault {
    int kind;      // meaning is the workload's
    long at;       // ordinal or step at which it fires
    long arg;
};
struct Seg {
    int tid;
    int len;
};
enum Policy { Random = 0, Bursts = 1, Pct = 2, Stall = 3, RoundRobin = 4, Serial = 5, Hot = 6, NPolicies };
struct Plan {
    uint64_t seed;         // everything below was derived from it
    int nthreads;
    int nops;
    int nfaults;
    long cfg[MaxCfg];
    Op ops[MaxOps];
    Fault faults[MaxFaults];
    // schedule
    uint64_t schedSeed;
    int policy;
    long policyArg[4];
    int fixedSchedule;     // 1: follow segs
    int nsegs;
    Seg segs[MaxSegs];
    Op &add(int thread, int op, uint64_t seed, long a0 = 0, long a1 = 0, long a2 = 0, long a3 = 0)
    {
        Op &o = ops[nops < MaxOps ? nops++ : MaxOps - 1];
        o.thread = thread;
        o.op = op;
        o.seed = seed;
        o.a[0] = a0;
        o.a[1] = a1;
        o.a[2] = a2;
        o.a[3] = a3;
        return o;
    }
    void fault(int kind, long at, long arg = 0)
    {
        if (nfaults < MaxFaults) {
            faults[nfaults].kind = kind;
            faults[nfaults].at = at;
            faults[nfaults].arg = arg;
            ++nfaults;
        }
    }
};
// draws a scheduling policy and its parameters (swarm style: one policy per run)
void choosePolicy(Rng &, Plan &, long typicalSteps);

// ---------------------------------------------------------------- workload
struct Workload {
    const char *property;                 // id
    void (*setup)();                      // once, in the pristine parent (may fill shared tables)
    void (*generate)(Rng &, Plan &);      // seed -> plan
    void (*run)(Plan &);                  // executes; calls fail() on a violation
    const char *(*opName)(int);
    const char *rule;                     // how coverage is counted
    int ownHot;                           // the workload itself prefers operations that touch static objects
};
extern Workload workload();               // defined by the workload's translation unit
extern const char *const implName;        // defined by the build

// Runs body(0..n-1) as simulated threads under the plan's schedule until all are done.
void parallel(int n, void (*body)(int tid, void *arg), void *arg);
int self();                   // current simulated thread, -1 outside
bool inSim();
uint64_t now();               // simulated time: yield points executed so far in this run
uint64_t ownSteps();          // steps executed by the current thread
void yieldBlocked();          // current thread cannot proceed: someone else must run
void forbidWaiting(bool);     // from now on a thread that cannot proceed is a violation
uint64_t lockCalls();         // mutexes locked by simulated threads in this process
// An infinitely fast further thread: fn runs between any two instructions of the simulated
// threads of this run (not while a NoYield is alive). It must be a function of the run alone.
void between(void (*fn)());
uint64_t betweenCalls();      // in this run
// Signals: at this percentage of the preemption points the current thread first executes handler(tid)
// on its own stack. (What lies below the red zone of a preempted thread's stack is always overwritten.)
void signals(int percent, void (*handler)(int tid));
uint64_t signalsHandled();    // in this process
uint64_t hotAccesses();       // accesses to changeable static objects by code under test
bool stallReached();          // policy Stall: the victim is parked and the others run
int stallVictim();
void setStepCap(uint64_t);    // per run; beyond it: violation "no progress"
void note(uint64_t h);        // folds into the event hash of the run
[[noreturn]] void fail(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
// class of a crash that happens from now on (SIGSEGV and the like), for reporting
void context(const char *what);
// what a fault at an address means
struct GuardInfo { uintptr_t lo, hi; const char *cls; };
void addGuard(const void *lo, const void *hi, const char *cls);
void clearGuards();

struct Counter {
    int id;
    explicit Counter(const char *name);
    void operator++(int) const;
    void add(uint64_t) const;
};
void countOp(int op);          // distinct operations exercised
void stateSeen(uint64_t h);    // distinct states / interleavings (by hash)

void *sharedAlloc(size_t);     // in setup(): memory all processes of this run share
void *fixedMap(size_t bytes);  // in setup(): private memory at a deterministic address
// in setup(): run fn in a forked child (for golden tables in shared memory); false: it crashed
bool inChild(void (*fn)());

// ---------------------------------------------------------------- guarded memory
// [PROT_NONE][npages][PROT_NONE] at a deterministic address, made in setup()
struct Room {
    char *base;
    size_t size;
    char *end() const { return base + size; }
};
Room makeRoom(size_t pages);
void protect(void *p, size_t n, int prot);  // PROT_*

// ---------------------------------------------------------------- simulated heap
// While active, malloc and friends come from a simulated heap that places
// blocks as adversarially as the interface allows and fails when told to.
namespace heap
{
struct Block {
    char *p;
    size_t size;
    size_t align;
    int thread;
    int live;
    int via;        // 0 malloc-like, 1 posix_memalign/aligned_alloc/memalign
    uint64_t born;
};
void reset(uint64_t seed);             // start of a run: forget everything
void activate(bool on);
bool active();
void failAt(long ordinal);             // the ordinal'th allocation from now on fails (1 = next)
void clearFailures();
void failMaskRandom(unsigned percent); // each allocation fails with this probability
void failAbove(size_t bytes);          // "memory full": requests above fail (0: off)
long allocations();                    // attempts since reset
long failuresFired();
long liveBlocks();
size_t liveBytes();
const Block *find(const void *p);      // live block that contains p
int nblocks();
const Block &block(int);
long refusedHuge();                    // requests the simulated machine could not ever satisfy
long refusedHere();                    // allocations refused to the current thread, for whatever reason
void checkFreed(const char *cls);      // fail(cls) if a freed block was written
void checkCanaries(const char *cls);   // fail(cls) if a block's surroundings were written
void onError(const char *cls);         // class for double/invalid free
}  // namespace heap

// ---------------------------------------------------------------- simulated CPU
struct CpuModel {
    // cpuid(leaf, subleaf) -> regs; returns false for out of range (=> caller gives junk)
    uint32_t maxLeaf, maxExt;
    uint32_t vendor[3];  // ebx, edx, ecx
    uint32_t l1a, l1b, l1c, l1d;
    uint32_t l2[2][4];  // leaf 2 has to be asked l2n times
    uint32_t l2n;
    mutable uint32_t l2asked[MaxThreads + 1];
    uint32_t l4[6][4];
    uint32_t l7b, l7c, l7d;
    uint32_t e1b, e1c, e1d;
    uint32_t e5[4], e6[4];
    uint64_t xcr0;
    uint64_t junk;      // Intel: out of range leaves return the data of the highest basic leaf
};
extern CpuModel *cpu;          // null: the real CPU
extern long xgetbvFaults;      // xgetbv executed although OSXSAVE is off
extern long cpuidCalls;

// ---------------------------------------------------------------- simulated terminals
extern int (*isattyHook)(int fd);        // null: the real ones
extern int (*filenoHook)(void *file);

// No yield point while one of these is alive: preparation and oracles, not code under test.
struct NoYield {
    int64_t saved;
    NoYield();
    ~NoYield();
    NoYield(const NoYield &) = delete;
};
}  // namespace sim
extern "C" int64_t sim_counter;
// one instruction, which the instrumentation leaves alone
inline int64_t simSwap(int64_t v)
{
    asm volatile("xchgq %0, sim_counter(%%rip)" : "+r"(v) : : "memory");
    return v;
}
inline sim::NoYield::NoYield() { saved = simSwap(INT64_MAX); }
inline sim::NoYield::~NoYield() { simSwap(saved); }
namespace sim
{
// runs code under test inside a NoYield'ed preparation, with yield points live
struct Live {
    NoYield &n;
    template <class F> void operator()(const F &f) const
    {
        const int64_t off = simSwap(n.saved);
        f();
        n.saved = simSwap(off);
    }
};
}
#endif
