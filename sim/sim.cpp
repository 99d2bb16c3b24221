// Instruction-level deterministic simulator: engine.  Compiled without instrumentation.
#include "sim.h"
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <csignal>
#include <ctime>
#include <fnmatch.h>
#include <linux/futex.h>
#include <map>
#include <pthread.h>
#include <string>
#include <sys/auxv.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>
#include <vector>

extern "C" {
int64_t sim_counter = INT64_MAX;
uint64_t sim_hot;
int32_t sim_hotmode;
void sim_switch(void **save, void *load);
void sim_tramp();
}

namespace sim
{
// ------------------------------------------------------------------ helpers
uint64_t mix(uint64_t a, uint64_t b)
{
    Rng r(a ^ (b * 0xD6E8FEB86659FD93ull));
    r.next();
    return r.next();
}
uint64_t hashBytes(const void *p, size_t n, uint64_t h)
{
    const unsigned char *c = static_cast<const unsigned char *>(p);
    for (size_t i = 0; i < n; ++i) {
        h = (h ^ c[i]) * 1099511628211ull;
    }
    return h;
}
static double wall()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return double(t.tv_sec) + 1e-9 * double(t.tv_nsec);
}
static void die(const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    fprintf(stderr, "sim: ");
    vfprintf(stderr, fmt, ap);
    fprintf(stderr, "\n");
    va_end(ap);
    _exit(3);
}

// ------------------------------------------------------------------ shared state
enum { MaxCounters = 192, MaxOpIds = 4096, BitmapBits = 1 << 26, MaxWorkers = 64 };
struct Slot {            // what a child reports to its worker; one child at a time
    Plan plan;
    long runIndex;
    int violated;
    char cls[256];
    char msg[1024];
    uint64_t hash;        // event hash of the current run
    uint64_t batchHash;   // over the runs of the batch
    uint64_t runs, steps, switches;
    uint64_t policyRuns[NPolicies];
    uint64_t counters[MaxCounters];
    uint64_t opCount[MaxOpIds];
    uint64_t crashRip;
};
struct Found {            // a violation as first seen
    long batchStart, runIndex;
    int have;
    char cls[256];
    char msg[1024];
};
struct Global {
    std::atomic<int> stop;
    Slot slots[MaxWorkers + 1];
    Found found[MaxWorkers];
    uint64_t detChecked[MaxWorkers], detMismatch[MaxWorkers];
    char detMsg[256];
    unsigned char hot[4096];      // exploratory runs that accessed changeable static objects
    std::atomic<uint64_t> interleavings[BitmapBits / 64];
    std::atomic<uint64_t> sites[BitmapBits / 64];
    std::atomic<uint64_t> states[BitmapBits / 64];
};
static Global *G;
static Slot *S;           // this process's slot
static bool statsOn = true;
static Workload W;
static std::vector<std::string> knownPatterns;

static void setBit(std::atomic<uint64_t> *bm, uint64_t h)
{
    if (!statsOn) {
        return;
    }
    h ^= h >> 29;
    h *= 0xBF58476D1CE4E5B9ull;
    h ^= h >> 32;
    const uint64_t bit = h % BitmapBits;
    const uint64_t m = 1ull << (bit & 63);
    if (!(bm[bit >> 6].load(std::memory_order_relaxed) & m)) {
        bm[bit >> 6].fetch_or(m, std::memory_order_relaxed);
    }
}
static uint64_t popBits(const std::atomic<uint64_t> *bm)
{
    uint64_t n = 0;
    for (int i = 0; i < BitmapBits / 64; ++i) {
        n += uint64_t(__builtin_popcountll(bm[i].load(std::memory_order_relaxed)));
    }
    return n;
}

static const char *counterNames[MaxCounters];
static int nCounters;
Counter::Counter(const char *name) : id(nCounters < MaxCounters ? nCounters++ : MaxCounters - 1)
{
    counterNames[id] = name;
}
void Counter::operator++(int) const
{
    if (S) {
        ++S->counters[id];
    }
}
void Counter::add(uint64_t n) const
{
    if (S) {
        S->counters[id] += n;
    }
}
void countOp(int op)
{
    if (S && op >= 0 && op < MaxOpIds) {
        ++S->opCount[op];
    }
}
void stateSeen(uint64_t h) { setBit(G->states, h); }

void *sharedAlloc(size_t n)
{
    void *p = mmap(nullptr, (n + 4095) & ~size_t(4095), PROT_READ | PROT_WRITE,
                   MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) {
        die("mmap shared");
    }
    return p;
}
static uintptr_t mapCursor = 0x100000000000ull;
void *fixedMap(size_t n)
{
    n = (n + 4095) & ~size_t(4095);
    void *want = reinterpret_cast<void *>(mapCursor);
    mapCursor += n + (1 << 20);
    mapCursor = (mapCursor + 0xfffff) & ~uintptr_t(0xfffff);
    void *p = mmap(want, n, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
    if (p != want) {
        die("mmap fixed");
    }
    return p;
}
Room makeRoom(size_t pages)
{
    char *p = static_cast<char *>(fixedMap((pages + 32) * 4096));
    mprotect(p, 16 * 4096, PROT_NONE);
    mprotect(p + (16 + pages) * 4096, 16 * 4096, PROT_NONE);
    return {p + 16 * 4096, pages * 4096};
}
void protect(void *p, size_t n, int prot)
{
    if (mprotect(p, n, prot) != 0) {
        die("mprotect: %s", strerror(errno));
    }
}

// ------------------------------------------------------------------ simulated threads
struct Thread {
    void *sp;
    uint64_t fs;
    char *stack;
    uint64_t steps;
    bool done;
    bool blocked;
    const char *context;
    char *cls;
};
enum { StackSize = 256 * 1024 };
static Thread T[MaxThreads];
static Thread Main;
static int cur = -1;
static int nthr;
static int alive;
static void (*theBody)(int, void *);
static void *theArg;
static int64_t curLen;
static uint64_t doneSteps;
static uint64_t stepCap;
static uint64_t blockedSpins;
static bool noWaiting;
static Plan *P;
static Rng schedRng;
static int segPos;
static int prio[MaxThreads];
static uint64_t changeAt[8];
static int nChange, changePos;
static bool useFsgsbase;

static inline uint64_t getFs()
{
    if (useFsgsbase) {
        uint64_t v;
        asm volatile("rdfsbase %0" : "=r"(v));
        return v;
    }
    uint64_t v = 0;
    syscall(SYS_arch_prctl, 0x1003, &v);
    return v;
}
static inline void setFs(uint64_t v)
{
    if (useFsgsbase) {
        asm volatile("wrfsbase %0" ::"r"(v) : "memory");
    } else {
        long r;
        asm volatile("syscall" : "=a"(r) : "a"(158L), "D"(0x1002L), "S"(v) : "rcx", "r11", "memory");
    }
}

int self() { return cur; }
bool inSim() { return cur >= 0; }
static inline uint64_t curExecuted()
{
    return cur >= 0 && sim_counter < curLen ? uint64_t(curLen - 1 - sim_counter) : 0;
}
uint64_t now() { return doneSteps + curExecuted(); }
uint64_t ownSteps() { return cur >= 0 ? T[cur].steps + curExecuted() : 0; }
void setStepCap(uint64_t c) { stepCap = c; }
void note(uint64_t h)
{
    if (S) {
        S->hash = (S->hash ^ h) * 1099511628211ull;
    }
}
void context(const char *what)
{
    if (cur >= 0) {
        T[cur].context = what;
    } else {
        Main.context = what;
    }
}
bool stallReached()
{
    return P && P->policy == Stall && !P->fixedSchedule &&
           T[P->policyArg[0] % nthr].steps >= uint64_t(P->policyArg[1]);
}
int stallVictim() { return int(P->policyArg[0] % nthr); }

static void recordSeg(int tid, uint64_t len)
{
    if (P->fixedSchedule || len == 0) {
        return;
    }
    if (P->nsegs > 0 && P->segs[P->nsegs - 1].tid == tid) {
        P->segs[P->nsegs - 1].len += int(len);
    } else if (P->nsegs < MaxSegs) {
        P->segs[P->nsegs].tid = tid;
        P->segs[P->nsegs].len = int(len);
        ++P->nsegs;
    } else {
        // the schedule no longer fits: the run is replayed from its seed instead
        P->cfg[MaxCfg - 1] = 1;
    }
}

static int pickRunnable(int avoid, bool othersOnly = false)
{
    int cand[MaxThreads], n = 0;
    for (int i = 0; i < nthr; ++i) {
        if (!T[i].done && !T[i].blocked && !(othersOnly && i == avoid)) {
            cand[n++] = i;
        }
    }
    if (n == 0) {
        // everybody waits: let them look again
        for (int i = 0; i < nthr; ++i) {
            if (!T[i].done && !(othersOnly && i == avoid)) {
                cand[n++] = i;
            }
        }
        if (n == 0) {
            return -1;
        }
    }
    return cand[schedRng.below(uint64_t(n))];
}
static int64_t geometric(long mean)
{
    if (mean <= 1) {
        return 1;
    }
    // sum of two uniforms: cheap, no libm, mean about `mean'
    return 1 + int64_t(schedRng.below(uint64_t(mean))) + int64_t(schedRng.below(uint64_t(mean)));
}

static void choose(int &tid, int64_t &len)
{
    const int64_t Long = 1 << 18;
    if (P->fixedSchedule) {
        while (segPos < P->nsegs) {
            const Seg s = P->segs[segPos++];
            if (s.tid < nthr && !T[s.tid].done) {
                tid = s.tid;
                len = s.len;
                return;
            }
        }
        tid = -1;
        for (int i = 0; i < nthr; ++i) {
            if (!T[i].done && !T[i].blocked) {
                tid = i;
                break;
            }
        }
        if (tid < 0) {
            tid = pickRunnable(-1);
        }
        len = Long;
        return;
    }
    switch (P->policy) {
    case Bursts: {
        tid = pickRunnable(-1);
        if (P->policyArg[3]) {   // strictly in turns
            const int v = int(P->policyArg[0] % nthr), o = pickRunnable(v, true);
            tid = (cur == v || T[v].done || T[v].blocked) && o >= 0 ? o : v;
            if (T[tid].done || T[tid].blocked) tid = pickRunnable(-1);
        }
        len = tid == P->policyArg[0] % nthr ? geometric(P->policyArg[1]) : geometric(P->policyArg[2]);
        return;
    }
    case Pct: {
        while (changePos < nChange && doneSteps >= changeAt[changePos]) {
            int hi = -1;
            for (int i = 0; i < nthr; ++i) {
                if (!T[i].done && !T[i].blocked && (hi < 0 || prio[i] > prio[hi])) {
                    hi = i;
                }
            }
            if (hi >= 0) {
                prio[hi] = -1 - changePos;
            }
            ++changePos;
        }
        int hi = -1;
        for (int i = 0; i < nthr; ++i) {
            if (!T[i].done && !T[i].blocked && (hi < 0 || prio[i] > prio[hi])) {
                hi = i;
            }
        }
        if (hi < 0) {
            hi = pickRunnable(-1);
        } else if (T[hi].steps > 40000) {
            hi = pickRunnable(-1);  // it spins: fairness
            tid = hi;
            len = geometric(200);
            return;
        }
        tid = hi;
        len = changePos < nChange ? int64_t(changeAt[changePos] - doneSteps) : 20000;
        return;
    }
    case Stall: {
        const int v = int(P->policyArg[0] % nthr);
        if (!T[v].done && !T[v].blocked && T[v].steps < uint64_t(P->policyArg[1])) {
            tid = v;
            len = P->policyArg[1] - int64_t(T[v].steps);
            return;
        }
        // The victim stands still while anyone else can go on; threads that
        // wait for it get their turn after it was let go for a while.
        bool others = noWaiting;
        for (int i = 0; i < nthr; ++i) {
            others |= i != v && !T[i].done && !T[i].blocked;
        }
        if (!others && !T[v].done && !T[v].blocked) {
            for (int i = 0; i < nthr; ++i) {
                T[i].blocked = false;
            }
            tid = v;
            len = geometric(P->policyArg[2]);
            return;
        }
        int o = pickRunnable(v, true);
        tid = o >= 0 ? o : v;
        len = o >= 0 ? geometric(P->policyArg[2]) : Long;
        return;
    }
    case RoundRobin: {
        int t = cur;
        for (int k = 0; k < nthr; ++k) {
            t = (t + 1) % nthr;
            if (!T[t].done && !T[t].blocked) {
                break;
            }
        }
        if (T[t].done || T[t].blocked) {
            t = pickRunnable(-1);
        }
        tid = t;
        len = P->policyArg[0] > 0 ? P->policyArg[0] : 1;
        return;
    }
    case Serial: {
        tid = cur >= 0 && !T[cur].done && !T[cur].blocked ? cur : pickRunnable(-1);
        len = 20000;
        return;
    }
    case Hot: {
        tid = pickRunnable(-1);
        len = geometric(P->policyArg[1]);
        return;
    }
    default:
        tid = pickRunnable(-1);
        len = geometric(P->policyArg[0]);
        return;
    }
}

static void (*betweenFn)();
static int64_t betweenRest;   // what remains of the current segment, which is executed in steps of one
static uint64_t nBetween;
void between(void (*fn)()) { betweenFn = fn; }
uint64_t betweenCalls() { return nBetween; }
static void enter(int tid, int64_t len, bool fromMain)
{
    const int prev = cur;
    if (betweenFn) {
        betweenRest = len - 1;
        len = 1;
    }
    cur = tid;
    curLen = len;
    if (prev != tid) {
        if (S) {
            ++S->switches;
        }
        T[tid].blocked = false;
        setFs(T[tid].fs);
        sim_counter = len - 1;
        sim_switch(fromMain ? &Main.sp : &T[prev].sp, T[tid].sp);
    } else {
        T[tid].blocked = false;
        sim_counter = len - 1;
    }
}

static void account()
{
    const uint64_t ex = curExecuted();
    doneSteps += ex;
    T[cur].steps += ex;
    recordSeg(cur, ex);
    curLen = 0;
    sim_counter = -1;  // curExecuted() == 0
    if (doneSteps > stepCap) {
        fail("no-progress", "%llu steps without finishing (thread %d in %s)",
             (unsigned long long)doneSteps, cur, T[cur].context ? T[cur].context : "?");
    }
}

static int signalPercent;
static void (*signalFn)(int);
static uint64_t nSignals;
void signals(int percent, void (*handler)(int))
{
    signalPercent = percent;
    signalFn = handler;
}
uint64_t signalsHandled() { return nSignals; }
// a signal handler runs on the stack of the current thread
static void deliver()
{
    if (signalPercent <= 0 || mix(P->schedSeed ^ 0x516e41, doneSteps) % 100 >= uint64_t(signalPercent)) {
        return;
    }
    sim_counter = INT64_MAX;
    ++nSignals;
    // the kernel starts handlers with a pristine floating-point state, the stub restores the interrupted one
    const unsigned csr = 0x1f80;
    asm volatile("fninit\n\tldmxcsr %0" : : "m"(csr));
    signalFn(cur);
    sim_counter = -1;
}
extern "C" void sim_slow(uint64_t rip, char *dead, char *deadEnd)
{
    if (cur < 0) {
        sim_counter = INT64_MAX;
        return;
    }
    // Nobody owns the stack below the red zone: a signal frame could be there.
    if (dead) memset(dead, int(0x81 | (P->schedSeed & 0x7e)), size_t(deadEnd - dead));
    int tid = cur;
    int64_t len = 1;
    if (betweenFn && sim_counter < 0) {
        account();
        sim_counter = INT64_MAX;
        ++nBetween;
        betweenFn();
        sim_counter = -1;
        if (betweenRest > 0) {
            --betweenRest;
            curLen = 1;
            sim_counter = 0;
            return;
        }
        choose(tid, len);
    } else if (sim_counter >= 0) {   // about to access a static object
        if (schedRng.below(100) >= uint64_t(P->policyArg[0])) {
            return;
        }
        tid = pickRunnable(cur, true);
        if (tid < 0) {
            return;
        }
        account();
        deliver();
        len = geometric(P->policyArg[1]);
    } else {
        account();
        deliver();
        choose(tid, len);
    }
    if (tid != cur) {
        S->hash = (S->hash ^ (rip * 31 + uint64_t(cur))) * 1099511628211ull;
        setBit(G->sites, rip * 8 + uint64_t(tid));
    }
    enter(tid, len, false);
}

int (*isattyHook)(int);
int (*filenoHook)(void *);
static uint64_t nLocks;
void forbidWaiting(bool on) { noWaiting = on; }
uint64_t lockCalls() { return nLocks; }
uint64_t hotAccesses() { return sim_hot; }
void yieldBlocked()
{
    if (noWaiting && cur >= 0) {
        fail("waits", "thread %d waits for another thread in %s", cur, T[cur].context ? T[cur].context : "?");
    }
    if (cur < 0) {
        die("would block outside the simulation (%s)", Main.context ? Main.context : "?");
    }
    account();
    if (++blockedSpins > 100000) {
        fail("deadlock", "threads wait for each other for ever (thread %d in %s)", cur,
             T[cur].context ? T[cur].context : "?");
    }
    doneSteps += 1;
    T[cur].blocked = true;
    int n = 0;
    for (int i = 0; i < nthr; ++i) {
        n += !T[i].done && i != cur;
    }
    if (n == 0) {
        fail("deadlock", "thread %d waits and nobody can wake it (in %s)", cur,
             T[cur].context ? T[cur].context : "?");
    }
    int tid = cur;
    int64_t len = 1;
    for (int tries = 0; tries < 1000 && tid == cur; ++tries) {
        choose(tid, len);
        if (tid == cur && P->policy == Stall && !P->fixedSchedule) {
            break;
        }
    }
    if (tid == cur) {
        for (int i = 0; i < nthr; ++i) {
            if (!T[i].done && i != cur && (tid == cur || T[tid].blocked)) {
                tid = i;
                len = 64;
            }
        }
    }
    enter(tid, len, false);
}

extern "C" void sim_entry(int tid)
{
    theBody(tid, theArg);
    // finished
    account();
    T[tid].done = true;
    for (int i = 0; i < nthr; ++i) {
        T[i].blocked = false;
    }
    if (--alive == 0) {
        cur = -1;
        sim_counter = INT64_MAX;
        setFs(Main.fs);
        sim_switch(&T[tid].sp, Main.sp);
    }
    int next = tid;
    int64_t len = 1;
    choose(next, len);
    enter(next, len, false);
    die("unreachable");
}

void parallel(int n, void (*body)(int, void *), void *arg)
{
    nthr = n;
    alive = n;
    theBody = body;
    theArg = arg;
    Main.fs = getFs();
    for (int i = 0; i < n; ++i) {
        T[i].done = false;
        T[i].blocked = false;
        T[i].steps = 0;
        T[i].context = nullptr;
        uint64_t *sp = reinterpret_cast<uint64_t *>(T[i].stack + StackSize);
        *--sp = 0;                                        // alignment
        *--sp = 0;
        *--sp = reinterpret_cast<uint64_t>(&sim_tramp);   // return address
        *--sp = 0;                                        // rbx
        *--sp = 0;                                        // rbp
        *--sp = uint64_t(i);                              // r12
        *--sp = 0;
        *--sp = 0;
        *--sp = 0;
        *--sp = 0x0000037f00001f80ull;                    // x87 control word, mxcsr
        T[i].sp = sp;
    }
    for (int i = 0; i < n; ++i) {
        prio[i] = i;
    }
    for (int i = n - 1; i > 0; --i) {
        const int j = int(schedRng.below(uint64_t(i + 1)));
        std::swap(prio[i], prio[j]);
    }
    nChange = changePos = 0;
    if (P->policy == Pct) {
        nChange = int(P->policyArg[0] < 8 ? P->policyArg[0] : 8);
        for (int i = 0; i < nChange; ++i) {
            changeAt[i] = doneSteps + 1 + schedRng.below(uint64_t(P->policyArg[1] > 0 ? P->policyArg[1] : 1));
        }
        for (int i = 0; i < nChange; ++i) {
            for (int j = i + 1; j < nChange; ++j) {
                if (changeAt[j] < changeAt[i]) {
                    std::swap(changeAt[i], changeAt[j]);
                }
            }
        }
    }
    int tid = 0;
    int64_t len = 1;
    choose(tid, len);
    sim_hotmode = P->policy == Hot && !P->fixedSchedule;
    enter(tid, len, true);
    // everybody is done
    sim_hotmode = 0;
    sim_counter = INT64_MAX;
}

void choosePolicy(Rng &r, Plan &p, long typical)
{
    p.schedSeed = r.next();
    if (typical < 8) {
        typical = 8;
    }
    switch (r.below(11)) {
    case 10: {
        static const long chances[] = {20, 50, 50, 80, 100};
        static const long means[] = {10, 30, 100, 300, 1000};
        p.policy = Hot;
        p.policyArg[0] = chances[r.below(5)];
        p.policyArg[1] = means[r.below(5)];
        break;
    }
    case 0:
    case 1:
    case 2: {
        static const long means[] = {1, 1, 2, 3, 5, 8, 16, 32, 64};
        p.policy = Random;
        p.policyArg[0] = means[r.below(9)];
        break;
    }
    case 3:
    case 4: {
        static const long small[] = {1, 1, 2, 3, 5};
        static const long big[] = {5, 10, 30, 100, 300};
        p.policy = Bursts;
        p.policyArg[0] = long(r.below(MaxThreads));
        p.policyArg[1] = small[r.below(5)];
        p.policyArg[2] = big[r.below(5)];
        break;
    }
    case 5:
    case 6: {
        p.policy = Pct;
        p.policyArg[0] = r.range(1, 5);
        p.policyArg[1] = r.chance(50) ? typical : r.range(4, 4 * typical);
        break;
    }
    case 7:
    case 8: {
        p.policy = Stall;
        p.policyArg[0] = long(r.below(MaxThreads));
        p.policyArg[1] = r.range(1, typical);
        p.policyArg[2] = r.chance(50) ? 1 : r.range(1, 100);
        break;
    }
    default:
        p.policy = RoundRobin;
        p.policyArg[0] = r.chance(50) ? 1 : r.range(1, 40);
        break;
    }
}

// ------------------------------------------------------------------ failing
static GuardInfo guards[16];
static int nGuards;
void addGuard(const void *lo, const void *hi, const char *cls)
{
    if (nGuards < 16) {
        guards[nGuards++] = {reinterpret_cast<uintptr_t>(lo), reinterpret_cast<uintptr_t>(hi), cls};
    }
}
void clearGuards() { nGuards = 0; }

static void report(const char *cls, const char *msg)
{
    S->violated = 1;
    snprintf(S->cls, sizeof(S->cls), "%s", cls);
    snprintf(S->msg, sizeof(S->msg), "%s", msg);
    if (cur >= 0 && curLen > 0) {
        const uint64_t ex = curExecuted();
        recordSeg(cur, ex);
    }
    note(hashBytes(cls, strlen(cls)));
    _exit(43);
}
void fail(const char *cls, const char *fmt, ...)
{
    sim_counter = cur >= 0 ? sim_counter : INT64_MAX;
    const uint64_t ex = cur >= 0 && curLen > 0 ? curExecuted() : 0;
    if (cur >= 0) {
        recordSeg(cur, ex);
        curLen = 0;
    }
    const int who = cur;
    cur = -1;
    sim_counter = INT64_MAX;
    char msg[1024];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(msg, sizeof(msg) - 64, fmt, ap);
    va_end(ap);
    if (n < 0 || n > int(sizeof(msg)) - 64) {
        n = int(strlen(msg));
    }
    if (who >= 0) {
        snprintf(msg + n, 63, " [thread %d, simulated step %llu]", who,
                 (unsigned long long)(doneSteps + ex));
    }
    report(cls, msg);
    __builtin_unreachable();
}

static void onSignal(int sig, siginfo_t *si, void *u)
{
    const ucontext_t *uc = static_cast<const ucontext_t *>(u);
    const char *ctx = cur >= 0 ? T[cur].context : Main.context;
    const uintptr_t addr = reinterpret_cast<uintptr_t>(si->si_addr);
    S->crashRip = uint64_t(uc->uc_mcontext.gregs[REG_RIP]);
    char cls[256];
    const char *name = sig == SIGSEGV ? "SIGSEGV" : sig == SIGBUS ? "SIGBUS" : sig == SIGILL ? "SIGILL"
                       : sig == SIGFPE ? "SIGFPE" : sig == SIGPROF ? "hang" : "abort";
    snprintf(cls, sizeof(cls), "crash:%s in %s", name, ctx ? ctx : "?");
    if (sig == SIGSEGV || sig == SIGBUS) {
        for (int i = 0; i < nGuards; ++i) {
            if (addr >= guards[i].lo && addr < guards[i].hi) {
                snprintf(cls, sizeof(cls), "%s in %s", guards[i].cls, ctx ? ctx : "?");
                break;
            }
        }
    }
    const bool wr = sig == SIGSEGV && (uc->uc_mcontext.gregs[REG_ERR] & 2);
    char msg[512];
    snprintf(msg, sizeof(msg), "%s%s at address %#llx, rip %#llx, thread %d, step %llu", name,
             sig == SIGSEGV ? (wr ? " (write)" : " (read)") : "", (unsigned long long)addr,
             (unsigned long long)S->crashRip, cur, (unsigned long long)now());
    report(cls, msg);
}
static void installHandlers()
{
    static char *alt = nullptr;
    if (!alt) {
        alt = static_cast<char *>(mmap(nullptr, 1 << 17, PROT_READ | PROT_WRITE,
                                       MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    }
    stack_t ss{};
    ss.ss_sp = alt;
    ss.ss_size = 1 << 17;
    sigaltstack(&ss, nullptr);
    struct sigaction sa{};
    sa.sa_sigaction = onSignal;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGPROF}) {
        sigaction(s, &sa, nullptr);
    }
}

// ------------------------------------------------------------------ simulated CPU
CpuModel *cpu;
long xgetbvFaults;
long cpuidCalls;
struct Regs {
    uint64_t rdx, rcx, rbx, rax;
};
extern "C" void sim_cpuid(Regs *r)
{
    ++cpuidCalls;
    uint32_t leaf = uint32_t(r->rax);
    const uint32_t sub = uint32_t(r->rcx);
    uint32_t o[4] = {0, 0, 0, 0};
    if (!cpu) {
        asm volatile("cpuid" : "=a"(o[0]), "=b"(o[1]), "=c"(o[2]), "=d"(o[3]) : "a"(leaf), "c"(sub));
    } else {
        const CpuModel &m = *cpu;
        if (leaf < 0x80000000u && leaf > m.maxLeaf) {
            if (m.junk) {
                leaf = m.maxLeaf;   // Intel: data of the highest basic leaf
            } else {
                leaf = 0x70000000;  // AMD: zeros
            }
        } else if (leaf >= 0x80000000u && leaf > m.maxExt) {
            leaf = m.junk ? m.maxLeaf : 0x70000000;
        }
        switch (leaf) {
        case 0:
            o[0] = m.maxLeaf;
            o[1] = m.vendor[0];
            o[3] = m.vendor[1];
            o[2] = m.vendor[2];
            break;
        case 1:
            o[0] = m.l1a;
            o[1] = m.l1b;
            o[2] = m.l1c;
            o[3] = m.l1d;
            break;
        case 2:
            memcpy(o, m.l2[m.l2n > 1 ? m.l2asked[cur >= 0 ? cur : MaxThreads]++ % m.l2n : 0], sizeof(o));
            break;
        case 4:
            if (sub < 6) memcpy(o, m.l4[sub], sizeof(o));
            break;
        case 7:
            if (sub == 0) {
                o[1] = m.l7b;
                o[2] = m.l7c;
                o[3] = m.l7d;
            }
            break;
        case 0x80000000u:
            o[0] = m.maxExt;
            break;
        case 0x80000001u:
            o[1] = m.e1b;
            o[2] = m.e1c;
            o[3] = m.e1d;
            break;
        case 0x80000005u:
            memcpy(o, m.e5, sizeof(o));
            break;
        case 0x80000006u:
            memcpy(o, m.e6, sizeof(o));
            break;
        default:
            if (leaf != 0x70000000 && m.junk) {
                // a leaf this machine has and the model does not describe
                o[0] = o[1] = o[2] = o[3] = uint32_t(mix(m.junk, leaf));
            }
        }
    }
    r->rax = o[0];
    r->rbx = o[1];
    r->rcx = o[2];
    r->rdx = o[3];
}
extern "C" void sim_xgetbv(Regs *r)
{
    uint64_t v = 0;
    if (!cpu) {
        uint32_t a, d;
        asm volatile("xgetbv" : "=a"(a), "=d"(d) : "c"(uint32_t(r->rcx)));
        v = a | uint64_t(d) << 32;
    } else {
        if (!(cpu->l1c & (1u << 27)) || uint32_t(r->rcx) != 0) {
            ++xgetbvFaults;
            fail("xgetbv-undefined-opcode", "xgetbv executed on a CPU/OS without OSXSAVE: #UD");
        }
        v = cpu->xcr0;
    }
    r->rax = uint32_t(v);
    r->rdx = uint32_t(v >> 32);
}
extern "C" void sim_rdtsc(Regs *r)
{
    const uint64_t v = 1000000 + now() * 3;
    r->rax = uint32_t(v);
    r->rdx = uint32_t(v >> 32);
}
extern "C" void sim_rdtscp(Regs *r)
{
    sim_rdtsc(r);
    r->rcx = uint64_t(cur < 0 ? 0 : cur);
}

// ------------------------------------------------------------------ simulated heap
extern "C" {
void *__real_malloc(size_t);
void __real_free(void *);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
int __real_posix_memalign(void **, size_t, size_t);
void *__real_aligned_alloc(size_t, size_t);
void *__real_memalign(size_t, size_t);
}
namespace heap
{
enum { Arena = 48 << 20, MaxBlocks = 8192, Pad = 64, Huge = 8 << 20 };
static char *arena;
static size_t cursor;
static Block blocks[MaxBlocks];
static int nb;
static bool on;
static Rng rng;
static long attempts, fired, huge, failOrd;
static long refusals[MaxThreads + 1];
static unsigned failPct;
static size_t failLimit;
static const char *errClass = "heap-misuse";
// In some runs blocks end at an inaccessible page and become inaccessible when they are freed, so
// that reads outside are noticed, too.
static bool fences;
static size_t fenced;           // highest offset in the arena with an inaccessible page
static bool isFenced[MaxBlocks];
static int padAfter[MaxBlocks]; // bytes behind the block that belong to it and must not be written

static void unfence()
{
    if (fenced) {
        mprotect(arena, (fenced + 8192) & ~size_t(4095), PROT_READ | PROT_WRITE);
    }
    fenced = 0;
}
void reset(uint64_t seed)
{
    unfence();
    cursor = 4096;
    nb = 0;
    on = false;
    rng = Rng(seed);
    fences = rng.below(100) < 30;
    attempts = fired = huge = 0;
    memset(refusals, 0, sizeof(refusals));
    failOrd = 0;
    failPct = 0;
    failLimit = 0;
    errClass = "heap-misuse";
}
void activate(bool b) { on = b; }
bool active() { return on; }
void failAt(long o) { failOrd = o; }
void clearFailures()
{
    failOrd = 0;
    failPct = 0;
    failLimit = 0;
}
void failMaskRandom(unsigned p) { failPct = p; }
void failAbove(size_t b) { failLimit = b; }
long allocations() { return attempts; }
long failuresFired() { return fired; }
long refusedHuge() { return huge; }
long refusedHere() { return refusals[cur >= 0 ? cur : MaxThreads]; }
long liveBlocks()
{
    long n = 0;
    for (int i = 0; i < nb; ++i) {
        n += blocks[i].live;
    }
    return n;
}
size_t liveBytes()
{
    size_t n = 0;
    for (int i = 0; i < nb; ++i) {
        n += blocks[i].live ? blocks[i].size : 0;
    }
    return n;
}
int nblocks() { return nb; }
const Block &block(int i) { return blocks[i]; }
const Block *find(const void *vp)
{
    const char *p = static_cast<const char *>(vp);
    for (int i = nb - 1; i >= 0; --i) {
        if (blocks[i].live && p >= blocks[i].p &&
            (p < blocks[i].p + blocks[i].size || p == blocks[i].p)) {
            return &blocks[i];
        }
    }
    return nullptr;
}
void onError(const char *c) { errClass = c; }
static bool inArena(const void *p)
{
    return arena && p >= arena && p < arena + Arena;
}
static void *take(size_t n, size_t align, int via)
{
    ++attempts;
    bool failIt = false;
    if (failOrd > 0 && --failOrd == 0) {
        failIt = true;
    }
    if (failPct && rng.below(100) < failPct) {
        failIt = true;
    }
    if (failLimit && n > failLimit) {
        failIt = true;
    }
    if (n > Huge) {
        ++huge;
        ++refusals[cur >= 0 ? cur : MaxThreads];
        errno = ENOMEM;
        return nullptr;
    }
    if (failIt) {
        ++fired;
        ++refusals[cur >= 0 ? cur : MaxThreads];
        errno = ENOMEM;
        return nullptr;
    }
    size_t a = align < 16 ? 16 : align;
    if (fences && cursor < Arena / 3 && n < 65536 && a <= 4096) {
        // canaries in front, the block, what its alignment leaves up to the end of the page, the fence
        const size_t room = (n + a - 1) / a * a + (n ? 0 : a);
        const size_t from = (cursor + 4095) & ~size_t(4095);
        size_t end = (from + Pad + room + 4095) & ~size_t(4095);
        if (((end - room) & a) == 0 && rng.below(100) < 85) {
            end += 4096;    // aligned no better than asked
        }
        char *p = arena + end - room;
        memset(p - Pad, 0xC5, Pad);
        const unsigned char junk = static_cast<unsigned char>(rng.next() | 0x81);
        memset(p, junk, n);
        memset(p + n, 0xC5, room - n);
        mprotect(arena + end, 4096, PROT_NONE);
        fenced = end;
        cursor = end + 4096;
        if (nb >= MaxBlocks) {
            die("simulated heap exhausted (%d blocks)", nb);
        }
        padAfter[nb] = int(room - n < Pad ? room - n : Pad);
        isFenced[nb] = true;
        blocks[nb++] = {p, n, a, cur, 1, via, now()};
        return p;
    }
    // aligned as asked and, most of the time, no better than that
    size_t at = (cursor + Pad + a - 1) & ~(a - 1);
    if (rng.below(100) < 85 && (at & a) == 0) {
        at += a;
    }
    at += a * 2 * rng.below(a < 256 ? 4 : 1);
    if (at + n + Pad + 16 > Arena || nb >= MaxBlocks) {
        die("simulated heap exhausted (%d blocks)", nb);
    }
    char *p = arena + at;
    memset(arena + cursor, 0xC5, at - cursor);
    const unsigned char junk = static_cast<unsigned char>(rng.next() | 0x81);
    memset(p, junk, n);
    memset(p + n, 0xC5, Pad);
    cursor = at + n + Pad;
    cursor = (cursor + 15) & ~size_t(15);
    memset(p + n + Pad, 0xC5, size_t(arena + cursor - (p + n + Pad)));
    padAfter[nb] = Pad;
    isFenced[nb] = false;
    Block &b = blocks[nb++];
    b.p = p;
    b.size = n;
    b.align = a;
    b.thread = cur;
    b.live = 1;
    b.via = via;
    b.born = now();
    return p;
}
static void checkBlock(const Block &b, const char *cls)
{
    for (int i = 0; i < Pad; ++i) {
        const unsigned char before = static_cast<unsigned char>(b.p[-1 - i]);
        if (i < padAfter[&b - blocks]) {
            const unsigned char after = static_cast<unsigned char>(b.p[b.size + size_t(i)]);
            if (after != 0xC5) {
                fail(cls, "write %d bytes behind the end of a heap block of %zu bytes", i, b.size);
            }
        }
        if (before != 0xC5) {
            fail(cls, "write %d bytes before the start of a heap block of %zu bytes", i + 1, b.size);
        }
    }
}
void checkCanaries(const char *cls)
{
    unfence();
    for (int i = 0; i < nb; ++i) {
        checkBlock(blocks[i], cls);
    }
}
void checkFreed(const char *cls)
{
    unfence();
    for (int i = 0; i < nb; ++i) {
        const Block &b = blocks[i];
        for (size_t k = 0; !b.live && k < b.size; ++k) {
            if (static_cast<unsigned char>(b.p[k]) != 0xDD) {
                fail(cls, "write at offset %zu of a block of %zu bytes that was freed before", k, b.size);
            }
        }
    }
}
static void give(void *vp)
{
    char *p = static_cast<char *>(vp);
    for (int i = nb - 1; i >= 0; --i) {
        if (blocks[i].p == p) {
            if (!blocks[i].live) {
                fail(errClass, "block of %zu bytes freed twice", blocks[i].size);
            }
            checkBlock(blocks[i], errClass);
            blocks[i].live = 0;
            memset(p, 0xDD, blocks[i].size);
            if (isFenced[i] && fenced) {
                const size_t from = size_t(p - arena - Pad) & ~size_t(4095), to = (size_t(p - arena) + blocks[i].size + 4095) & ~size_t(4095);
                mprotect(arena + from, to - from, PROT_NONE);
            }
            return;
        }
    }
    fail(errClass, "free of a pointer that no allocation returned");
}
}  // namespace heap
static bool heapOn() { return heap::on; }

extern "C" {
void *__wrap_malloc(size_t n) { return heapOn() ? heap::take(n, 16, 0) : __real_malloc(n); }
void __wrap_free(void *p)
{
    if (heap::inArena(p)) {
        heap::give(p);
    } else {
        __real_free(p);
    }
}
void *__wrap_calloc(size_t a, size_t b)
{
    if (!heapOn()) {
        return __real_calloc(a, b);
    }
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) {
        return nullptr;
    }
    void *p = heap::take(n, 16, 0);
    if (p) {
        memset(p, 0, n);
    }
    return p;
}
void *__wrap_realloc(void *o, size_t n)
{
    if (!heapOn() && !heap::inArena(o)) {
        return __real_realloc(o, n);
    }
    void *p = heap::take(n, 16, 0);
    if (p && o) {
        const heap::Block *b = heap::find(o);
        memcpy(p, o, b && b->size < n ? b->size : n);
        __wrap_free(o);
    }
    return p;
}
int __wrap_posix_memalign(void **r, size_t a, size_t n)
{
    if (!heapOn()) {
        return __real_posix_memalign(r, a, n);
    }
    if (a < sizeof(void *) || (a & (a - 1))) {
        return EINVAL;
    }
    void *p = heap::take(n, a, 1);
    if (!p) {
        return ENOMEM;   // *r stays as it was (POSIX.1-2008 TC2, glibc)
    }
    *r = p;
    return 0;
}
void *__wrap_aligned_alloc(size_t a, size_t n)
{
    return heapOn() ? heap::take(n, a, 1) : __real_aligned_alloc(a, n);
}
void *__wrap_memalign(size_t a, size_t n)
{
    return heapOn() ? heap::take(n, a, 1) : __real_memalign(a, n);
}

// ------------------------------------------------------------------ blocking primitives
int __real___cxa_guard_acquire(uint64_t *);
void __real___cxa_guard_release(uint64_t *);
void __real___cxa_guard_abort(uint64_t *);
int __wrap___cxa_guard_acquire(uint64_t *g)
{
    unsigned char *b = reinterpret_cast<unsigned char *>(g);
    for (;;) {
        if (__atomic_load_n(&b[0], __ATOMIC_ACQUIRE)) {
            return 0;
        }
        if (!b[1]) {
            b[1] = 1;
            return 1;
        }
        yieldBlocked();
    }
}
void __wrap___cxa_guard_release(uint64_t *g)
{
    unsigned char *b = reinterpret_cast<unsigned char *>(g);
    b[0] = 1;
    b[1] = 0;
}
void __wrap___cxa_guard_abort(uint64_t *g)
{
    unsigned char *b = reinterpret_cast<unsigned char *>(g);
    b[1] = 0;
}
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __real_pthread_mutex_trylock(pthread_mutex_t *);
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { sim::nLocks += cur >= 0; return __real_pthread_mutex_trylock(m); }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
    if (cur < 0) {
        return __real_pthread_mutex_lock(m);
    }
    ++sim::nLocks;
    for (;;) {
        const int r = __real_pthread_mutex_trylock(m);
        if (r != EBUSY) {
            return r;
        }
        yieldBlocked();
    }
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { return __real_pthread_mutex_unlock(m); }
int __real_pthread_once(pthread_once_t *, void (*)());
int __wrap_pthread_once(pthread_once_t *o, void (*f)())
{
    if (cur < 0) {
        return __real_pthread_once(o, f);
    }
    // 0: not begun, 2: done (as in glibc), 0x5101: simulated thread inside
    for (;;) {
        const int v = *reinterpret_cast<volatile int *>(o);
        if (v == 2) {
            return 0;
        }
        if (v == 0) {
            *reinterpret_cast<volatile int *>(o) = 0x5101;
            try {
                f();
            } catch (...) {
                *reinterpret_cast<volatile int *>(o) = 0;
                throw;
            }
            *reinterpret_cast<volatile int *>(o) = 2;
            return 0;
        }
        yieldBlocked();
    }
}
// terminals exist where the workload says so
int __real_isatty(int);
int __real_fileno(FILE *);
int __wrap_isatty(int fd) { return sim::isattyHook ? sim::isattyHook(fd) : __real_isatty(fd); }
int __wrap_fileno(FILE *f) { return sim::filenoHook ? sim::filenoHook(f) : __real_fileno(f); }
int __real_sched_yield();
int __wrap_sched_yield()
{
    if (cur < 0) {
        return 0;
    }
    sim_slow(0, nullptr, nullptr);
    return 0;
}
}

// ------------------------------------------------------------------ running
static std::string opText(const Op &o)
{
    char b[256];
    snprintf(b, sizeof(b), "op %d %d %llu %ld %ld %ld %ld # %s", o.thread, o.op,
             (unsigned long long)o.seed, o.a[0], o.a[1], o.a[2], o.a[3], W.opName ? W.opName(o.op) : "");
    return b;
}
static void *parked(void *arg)
{
    uint64_t *fs = static_cast<uint64_t *>(arg);
    __atomic_store_n(fs, getFs(), __ATOMIC_RELEASE);
    syscall(SYS_futex, fs, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
    int never = 0;
    for (;;) {
        syscall(SYS_futex, &never, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    }
}
static char *tlsStacks;
// every simulated thread borrows the thread-local storage of a real, parked thread
static void makeThreads()
{
    static uint64_t fs[MaxThreads];
    sigset_t all, old;
    sigfillset(&all);
    sigprocmask(SIG_SETMASK, &all, &old);  // parked threads take no signals
    for (int i = 0; i < MaxThreads; ++i) {
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstack(&at, tlsStacks + i * 131072, 131072);
        pthread_t t;
        fs[i] = 0;
        if (pthread_create(&t, &at, parked, &fs[i]) != 0) {
            die("pthread_create");
        }
        while (__atomic_load_n(&fs[i], __ATOMIC_ACQUIRE) == 0) {
            sched_yield();
        }
        T[i].fs = fs[i];
    }
    sigprocmask(SIG_SETMASK, &old, nullptr);
}
static uint64_t baseSeed;
static uint64_t runSeed(long index) { return mix(baseSeed, uint64_t(index) + 1); }

static std::vector<long> *hotPool = new std::vector<long>;
static bool hotFew;
static void genPlan(Plan &p, long index)
{
    p.seed = runSeed(index);
    p.nthreads = p.nops = p.nfaults = 0;
    memset(p.cfg, 0, sizeof(p.cfg));
    p.fixedSchedule = 0;
    p.nsegs = 0;
    p.policy = Serial;
    memset(p.policyArg, 0, sizeof(p.policyArg));
    Rng r(p.seed);
    Rng h(mix(p.seed, 407));
    const bool prefer = !hotPool->empty() && h.chance(25);
    if (prefer && hotFew) {
        // the same operations as a run that touched static objects, under another schedule
        r = Rng(runSeed((*hotPool)[size_t(h.below(hotPool->size()))]));
    }
    p.schedSeed = r.next();
    W.generate(r, p);
    if (prefer && p.nthreads > 1 && h.chance(hotFew ? 100 : 40)) {
        p.schedSeed = h.next();
        if (h.chance(75)) {
            p.policy = Hot;
            p.policyArg[0] = h.chance(50) ? 50 : h.range(10, 100);
            p.policyArg[1] = h.chance(50) ? 300 : h.range(5, 300);
        }
    }
}
static void execPlan(Plan &p)
{
    P = &p;
    S->hash = 1469598103934665603ull;
    doneSteps = 0;
    blockedSpins = 0;
    segPos = 0;
    if (!p.fixedSchedule) {
        p.nsegs = 0;
    }
    stepCap = 3000000;
    betweenFn = nullptr;
    nBetween = 0;
    signalPercent = 0;
    schedRng = Rng(p.schedSeed);
    cpu = nullptr;
    nGuards = 0;
    Main.context = nullptr;
    heap::reset(mix(p.seed, 77));
    itimerval it{};
    it.it_value.tv_sec = 30;
    setitimer(ITIMER_PROF, &it, nullptr);
    W.run(p);
    heap::activate(false);
    S->hash = (S->hash ^ doneSteps) * 1099511628211ull;
    ++S->runs;
    S->steps += doneSteps;
    ++S->policyRuns[p.policy];
    S->batchHash = mix(S->batchHash, S->hash);
    // the interleaving: what ran and how it was cut
    uint64_t h = 0;
    for (int i = 0; i < p.nops; ++i) {
        h = mix(h, uint64_t(p.ops[i].thread * 4096 + p.ops[i].op));
    }
    for (int i = 0; i < p.nsegs; ++i) {
        h = mix(h, uint64_t(p.segs[i].tid) << 32 | uint32_t(p.segs[i].len));
    }
    for (int i = 0; i < p.nfaults; ++i) {
        h = mix(h, uint64_t(p.faults[i].kind) << 48 ^ uint64_t(p.faults[i].at));
    }
    setBit(G->interleavings, h);
}
static void childInit()
{
    installHandlers();
    makeThreads();
}
bool inChild(void (*fn)())
{
    Slot *const old = S;
    S = &G->slots[MaxWorkers];
    fflush(nullptr);
    const pid_t c = fork();
    if (c == 0) {
        installHandlers();
        fn();
        _exit(0);
    }
    int st = 0;
    waitpid(c, &st, 0);
    Slot &s = *S;
    S = old;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
        return true;
    }
    fprintf(stderr, "sim: setup child: status %x %s %s\n", unsigned(st), s.cls, s.msg);
    return false;
}
// runs [from,to) in a fresh child of the pristine parent; true: no violation
enum Outcome { Clean, Violated, Broken };
static Outcome forkBatch(Slot *slot, long from, long to)
{
    slot->violated = 0;
    slot->runIndex = from;
    slot->batchHash = 0;
    slot->crashRip = 0;
    Slot *const old = S;
    S = slot;
    const pid_t c = fork();
    if (c < 0) {
        die("fork: %s", strerror(errno));
    }
    if (c == 0) {
        childInit();
        for (long i = from; i < to; ++i) {
            slot->runIndex = i;
            genPlan(slot->plan, i);
            execPlan(slot->plan);
        }
        _exit(0);
    }
    int st = 0;
    while (waitpid(c, &st, 0) < 0 && errno == EINTR) {
    }
    S = old;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
        return Clean;
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 43 && slot->violated) {
        return Violated;
    }
    snprintf(slot->msg, sizeof(slot->msg), "child ended with status %#x at run %ld", unsigned(st),
             slot->runIndex);
    return Broken;
}
// runs one given plan in a fresh child
static Outcome forkPlan(Slot *slot, const Plan &p)
{
    slot->violated = 0;
    slot->cls[0] = 0;
    slot->msg[0] = 0;
    slot->batchHash = 0;
    memcpy(&slot->plan, &p, sizeof(Plan));
    Slot *const old = S;
    S = slot;
    const pid_t c = fork();
    if (c == 0) {
        childInit();
        execPlan(slot->plan);
        _exit(0);
    }
    int st = 0;
    while (waitpid(c, &st, 0) < 0 && errno == EINTR) {
    }
    S = old;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
        return Clean;
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 43 && slot->violated) {
        return Violated;
    }
    return Broken;
}

// Which of the first runs access static objects that can change?  (Not how the
// property is decided: it only tells where many more schedules are worthwhile.)
static void explore(int jobs, long batch)
{
    const long K = batch == 1 ? 256 : long(sizeof(G->hot)) / 2;
    const long slice = batch == 1 ? 1 : 16;
    std::vector<pid_t> pids;
    fflush(nullptr);
    for (int w = 0; w < jobs; ++w) {
        const pid_t c = fork();
        if (c == 0) {
            statsOn = false;
            for (long from = w * slice; from < K; from += jobs * slice) {
                Slot *slot = &G->slots[MaxWorkers];
                const pid_t g = fork();
                if (g == 0) {
                    static Slot own;
                    S = slot = &own;
                    childInit();
                    for (long i = from; i < from + slice && i < K; ++i) {
                        genPlan(slot->plan, i);
                        const uint64_t before = sim_hot;
                        execPlan(slot->plan);
                        if (sim_hot != before && slot->plan.nthreads > 1) {
                            G->hot[i] = 1;
                        }
                    }
                    _exit(0);
                }
                int st = 0;
                while (waitpid(g, &st, 0) < 0 && errno == EINTR) {
                }
            }
            _exit(0);
        }
        pids.push_back(c);
    }
    for (pid_t c : pids) {
        int st;
        waitpid(c, &st, 0);
    }
    for (long i = 0; i < K; ++i) {
        if (G->hot[i]) {
            hotPool->push_back(i);
        }
    }
    hotFew = long(hotPool->size()) * 3 < K;
    if (getenv("SIM_SHOW_HOT")) {
        fprintf(stderr, "hot: %ld of %ld runs\n", long(hotPool->size()), K);
    }
}

static bool isKnown(const char *cls)
{
    for (const std::string &s : knownPatterns) {
        if (fnmatch(s.c_str(), cls, 0) == 0) {
            return true;
        }
    }
    return false;
}

// ------------------------------------------------------------------ minimising
static void removeOp(Plan &p, int i)
{
    for (int k = i; k + 1 < p.nops; ++k) {
        p.ops[k] = p.ops[k + 1];
    }
    --p.nops;
}
static bool stillFails(Slot *slot, const Plan &cand, const char *cls)
{
    return forkPlan(slot, cand) == Violated && strcmp(slot->cls, cls) == 0;
}
// fixed schedules: from the recorded segments
static void minimise(Slot *slot, Plan &p, const char *cls, double budget, std::string &log)
{
    const double end = wall() + budget;
    static Plan cand;
    int tries = 0, ops0 = p.nops, segs0 = p.nsegs, faults0 = p.nfaults;
    bool progress = true;
    while (progress && wall() < end) {
        progress = false;
        // fewer operations; the schedule shifts, so search some schedules for each candidate
        for (int i = p.nops - 1; i >= 0 && wall() < end; --i) {
            memcpy(&cand, &p, sizeof(Plan));
            removeOp(cand, i);
            bool ok = stillFails(slot, cand, cls);
            ++tries;
            for (int k = 0; !ok && k < 60 && wall() < end; ++k) {
                cand.fixedSchedule = 0;
                cand.nsegs = 0;
                cand.schedSeed = mix(p.seed, 1000 + uint64_t(k));
                if (k % 3 == 0) {
                    cand.policy = Random;
                    cand.policyArg[0] = 1 + k % 5;
                } else {
                    cand.policy = p.policy;
                    memcpy(cand.policyArg, p.policyArg, sizeof(p.policyArg));
                }
                ok = stillFails(slot, cand, cls);
                ++tries;
            }
            if (ok) {
                memcpy(&p, &slot->plan, sizeof(Plan));
                p.fixedSchedule = 1;
                progress = true;
            }
        }
        for (int i = p.nfaults - 1; i >= 0 && wall() < end; --i) {
            memcpy(&cand, &p, sizeof(Plan));
            for (int k = i; k + 1 < cand.nfaults; ++k) {
                cand.faults[k] = cand.faults[k + 1];
            }
            --cand.nfaults;
            ++tries;
            if (stillFails(slot, cand, cls)) {
                memcpy(&p, &slot->plan, sizeof(Plan));
                p.fixedSchedule = 1;
                progress = true;
            }
        }
        // fewer switches: drop segments in chunks (ddmin)
        for (int chunk = p.nsegs / 2; chunk >= 1 && wall() < end; chunk /= 2) {
            for (int at = 0; at + chunk <= p.nsegs && wall() < end;) {
                memcpy(&cand, &p, sizeof(Plan));
                memmove(cand.segs + at, cand.segs + at + chunk,
                        sizeof(Seg) * size_t(cand.nsegs - at - chunk));
                cand.nsegs -= chunk;
                // neighbours of the same thread become one
                int w = 0;
                for (int k = 0; k < cand.nsegs; ++k) {
                    if (w > 0 && cand.segs[w - 1].tid == cand.segs[k].tid) {
                        cand.segs[w - 1].len += cand.segs[k].len;
                    } else {
                        cand.segs[w++] = cand.segs[k];
                    }
                }
                cand.nsegs = w;
                ++tries;
                if (stillFails(slot, cand, cls)) {
                    memcpy(&p, &cand, sizeof(Plan));
                    progress = true;
                } else {
                    at += chunk;
                }
            }
        }
    }
    char b[256];
    snprintf(b, sizeof(b), "minimised with %d candidate runs: %d -> %d operations, %d -> %d schedule segments, %d -> %d faults",
             tries, ops0, p.nops, segs0, p.nsegs, faults0, p.nfaults);
    log = b;
}

// ------------------------------------------------------------------ replay files
static bool writePlan(const char *path, const Plan &p, const char *cls, const char *msg,
                      const std::string &note_, uint64_t hash, uint64_t seed, long warmFrom, long warmTo,
                      uint64_t rip)
{
    FILE *f = fopen(path, "w");
    if (!f) {
        return false;
    }
    fprintf(f, "replay 1\nproperty %s\nimpl %s\nseed %llu\n", W.property, implName,
            (unsigned long long)seed);
    fprintf(f, "class %s\nmessage %s\nnote %s\nhash %llx\nrip %#llx\n", cls, msg, note_.c_str(),
            (unsigned long long)hash, (unsigned long long)rip);
    if (warmTo > warmFrom) {
        fprintf(f, "warm %ld %ld\n", warmFrom, warmTo);
    }
    fprintf(f, "runseed %llu\nthreads %d\n", (unsigned long long)p.seed, p.nthreads);
    fprintf(f, "policy %d %ld %ld %ld %llu %ld\n", p.policy, p.policyArg[0], p.policyArg[1], p.policyArg[2],
            (unsigned long long)p.schedSeed, p.policyArg[3]);
    fprintf(f, "cfg");
    for (int i = 0; i < MaxCfg; ++i) {
        fprintf(f, " %ld", p.cfg[i]);
    }
    fprintf(f, "\n");
    for (int i = 0; i < p.nops; ++i) {
        fprintf(f, "%s\n", opText(p.ops[i]).c_str());
    }
    for (int i = 0; i < p.nfaults; ++i) {
        fprintf(f, "fault %d %ld %ld\n", p.faults[i].kind, p.faults[i].at, p.faults[i].arg);
    }
    fprintf(f, "fixed %d\n", p.fixedSchedule);
    for (int i = 0; i < p.nsegs; ++i) {
        fprintf(f, "seg %d %d\n", p.segs[i].tid, p.segs[i].len);
    }
    fprintf(f, "end\n");
    fclose(f);
    return true;
}
static bool readPlan(const char *path, Plan &p, char *cls, uint64_t &hash, uint64_t &seed, long &warmFrom,
                     long &warmTo)
{
    FILE *f = fopen(path, "r");
    if (!f) {
        return false;
    }
    memset(&p, 0, sizeof(p));
    warmFrom = warmTo = 0;
    cls[0] = 0;
    char line[2048];
    bool ended = false;
    while (fgets(line, sizeof(line), f)) {
        unsigned long long u, v;
        long a, b;
        int i, j, k;
        if (sscanf(line, "seed %llu", &u) == 1) {
            seed = u;
        } else if (sscanf(line, "class %255[^\n]", cls) == 1) {
        } else if (sscanf(line, "hash %llx", &u) == 1) {
            hash = u;
        } else if (sscanf(line, "warm %ld %ld", &a, &b) == 2) {
            warmFrom = a;
            warmTo = b;
        } else if (sscanf(line, "runseed %llu", &u) == 1) {
            p.seed = u;
        } else if (sscanf(line, "threads %d", &i) == 1) {
            p.nthreads = i;
        } else if (strncmp(line, "policy ", 7) == 0) {
            sscanf(line, "policy %d %ld %ld %ld %llu %ld", &p.policy, &p.policyArg[0], &p.policyArg[1],
                   &p.policyArg[2], &v, &p.policyArg[3]);
            p.schedSeed = v;
        } else if (strncmp(line, "cfg", 3) == 0) {
            char *s = line + 3;
            for (k = 0; k < MaxCfg; ++k) {
                p.cfg[k] = strtol(s, &s, 10);
            }
        } else if (strncmp(line, "op ", 3) == 0 && p.nops < MaxOps) {
            Op &o = p.ops[p.nops++];
            sscanf(line, "op %d %d %llu %ld %ld %ld %ld", &o.thread, &o.op, &u, &o.a[0], &o.a[1], &o.a[2],
                   &o.a[3]);
            o.seed = u;
        } else if (strncmp(line, "fault ", 6) == 0 && p.nfaults < MaxFaults) {
            Fault &x = p.faults[p.nfaults++];
            sscanf(line, "fault %d %ld %ld", &x.kind, &x.at, &x.arg);
        } else if (sscanf(line, "fixed %d", &i) == 1) {
            p.fixedSchedule = i;
        } else if (sscanf(line, "seg %d %d", &i, &j) == 2 && p.nsegs < MaxSegs) {
            p.segs[p.nsegs].tid = i;
            p.segs[p.nsegs++].len = j;
        } else if (strncmp(line, "end", 3) == 0) {
            ended = true;
        }
    }
    fclose(f);
    return ended;
}

static std::string esc(const char *s)
{
    std::string r;
    for (; *s; ++s) {
        const unsigned char c = static_cast<unsigned char>(*s);
        if (c == '"' || c == '\\') {
            r += '\\';
            r += char(c);
        } else if (c < 32 || c > 126) {
            char b[8];
            snprintf(b, sizeof(b), "\\u%04x", c);
            r += b;
        } else {
            r += char(c);
        }
    }
    return r;
}
static void seedFor(uint64_t s)
{
    std::string n = std::string(W.property) + "/" + implName;
    baseSeed = mix(s, hashBytes(n.data(), n.size()));
}

}  // namespace sim
using namespace sim;

int main(int argc, char **argv)
{
    // A deterministic address space.  Where personality() is not permitted the
    // fixed mappings and the static, non-PIE executable still give one for all
    // that the simulation looks at.
    const int pers = personality(0xffffffff);
    if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOREEXEC")) {
        setenv("SIM_NOREEXEC", "1", 1);
        if (personality(unsigned(pers) | ADDR_NO_RANDOMIZE) >= 0) {
            execv("/proc/self/exe", argv);
        }
    }
    useFsgsbase = getauxval(AT_HWCAP2) & 2;
    uint64_t seed = 1;
    int jobs = 8;
    long batch = 24;
    double seconds = 10;
    long maxRuns = 0;
    double minBudget = 20;
    const char *out = nullptr, *known = nullptr, *replay = nullptr, *replayOut = "replay.txt";
    long detN = 0;
    long only = -1;
    for (int i = 1; i < argc; ++i) {
        const std::string a = argv[i];
        const char *v = i + 1 < argc ? argv[i + 1] : "";
        if (a == "--seed") { seed = strtoull(v, nullptr, 10); ++i; }
        else if (a == "--jobs") { jobs = atoi(v); ++i; }
        else if (a == "--time") { seconds = atof(v); ++i; }
        else if (a == "--runs") { maxRuns = atol(v); ++i; }
        else if (a == "--batch") { batch = atol(v); ++i; }
        else if (a == "--out") { out = v; ++i; }
        else if (a == "--known") { known = v; ++i; }
        else if (a == "--replay") { replay = v; ++i; }
        else if (a == "--replay-out") { replayOut = v; ++i; }
        else if (a == "--determinism") { detN = atol(v); ++i; }
        else if (a == "--only") { only = atol(v); ++i; }
        else if (a == "--min-budget") { minBudget = atof(v); ++i; }
        else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 3; }
    }
    if (jobs < 1) jobs = 1;
    if (jobs > MaxWorkers) jobs = MaxWorkers;
    if (known) {
        FILE *f = fopen(known, "r");
        char line[512];
        while (f && fgets(line, sizeof(line), f)) {
            line[strcspn(line, "\n")] = 0;
            if (line[0]) knownPatterns.push_back(line);
        }
        if (f) fclose(f);
    }
    W = workload();
    G = static_cast<Global *>(sharedAlloc(sizeof(Global)));
    heap::arena = static_cast<char *>(fixedMap(heap::Arena));
    tlsStacks = static_cast<char *>(fixedMap(MaxThreads * 131072));
    for (int i = 0; i < MaxThreads; ++i) {
        T[i].stack = static_cast<char *>(fixedMap(StackSize));
    }
    S = &G->slots[MaxWorkers];
    seedFor(seed);
    // the unwinder sorts its tables, on the heap, at the first exception of a process
    try {
        throw int(argc);
    } catch (int) {
    }
    if (W.setup) {
        W.setup();
    }

    if (replay) {
        static Plan p;
        char cls[256];
        uint64_t hash = 0, rs = seed;
        long wf, wt;
        if (!readPlan(replay, p, cls, hash, rs, wf, wt)) {
            fprintf(stderr, "cannot read %s\n", replay);
            return 3;
        }
        seedFor(rs);
        if (wt > wf && !W.ownHot) {
            explore(jobs, batch);
        }
        Slot *slot = &G->slots[0];
        const Outcome o = wt > wf ? forkBatch(slot, wf, wt) : forkPlan(slot, p);
        if (o == Violated) {
            printf("REPRODUCED class=%s hash=%llx expected=%llx %s\n%s\n", slot->cls,
                   (unsigned long long)slot->hash, (unsigned long long)hash,
                   strcmp(slot->cls, cls) == 0 && (hash == slot->hash) ? "identical" : "DIFFERENT", slot->msg);
            return strcmp(slot->cls, cls) == 0 && hash == slot->hash ? 1 : 4;
        }
        printf("%s %s\n", o == Clean ? "CLEAN" : "BROKEN", slot->msg);
        return o == Clean ? 0 : 3;
    }
    if (!W.ownHot) {
        explore(jobs, batch);
    }
    if (only >= 0) {
        Slot *slot = &G->slots[0];
        const Outcome o = forkBatch(slot, only, only + 1);
        printf("outcome %d class=%s msg=%s hash=%llx steps=%llu\n", o, slot->cls, slot->msg,
               (unsigned long long)slot->hash, (unsigned long long)slot->steps);
        for (int i = 0; i < slot->plan.nops; ++i) printf("%s\n", opText(slot->plan.ops[i]).c_str());
        for (int i = 0; i < slot->plan.nsegs && i < 100; ++i)
            printf("seg %d %d\n", slot->plan.segs[i].tid, slot->plan.segs[i].len);
        return 0;
    }
    if (detN) {
        // prints one hash per run, for comparison between processes and batch sizes
        for (long i = 0; i < detN; ++i) {
            const Outcome o = forkBatch(&G->slots[0], i, i + 1);
            printf("%ld %d %llx\n", i, o, (unsigned long long)G->slots[0].hash);
        }
        return 0;
    }

    const double t0 = wall();
    std::vector<pid_t> pids;
    fflush(nullptr);
    for (int w = 0; w < jobs; ++w) {
        const pid_t c = fork();
        if (c == 0) {
            Slot *slot = &G->slots[w];
            Slot *tmp = &G->slots[w];
            (void)tmp;
            long b = w;
            for (;; b += jobs) {
                if (G->stop.load() || wall() - t0 > seconds) break;
                long from = b * batch;
                long to = from + batch;
                if (maxRuns && from >= maxRuns) break;
                if (maxRuns && to > maxRuns) to = maxRuns;
                while (from < to) {
                    const Outcome o = forkBatch(slot, from, to);
                    if (o == Clean) {
                        if (b % 64 == 7) {
                            const uint64_t h = slot->batchHash;
                            statsOn = false;
                            const uint64_t r0 = slot->runs, s0 = slot->steps;
                            const Outcome o2 = forkBatch(slot, from, to);
                            statsOn = true;
                            slot->runs = r0;
                            slot->steps = s0;
                            G->detChecked[w] += uint64_t(to - from);
                            if (o2 != Clean || h != slot->batchHash) {
                                ++G->detMismatch[w];
                                snprintf(G->detMsg, sizeof(G->detMsg), "batch %ld..%ld", from, to);
                            }
                        }
                        break;
                    }
                    Found &f = G->found[w];
                    if (o == Broken) {
                        f.have = 2;
                        f.runIndex = slot->runIndex;
                        snprintf(f.msg, sizeof(f.msg), "%s", slot->msg);
                        G->stop = 1;
                        _exit(0);
                    }
                    f.have = 1;
                    f.batchStart = from;
                    f.runIndex = slot->runIndex;
                    snprintf(f.cls, sizeof(f.cls), "%s", slot->cls);
                    snprintf(f.msg, sizeof(f.msg), "%s", slot->msg);
                    if (!isKnown(slot->cls)) {
                        G->stop = 1;
                        _exit(0);
                    }
                    f.have = 0;
                    // a known finding: tally and go on behind it
                    {
                        char path[600];
                        snprintf(path, sizeof(path), "%s.known.%d", replayOut, w);
                        FILE *kf = fopen(path, "a");
                        if (kf) {
                            fprintf(kf, "%s\n", slot->cls);
                            fclose(kf);
                        }
                    }
                    from = slot->runIndex + 1;
                }
            }
            _exit(0);
        }
        pids.push_back(c);
    }
    for (pid_t c : pids) {
        int st;
        waitpid(c, &st, 0);
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
            fprintf(stderr, "worker ended with status %#x\n", unsigned(st));
            return 3;
        }
    }
    const double explored = wall() - t0;

    // results
    uint64_t runs = 0, steps = 0, switches = 0, det = 0, detBad = 0;
    uint64_t counters[MaxCounters] = {}, pol[NPolicies] = {};
    static uint64_t opc[MaxOpIds];
    for (int w = 0; w < jobs; ++w) {
        const Slot &s = G->slots[w];
        runs += s.runs;
        steps += s.steps;
        switches += s.switches;
        det += G->detChecked[w];
        detBad += G->detMismatch[w];
        for (int i = 0; i < MaxCounters; ++i) counters[i] += s.counters[i];
        for (int i = 0; i < NPolicies; ++i) pol[i] += s.policyRuns[i];
        for (int i = 0; i < MaxOpIds; ++i) opc[i] += s.opCount[i];
    }
    int opsSeen = 0;
    uint64_t opMin = ~0ull;
    for (int i = 0; i < MaxOpIds; ++i) {
        if (opc[i]) {
            ++opsSeen;
            if (opc[i] < opMin) opMin = opc[i];
        }
    }
    std::string viol, err;
    const Found *best = nullptr;
    for (int w = 0; w < jobs; ++w) {
        const Found &f = G->found[w];
        if (f.have == 2) err = f.msg;
        if (f.have == 1 && (!best || f.runIndex < best->runIndex)) best = &f;
    }
    if (best) {
        statsOn = false;
        Slot *slot = &G->slots[MaxWorkers];
        static Plan p;
        std::string log;
        long wf = 0, wt = 0;
        bool ok = false;
        char cls[256], msg[1024];
        snprintf(cls, sizeof(cls), "%s", best->cls);
        snprintf(msg, sizeof(msg), "%s", best->msg);
        // gate: the same seed twice
        Outcome o = forkBatch(slot, best->runIndex, best->runIndex + 1);
        if (o == Violated && strcmp(slot->cls, cls) == 0) {
            const uint64_t h1 = slot->hash;
            o = forkBatch(slot, best->runIndex, best->runIndex + 1);
            if (o == Violated && slot->hash == h1) {
                memcpy(&p, &slot->plan, sizeof(Plan));
                const bool overflow = p.cfg[MaxCfg - 1] != 0;
                ok = true;
                if (!overflow) {
                    p.fixedSchedule = 1;
                    if (stillFails(slot, p, cls)) {
                        minimise(slot, p, cls, minBudget, log);
                    } else {
                        memcpy(&p, &slot->plan, sizeof(Plan));
                        p.fixedSchedule = 0;
                        p.nsegs = 0;
                        log = "replayed from its seed (recorded schedule did not reproduce)";
                    }
                } else {
                    p.nsegs = 0;
                    log = "replayed from its seed (schedule too long to record)";
                }
                // the minimised plan, twice
                const Outcome a = forkPlan(slot, p);
                const uint64_t ha = slot->hash;
                snprintf(msg, sizeof(msg), "%s", slot->msg);
                const Outcome b = forkPlan(slot, p);
                ok = a == Violated && b == Violated && ha == slot->hash && strcmp(slot->cls, cls) == 0;
                if (!ok) err = "minimised plan does not reproduce";
            } else {
                err = "violation is not deterministic";
            }
        } else {
            // needs the runs before it in the same process
            wf = best->batchStart;
            wt = best->runIndex + 1;
            o = forkBatch(slot, wf, wt);
            if (o == Violated && strcmp(slot->cls, cls) == 0) {
                const uint64_t h1 = slot->hash;
                o = forkBatch(slot, wf, wt);
                ok = o == Violated && slot->hash == h1;
                memcpy(&p, &slot->plan, sizeof(Plan));
                log = "depends on the preceding runs in the same process; replay repeats them";
                // shrink the prefix
                long lo = wf;
                for (long step = (wt - wf) / 2; step >= 1 && ok; step /= 2) {
                    while (lo + step < wt - 1) {
                        o = forkBatch(slot, lo + step, wt);
                        if (o == Violated && strcmp(slot->cls, cls) == 0) lo += step;
                        else break;
                    }
                }
                wf = lo;
                o = forkBatch(slot, wf, wt);
                ok = ok && o == Violated;
                snprintf(msg, sizeof(msg), "%s", slot->msg);
            }
            if (!ok) err = std::string("violation does not reproduce: ") + cls + ": " + msg;
        }
        if (ok) {
            if (!writePlan(replayOut, p, cls, msg, log, slot->hash, seed, wf, wt, slot->crashRip)) {
                err = "cannot write the replay file";
            } else {
                viol = "{\"class\":\"" + esc(cls) + "\",\"message\":\"" + esc(msg) + "\",\"replay\":\"" +
                       esc(replayOut) + "\",\"note\":\"" + esc(log.c_str()) + "\"}";
            }
        }
    }
    if (detBad && err.empty() && viol.empty()) {
        err = std::string("runs are not deterministic: ") + G->detMsg;
    }
    FILE *f = out ? fopen(out, "w") : stdout;
    if (!f) die("cannot write %s", out);
    fprintf(f, "{\"impl\":\"%s\",\"runs\":%llu,\"steps\":%llu,\"switches\":%llu,\"seconds\":%.2f,"
               "\"determinism_runs_compared\":%llu,\"determinism_mismatches\":%llu,"
               "\"distinct_interleavings\":%llu,\"distinct_preemption_sites\":%llu,\"distinct_states\":%llu,"
               "\"operations_exercised\":%d,\"operation_min_count\":%llu,",
            implName, (unsigned long long)runs, (unsigned long long)steps, (unsigned long long)switches,
            explored, (unsigned long long)det, (unsigned long long)detBad,
            (unsigned long long)popBits(G->interleavings), (unsigned long long)popBits(G->sites),
            (unsigned long long)popBits(G->states), opsSeen, (unsigned long long)(opsSeen ? opMin : 0));
    fprintf(f, "\"policies\":{\"random\":%llu,\"bursts\":%llu,\"pct\":%llu,\"stall\":%llu,\"roundrobin\":%llu,\"serial\":%llu,\"static_objects\":%llu},",
            (unsigned long long)pol[0], (unsigned long long)pol[1], (unsigned long long)pol[2],
            (unsigned long long)pol[3], (unsigned long long)pol[4], (unsigned long long)pol[5], (unsigned long long)pol[6]);
    fprintf(f, "\"counters\":{");
    for (int i = 0; i < nCounters; ++i) {
        fprintf(f, "%s\"%s\":%llu", i ? "," : "", esc(counterNames[i]).c_str(), (unsigned long long)counters[i]);
    }
    fprintf(f, "},\"rule\":\"%s\",\"violation\":%s,\"error\":%s}\n", esc(W.rule ? W.rule : "").c_str(),
            viol.empty() ? "null" : viol.c_str(), err.empty() ? "null" : ("\"" + esc(err.c_str()) + "\"").c_str());
    if (out) fclose(f);
    return !viol.empty() ? 1 : err.empty() ? 0 : 3;
}
