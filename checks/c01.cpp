// C01  Value operations are reentrant: results never depend on other threads, on
//      what ran before, or on being used before main().
// C11  (-DWAITFREE) They never wait for another thread, allocate or lock.
// The oracle is the operation itself, run alone in a fresh process beforehand.
#include "ops.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <xmmintrin.h>

using namespace sim;

enum { NTypes = 6, MaxO = 128, NVar = 24, NEarly = 3 };
struct Gold {
    uint64_t hash;
    uint32_t n;
    uint32_t steps;
    uint32_t ok;
    uint32_t csr;   // sticky flags are not compared, control bits are
};
struct Tables {
    Gold solo[NTypes][MaxO][NVar];
    Gold again[NTypes][MaxO][NVar];
    Gold early[NTypes][MaxO][NEarly];
    uint64_t hot[NTypes][MaxO];   // accesses to static objects that can change
};
static Tables *tab;

// variants differ in operands and in the caller's rounding mode
static unsigned modeOf(int variant)
{
    static const unsigned m[3] = {0x1f80, 0x5f80 /* round up */, 0x9fc0 /* to zero, flush, denormals are zero */};
    return variant % 4 == 3 ? m[(variant / 4) % 3] : m[0];
}
static inline unsigned getCsr() { return _mm_getcsr(); }
static inline unsigned short getCw()
{
    unsigned short w;
    asm volatile("fnstcw %0" : "=m"(w));
    return w;
}

struct Row {
    std::string name;
    int nops;
    const char *(*opName)(int);
    int (*io)(int);
    // runs under test with yield points live; the rest is harness
    void (*run)(int op, int variant, Out &o, const Live *live);
};
template <class V, bool Native> struct RowOf {
    static OpList<V> *ops;
    static const char *opName(int i) { return (*ops)[size_t(i)].name; }
    static int io(int i) { return (*ops)[size_t(i)].io; }
    static void run(int op, int variant, Out &o, const Live *live)
    {
        In<V> in;
        in.prepare(mix(uint64_t(op) * 1000 + 17, uint64_t(variant)) / 6 * 6 + uint64_t(variant % 6));
        o.clear();
        auto fn = (*ops)[size_t(op)].fn;
        const unsigned before = getCsr();
        _mm_setcsr(modeOf(variant));
        if (live) {
            uint64_t s0 = 0, s1 = 0;
            (*live)([&] {
                s0 = ownSteps();
                fn(in, o);
                s1 = ownSteps();
            });
            o.steps = long(s1 - s0);
        } else {
            fn(in, o);
        }
        const unsigned after = getCsr();
        _mm_setcsr(before);
        if ((after & ~0x3fu) != (modeOf(variant) & ~0x3fu)) {
            o.raw("control state changed", 21);
            o.control |= 1;
        }
        if (getCw() != 0x37f) {
            o.raw("x87 control word changed", 24);
            o.control |= 2;
            const unsigned short cw = 0x37f;
            asm volatile("fldcw %0" : : "m"(cw));
        }
    }
    static Row make()
    {
        ops = new OpList<V>(allOps<V, Native>());
        return {VName<V>::get(), int(ops->size()), opName, io, run};
    }
};
template <class V, bool Native> OpList<V> *RowOf<V, Native>::ops;

static std::vector<Row> *rows;
static void makeRows()
{
    rows = new std::vector<Row>{
#if PART == 0
        RowOf<Vc::float_v, true>::make(),
#elif PART == 1
        RowOf<Vc::double_v, true>::make(),
        RowOf<Vc::SimdArray<int, 7>, false>::make(),
#elif PART == 2
        RowOf<Vc::int_v, true>::make(), RowOf<Vc::ushort_v, true>::make(),
#elif PART == 3
        RowOf<Vc::short_v, true>::make(), RowOf<Vc::uint_v, true>::make(),
#elif PART == 4
        RowOf<Vc::SimdArray<float, 5>, false>::make(), RowOf<Vc::SimdArray<double, 8>, false>::make(),
        RowOf<Vc::SimdArray<unsigned short, 19>, false>::make(),
#elif PART == 5   // the smaller vectors of the same build
#ifdef Vc_IMPL_AVX
        RowOf<Vc::SSE::Vector<float>, true>::make(), RowOf<Vc::SSE::Vector<short>, true>::make(),
#else
        RowOf<Vc::Scalar::Vector<float>, true>::make(), RowOf<Vc::Scalar::Vector<short>, true>::make(),
#endif
#endif
    };
}
static Gold goldOf(const Out &o)
{
    Gold g = {};
    g.hash = hashBytes(o.bytes, size_t(o.n)) ^ (o.overflow ? 1 : 0);
    g.n = uint32_t(o.n);
    g.ok = 1;
    return g;
}

// ------------------------------------------------ before any other initialiser
struct EarlyOut { Out o; };
static void early() __attribute__((constructor(101)));
static void early()
{
    tab = static_cast<Tables *>(mmap(nullptr, sizeof(Tables), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    const pid_t c = fork();
    if (c == 0) {
        makeRows();
        static EarlyOut e;
        for (size_t t = 0; t < rows->size(); ++t) {
            for (int op = 0; op < (*rows)[t].nops; ++op) {
                if ((*rows)[t].io(op)) {
                    continue;   // streams need their own initialisation first
                }
                for (int v = 0; v < NEarly; ++v) {
                    (*rows)[t].run(op, v, e.o, nullptr);
                    tab->early[t][op][v] = goldOf(e.o);
                }
            }
        }
        _exit(0);
    }
    int st;
    waitpid(c, &st, 0);
}

static const Counter cSame("same_operation_in_all_threads"), cMixed("different_operations"), cCold("cold_process_runs"),
    cBound("operations_with_their_own_steps_counted"), cPursued("runs_with_one_thread_overtaken_at_every_step"),
    cEarly("compared_with_static_initialiser"), cMode("nondefault_rounding_mode_ops"), cIo("stream_ops"),
    cSignal("signal_handlers_run"), cSignalSame("signal_handlers_running_the_interrupted_operation"),
    cStalled("runs_with_thread_suspended_for_ever"), cSuspended("ops_while_a_thread_was_suspended");

static void soloPass(Gold (*g)[MaxO][NVar], bool backwards)
{
    static Out o;
    const int nt = int(rows->size());
    for (int ti = 0; ti < nt; ++ti) {
        const int t = backwards ? nt - 1 - ti : ti;
        Row &r = (*rows)[size_t(t)];
        for (int oi = 0; oi < r.nops; ++oi) {
            const int op = backwards ? r.nops - 1 - oi : oi;
            const uint64_t before = hotAccesses();
            for (int v = 0; v < NVar; ++v) {
                NoYield ny;
                const Live counted{ny};
                ny.saved = int64_t(1) << 40;   // no preemption here, but static objects are noticed
                r.run(op, v, o, &counted);
                const int64_t left = ny.saved;
                ny.saved = INT64_MAX;
                g[t][op][v] = goldOf(o);
                g[t][op][v].steps = uint32_t((int64_t(1) << 40) - left);
            }
            if (!backwards) {
                tab->hot[t][op] = hotAccesses() - before;
            }
        }
    }
}
static void soloForward() { soloPass(tab->solo, false); }
static void soloBackward() { soloPass(tab->again, true); }
// operations that touch static objects: what could go wrong there is worth more runs
static std::vector<int> *hotOps;
static void setup()
{
    makeRows();
    if (!inChild(soloForward) || !inChild(soloBackward)) {
        _exit(3);
    }
    hotOps = new std::vector<int>;
    for (int t = 0; t < int(rows->size()); ++t) {
        for (int op = 0; op < (*rows)[size_t(t)].nops; ++op) {
            if (tab->hot[t][op]) {
#ifdef WAITFREE
                if ((*rows)[size_t(t)].io(op)) {
                    continue;
                }
#endif
                hotOps->push_back(t * MaxO + op);
            }
        }
    }
    if (getenv("SIM_SHOW_HOT")) {
        for (int id : *hotOps) {
            fprintf(stderr, "hot: %s %s %llu\n", (*rows)[size_t(id / MaxO)].name.c_str(), (*rows)[size_t(id / MaxO)].opName(id % MaxO),
                    (unsigned long long)tab->hot[id / MaxO][id % MaxO]);
        }
    }
}

static bool first = true;   // this process has not executed any operation yet

static void generate(Rng &r, Plan &p)
{
    p.nthreads = r.chance(60) ? 2 : r.chance(60) ? 3 : 4;
    const int nt = int(rows->size());
    int t0 = int(r.below(uint64_t(nt)));
    int o0 = int(r.below(uint64_t((*rows)[size_t(t0)].nops)));
    const bool hot = !hotOps->empty() && r.chance(35);
    if (hot) {
        const int id = (*hotOps)[size_t(r.below(hotOps->size()))];
        t0 = id / MaxO;
        o0 = id % MaxO;
    }
    const bool same = hot || r.chance(65);
    p.cfg[0] = same;
    // repeat: few arguments come back, so that anything an operation remembers is used
    const bool repeat = same && r.chance(hot ? 75 : 40);
    const int per = repeat ? int(r.range(2, 5)) : int(r.range(1, same ? 2 : 3));
    long few[2] = {long(r.below(NVar)), long(r.below(NVar))};
    if (r.chance(30)) {
        few[1] = few[0];
    }
    for (int t = 0; t < p.nthreads; ++t) {
        for (int k = 0; k < per; ++k) {
            int ty = t0, op = o0;
            if (!same || (k > 0 && r.chance(repeat ? 15 : 50))) {
                ty = r.chance(70) ? t0 : int(r.below(uint64_t(nt)));
                op = int(r.below(uint64_t((*rows)[size_t(ty)].nops)));
            }
#ifdef WAITFREE
            for (int tries = 0; tries < 50 && (*rows)[size_t(ty)].io(op); ++tries) {
                op = int(r.below(uint64_t((*rows)[size_t(ty)].nops)));
            }
#endif
            p.add(t, ty * MaxO + op, r.next(), repeat ? few[r.below(2)] : long(r.below(NVar)));
        }
    }
#ifdef WAITFREE
    p.policy = Stall;
    p.schedSeed = r.next();
    p.policyArg[0] = long(r.below(uint64_t(p.nthreads)));
    p.policyArg[1] = r.chance(50) ? r.range(1, 60) : r.range(1, 600);
    p.policyArg[2] = r.range(1, 200);
    if (r.chance(12) && p.nthreads > 1) {
        // the others finish the operation again and again between any two steps of one thread
        p.nthreads = 2;
        p.nops = 0;
        p.policy = Bursts;
        p.cfg[1] = 1 + long(r.below(2));   // whom they interfere with
        p.policyArg[0] = p.cfg[1] - 1;
        p.policyArg[1] = 1;
        p.policyArg[2] = r.chance(50) ? 300 : 100;
        p.policyArg[3] = 1;
        while ((*rows)[size_t(t0)].io(o0)) {
            o0 = int(r.below(uint64_t((*rows)[size_t(t0)].nops)));
        }
        for (int t = 0; t < 2; ++t) p.add(t, t0 * MaxO + o0, r.next(), few[t]);
        return;
    }
    // a quarter of the runs: plain interleavings
    if (r.chance(25)) {
        choosePolicy(r, p, 200);
    }
#else
    choosePolicy(r, p, 150 * p.nthreads * per);
    if (hot && r.chance(60)) {
        p.policy = Hot;
        p.policyArg[0] = r.chance(50) ? 50 : r.range(10, 100);
        p.policyArg[1] = r.chance(50) ? 300 : r.range(5, 300);
    }
    // signal handlers that use the library, too
    if (r.chance(hot ? 50 : 30)) p.cfg[2] = r.chance(50) ? 100 : r.range(1, 60);
#endif
}
static const char *opName(int i)
{
    static char buf[128];
    const Row &r = (*rows)[size_t(i / MaxO)];
    snprintf(buf, sizeof(buf), "%s %s", r.name.c_str(), r.opName(i % MaxO));
    return buf;
}

static Plan *P;
static Out outs[MaxThreads];
static char ctx[MaxThreads][128];
static int pursued;     // the thread the others interfere with has not finished, -1: nobody
static bool victimSuspended()
{
    return P->policy == Stall && stallReached();
}
#ifndef WAITFREE
static int currentOp[MaxThreads], currentVar[MaxThreads];
static void handler(int tid)
{
    static Out o;
    Rng r(mix(P->seed ^ 0x5168, now()));
    int id = currentOp[tid], v = r.chance(50) ? currentVar[tid] : int(r.below(NVar));
    const bool same = id >= 0 && r.chance(60);
    if (!same) {
        id = int(r.below(rows->size())) * MaxO;
        id += int(r.below(uint64_t((*rows)[size_t(id / MaxO)].nops)));
    }
    const int t = id / MaxO, op = id % MaxO;
    const Row &row = (*rows)[size_t(t)];
    if (row.io(op)) {
        return;   // not for signal handlers
    }
    char where[300];
    snprintf(where, sizeof(where), "%s %s in a signal handler during %s", row.name.c_str(), row.opName(op), ctx[tid]);
    context(where);
    row.run(op, v, o, nullptr);
    const Gold g = goldOf(o), &want = tab->solo[t][op][v];
    if (g.n != want.n || g.hash != want.hash) {
        fail("result-differs", "%s (operands %d) gives another result than alone", where, v);
    }
    context(ctx[tid]);
    cSignal++;
    if (same) cSignalSame++;
    note(g.hash);
}
#endif
static void bodyOnce(int tid)
{
    for (int k = 0; k < P->nops; ++k) {
        const Op &o = P->ops[k];
        if (o.thread != tid) {
            continue;
        }
        NoYield ny;
        const Live live{ny};
        const int t = o.op / MaxO, op = o.op % MaxO, var = int(o.a[0]);
        const Row &r = (*rows)[size_t(t)];
        snprintf(ctx[tid], sizeof(ctx[tid]), "%s %s", r.name.c_str(), r.opName(op));
        context(ctx[tid]);
        countOp(o.op);
        if (modeOf(var) != 0x1f80) cMode++;
        if (r.io(op)) cIo++;
#ifdef WAITFREE
        const uint64_t locks = lockCalls();
        const long allocs = heap::allocations();
        if (victimSuspended()) cSuspended++;
#endif
#ifndef WAITFREE
        currentOp[tid] = o.op;
        currentVar[tid] = var;
#endif
        r.run(op, var, outs[tid], &live);
        const Gold g = goldOf(outs[tid]);
        const Gold &want = tab->solo[t][op][var];
#ifdef WAITFREE
        (void)g;
        const uint64_t own = uint64_t(outs[tid].steps);
        if (own > want.steps + want.steps / 2 + 64) {
            fail("unbounded", "%s (operands %d) took %llu steps of its own, alone it takes %u", ctx[tid], var, (unsigned long long)own,
                 want.steps);
        }
        cBound++;
        if (lockCalls() != locks) {
            fail("takes-lock", "%s took a lock", ctx[tid]);
        }
        if (heap::allocations() != allocs) {
            fail("allocates", "%s allocated heap memory", ctx[tid]);
        }
#else
        // also when it happens in every program
        if (outs[tid].control) {
            fail("control-state-changed", "%s (operands %d) leaves its thread with another %s control word", ctx[tid], var,
                 outs[tid].control & 1 ? "SSE" : "x87");
        }
        if (g.n != want.n || g.hash != want.hash) {
            char text[200];
            int n = 0;
            for (int i = 0; i < outs[tid].n && i < 40; ++i) {
                n += snprintf(text + n, sizeof(text) - size_t(n), "%02x", outs[tid].bytes[i]);
            }
            fail("result-differs", "%s (operands %d, thread %d of %d) gives another result than alone: %d bytes %s",
                 ctx[tid], var, tid, P->nthreads, outs[tid].n, text);
        }
#endif
        note(g.hash);
    }
}
static void body(int tid, void *)
{
#ifdef WAITFREE
    const int victim = int(P->cfg[1]) - 1;
    if (victim >= 0 && tid != victim) {
        for (int i = 0; i < 300 && pursued == victim; ++i) bodyOnce(tid);
        return;
    }
#endif
    bodyOnce(tid);
    pursued = -1;
}
static void run(Plan &p)
{
    P = &p;
    pursued = int(p.cfg[1]) - 1;
    if (pursued >= 0) cPursued++;
    if (p.cfg[0]) cSame++; else cMixed++;
    if (first) {
        cCold++;
        first = false;
    }
#ifndef WAITFREE
    for (int t = 0; t < MaxThreads; ++t) currentOp[t] = -1;
    signals(int(p.cfg[2]), handler);
#endif
#ifdef WAITFREE
    if (p.policy == Stall) cStalled++;
    forbidWaiting(true);
    setStepCap(400000);
    heap::reset(p.seed);
    heap::activate(true);
#endif
    parallel(p.nthreads, body, nullptr);
#ifdef WAITFREE
    heap::activate(false);
#else
    // what does not depend on the schedule
    for (int k = 0; k < p.nops; ++k) {
        const int t = p.ops[k].op / MaxO, op = p.ops[k].op % MaxO, v = int(p.ops[k].a[0]);
        const Gold &s = tab->solo[t][op][v], &a = tab->again[t][op][v];
        if (s.hash != a.hash || s.n != a.n) {
            fail("history-dependent", "%s gives another result when other operations ran before it", opName(p.ops[k].op));
        }
        if (v < NEarly && !(*rows)[size_t(t)].io(op)) {
            cEarly++;
            const Gold &e = tab->early[t][op][v];
            if (!e.ok || e.hash != s.hash || e.n != s.n) {
                fail("static-initialiser", "%s %s when used by an early static initialiser", opName(p.ops[k].op),
                     e.ok ? "gives another result" : "crashes");
            }
        }
    }
#endif
}
Workload sim::workload()
{
#ifdef WAITFREE
    return {"C11", setup, generate, run, opName, "", 1};
#else
    return {"C01", setup, generate, run, opName, "", 1};
#endif
}
