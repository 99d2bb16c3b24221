// C09  V::Random() in one thread and in several, after any history. The oracle is a second
// process that starts from the same state and draws without interleaving; what must hold of
// every number drawn (range, lane sequences) is judged in the simulated process.
#include "common.h"
#include <Vc/Memory>
#include <xmmintrin.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace sim;

// the generator's state, where there is one of that name: states that a long history leads to
extern "C" unsigned vcRandomState[16] __asm__("_ZN4Vc_16Common11RandomStateE") __attribute__((weak));

static const Counter cDraws("draws"), cRepro("reproducibility_runs"), cPure("runs_with_concurrent_draws_of_one_type"),
    cMixed("runs_with_concurrent_draws_of_several_types"), cJump("starting_states_drawn"), cNoise("other_operations"),
    cOrbit("lane_sequences_followed"), cRound("other_rounding_modes"), cEdge("starting_states_at_the_edge");

enum { MaxBytes = 256 };
struct Kind {
    std::string name;
    int lanes, size;
    bool real, lcg64, lcg32;       // which sequences its lanes follow, if it has the known structure
    void (*draw)(void *);
};
static Kind kinds[40];
static int nKinds;
template <class V> static NOINLINE V drawOne() { return V::Random(); }
template <class V> static NOINLINE void drawTo(void *out)
{
    const V v = drawOne<V>();
    NoYield ny;
    typename V::EntryType x[V::Size];
    for (size_t i = 0; i < V::Size; ++i) x[i] = v[i];
    memcpy(out, x, sizeof(x));
}
template <class V> static void add(bool lcg32 = false)
{
    typedef typename V::EntryType T;
    Kind k = {VName<V>::get(), int(V::Size), int(sizeof(T)), std::is_floating_point<T>::value, std::is_same<T, double>::value && !Vc::Traits::isSimdArray<V>(),
              lcg32, drawTo<V>};
    if (V::Size * sizeof(T) > MaxBytes) __builtin_trap();
    kinds[nKinds++] = k;
}
static void makeKinds()
{
    add<Vc::float_v>();
    add<Vc::double_v>();
    add<Vc::int_v>(true);
    add<Vc::uint_v>(true);
    add<Vc::short_v>();
    add<Vc::ushort_v>();
#ifdef Vc_IMPL_AVX
    add<Vc::SSE::float_v>();
    add<Vc::SSE::double_v>();
    add<Vc::SSE::int_v>(true);
    add<Vc::SSE::ushort_v>();
#endif
#ifndef Vc_IMPL_Scalar
    add<Vc::Scalar::float_v>();
    add<Vc::Scalar::double_v>();
    add<Vc::Scalar::uint_v>(true);
    add<Vc::Scalar::short_v>();
#endif
    add<Vc::SimdArray<float, 11>>();
    add<Vc::SimdArray<double, 5>>();
    add<Vc::SimdArray<int, 16>>();
    add<Vc::SimdArray<unsigned short, 24>>();
}

// ------------------------------------------------------------------ what every draw must satisfy
static void checkRange(const Kind &k, const void *p, const char *when)
{
    if (!k.real) return;
    for (int i = 0; i < k.lanes; ++i) {
        double x;
        if (k.size == 4) {
            float f;
            memcpy(&f, static_cast<const char *>(p) + 4 * i, 4);
            x = f;
        } else {
            memcpy(&x, static_cast<const char *>(p) + 8 * i, 8);
        }
        if (!(x >= 0 && x < 1)) fail("out-of-range", "%s::Random() is %.17g in lane %d (%s)", k.name.c_str(), x, i, when);
    }
}
// n draws in one thread are not constant in any lane
static void checkAlive(const Kind &k, const char *draws, int n, const char *when)
{
    for (int i = 0; i < k.lanes; ++i) {
        if (k.real) {
            int low = 0, high = 0;
            for (int j = 0; j < n; ++j) {
                double x;
                const char *p = draws + j * MaxBytes + k.size * i;
                if (k.size == 4) {
                    float f;
                    memcpy(&f, p, 4);
                    x = f;
                } else {
                    memcpy(&x, p, 8);
                }
                (x < 0.5 ? low : high)++;
            }
            if (!low || !high) fail("stuck", "%d draws of %s are all in one half of the range in lane %d (%s)", n, k.name.c_str(), i, when);
        } else {
            uint64_t o = 0, a = ~0ull;
            for (int j = 0; j < n; ++j) {
                uint64_t x = 0;
                memcpy(&x, draws + j * MaxBytes + k.size * i, size_t(k.size));
                o |= x;
                a &= x;
            }
            const uint64_t all = k.size == 2 ? 0xffff : 0xffffffffu;
            if (o != all || (a & all) != 0) {
                fail("stuck", "bits 0x%llx of lane %d do not change in %d draws of %s (%s)", (unsigned long long)(~(o & ~a) & all), i, n, k.name.c_str(), when);
            }
        }
    }
}

// ------------------------------------------------------------------ programs
static Plan *P0;
enum { ODraw, ONoise, NOps };
static const char *const opNames[NOps] = {"Random", "other operation"};
enum { Repro, Pure, Mixed };
enum { MaxDraws = 256, Tail = 56 };
static char reference[MaxDraws * MaxBytes];   // drawn by the second process
static int nReference;
static char drawn[MaxThreads][MaxDraws][MaxBytes];
static int drawnKind[MaxThreads][MaxDraws];
static int nDrawn[MaxThreads];

static int kindOf(const Op &o) { return int(P0->cfg[1]) == Pure ? int(P0->cfg[2]) % nKinds : int(o.a[0]) % nKinds; }
static NOINLINE void noise(Rng &r)
{
    Vc::float_v x([&](int) { return float(r.below(1000)) * 0.01f; });
    switch (r.below(5)) {
    case 0: x = Vc::sin(x); break;
    case 1: x = x.sorted(); break;
    case 2: {
        float *p = Vc::malloc<float, Vc::AlignOnVector>(32);
        if (p) x.store(p, Vc::Aligned);
        Vc::free(p);
        break;
    }
    case 3: x = Vc::exp(x * 0.01f); break;
    default: x = Vc::log(x + 1.f); break;
    }
    asm volatile("" : : "m"(x));
}
static void one(int tid, const Op &o)
{
    NoYield ny;
    Live live{ny};
    countOp(o.op);
    Rng r(o.seed);
    if (o.op == ONoise) {
        cNoise++;
        context("other operation");
        live([&] { noise(r); });
        return;
    }
    const Kind &k = kinds[kindOf(o)];
    context(k.name.c_str());
    const int n = 1 + int(o.a[1]);
    for (int i = 0; i < n && nDrawn[tid] < MaxDraws; ++i) {
        char *to = drawn[tid][nDrawn[tid]];
        drawnKind[tid][nDrawn[tid]++] = kindOf(o);
        memset(to, 0xa5, MaxBytes);
        live([&] { k.draw(to); });
        cDraws++;
        checkRange(k, to, "while others draw");
        note(hashBytes(to, size_t(k.lanes * k.size)));
    }
}
static void body(int tid, void *)
{
    NoYield ny;
    Live live{ny};
    for (int i = 0; i < P0->nops; ++i) {
        if (P0->ops[i].thread == tid) {
            const Op &o = P0->ops[i];
            live([&] { one(tid, o); });
        }
    }
}
static char tail[Tail * MaxBytes];
static void after(int, void *)
{
    NoYield ny;
    Live live{ny};
    const Kind &k = kinds[int(P0->cfg[3]) % nKinds];
    context("afterwards");
    for (int i = 0; i < Tail; ++i) {
        live([&] { k.draw(tail + i * MaxBytes); });
        checkRange(k, tail + i * MaxBytes, "afterwards");
    }
}
// what the second process does: the draws of thread 0, or as many of one kind as there will be
static NOINLINE void dirtyStack()
{
    volatile char junk[8192];
    for (size_t i = 0; i < sizeof(junk); ++i) junk[i] = char(i * 37 + 11);
}
static void secondProcess(Plan &p, int fd)
{
    dirtyStack();
    int n = 0;
    static char out[MaxDraws * MaxBytes];
    if (p.cfg[1] == Repro) {
        for (int i = 0; i < p.nops; ++i) {
            const Op &o = p.ops[i];
            if (o.thread != 0 || o.op != ODraw) continue;
            for (int j = 0; j < 1 + int(o.a[1]) && n < MaxDraws; ++j) kinds[kindOf(o)].draw(out + MaxBytes * n++);
        }
    } else {
        const Kind &k = kinds[int(p.cfg[2]) % nKinds];
        while (n < MaxDraws) k.draw(out + MaxBytes * n++);
    }
    const size_t bytes = size_t(n) * MaxBytes;
    size_t done = 0;
    while (done < bytes) {
        const ssize_t w = write(fd, out + done, bytes - done);
        if (w <= 0) break;
        done += size_t(w);
    }
    _exit(0);
}
static void askReference(Plan &p)
{
    int fd[2];
    nReference = 0;
    if (pipe(fd) != 0) fail("harness", "pipe");
    const pid_t pid = fork();
    if (pid == 0) {
        close(fd[0]);
        secondProcess(p, fd[1]);
    }
    close(fd[1]);
    size_t got = 0;
    while (got < sizeof(reference)) {
        const ssize_t n = read(fd[0], reference + got, sizeof(reference) - got);
        if (n <= 0) break;
        got += size_t(n);
    }
    close(fd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (!WIFEXITED(st)) fail("crash-undisturbed", "drawing without interleaving crashes");
    nReference = int(got / MaxBytes);
}
static uint32_t u32(const char *p)
{
    uint32_t x;
    memcpy(&x, p, 4);
    return x;
}
static uint64_t mantissa(const char *p)
{
    double x;
    memcpy(&x, p, 8);
    return uint64_t(x * 4503599627370496.);   // exact: 52 bits
}
// every lane of every draw is one of that lane's undisturbed sequence
static void checkMembers(const Kind &k, int nthreads)
{
    for (int t = 0; t <= nthreads; ++t) {
        const int n = t < nthreads ? nDrawn[t] : Tail;
        for (int j = 0; j < n; ++j) {
            const char *d = t < nthreads ? drawn[t][j] : tail + j * MaxBytes;
            for (int i = 0; i < k.lanes; ++i) {
                const uint64_t x = mantissa(d + 8 * i);
                bool found = false;
                for (int q = 0; q < nReference && !found; ++q) found = mantissa(reference + q * MaxBytes + 8 * i) == x;
                if (!found) {
                    fail("derailed", "lane %d of %s is 0x%llx, which is not in its sequence (%s, draw %d)", i, k.name.c_str(), (unsigned long long)x,
                         t < nthreads ? "concurrently" : "afterwards", j);
                }
            }
        }
    }
    cOrbit++;
}
// x' = (x * a + c) ^ (y >> 16), y' = y * a + c: the undisturbed sequence shows y >> 16
static uint32_t upper(const char *seq, int i, int lane)
{
    return u32(seq + (i + 1) * MaxBytes + 4 * lane) ^ (u32(seq + i * MaxBytes + 4 * lane) * 0xdeece66du + 11);
}
static void checkOrbit(const Kind &k)
{
    enum { Window = 8 };
    for (int lane = 0; lane < k.lanes; ++lane) {
        for (int i = 0; i + 1 < nReference; ++i) {
            if (upper(reference, i, lane) >> 16) return;      // a generator of another structure
        }
    }
    for (int lane = 0; lane < k.lanes; ++lane) {
        bool found = false;
        for (int s = 0; s + Window + 1 < nReference && !found; ++s) {
            int w = 0;
            while (w < Window && upper(tail, w, lane) == upper(reference, s + w, lane)) ++w;
            found = w == Window;
        }
        if (!found) fail("derailed", "lane %d of %s does not continue on its sequence after concurrent draws", lane, k.name.c_str());
    }
    cOrbit++;
}
// the state from which, in k steps, the present one is reached (steps of vectors with w entries; w = 0: of
// double entries): so that not only the first draw of a composed vector is an extreme one
static void back(int w, int k)
{
    if (w == 0) {
        uint64_t inv = 1;
        for (int i = 0; i < 6; ++i) inv *= 2 - 0x5deece66dull * inv;
        for (int i = 0; i < 16; i += 2) {
            uint64_t x;
            memcpy(&x, &vcRandomState[i], 8);
            for (int j = 0; j < k; ++j) x = (x - 11) * inv;
            memcpy(&vcRandomState[i], &x, 8);
        }
        return;
    }
    unsigned inv = 1;
    for (int i = 0; i < 5; ++i) inv *= 2 - 0xdeece66du * inv;
    for (int j = 0; j < k; ++j) {
        for (int i = 0; i < w; ++i) {
            unsigned &x = vcRandomState[i], &y = vcRandomState[w + i];
            y = (y - 11) * inv;
            x = ((x ^ (y >> 16)) - 11) * inv;
        }
    }
}
static void run(Plan &p)
{
    NoYield ny;
    Live live{ny};
    P0 = &p;
    Rng r(uint64_t(p.cfg[0]));
    if (&vcRandomState[0] && p.cfg[4]) {
        cJump++;
        for (int i = 0; i < 16; ++i) vcRandomState[i] = unsigned(r.next());
        if (p.cfg[4] == 2) {        // each lane passes through each of its states
            cEdge++;
            static const unsigned edge[] = {0, 1, 0x7fffffffu, 0x80000000u, 0xffffffffu, 0xfffffffeu, 0xffffff80u, 0xffffffbfu, 0x3fffffffu, 0xfffff000u};
            for (int i = 0; i < 16; ++i) {
                if (r.below(2)) vcRandomState[i] = edge[r.below(10)];
            }
            static const int widths[] = {0, 0, 1, 4, 8, 8};
            if (r.below(2)) back(widths[r.below(6)], int(r.below(6)));
        }
    }
    memset(nDrawn, 0, sizeof(nDrawn));
    if (p.cfg[1] != Mixed) askReference(p);
    const unsigned csr = _mm_getcsr();
    (p.cfg[1] == Repro ? cRepro : p.cfg[1] == Pure ? cPure : cMixed)++;
    setStepCap(2000000);
    live([&] { parallel(p.nthreads, body, nullptr); });
    live([&] { parallel(1, after, nullptr); });
    if (p.cfg[1] == Repro) {
        int q = 0;
        for (int j = 0; j < nDrawn[0]; ++j, ++q) {
            const Kind &k = kinds[drawnKind[0][j]];
            if (q >= nReference || memcmp(drawn[0][j], reference + q * MaxBytes, size_t(k.lanes * k.size)) != 0) {
                fail("not-reproducible", "draw %d of the program (%s) differs from the same program in another process", j, k.name.c_str());
            }
        }
    } else if (p.cfg[1] == Pure) {
        const Kind &k = kinds[int(p.cfg[2]) % nKinds];
        if (k.lcg64) checkMembers(k, p.nthreads);
        if (k.lcg32 && &k == &kinds[int(p.cfg[3]) % nKinds]) checkOrbit(k);
    }
    checkAlive(kinds[int(p.cfg[3]) % nKinds], tail, Tail, "afterwards");
    _mm_setcsr(csr);
}
static void generate(Rng &r, Plan &p)
{
    p.cfg[0] = long(r.next());
    p.cfg[1] = long(r.below(3));
    p.cfg[2] = long(r.below(uint64_t(nKinds)));
    p.cfg[3] = p.cfg[1] == Pure ? p.cfg[2] : long(r.below(uint64_t(nKinds)));
    p.cfg[4] = long(r.below(3));
    p.nthreads = int(r.range(p.cfg[1] == Repro ? 1 : 2, 4));
    const int n = int(r.range(p.nthreads, 10));
    for (int i = 0; i < n; ++i) {
        const int t = i < p.nthreads ? i : int(r.below(uint64_t(p.nthreads)));
        const int op = p.cfg[1] == Repro ? (t == 0 ? ODraw : ONoise) : r.below(8) ? ODraw : ONoise;
        p.add(t, op, r.next(), long(r.below(1000)), long(r.below(6)));
    }
    choosePolicy(r, p, 80 * p.nthreads);
}
static void setup() { makeKinds(); }
static const char *opName(int i) { return opNames[i]; }
Workload sim::workload()
{
    return {"C09", setup, generate, run, opName, ""};
}
