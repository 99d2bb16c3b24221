// C05  Aligned allocation on a simulated heap that places blocks as badly as its interface
// allows and refuses requests: Vc::malloc, Vc::Allocator, classes with Vc's operator new,
// make_unique, from several threads that also free each other's storage.
#include "common.h"
#include <Vc/Allocator>
#include <Vc/Memory>
#include <climits>
#include <Vc/simdize>
#include <new>
#include <algorithm>
#include <tuple>
#include <vector>

using namespace sim;

static const Counter cGet("allocations"), cPut("deallocations"), cRefused("allocations_refused"), cHuge("unrepresentable_requests"),
    cBig("requests_beyond_the_machine"), cBomb("constructor_throws"), cZero("empty_requests"), cCross("freed_by_another_thread"),
    cNull("null_pointers_freed"), cBad("bad_alloc_seen"), cNullSeen("null_results_seen");

struct Bomb {
    int at;
};
struct Fuse {         // per thread: the ctor that throws
    int left;         // 0: never; 1: the next one
    long alive;       // objects constructed and not destroyed by operations of this thread
};
static Fuse fuses[MaxThreads];

struct Nothing {};
template <class Base, int N> struct ObjOf : public Base {
    unsigned char b[N];
    static void born(ObjOf *self)
    {
        NoYield ny;
        const heap::Block *k = heap::find(self);
        if (!k || reinterpret_cast<char *>(self) + sizeof(ObjOf) > k->p + k->size) {
            fail("constructed-in-no-storage", "an object of %zu bytes is constructed at %p", sizeof(ObjOf), static_cast<void *>(self));
        }
        Fuse &f = fuses[sim::self()];
        if (f.left && --f.left == 0) {
            cBomb++;
            throw Bomb{1};
        }
        ++f.alive;
    }
    ObjOf() { born(this); }
    ObjOf(int, int) { born(this); }
    ~ObjOf()
    {
        NoYield ny;
        --fuses[sim::self()].alive;
    }
};
template <size_t A, int N> using Obj = ObjOf<Vc::AlignedBase<A>, N>;
template <int N> using Plain = ObjOf<Nothing, N>;
template <size_t A> struct alignas(A) Over {
    char x[A];
};
struct Three {
    char c[3];
};
struct D3 {
    double d[3];
};

typedef Vc::simdize<std::tuple<float, double, short>> Simdized;
struct Declared {
    Vc::float_v v[3];
};
Vc_DECLARE_ALLOCATOR(Declared)

enum Report { Null, Throw };
struct Kind {
    std::string name;
    Report report;
    size_t align;
    size_t unit;      // bytes per element
    size_t pad;       // storage is a multiple of this
    bool array;       // takes a count
    bool ctor;        // constructs
    bool nothing;     // n == 0 may give nothing
    void *(*get)(size_t);
    void (*put)(void *, size_t);
};
template <class T, Vc::MallocAlignment A> struct M {
    static NOINLINE void *get(size_t n) { return Vc::malloc<T, A>(n); }
    static NOINLINE void put(void *p, size_t) { Vc::free(static_cast<T *>(p)); }
    static size_t al() { return A == Vc::AlignOnVector ? size_t(Vc::VectorAlignment) : A == Vc::AlignOnCacheline ? 64 : 4096; }
    static Kind kind(const char *n) { return {std::string("Vc::malloc<") + n + ">", Null, al(), sizeof(T), al(), true, false, true, get, put}; }
};
template <size_t A> struct R {
    static NOINLINE void *get(size_t n) { return Vc::Common::aligned_malloc<A>(n); }
    static NOINLINE void put(void *p, size_t) { Vc::Common::free(p); }
    static Kind kind() { return {"aligned_malloc<" + std::to_string(A) + ">", Null, A, 1, A, true, false, true, get, put}; }
};
template <class T> struct A {
    static NOINLINE void *get(size_t n)
    {
        Vc::Allocator<T> a;
        return a.allocate(n);
    }
    static NOINLINE void put(void *p, size_t n)
    {
        Vc::Allocator<T> a;
        a.deallocate(static_cast<T *>(p), n);
    }
    static Kind kind(const char *n)
    {
#if defined Vc_IMPL_AVX
        const size_t simd = 32;
#elif defined Vc_IMPL_SSE
        const size_t simd = 16;
#else
        const size_t simd = 1;
#endif
        return {std::string("Vc::Allocator<") + n + ">", Throw, alignof(T) > simd ? alignof(T) : simd, sizeof(T), 1, true, false, false, get, put};
    }
};
template <class T> struct S {   // std::allocator specialisations
    static NOINLINE void *get(size_t n)
    {
        std::allocator<T> a;
        return a.allocate(n);
    }
    static NOINLINE void put(void *p, size_t n)
    {
        std::allocator<T> a;
        a.deallocate(static_cast<T *>(p), n);
    }
    static Kind kind(const char *n) { return {std::string("std::allocator<") + n + ">", Throw, alignof(T), sizeof(T), 1, true, false, false, get, put}; }
};
template <class T, bool Ctor> struct N {
    static NOINLINE void *get(size_t) { return new T; }
    static NOINLINE void put(void *p, size_t) { delete static_cast<T *>(p); }
    static Kind kind(const char *n, size_t al = alignof(T)) { return {std::string("new ") + n, Throw, al, sizeof(T), 1, false, Ctor, false, get, put}; }
};
template <class T, bool Ctor> struct NA {
    static NOINLINE void *get(size_t n) { return new T[n]; }
    static NOINLINE void put(void *p, size_t) { delete[] static_cast<T *>(p); }
    static Kind kind(const char *n, size_t al = alignof(T)) { return {std::string("new ") + n + "[]", Throw, al, sizeof(T), 1, true, Ctor, false, get, put}; }
};
template <class T, Vc::MallocAlignment A> struct U {
    typedef std::unique_ptr<T, Vc::Common::Deleter<T>> P;
    static NOINLINE void *get(size_t n)
    {
        P p = n & 1 ? Vc::Common::make_unique<T, A>() : Vc::Common::make_unique<T, A>(1, 2);
        return p.release();
    }
    static NOINLINE void put(void *p, size_t) { P(static_cast<T *>(p)).reset(); }
    static Kind kind(const char *n) { return {std::string("make_unique<") + n + ">", Throw, M<T, A>::al(), sizeof(T), M<T, A>::al(), false, true, false, get, put}; }
};

static std::vector<Kind> *kinds;
enum { Slots = 8 };
struct Slot {
    int state;       // 0 empty, 1 busy, 2 full
    int kind;
    char *p;
    size_t n, bytes;
    int owner;
    unsigned char mark;
    long objects;
};
static Slot slots[Slots];
static Plan *P0;
enum { OGet, OPut, OPutNull, NOps };
static const char *const opNames[NOps] = {"allocate", "free", "free null"};
static char ctxText[MaxThreads][120];

static void ctx(int tid, const Kind &k, const char *what)
{
    snprintf(ctxText[tid], sizeof(ctxText[tid]), "%s %s", what, k.name.c_str());
    context(ctxText[tid]);
}
static size_t pickCount(Rng &r, const Kind &k, unsigned shape)
{
    const size_t top = ~size_t(0);
    switch (shape) {
    case 0: return r.below(9);
    case 1: return r.below(200);
    case 2: return r.below(3000);
    case 3: return top / k.unit - r.below(4);                       // largest whose size can be represented
    case 4: return top / k.unit + 1 + r.below(70);                  // product wraps to something small
    case 5: return top - r.below(200);
    case 6: return (top / 2) / k.unit + r.below(40) - 20;
    case 7: return (size_t(1) << r.range(30, 61)) / k.unit + r.below(3);
    default: return (top - r.below(5000)) / k.unit;                 // padding wraps
    }
}
static void allocate(int tid, const Op &o)
{
    NoYield ny;
    Live live{ny};
    Rng r(o.seed);
    int s = -1;
    for (int i = 0; i < Slots && s < 0; ++i) {
        if (slots[i].state == 0) s = i;
    }
    if (s < 0) return;
    Slot &sl = slots[s];
    sl.state = 1;
    const Kind &k = (*kinds)[size_t(o.a[0])];
    ctx(tid, k, "allocate");
    size_t n = k.array ? pickCount(r, k, unsigned(o.a[1])) : 1 + r.below(2);
    const size_t cnt = k.array ? n : 1;
    unsigned __int128 exact = static_cast<unsigned __int128>(cnt) * k.unit;
    exact = (exact + k.pad - 1) / k.pad * k.pad;
    const bool representable = exact <= static_cast<unsigned __int128>(PTRDIFF_MAX);
    if (!representable) cHuge++;
    else if (exact > (8u << 20)) cBig++;
    if (k.ctor && representable && exact > (1u << 16)) n = 1 + n % 100;   // constructors take time
    const size_t bytes = size_t((static_cast<unsigned __int128>(k.array ? n : 1) * k.unit + k.pad - 1) / k.pad * k.pad);
    if (n == 0) cZero++;
    Fuse &f = fuses[tid];
    f.left = k.ctor && r.chance(25) ? 1 + int(r.below(n < 6 ? n + 1 : 6)) : 0;
    f.alive = 0;
    const long refused = heap::refusedHere();
    const int firstBlock = heap::nblocks();
    void *p = nullptr;
    enum { Ok, BadAlloc, Bombed, Other } out = Other;
    cGet++;
    live([&] {
        try {
            p = k.get(n);
            out = Ok;
        } catch (const Bomb &) {
            out = Bombed;
        } catch (const std::bad_alloc &) {
            out = BadAlloc;
        } catch (...) {
        }
    });
    const bool wasRefused = heap::refusedHere() != refused;
    if (wasRefused) cRefused++;
    f.left = 0;
    if (out == Other) fail("wrong-report", "an exception that is neither std::bad_alloc nor the constructor's");
    if (out == BadAlloc) cBad++;
    const bool nothing = out != Ok || !p;
    if (out == Ok && !p && k.report == Throw) fail("wrong-report", "null pointer instead of std::bad_alloc");
    if (out == Ok && !p) cNullSeen++;
    if (out == BadAlloc && k.report == Null) fail("wrong-report", "std::bad_alloc instead of a null pointer");
    // the compiler refuses array sizes near the limit itself, before the library is asked
    const bool byCompiler = k.array && k.name.compare(0, 4, "new ") == 0 && exact > (static_cast<unsigned __int128>(1) << 61);
    if (nothing && out != Bombed && representable && !byCompiler && !wasRefused && !(n == 0 && k.nothing)) {
        fail("refused-without-reason", "%zu elements of %zu bytes: nothing was returned although the system refused nothing", n, k.unit);
    }
    const heap::Block *b = nothing ? nullptr : heap::find(p);
    if (!b && !nothing && bytes == 0) b = heap::find(static_cast<char *>(p) - 1);   // new T[0] is the end of its block
    if (!nothing) {
        if (!representable) fail("too-little-storage", "%zu elements of %zu bytes cannot exist, yet %p was returned", n, k.unit, p);
        if (!b || static_cast<char *>(p) + bytes > b->p + b->size) {
            fail("too-little-storage", "%zu elements of %zu bytes, padded %zu: %p has %td bytes", n, k.unit, bytes, p,
                 b ? b->p + b->size - static_cast<char *>(p) : ptrdiff_t(0));
        }
        if (reinterpret_cast<uintptr_t>(p) % k.align) {
            fail("misaligned", "%zu elements at %p, %zu promised", n, p, k.align);
        }
        for (int i = 0; i < Slots; ++i) {
            const Slot &q = slots[i];
            if (q.state == 2 && q.bytes && bytes && q.p < static_cast<char *>(p) + bytes && static_cast<char *>(p) < q.p + q.bytes) {
                fail("overlap", "%zu bytes at %p overlap live storage of %zu bytes at %p", bytes, p, q.bytes, static_cast<void *>(q.p));
            }
        }
    }
    for (int i = firstBlock; i < heap::nblocks(); ++i) {
        const heap::Block &x = heap::block(i);
        if (x.live && x.thread == tid && &x != b) fail("leak", "%zu bytes stay allocated after the operation", x.size);
    }
    if (k.ctor && f.alive != (nothing ? 0 : long(k.array ? n : 1))) {
        fail("object-count", "%ld objects are alive after the operation", f.alive);
    }
    if (nothing) {
        sl.state = 0;
        return;
    }
    sl.kind = int(o.a[0]);
    sl.p = static_cast<char *>(p);
    sl.n = n;
    sl.bytes = bytes;
    sl.owner = tid;
    sl.mark = static_cast<unsigned char>(r.next());
    sl.objects = f.alive;
    // object kinds may keep a count before the first element; the elements are ours
    memset(sl.p, sl.mark, bytes);
    sl.state = 2;
    note(bytes * 31 + sl.mark);
}
static void release(int tid, int s)
{
    NoYield ny;
    Live live{ny};
    Slot &sl = slots[s];
    const Kind &k = (*kinds)[size_t(sl.kind)];
    sl.state = 1;
    ctx(tid, k, "free");
    for (size_t i = 0; i < sl.bytes; ++i) {
        if (static_cast<unsigned char>(sl.p[i]) != sl.mark) {
            fail("contents-changed", "byte %zu of %zu changed while the storage was live", i, sl.bytes);
        }
    }
    if (sl.owner != tid) cCross++;
    const long before = heap::liveBlocks();
    const heap::Block *b = heap::find(sl.p);
    Fuse &f = fuses[tid];
    f.left = 0;
    f.alive = sl.objects;
    heap::onError("bad-free");
    live([&] { k.put(sl.p, sl.n); });
    if (b && b->live) fail("leak", "the storage is still allocated after it was freed");
    (void)before;
    if (k.ctor && f.alive) fail("object-count", "%ld objects were not destroyed", f.alive);
    cPut++;
    sl.state = 0;
}
static void one(int tid, const Op &o)
{
    NoYield ny;
    Live live{ny};
    countOp(o.op);
    if (o.op == OGet) {
        live([&] { allocate(tid, o); });
    } else if (o.op == OPut) {
        Rng r(o.seed);
        const int first = int(r.below(Slots));
        for (int i = 0; i < Slots; ++i) {
            const int s = (first + i) % Slots;
            if (slots[s].state == 2) {
                live([&] { release(tid, s); });
                break;
            }
        }
    } else {
        context("free null");
        cNull++;
        live([&] {
            Vc::free(static_cast<float *>(nullptr));
            delete static_cast<Obj<64, 20> *>(nullptr);
            delete[] static_cast<Vc::float_v *>(nullptr);
        });
    }
}
static void body(int tid, void *)
{
    NoYield ny;
    Live live{ny};
    for (int i = 0; i < P0->nops; ++i) {
        if (P0->ops[i].thread == tid) {
            const Op &o = P0->ops[i];
            live([&] { one(tid, o); });
        }
    }
}
static void cleanup(int tid, void *)
{
    for (int i = 0; i < Slots; ++i) {
        if (slots[i].state == 2) release(tid, i);
    }
}
static void run(Plan &p)
{
    NoYield ny;
    Live live{ny};
    P0 = &p;
    memset(slots, 0, sizeof(slots));
    memset(fuses, 0, sizeof(fuses));
    heap::activate(true);
    for (int i = 0; i < p.nfaults; ++i) {
        const Fault &f = p.faults[i];
        if (f.kind == 0) heap::failAt(f.at);
        if (f.kind == 1) heap::failMaskRandom(unsigned(f.arg));
        if (f.kind == 2) heap::failAbove(size_t(f.arg));
    }
    live([&] { parallel(p.nthreads, body, nullptr); });
    heap::clearFailures();
    live([&] { parallel(1, cleanup, nullptr); });
    context("the end");
    for (int i = 0; i < heap::nblocks(); ++i) {
        if (heap::block(i).live) fail("leak", "%zu bytes are still allocated after everything was freed", heap::block(i).size);
    }
    heap::checkCanaries("write-outside");
    heap::checkFreed("write-after-free");
    heap::activate(false);
}
static void generate(Rng &r, Plan &p)
{
    p.nthreads = int(r.range(1, 3));
    const unsigned f = unsigned(r.below(5));
    if (f == 1) p.fault(0, 1 + long(r.below(6)));
    if (f == 2) p.fault(1, 0, r.range(5, 60));
    if (f == 3) p.fault(2, 0, long(1) << r.range(3, 13));
    const int total = int(r.range(p.nthreads, 12));
    for (int i = 0; i < total; ++i) {
        const int t = i < p.nthreads ? i : int(r.below(uint64_t(p.nthreads)));
        const unsigned what = unsigned(r.below(100));
        if (what < 60) {
            const unsigned sh = unsigned(r.below(100));
            p.add(t, OGet, r.next(), long(r.below(kinds->size())),
                  sh < 35 ? 0 : sh < 60 ? 1 : sh < 70 ? 2 : 3 + long(r.below(6)));
        } else {
            p.add(t, what < 98 ? OPut : OPutNull, r.next());
        }
    }
    choosePolicy(r, p, 40 * total);
}
static size_t most(std::initializer_list<size_t> l) { return *std::max_element(l.begin(), l.end()); }
static void setup()
{
#define ALL_TYPES(X) X(float), X(double), X(int), X(unsigned), X(short), X(unsigned short), X(long), X(unsigned long)
#define X(T) alignof(Vc::Vector<T>)
    const size_t vectorAlign = most({ALL_TYPES(X)});
#undef X
#define X(T) size_t(Vc::Vector<T>::MemoryAlignment)
    const size_t memoryAlign = most({ALL_TYPES(X)});
#undef X
    kinds = new std::vector<Kind>{
        M<char, Vc::AlignOnVector>::kind("char,AlignOnVector"), M<float, Vc::AlignOnVector>::kind("float,AlignOnVector"),
        M<int, Vc::AlignOnCacheline>::kind("int,AlignOnCacheline"), M<short, Vc::AlignOnPage>::kind("short,AlignOnPage"),
        M<double, Vc::AlignOnVector>::kind("double,AlignOnVector"), M<D3, Vc::AlignOnVector>::kind("D3,AlignOnVector"),
        M<Three, Vc::AlignOnCacheline>::kind("Three,AlignOnCacheline"), M<Vc::float_v, Vc::AlignOnVector>::kind("float_v,AlignOnVector"),
        M<D3, Vc::AlignOnPage>::kind("D3,AlignOnPage"),
        R<4>::kind(), R<8>::kind(), R<16>::kind(), R<32>::kind(), R<128>::kind(), R<4096>::kind(),
        A<char>::kind("char"), A<short>::kind("short"), A<float>::kind("float"), A<double>::kind("double"), A<D3>::kind("D3"),
        A<Three>::kind("Three"), A<Vc::float_v>::kind("float_v"), A<Over<64>>::kind("Over<64>"), A<Over<16>>::kind("Over<16>"),
        A<Over<512>>::kind("Over<512>"), A<Vc::SimdArray<float, 24>>::kind("SimdArray<float,24>"), A<Over<32>>::kind("Over<32>"),
        S<Vc::float_v>::kind("float_v"), S<Vc::double_m>::kind("double_m"), S<Vc::SimdArray<int, 7>>::kind("SimdArray<int,7>"),
        S<Vc::SimdMaskArray<short, 11>>::kind("SimdMaskArray<short,11>"),
        N<Vc::float_v, false>::kind("float_v"), N<Vc::short_m, false>::kind("short_m"),
        N<Vc::SimdArray<double, 9>, false>::kind("SimdArray<double,9>"), N<Vc::SimdMaskArray<float, 6>, false>::kind("SimdMaskArray<float,6>"),
        N<Obj<16, 5>, true>::kind("AlignedBase<16>"), N<Obj<64, 65>, true>::kind("AlignedBase<64>"), N<Obj<4096, 1>, true>::kind("AlignedBase<4096>"),
        NA<Vc::double_v, false>::kind("double_v"), NA<Vc::int_m, false>::kind("int_m"), NA<Vc::SimdArray<float, 5>, false>::kind("SimdArray<float,5>"),
        NA<Obj<32, 40>, true>::kind("AlignedBase<32>"), NA<Obj<128, 1>, true>::kind("AlignedBase<128>"),
        U<Obj<16, 5>, Vc::AlignOnVector>::kind("AlignedBase<16>"), U<Obj<64, 3>, Vc::AlignOnCacheline>::kind("AlignedBase<64>,AlignOnCacheline"),
        U<Obj<8, 30>, Vc::AlignOnPage>::kind("AlignedBase<8>,AlignOnPage"),
        U<Plain<1>, Vc::AlignOnVector>::kind("1 byte"), U<Plain<2>, Vc::AlignOnCacheline>::kind("2 bytes,AlignOnCacheline"),
        U<Plain<7>, Vc::AlignOnPage>::kind("7 bytes,AlignOnPage"), U<Plain<8>, Vc::AlignOnVector>::kind("8 bytes"),
        U<Plain<40>, Vc::AlignOnVector>::kind("40 bytes"), U<Plain<300>, Vc::AlignOnVector>::kind("300 bytes"),
        U<Plain<5000>, Vc::AlignOnPage>::kind("5000 bytes,AlignOnPage"),
        N<ObjOf<Vc::VectorAlignedBase, 9>, true>::kind("VectorAlignedBase", vectorAlign), NA<ObjOf<Vc::VectorAlignedBase, 70>, true>::kind("VectorAlignedBase", vectorAlign),
        N<ObjOf<Vc::MemoryAlignedBase, 9>, true>::kind("MemoryAlignedBase", memoryAlign), NA<ObjOf<Vc::MemoryAlignedBase, 33>, true>::kind("MemoryAlignedBase", memoryAlign),
        N<ObjOf<Vc::VectorAlignedBaseT<Vc::short_v>, 3>, true>::kind("VectorAlignedBaseT<short_v>"),
        N<ObjOf<Vc::MemoryAlignedBaseT<Vc::double_v>, 3>, true>::kind("MemoryAlignedBaseT<double_v>"),
        NA<ObjOf<Vc::MemoryAlignedBaseT<Vc::float_v>, 3>, true>::kind("MemoryAlignedBaseT<float_v>"),
        U<ObjOf<Vc::VectorAlignedBase, 9>, Vc::AlignOnVector>::kind("VectorAlignedBase"),
        N<Vc::int_v, false>::kind("int_v"), N<Vc::uint_v, false>::kind("uint_v"), N<Vc::short_v, false>::kind("short_v"),
        N<Vc::ushort_v, false>::kind("ushort_v"), N<Vc::double_v, false>::kind("double_v"), N<Vc::float_m, false>::kind("float_m"),
        N<Vc::double_m, false>::kind("double_m"), N<Vc::int_m, false>::kind("int_m"),
        NA<Vc::float_v, false>::kind("float_v"), NA<Vc::short_v, false>::kind("short_v"), NA<Vc::ushort_v, false>::kind("ushort_v"),
        NA<Vc::int_v, false>::kind("int_v"), NA<Vc::uint_v, false>::kind("uint_v"), NA<Vc::float_m, false>::kind("float_m"),
        NA<Vc::SimdMaskArray<double, 9>, false>::kind("SimdMaskArray<double,9>"), N<Vc::SimdArray<short, 32>, false>::kind("SimdArray<short,32>"),
        S<Vc::double_v>::kind("double_v"), S<Vc::int_v>::kind("int_v"), S<Vc::uint_v>::kind("uint_v"), S<Vc::short_v>::kind("short_v"),
        S<Vc::ushort_v>::kind("ushort_v"), S<Vc::float_m>::kind("float_m"), S<Vc::short_m>::kind("short_m"),
        S<Vc::SimdArray<double, 16>>::kind("SimdArray<double,16>"), S<Vc::SimdMaskArray<double, 3>>::kind("SimdMaskArray<double,3>"),
        A<Vc::double_m>::kind("double_m"), A<int>::kind("int"), A<Obj<64, 3>>::kind("AlignedBase<64>"),
        A<Vc::SimdArray<double, 3>>::kind("SimdArray<double,3>"),
        N<Simdized, false>::kind("simdize<tuple<float,double,short>>"), NA<Simdized, false>::kind("simdize<tuple<float,double,short>>"),
        A<Simdized>::kind("simdize<tuple<float,double,short>>"), S<Declared>::kind("Vc_DECLARE_ALLOCATOR type"),
#ifndef Vc_IMPL_Scalar
        N<Vc::Scalar::float_v, false>::kind("Scalar::float_v"),
#endif
#ifdef Vc_IMPL_AVX
        N<Vc::SSE::int_v, false>::kind("SSE::int_v"), NA<Vc::SSE::short_m, false>::kind("SSE::short_m"),
        S<Vc::SSE::int_v>::kind("SSE::int_v"),
#endif
    };
}
static const char *opName(int i) { return opNames[i]; }
Workload sim::workload()
{
    return {"C05", setup, generate, run, opName, ""};
}
