// C06  Vc::Memory (dynamic, fixed, two-dimensional, wrapped raw data) and containers of vector
// types under random histories in several threads, on a simulated heap that refuses requests,
// with elements whose copies throw. The model is a plain array of bits per object.
#include "common.h"
#include <Vc/Utils>
#include <array>
#include <Vc/Allocator>
#include <Vc/Memory>
#include <Vc/vector>
#include <deque>
#include <list>
#include <map>
#include <new>
#include <cstdarg>
#include <sys/mman.h>
#include <vector>

using namespace sim;

static const Counter cMade("containers_made_of_scalars"), cLanes("lane_by_lane_operations"), cOps("operations"), cMake("objects_constructed"), cCopy("copies"), cRefused("operations_refused_memory"),
    cBad("bad_alloc_seen"), cHuge("unrepresentable_sizes"), cEmpty("empty_objects"), cRaw("raw_arrays_at_a_page_end"),
    cBomb("element_copies_that_threw"), cSkip("operations_on_busy_objects"), cCmp("comparisons"), cWrap("raw_data_wrapped"),
    cShared("objects_read_by_another_thread"), cStrong("failed_operations_that_must_change_nothing"), cGrow("container_growths");

enum { Slots = 5, RoomBytes = 8192, Max = 640, Canary = 0xC7 };
struct Buffer {
    unsigned char *b;      // RoomBytes between inaccessible pages
};
static Buffer buffers[Slots];
static Room rawRoom[MaxThreads + 1];
static Plan *P0;
static char ctxText[MaxThreads][160];

// ------------------------------------------------------------------ slots
struct Slot {
    int kind;            // -1: nothing lives here
    int writer;          // exclusive user or -1
    int readers;
    unsigned char *obj;
    size_t bytes;
    size_t entries;      // per row
    size_t rows;
    size_t padded;       // entries per row with padding
    size_t count() const { return rows * padded; }
    bool wild;           // a failed operation left an unknown but destructible state
};
static Slot slots[Slots];
static unsigned char *place(int s, size_t bytes, size_t align, Rng &r)
{
    memset(buffers[s].b, Canary, RoomBytes);
    // as far out of larger alignments as the type allows
    size_t off = 64 + r.below(64);
    off = (off + align - 1) / align * align;
    if (off % (2 * align) == 0) off += align;
    // or against one of the inaccessible pages
    const unsigned where = unsigned(r.below(100));
    if (where < 30) off = (RoomBytes - bytes) / align * align;
    else if (where < 40) off = 0;
    slots[s].obj = buffers[s].b + off;
    slots[s].bytes = bytes;
    if (off + bytes > RoomBytes) fail("harness", "object too large");
    return slots[s].obj;
}
static void checkRoom(int s)
{
    const Slot &sl = slots[s];
    if (sl.kind < 0) return;
    for (const unsigned char *p = buffers[s].b; p < buffers[s].b + RoomBytes; ++p) {
        if (p == sl.obj) p += sl.bytes;
        if (p == buffers[s].b + RoomBytes) break;
        if (*p != Canary) fail("write-outside", "byte %td relative to an object of %zu bytes was overwritten", p - sl.obj, sl.bytes);
    }
}
static void ctx(int tid, const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(ctxText[tid], sizeof(ctxText[tid]), fmt, ap);
    va_end(ap);
    context(ctxText[tid]);
}
enum Outcome { Ok, BadAlloc, Bombed, Other };
struct Bomb {
};
static int fuses[MaxThreads + 1];
static long alive[MaxThreads + 1];
static int me()
{
    const int t = self();
    return t < 0 ? MaxThreads : t;
}
template <class F> static Outcome attempt(const Live &live, bool &refused, const F &f)
{
    const long before = heap::refusedHere();
    Outcome out = Other;
    live([&] {
        try {
            f();
            out = Ok;
        } catch (const Bomb &) {
            out = Bombed;
        } catch (const std::bad_alloc &) {
            out = BadAlloc;
        } catch (...) {
        }
    });
    refused = heap::refusedHere() != before;
    if (refused) cRefused++;
    if (out == BadAlloc) cBad++;
    if (out == Bombed) cBomb++;
    if (out == Other) fail("wrong-report", "an exception that is neither std::bad_alloc nor the element's");
    return out;
}

// ------------------------------------------------------------------ Vc::Memory
enum { OMake, OInit, OCopy, ODrop, OAssign, OAssignRaw, OAssignV, OZero, OSwap, OScalar, OVector, OVectorAt, OShift, OIter, ORange,
       OVecOp, OMemOp, OScalarOp, OCompare, OGather, OWrap, OUse, NOps };
static const char *const opNames[NOps] = {"construct", "initializer list", "copy-construct", "destroy", "assign", "assign raw array",
    "assign vector", "setZero", "swap", "write scalar", "write vector", "write vectorAt", "write shifted vector", "iterate",
    "iterate range", "vector compound", "memory compound", "scalar compound", "compare", "gather", "wrap raw data", "container operation"};

template <class V> struct World {
    typedef typename V::EntryType E;
    enum { S = V::Size, B = sizeof(E) };
    static const size_t PadS = S;
    typedef Vc::Memory<V> Dyn;
    typedef Vc::Memory<V, 1> F1;
    typedef Vc::Memory<V, S + 1> F2;
    typedef Vc::Memory<V, 2 * S> F3;
    typedef Vc::Memory<V, 5 * S + 2> F4;
    typedef Vc::Memory<V, 7 * S + S / 2 + 1, 0, false> F5;
    typedef Vc::Memory<V, 3, S + 1> M1;
    typedef Vc::Memory<V, 3, 2 * S> M2;
    typedef Vc::Memory<V, 2, 3 * S - 1> M3;
    enum { KDyn, KF1, KF2, KF3, KF4, KF5, KM1, KM2, KM3, Kinds };
    static E model[Slots][Max];

    static const char *kindName(int k)
    {
        static const char *const n[] = {"Memory<V>", "Memory<V,1>", "Memory<V,S+1>", "Memory<V,2S>", "Memory<V,5S+2>",
            "Memory<V,7.5S+1,0,false>", "Memory<V,3,S+1>", "Memory<V,3,2S>", "Memory<V,2,3S-1>"};
        return n[k];
    }
    template <class P, int D, class RM>
    static Vc::Common::MemoryBase<V, P, D, RM> &baseOf(Vc::Common::MemoryBase<V, P, D, RM> &m) { return m; }
    static bool is2D(int k) { return k >= KM1; }
    template <class M> struct Is2D {
        enum { value = std::is_same<M, M1>::value || std::is_same<M, M2>::value || std::is_same<M, M3>::value };
    };
    template <class F> static void visit1(int s, const F &f)
    {
        unsigned char *o = slots[s].obj;
        switch (slots[s].kind) {
        case KDyn: f(*reinterpret_cast<Dyn *>(o)); break;
        case KF1: f(*reinterpret_cast<F1 *>(o)); break;
        case KF2: f(*reinterpret_cast<F2 *>(o)); break;
        case KF3: f(*reinterpret_cast<F3 *>(o)); break;
        case KF4: f(*reinterpret_cast<F4 *>(o)); break;
        case KF5: f(*reinterpret_cast<F5 *>(o)); break;
        }
    }
    template <class F> static void visit2(int s, const F &f)
    {
        unsigned char *o = slots[s].obj;
        switch (slots[s].kind) {
        case KM1: f(*reinterpret_cast<M1 *>(o)); break;
        case KM2: f(*reinterpret_cast<M2 *>(o)); break;
        case KM3: f(*reinterpret_cast<M3 *>(o)); break;
        }
    }
    template <class F> static void visit(int s, const F &f)
    {
        visit1(s, f);
        visit2(s, f);
    }
    static E *data(int s)
    {
        E *p = nullptr;
        visit(s, [&](auto &m) { p = m.entries(); });
        return p;
    }
    static bool hasInitializedPadding(int k) { return k != KF5; }
    static void shape(int s, int kind, size_t n)
    {
        Slot &sl = slots[s];
        sl.kind = kind;
        sl.rows = kind == KM1 || kind == KM2 ? 3 : kind == KM3 ? 2 : 1;
        const size_t e[Kinds] = {n, 1, S + 1, 2 * S, 5 * S + 2, 7 * S + S / 2 + 1, S + 1, 2 * S, 3 * S - 1};
        sl.entries = e[kind];
        sl.padded = (sl.entries + S - 1) / S * S;
        sl.wild = false;
    }
    static bool bitsEqual(const E &a, const E &b) { return memcmp(&a, &b, B) == 0; }
    // every stored bit is what the model says, and the object has the shape it should have
    static void verify(int s, const char *cls)
    {
        const Slot &sl = slots[s];
        visit(s, [&](auto &m) {
            if (m.vectorsCount() * S != sl.count()) fail(cls, "vectorsCount() is %zu", size_t(m.vectorsCount()));
        });
        visit1(s, [&](auto &m) {
            if (m.entriesCount() != sl.entries) fail(cls, "entriesCount() is %zu, not %zu", size_t(m.entriesCount()), sl.entries);
        });
        visit2(s, [&](auto &m) {
            if (m.entriesCount() != sl.entries * sl.rows || m.rowsCount() != sl.rows) fail(cls, "wrong number of rows or entries");
        });
        if (sl.count() == 0) return;
        const E *p = data(s);
        if (reinterpret_cast<uintptr_t>(p) % size_t(V::MemoryAlignment)) fail("misaligned", "data at %p", static_cast<const void *>(p));
        if (sl.kind == KDyn) {
            const heap::Block *b = heap::find(p);
            if (!b || reinterpret_cast<const char *>(p + sl.count()) > b->p + b->size) fail("too-little-storage", "%zu entries", sl.count());
        } else if (reinterpret_cast<const unsigned char *>(p) < sl.obj ||
                   reinterpret_cast<const unsigned char *>(p + sl.count()) > sl.obj + sl.bytes) {
            fail("too-little-storage", "entries() points outside the object");
        }
        for (size_t i = 0; i < sl.count(); ++i) {
            if (!bitsEqual(p[i], model[s][i])) {
                fail(cls, "%s: entry %zu (row of %zu, padded to %zu) is %.9g, the history says %.9g", kindName(sl.kind), i, sl.entries,
                     sl.padded, double(p[i]), double(model[s][i]));
            }
        }
    }
    // takes what was left undefined from the object; the padding is defined
    static void adopt(int s, bool known)
    {
        const Slot &sl = slots[s];
        if (sl.count() == 0) return;
        const E *p = data(s);
        const E zero = E();
        for (size_t i = 0; i < sl.count(); ++i) {
            if (!known) model[s][i] = p[i];
            if (i % sl.padded >= sl.entries && hasInitializedPadding(sl.kind)) model[s][i] = zero;
        }
    }
    static E value(Rng &r)
    {
        if (std::is_floating_point<E>::value) {
            switch (r.below(8)) {
            case 0: return E(-0.0);
            case 1: return E(r.next()) * E(1e30);
            case 2: {
                E x;
                const uint64_t bits = r.next();
                memcpy(&x, &bits, B);
                return x;
            }
            default: return E(long(r.below(2001)) - 1000);
            }
        }
        return E(r.next() >> r.below(60));
    }
    static V vec(Rng &r, E *copy)
    {
        alignas(64) E t[S];
        for (int i = 0; i < S; ++i) copy[i] = t[i] = value(r);
        return V(t, Vc::Aligned);
    }
    static bool take(int s)
    {
        Slot &sl = slots[s];
        if (sl.writer >= 0 || sl.readers) {
            cSkip++;
            return false;
        }
        sl.writer = me();
        return true;
    }
    static bool share(int s)
    {
        Slot &sl = slots[s];
        if (sl.writer >= 0) {
            cSkip++;
            return false;
        }
        if (sl.readers++) cShared++;
        return true;
    }
    static void drop(int s) { slots[s].writer = -1; }
    static void unshare(int s) { --slots[s].readers; }
    // the first slot from s on that fulfils f and is not in use
    template <class F> static int pick(Rng &r, const F &f)
    {
        const int first = int(r.below(Slots));
        for (int i = 0; i < Slots; ++i) {
            const int s = (first + i) % Slots;
            if (slots[s].writer < 0 && f(slots[s])) return s;
        }
        return -1;
    }

    template <class M, class... A> static NOINLINE void construct(unsigned char *at, const A &... a) { new (at) M(a...); }
    template <class M> static NOINLINE void constructDefault(unsigned char *at) { new (at) M; }

    static void make(int tid, const Op &o, NoYield &ny, Live &live)
    {
        Rng r(o.seed);
        const int s = pick(r, [](const Slot &x) { return x.kind < 0 && !x.readers; });
        if (s < 0 || !take(s)) return;
        const int kind = int(o.a[0]) % Kinds;
        size_t n = size_t(r.below(3) == 0 ? r.below(4) : r.below(2) ? r.below(40) : r.below(Max - 2 * S));
        const unsigned shapeOfN = unsigned(o.a[1]);
        if (kind == KDyn && shapeOfN >= 1) {
            switch (shapeOfN) {
            case 1: n = ~size_t(0) - r.below(2 * S); break;
            case 2: n = ~size_t(0) / B - r.below(3 * S) + S; break;
            case 3: n = ~size_t(0) / B / 2 + r.below(9); break;
            case 4: n = (size_t(1) << r.range(31, 60)) + r.below(3); break;
            case 5: n = 0; break;
            }
        }
        const bool absurd = n > Max;
        if (absurd) cHuge++;
        ctx(tid, "construct %s<%s> entries %zu", kindName(kind), TypeName<E>::get(), kind == KDyn ? n : size_t(0));
        size_t bytes = 0;
        unsigned char *at = nullptr;
        const int firstBlock = heap::nblocks();
        bool refused = false;
        Outcome out = Ok;
        const int raw = int(r.below(3));
        auto go = [&](auto *m) {
            typedef typename std::remove_pointer<decltype(m)>::type M;
            bytes = sizeof(M);
            at = place(s, bytes, alignof(M), r);
            for (size_t i = 0; raw && i < bytes; ++i) at[i] = static_cast<unsigned char>(raw == 1 ? 0xff : r.next());
            out = attempt(live, refused, [&] { constructDefault<M>(at); });
        };
        switch (kind) {
        case KDyn:
            bytes = sizeof(Dyn);
            at = place(s, bytes, alignof(Dyn), r);
            out = attempt(live, refused, [&] { construct<Dyn>(at, n); });
            break;
        case KF1: go(static_cast<F1 *>(nullptr)); break;
        case KF2: go(static_cast<F2 *>(nullptr)); break;
        case KF3: go(static_cast<F3 *>(nullptr)); break;
        case KF4: go(static_cast<F4 *>(nullptr)); break;
        case KF5: go(static_cast<F5 *>(nullptr)); break;
        case KM1: go(static_cast<M1 *>(nullptr)); break;
        case KM2: go(static_cast<M2 *>(nullptr)); break;
        case KM3: go(static_cast<M3 *>(nullptr)); break;
        }
        if (out == Ok) {
            if (absurd) fail("too-little-storage", "%zu entries cannot exist, yet the object was constructed", n);
            shape(s, kind, n);
            if (n == 0 && kind == KDyn) cEmpty++;
            adopt(s, false);
            verify(s, "padding-not-zero");
            cMake++;
        } else {
            if (!refused && !absurd) fail("refused-without-reason", "%zu entries", n);
            noLeak(tid, firstBlock);
            memset(buffers[s].b, Canary, RoomBytes);
        }
        checkRoom(s);
        drop(s);
        (void)ny;
    }
    static void noLeak(int tid, int firstBlock)
    {
        for (int i = firstBlock; i < heap::nblocks(); ++i) {
            const heap::Block &x = heap::block(i);
            if (x.live && x.thread == tid) fail("leak", "%zu bytes stay allocated after the failed operation", x.size);
        }
    }
    static void init(int tid, const Op &o, Live &live)
    {
        Rng r(o.seed);
        const int s = pick(r, [](const Slot &x) { return x.kind < 0 && !x.readers; });
        if (s < 0 || !take(s)) return;
        const int which = int(r.below(4));
        ctx(tid, "construct Memory<%s,%d> from a list", TypeName<E>::get(), which);
        E v[3] = {value(r), value(r), value(r)};
        size_t given = 0;
        live([&] {
            switch (which) {
            case 0: new (place(s, sizeof(F1), alignof(F1), r)) F1{v[0]}; given = 1; break;
            case 1: new (place(s, sizeof(F2), alignof(F2), r)) F2{v[0], v[1]}; given = 2; break;
            case 2: new (place(s, sizeof(F4), alignof(F4), r)) F4{v[0], v[1], v[2]}; given = 3; break;
            case 3: new (place(s, sizeof(F4), alignof(F4), r)) F4(std::initializer_list<E>{}); given = 0; break;
            }
        });
        shape(s, which == 0 ? KF1 : which == 1 ? KF2 : KF4, 0);
        adopt(s, false);
        for (size_t i = 0; i < given; ++i) model[s][i] = v[i];
        verify(s, "wrong-contents");
        checkRoom(s);
        cMake++;
        drop(s);
    }
    static bool constructible(int from, int to)
    {
        if (is2D(from) != is2D(to)) return false;
        if (is2D(to)) return from == to;      // 2D objects are copied from their own type
        return true;
    }
    static void copy(int tid, const Op &o, Live &live)
    {
        Rng r(o.seed);
        const int from = pick(r, [](const Slot &x) { return x.kind >= 0 && !x.wild; });
        const int s = pick(r, [](const Slot &x) { return x.kind < 0 && !x.readers; });
        if (from < 0 || s < 0 || !share(from)) return;
        if (!take(s)) {
            unshare(from);
            return;
        }
        const int fk = slots[from].kind;
        // same type, or a dynamic one
        const int kind = !is2D(fk) && r.below(2) ? int(KDyn) : fk;
        ctx(tid, "copy-construct %s from %s<%s>", kindName(kind), kindName(fk), TypeName<E>::get());
        const int firstBlock = heap::nblocks();
        bool refused = false;
        Outcome out = Ok;
        if (kind == KDyn) {
            unsigned char *at = place(s, sizeof(Dyn), alignof(Dyn), r);
            visit1(from, [&](auto &m) { out = attempt(live, refused, [&] { construct<Dyn>(at, m); }); });
        } else {
            visit(from, [&](auto &m) {
                typedef typename std::remove_reference<decltype(m)>::type M;
                unsigned char *at = place(s, sizeof(M), alignof(M), r);
                out = attempt(live, refused, [&] { construct<M>(at, m); });
            });
        }
        if (out == Ok) {
            shape(s, kind, slots[from].entries);
            memcpy(model[s], model[from], slots[s].count() * B);
            verify(s, "wrong-contents");
            cCopy++;
        } else {
            if (!refused) fail("refused-without-reason", "copying %zu entries", slots[from].entries);
            noLeak(tid, firstBlock);
            memset(buffers[s].b, Canary, RoomBytes);
        }
        verify(from, "source-changed");
        checkRoom(s);
        checkRoom(from);
        drop(s);
        unshare(from);
    }
    static void destroy(int tid, int s, Live &live)
    {
        ctx(tid, "destroy %s<%s>", kindName(slots[s].kind), TypeName<E>::get());
        verify(s, "contents-changed");
        checkRoom(s);
        heap::onError("bad-free");
        const E *p = data(s);
        const heap::Block *b = slots[s].kind == KDyn && p ? heap::find(p) : nullptr;
        visit(s, [&](auto &m) {
            typedef typename std::remove_reference<decltype(m)>::type M;
            live([&] { m.~M(); });
        });
        if (b && b->live) fail("leak", "the storage of a destroyed object is still allocated");
        checkRoom(s);
        slots[s].kind = -1;
    }
    static E wrap(E a, E b, int op)
    {
        return compute(a, b, op, std::is_floating_point<E>());
    }
    static E compute(E a, E b, int op, std::true_type) { return op == 0 ? E(a + b) : op == 1 ? E(a - b) : op == 2 ? E(a * b) : E(a / b); }
    static E compute(E a, E b, int op, std::false_type)
    {
        typedef unsigned long long U;
        return op == 0 ? E(U(a) + U(b)) : op == 1 ? E(U(a) - U(b)) : op == 2 ? E(U(a) * U(b)) : b == 0 ? a : E(a / b);
    }
    // results of arithmetic: NaNs are all the same
    static bool equal(E a, E b) { return bitsEqual(a, b) || (a != a && b != b); }
    static void smallInts(int s, Rng &r, bool nonZero)
    {
        E *p = data(s);
        for (size_t i = 0; i < slots[s].count(); ++i) {
            const bool padding = i % slots[s].padded >= slots[s].entries;
            if (!padding) model[s][i] = p[i] = E(r.below(11) + (nonZero ? 1 : 0));
        }
    }
    // compares after arithmetic; padding may hold anything the arithmetic gives
    static void arithmetic(int s, const E *expected, const bool *dontCare)
    {
        const E *p = data(s);
        for (size_t i = 0; i < slots[s].count(); ++i) {
            if (!dontCare[i] && !equal(p[i], expected[i])) {
                fail("wrong-contents", "%s: entry %zu is %.9g, not %.9g", kindName(slots[s].kind), i, double(p[i]), double(expected[i]));
            }
            model[s][i] = p[i];
        }
    }

    static void mutate(int tid, const Op &o, NoYield &, Live &live)
    {
        Rng r(o.seed);
        const int s = pick(r, [](const Slot &x) { return x.kind >= 0 && !x.readers && !x.wild && x.rows * x.padded > 0; });
        if (s < 0 || !take(s)) return;
        Slot &sl = slots[s];
        ctx(tid, "%s %s<%s>", opNames[o.op], kindName(sl.kind), TypeName<E>::get());
        verify(s, "contents-changed");
        const size_t n = sl.count();
        const size_t nv = n / S;
        E *const mod = model[s];
        E lanes[S];
        switch (o.op) {
        case OAssignRaw: {
            if (is2D(sl.kind)) break;
            // exactly as many values as the object has entries are accessible
            Room &room = rawRoom[tid];
            E *src = reinterpret_cast<E *>(room.end()) - sl.entries;
            cRaw++;
            for (size_t i = 0; i < sl.entries; ++i) mod[i] = src[i] = value(r);
            visit1(s, [&](auto &m) { live([&] { m = static_cast<const E *>(src); }); });
            break;
        }
        case OAssignV: {
            const V v = vec(r, lanes);
            if (sl.kind == KDyn || r.below(4) == 0) {   // through the base class, which assigns to all vectors
                visit(s, [&](auto &m) {
                    const void *at = 0;
                    live([&] { at = &(baseOf(m) = v); });
                    if (at != static_cast<const void *>(&m)) fail("wrong-reference", "assignment through the base class returned a reference to something else");
                });
                for (size_t i = 0; i < n; ++i) mod[i] = lanes[i % S];
                break;
            }
            auto f = [&](auto &m) { live([&] { m = v; }); };
            switch (sl.kind) {
            case KF1: f(*reinterpret_cast<F1 *>(sl.obj)); break;
            case KF2: f(*reinterpret_cast<F2 *>(sl.obj)); break;
            case KF3: f(*reinterpret_cast<F3 *>(sl.obj)); break;
            case KF4: f(*reinterpret_cast<F4 *>(sl.obj)); break;
            case KF5: f(*reinterpret_cast<F5 *>(sl.obj)); break;
            default: visit2(s, f);
            }
            for (size_t i = 0; i < n; ++i) mod[i] = lanes[i % S];
            break;
        }
        case OZero:
            visit(s, [&](auto &m) { live([&] { m.setZero(); }); });
            for (size_t i = 0; i < n; ++i) mod[i] = E();
            break;
        case OScalar: {
            const int times = 1 + int(r.below(4));
            for (int k = 0; k < times; ++k) {
                const size_t row = r.below(sl.rows), i = r.below(r.below(4) ? sl.entries : sl.padded);
                const E v = value(r);
                const int how = int(r.below(4));
                visit1(s, [&](auto &m) {
                    live([&] {
                        switch (how) {
                        case 0: m[i] = v; break;
                        case 1: m.scalar(i) = v; break;
                        case 2: m.entries()[i] = v; break;
                        default: static_cast<E *>(m)[i] = v;
                        }
                    });
                });
                visit2(s, [&](auto &m) {
                    live([&] {
                        switch (how) {
                        case 0: m[row][i] = v; break;
                        case 1: m.scalar(row, i) = v; break;
                        case 2: m.entries(row)[i] = v; break;
                        default: m[row].scalar(i) = v;
                        }
                    });
                });
                mod[row * sl.padded + i] = v;
            }
            break;
        }
        case OVector: {
            const size_t i = r.below(nv);
            const V v = vec(r, lanes);
            const int how = int(r.below(6));
            visit(s, [&](auto &m) {
                live([&] {
                    switch (how) {
                    case 0: m.vector(i) = v; break;
                    case 1: m.vector(i, Vc::Unaligned) = v; break;
                    case 2: m.vector(i, Vc::Streaming) = v; break;
                    case 3: m.vector(i, Vc::Aligned) = v; break;
                    case 4: m.vector(i, Vc::PrefetchDefault) = v; break;
                    default: (i == 0 ? m.firstVector() : i + 1 == nv ? m.lastVector() : m.vector(i)) = v;
                    }
                });
            });
            for (int k = 0; k < S; ++k) mod[i * S + k] = lanes[k];
            break;
        }
        case OVectorAt: {
            const size_t i = r.below(n - S + 1);
            const V v = vec(r, lanes);
            const bool al = i % S == 0 && r.below(2);
            visit(s, [&](auto &m) {
                live([&] {
                    if (al) m.vectorAt(i, Vc::Aligned) = v;
                    else m.vectorAt(i) = v;
                });
            });
            for (int k = 0; k < S; ++k) mod[i + k] = lanes[k];
            break;
        }
        case OShift: {
            const size_t start = r.below(n - S + 1);
            const size_t i = r.below(nv);
            const int shift = int(start) - int(i * S);
            const V v = vec(r, lanes);
            const bool st = r.below(4) == 0;
            (void)st;
            visit(s, [&](auto &m) { live([&] { m.vector(i, shift) = v; }); });
            for (int k = 0; k < S; ++k) mod[start + k] = lanes[k];
            break;
        }
        case OIter: {
            const V v = vec(r, lanes);
            const size_t pos = r.below(nv);
            const bool back = r.below(2);
            bool bad = false;
            if (r.below(2)) {   // moves by every way an iterator has, as a plain position does
                struct {
                    int how;
                    size_t by, at;
                } mv[8];
                size_t at = r.below(nv + 1);
                const size_t from = at;
                for (auto &x : mv) {
                    x.how = int(r.below(8));
                    const bool fwd = x.how < 4;
                    const size_t room = fwd ? nv - at : at;
                    x.by = x.how % 4 < 2 ? 1 : r.below(room + 1);
                    if (x.by > room) x.how = -1;
                    else at = fwd ? at + x.by : at - x.by;
                    x.at = at;
                }
                visit(s, [&](auto &m) {
                    live([&] {
                        const auto b = m.begin();
                        auto it = b + from;
                        for (const auto &x : mv) {
                            const auto old = it;
                            auto got = it;
                            switch (x.how) {
                            case 0: got = ++it; break;
                            case 1: got = it++; bad |= got != old; got = it; break;
                            case 2: got = it += x.by; break;
                            case 3: got = it + x.by; it = got; break;
                            case 4: got = --it; break;
                            case 5: got = it--; bad |= got != old; got = it; break;
                            case 6: got = it -= x.by; break;
                            case 7: got = it - x.by; it = got; break;
                            }
                            bad |= size_t(it - b) != x.at || !(got == it) || got != it;
                            bad |= (it < old) != (x.how >= 4 && x.by) || (it > old) != (x.how >= 0 && x.how < 4 && x.by) ||
                                   (it <= old) == (it > old) || (it >= old) == (it < old);
                        }
                        if (it == m.end()) it -= nv - pos;
                        else if (size_t(it - b) < pos) it += pos - size_t(it - b);
                        else it -= size_t(it - b) - pos;
                        it[0] = v;
                    });
                });
                if (bad) fail("wrong-iteration", "an iterator over %zu vectors went elsewhere", nv);
                for (int k = 0; k < S; ++k) mod[pos * S + k] = lanes[k];
                break;
            }
            visit(s, [&](auto &m) {
                live([&] {
                    size_t at = 0;
                    if (!back) {
                        for (auto it = m.begin(); it != m.end(); ++it, ++at) {
                            if (at == pos) *it = v;
                        }
                    } else {
                        at = nv;
                        auto it = m.end();
                        while (it != m.begin()) {
                            --it;
                            --at;
                            if (at == pos) it[0] = v;
                        }
                        at = nv - at;
                    }
                    bad = at != nv || size_t(m.end() - m.begin()) != nv;
                });
            });
            if (bad) fail("wrong-iteration", "the iteration does not visit %zu vectors", nv);
            for (int k = 0; k < S; ++k) mod[pos * S + k] = lanes[k];
            break;
        }
        case ORange: {
            if (is2D(sl.kind)) break;
            const size_t a = r.below(nv), b = a + r.below(nv - a);
            const V v = vec(r, lanes);
            size_t seen = 0;
            const bool pf = r.below(2);
            visit1(s, [&](auto &m) {
                live([&] {
                    if (pf) {
                        for (auto &x : m.range(a, b)) {
                            x = v;
                            ++seen;
                        }
                    } else {
                        for (auto &x : m.range(a, b, Vc::Unaligned)) {
                            x = v;
                            ++seen;
                        }
                    }
                });
            });
            if (seen != b - a + 1) fail("wrong-iteration", "range(%zu, %zu) visits %zu vectors", a, b, seen);
            for (size_t i = a * S; i < (b + 1) * S; ++i) mod[i] = lanes[i % S];
            break;
        }
        case OVecOp: {
            smallInts(s, r, false);
            const size_t i = r.below(nv);
            const int op = int(r.below(3));
            E small[S];
            for (int k = 0; k < S; ++k) small[k] = E(r.below(9) + 1);
            const V v(small, Vc::Unaligned);
            visit(s, [&](auto &m) {
                live([&] {
                    switch (op) {
                    case 0: m.vector(i) += v; break;
                    case 1: m.vector(i) -= v; break;
                    case 2: m.vector(i) *= v; break;
                    }
                });
            });
            E expected[Max];
            bool dc[Max] = {};
            memcpy(expected, mod, n * B);
            for (int k = 0; k < S; ++k) expected[i * S + k] = wrap(mod[i * S + k], small[k], op);
            arithmetic(s, expected, dc);
            break;
        }
        case OScalarOp: {
            smallInts(s, r, false);
            const int op = int(r.below(4));
            const E x = E(r.below(7) + 1);
            visit(s, [&](auto &m) {
                live([&] {
                    switch (op) {
                    case 0: m += x; break;
                    case 1: m -= x; break;
                    case 2: m *= x; break;
                    case 3: m /= x; break;
                    }
                });
            });
            E expected[Max];
            bool dc[Max] = {};
            for (size_t i = 0; i < n; ++i) {
                expected[i] = wrap(mod[i], x, op);
                dc[i] = i % sl.padded >= sl.entries;
            }
            arithmetic(s, expected, dc);
            break;
        }
        case OWrap: {
            // wraps the storage of the object itself
            if (is2D(sl.kind)) break;
            cWrap++;
            const E v = value(r);
            const size_t i = r.below(S);
            const V w = vec(r, lanes);
            const size_t j = r.below(2);
            if (n < 2 * S) break;
            E *p = data(s);
            live([&] { wrapIt(p, i, v, j, w); });
            mod[i] = v;
            for (int k = 0; k < S; ++k) mod[j * S + k] = lanes[k];
            if (j == 1) mod[i] = v;
            break;
        }
        }
        verify(s, "wrong-contents");
        checkRoom(s);
        drop(s);
    }
    static NOINLINE void wrapIt(E *p, size_t i, E v, size_t j, const V &w)
    {
        p[i] = v;
        auto &m = Vc::Memory<V, S + 1>::fromRawData(p);
        m.vector(j) = w;
    }
    static void pairwise(int tid, const Op &o, Live &live)
    {
        Rng r(o.seed);
        const bool cmp = o.op == OCompare;
        const int s = pick(r, [&](const Slot &x) { return x.kind >= 0 && !x.wild && (cmp || !x.readers); });
        if (s < 0 || !(cmp ? share(s) : take(s))) return;
        const Slot &a = slots[s];
        const bool self = r.below(12) == 0;
        int from = self ? s : pick(r, [&](const Slot &x) {
            return &x != &a && x.kind >= 0 && !x.wild && is2D(x.kind) == is2D(a.kind) &&
                   (o.op == OSwap ? x.kind == KDyn && a.kind == KDyn && !x.readers : x.rows * x.padded == a.rows * a.padded &&
                    (x.kind == a.kind || is2D(x.kind) || x.kind == KDyn || a.kind == KDyn || x.kind + a.kind == KF2 + KF3));
        });
        if (o.op == OSwap && self && a.kind != KDyn) from = -1;
        if (cmp && from >= 0 && from != s && slots[from].padded == a.padded && slots[from].entries == a.entries && r.below(100) < 70 && take(from)) {
            // the same values but for some that differ in one direction or in both
            E *const p = const_cast<E *>(data(from));
            const int ways = int(r.below(4)), more = int(r.below(3));
            for (size_t i = 0; i < a.count(); ++i) {
                if (i % a.padded < a.entries || r.below(8) == 0) p[i] = model[from][i] = model[s][i];
            }
            for (int k = 0; a.count() && ways && k <= more; ++k) {
                const size_t i = r.below(a.rows) * a.padded + r.below(a.entries);
                const E x = E(model[s][i] + E(1)), y = E(model[s][i] - E(1));
                p[i] = model[from][i] = ways == 1 || (ways == 3 && r.below(2)) ? x : y;
            }
            drop(from);
        }
        if (from < 0 || (from != s && !(o.op == OSwap ? take(from) : share(from)))) {
            if (cmp) unshare(s);
            else drop(s);
            return;
        }
        const Slot &b = slots[from];
        ctx(tid, "%s %s with %s<%s>", opNames[o.op], kindName(a.kind), kindName(b.kind), TypeName<E>::get());
        const size_t n = a.count();
        switch (o.op) {
        case OSwap: {
            Dyn &x = *reinterpret_cast<Dyn *>(a.obj), &y = *reinterpret_cast<Dyn *>(b.obj);
            const bool member = r.below(2);
            live([&] {
                if (member) x.swap(y);
                else std::swap(x, y);
            });
            if (s != from) {
                for (size_t i = 0; i < Max; ++i) std::swap(model[s][i], model[from][i]);
                std::swap(slots[s].entries, slots[from].entries);
                std::swap(slots[s].padded, slots[from].padded);
            }
            break;
        }
        case OAssign:
            two(s, from, [&](auto &x, auto &y) { live([&] { x = y; }); });
            memmove(model[s], model[from], n * B);
            break;
        case OMemOp: {
            const int op = int(r.below(4));
            smallInts(s, r, true);
            if (b.readers > (from == s ? 0 : 1)) break;      // others read the operand
            if (from != s) smallInts(from, r, true);
            bool dc[Max] = {};
            for (size_t i = 0; i < n; ++i) dc[i] = i % a.padded >= a.entries || i % b.padded >= b.entries;
            E expected[Max];
            for (size_t i = 0; i < n; ++i) expected[i] = dc[i] ? E() : wrap(model[s][i], model[from][i], op);
            two(s, from, [&](auto &x, auto &y) {
                live([&] {
                    switch (op) {
                    case 0: x += y; break;
                    case 1: x -= y; break;
                    case 2: x *= y; break;
                    case 3: x /= y; break;
                    }
                });
            });
            arithmetic(s, expected, dc);
            break;
        }
        case OCompare: {
            cCmp++;
            if (a.padded != b.padded || a.entries != b.entries) break;
            bool allEq = true, allNe = true, allLt = true, allGt = true, allLe = true, allGe = true;
            bool anyElementNe = false, anyElementEq = false, anyElementGe = false, anyElementGt = false, anyElementLt = false, anyElementLe = false;
            bool nan = false;
            for (size_t i = 0; i < n; ++i) {
                const E x = model[s][i], y = model[from][i];
                const bool element = i % a.padded < a.entries;
                nan |= x != x || y != y;
                allEq &= x == y;
                allNe &= x != y;
                allLt &= x < y;
                allGt &= x > y;
                allLe &= x <= y;
                allGe &= x >= y;
                if (element) {
                    anyElementGt |= x > y;
                    anyElementLt |= x < y;
                    anyElementLe |= x <= y;
                    anyElementNe |= x != y;
                    anyElementEq |= x == y;
                    anyElementGe |= x >= y;
                }
            }
            bool eq = false, ne = false, lt = false, ge = false, gt = false, le = false;
            two(s, from, [&](auto &x, auto &y) {
                live([&] {
                    eq = x == y;
                    ne = x != y;
                    lt = x < y;
                    ge = x >= y;
                    gt = x > y;
                    le = x <= y;
                });
            });
            if (n == 0 || nan) break;
            // the comparisons are "all lanes of all vectors compare so"
            if (allEq && !eq) fail("wrong-comparison", "equal objects do not compare equal");
            if (anyElementNe && eq) fail("wrong-comparison", "different objects compare equal");
            if (allNe && !ne) fail("wrong-comparison", "objects that differ everywhere do not compare different");
            if (anyElementEq && ne && !anyElementNe) fail("wrong-comparison", "equal objects compare different");
            if (allLt && !lt) fail("wrong-comparison", "everything is less, but < says no");
            if (anyElementGe && lt) fail("wrong-comparison", "an element is not less, but < says yes");
            if (allGt && !gt) fail("wrong-comparison", "everything is greater, but > says no");
            if (anyElementLe && gt) fail("wrong-comparison", "an element is not greater, but > says yes");
            if (allLe && !le) fail("wrong-comparison", "nothing is greater, but <= says no");
            if (anyElementGt && le) fail("wrong-comparison", "an element is greater, but <= says yes");
            if (allGe && !ge) fail("wrong-comparison", "nothing is less, but >= says no");
            if (anyElementLt && ge) fail("wrong-comparison", "an element is less, but >= says yes");
            if (allLt && ge) fail("wrong-comparison", "everything is less, but >= says yes");
            break;
        }
        }
        verify(s, o.op == OCompare ? "operand-changed" : "wrong-contents");
        verify(from, o.op == OSwap ? "wrong-contents" : "operand-changed");
        checkRoom(s);
        checkRoom(from);
        if (from != s) {
            if (o.op == OSwap) drop(from);
            else unshare(from);
        }
        if (cmp) unshare(s);
        else drop(s);
    }
    // pairs for which the operations exist
    template <class F> static void two(int s, int from, const F &f)
    {
        unsigned char *x = slots[s].obj;
        const int k = slots[s].kind;
        const int fk = slots[from].kind;
        if (k == KDyn) {
            visit1(from, [&](auto &y) { f(*reinterpret_cast<Dyn *>(x), cst(y)); });
        } else if (fk == KDyn) {
            visit1(s, [&](auto &m) { f(m, cst(*reinterpret_cast<Dyn *>(slots[from].obj))); });
        } else if (is2D(k)) {
            visit2(s, [&](auto &m) { visit2(from, [&](auto &y) { f(m, cst(y)); }); });
        } else if (k == KF2 && fk == KF3) {       // S+1 and 2S have as many vectors
            f(*reinterpret_cast<F2 *>(x), cst(*reinterpret_cast<F3 *>(slots[from].obj)));
        } else if (k == KF3 && fk == KF2) {
            f(*reinterpret_cast<F3 *>(x), cst(*reinterpret_cast<F2 *>(slots[from].obj)));
        } else if (k == fk) {
            visit1(s, [&](auto &m) {
                typedef typename std::remove_reference<decltype(m)>::type M;
                f(m, cst(*reinterpret_cast<M *>(slots[from].obj)));
            });
        } else {
            fail("harness", "no such pair");
        }
    }
    template <class M> static const M &cst(M &m) { return m; }
    template <class M, class I> static V subscript(const M &m, const I &idx, std::true_type)
    {
        return m[Vc::simd_cast<Vc::int_v>(idx)];
    }
    template <class M, class I> static V subscript(const M &m, const I &idx, std::false_type)
    {
        unsigned p[S];
        for (int k = 0; k < S; ++k) p[k] = unsigned(idx[k]);
        return m.gather(p);
    }
    static void read(int tid, const Op &o, Live &live)
    {
        Rng r(o.seed);
        const int s = pick(r, [](const Slot &x) { return x.kind >= 0 && !x.wild && x.rows * x.padded > 0; });
        if (s < 0 || !share(s)) return;
        ctx(tid, "read %s<%s>", kindName(slots[s].kind), TypeName<E>::get());
        const size_t n = slots[s].count(), nv = n / S;
        if (r.below(2) && !is2D(slots[s].kind)) {
            typename V::IndexType idx;
            unsigned pos[S];
            for (int k = 0; k < S; ++k) {
                pos[k] = unsigned(r.below(n));
                idx[k] = pos[k];
            }
            V g;
            const bool ptr = r.below(2);
            visit1(s, [&](auto &m) {
                const auto &cm = m;
                live([&] { g = ptr ? cm.gather(pos) : subscript(cm, idx, std::integral_constant<bool, int(Vc::int_v::Size) == int(S)>()); });
            });
            for (int k = 0; k < S; ++k) {
                if (!bitsEqual(E(g[k]), model[s][pos[k]])) fail("wrong-read", "gathered lane %d is not entry %u", k, pos[k]);
            }
        } else {
            const size_t i = r.below(nv), at = r.below(n - S + 1);
            V v[3];
            visit(s, [&](auto &m) {
                const auto &cm = m;
                live([&] {
                    v[0] = cm.vector(i);
                    v[1] = cm.vectorAt(at);
                    v[2] = m.vector(i, int(at) - int(i * S));
                });
            });
            for (int k = 0; k < S; ++k) {
                if (!bitsEqual(E(v[0][k]), model[s][i * S + k])) fail("wrong-read", "lane %d of vector(%zu)", k, i);
                if (!bitsEqual(E(v[1][k]), model[s][at + k])) fail("wrong-read", "lane %d of vectorAt(%zu)", k, at);
                if (!bitsEqual(E(v[2][k]), model[s][at + k])) fail("wrong-read", "lane %d of the shifted vector at %zu", k, at);
            }
        }
        verify(s, "object-changed-by-reading");
        unshare(s);
    }
    static void op(int tid, const Op &o)
    {
        NoYield ny;
        Live live{ny};
        cOps++;
        switch (o.op) {
        case OMake: make(tid, o, ny, live); break;
        case OInit: init(tid, o, live); break;
        case OCopy: copy(tid, o, live); break;
        case ODrop: {
            Rng r(o.seed);
            const int s = pick(r, [](const Slot &x) { return x.kind >= 0 && !x.readers; });
            if (s >= 0 && take(s)) {
                destroy(tid, s, live);
                drop(s);
            }
            break;
        }
        case OSwap:
        case OAssign:
        case OMemOp:
        case OCompare: pairwise(tid, o, live); break;
        case OGather: read(tid, o, live); break;
        default: mutate(tid, o, ny, live);
        }
    }
    static void finish(int tid)
    {
        NoYield ny;
        Live live{ny};
        for (int s = 0; s < Slots; ++s) {
            if (slots[s].kind >= 0) destroy(tid, s, live);
        }
    }
};
template <class V> typename V::EntryType World<V>::model[Slots][Max];

// ------------------------------------------------------------------ containers
template <class V> struct Elem {   // an element whose construction by copying throws when told to
    V v;
    static void born()
    {
        NoYield ny;
        const int t = me();
        if (fuses[t] && --fuses[t] == 0) throw Bomb{};
        ++alive[t];
    }
    explicit Elem(const V &x) : v(x) { born(); }
    Elem(const Elem &x) : v(x.v) { born(); }
    Elem &operator=(const Elem &) = default;
    ~Elem()
    {
        NoYield ny;
        --alive[me()];
    }
};
// patterns recognisable lane by lane
template <class T> struct Pattern;
template <class V> static V patternVec(int id)
{
    V v;
    for (size_t i = 0; i < V::size(); ++i) v[i] = typename V::EntryType(id + int(i) * 3);
    return v;
}
template <class V> static bool patternOk(const V &v, int id)
{
    for (size_t i = 0; i < V::size(); ++i) {
        if (typename V::EntryType(v[i]) != typename V::EntryType(id + int(i) * 3)) return false;
    }
    return true;
}
template <class V> struct VecPattern {
    static V make(int id) { return patternVec<V>(id); }
    static bool ok(const V &v, int id) { return patternOk(v, id); }
};
template <class V> struct Pattern<Elem<V>> {
    static Elem<V> make(int id) { return Elem<V>(patternVec<V>(id)); }
    static bool ok(const Elem<V> &e, int id) { return patternOk(e.v, id); }
};
template <class T, class A> struct Pattern<Vc::Vector<T, A>> : VecPattern<Vc::Vector<T, A>> {
};
template <class T, size_t N, class V, size_t W> struct Pattern<Vc::SimdArray<T, N, V, W>> : VecPattern<Vc::SimdArray<T, N, V, W>> {
};
template <class T, class A> struct Pattern<Vc::Mask<T, A>> {
    typedef Vc::Mask<T, A> M;
    static M make(int id)
    {
        M m(false);
        for (size_t i = 0; i < M::size(); ++i) m[i] = (id >> (i % 8)) & 1;
        return m;
    }
    static bool ok(const M &m, int id)
    {
        for (size_t i = 0; i < M::size(); ++i) {
            if (m[i] != bool((id >> (i % 8)) & 1)) return false;
        }
        return true;
    }
};
#define PATTERN(T)                                       \
    template <> struct Pattern<T> {                      \
        static T make(int id) { return static_cast<T>(id); }          \
        static bool ok(T x, int id) { return x == static_cast<T>(id); } \
    }
PATTERN(float);
PATTERN(double);
PATTERN(int);
PATTERN(unsigned);
PATTERN(short);
PATTERN(unsigned short);

enum { MaxItems = 48 };
// containers that Vc::makeContainer fills with scalars
template <class C> struct FromScalars {
    static const bool value = false;
    template <class Attempt> static void go(C &, Rng &, int *, size_t &, const std::string &, Attempt &&) {}
};
template <class V> NOINLINE static void dirtyStack()
{
    volatile unsigned char x[2048];
    for (unsigned i = 0; i < sizeof(x); ++i) x[i] = 0xB7;
}
template <class T, size_t N> NOINLINE static void arrayOf(std::initializer_list<T> l, T *out)
{
    const auto a = Vc::makeContainer<std::array<Vc::Vector<T>, N>>(l);
    T *p = out;
    for (const auto &v : a) {
        v.store(p, Vc::Unaligned);
        p += Vc::Vector<T>::Size;
    }
}
template <class T, class A, class Alloc, template <class, class> class Cont> struct FromScalars<Cont<Vc::Vector<T, A>, Alloc>> {
    typedef Vc::Vector<T, A> V;
    typedef Cont<V, Alloc> C;
    static const bool value = true;
    // n scalars: the lanes of the patterns with ids m[0], m[1], ..., cut off somewhere
    template <class Attempt> static void go(C &c, Rng &r, int *m, size_t &entries, const std::string &name, Attempt &&attempt_)
    {
        T x[6 * V::Size + 1];
        const size_t n = r.below(6 * V::Size);
        const size_t vecs = (n + V::Size - 1) / V::Size;
        int ids[6];
        for (size_t i = 0; i < 6; ++i) {
            ids[i] = int(r.below(90));
            const V v = patternVec<V>(ids[i]);
            for (size_t j = 0; j < V::Size; ++j) x[i * V::Size + j] = v[j];
        }
        // the list ends where nothing is accessible
        const Room &room = rawRoom[me()];
        struct { const T *p; size_t n; } raw = {reinterpret_cast<T *>(room.end()) - n, n};
        memcpy(room.end() - n * sizeof(T), x, n * sizeof(T));
        std::initializer_list<T> list;
        static_assert(sizeof(list) == sizeof(raw), "");
        memcpy(static_cast<void *>(&list), &raw, sizeof(raw));
        if (attempt_([&] {
                dirtyStack<V>();
                c = Vc::makeContainer<C>(list);
            })) {
            if (c.size() != vecs) fail("wrong-contents", "makeContainer<%s> of %zu scalars has %zu elements", name.c_str(), n, c.size());
            size_t i = 0;
            for (V &v : c) {
                for (size_t j = 0; j < V::Size; ++j) {
                    const T want = i * V::Size + j < n ? x[i * V::Size + j] : T(0);
                    if (T(v[j]) != want) {
                        fail("wrong-contents", "makeContainer<%s> of %zu scalars: lane %zu of element %zu is wrong", name.c_str(), n, j, i);
                    }
                }
                v = patternVec<V>(ids[i]);
                m[i] = ids[i];
                ++i;
            }
            entries = vecs;
            cMade++;
        }
        if (n >= 7) {
            T y[64];
            typedef Vc::Vector<T> W;
            raw.n = 7;
            raw.p = reinterpret_cast<T *>(room.end()) - 7;
            memcpy(room.end() - 7 * sizeof(T), x, 7 * sizeof(T));
            memcpy(static_cast<void *>(&list), &raw, sizeof(raw));
            if (attempt_([&] {
                    dirtyStack<W>();
                    arrayOf<T, 7>(list, y);
                })) {
                for (size_t i = 0; i < (7 + W::Size - 1) / W::Size * W::Size; ++i) {
                    if (y[i] != (i < 7 ? x[i] : T(0))) fail("wrong-contents", "makeContainer<std::array> of 7 scalars: entry %zu is wrong", i);
                }
            } else {
                fail("refused-without-reason", "makeContainer<std::array>");
            }
        }
    }
};
// element access to two vectors or masks of a container
template <class T, bool> struct Lanes {
    static void go(T &, T &, int &, int &, int) {}
};
template <class T> struct Lanes<T, true> {
    static void arith(T &a, int &ia, int form, std::true_type)
    {
        typedef typename T::EntryType E;
        const int up = ia < 85 ? 1 : -1;
        for (size_t i = 0; i < T::size(); ++i) {
            switch (form) {
            case 4: up > 0 ? a[i] += E(1) : a[i] -= E(1); break;
            case 5: up > 0 ? ++a[i] : --a[i]; break;
            case 6: {
                const E before = a[i];
                const E seen = up > 0 ? a[i]++ : a[i]--;
                if (seen != before) fail("wrong-contents", "lane %zu reads differently after an increment", i);
                break;
            }
            default: a[i] = E(a[i]) * E(2) - E(ia - up + int(i) * 3);
            }
        }
        ia += up;
    }
    static void arith(T &, int &, int, std::false_type) {}
    static void go(T &a, T &b, int &ia, int &ib, int form)
    {
        using std::swap;
        typedef typename T::value_type E;
        switch (form) {
        case 0:
            for (size_t i = 0; i < T::size(); ++i) swap(a[i], b[i]);
            std::swap(ia, ib);
            break;
        case 1:
            for (size_t i = 0; i < T::size(); ++i) {
                E tmp = a[i];
                swap(tmp, b[i]);
                swap(a[i], tmp);
            }
            std::swap(ia, ib);
            break;
        case 2:     // backwards and forwards within one object
            for (size_t i = 0, j = T::size() - 1; i < j; ++i, --j) swap(a[i], a[j]);
            for (size_t i = 0, j = T::size() - 1; i < j; ++i, --j) swap(a[j], a[i]);
            break;
        case 3:
            for (size_t i = 0; i < T::size(); ++i) a[i] = E(b[i]);
            ia = ib;
            break;
        default:
            arith(a, ia, form, std::integral_constant<bool, Vc::is_simd_vector<T>::value>());
        }
    }
};
static int items[Slots][MaxItems];
template <class C> struct Holder {
    typedef typename C::value_type T;
    static const bool throwing = !std::is_arithmetic<T>::value && !Vc::is_simd_vector<T>::value && !Vc::is_simd_mask<T>::value;
    static C &at(int s) { return *reinterpret_cast<C *>(slots[s].obj); }
    static const std::string *name;

    static void verify(int s, const char *cls)
    {
        C &c = at(s);
        const Slot &sl = slots[s];
        if (c.size() != sl.entries) fail(cls, "%s has %zu elements, not %zu", name->c_str(), c.size(), sl.entries);
        size_t i = 0;
        for (const T &x : c) {
            const char *p = reinterpret_cast<const char *>(&x);
            const heap::Block *b = heap::find(p);
            if (!b || p + sizeof(T) > b->p + b->size) fail("too-little-storage", "element %zu of %s", i, name->c_str());
            if (reinterpret_cast<uintptr_t>(p) % alignof(T)) fail("misaligned", "element %zu of %s at %p", i, name->c_str(), static_cast<const void *>(p));
            if (!Pattern<T>::ok(x, items[s][i])) fail(cls, "element %zu of %s is not what the history says", i, name->c_str());
            ++i;
        }
    }
    template <class X> static auto reserve(X &c, size_t n, int) -> decltype(c.reserve(n)) { c.reserve(n); }
    template <class X> static void reserve(X &, size_t, long) {}
    template <class X> static auto shrink(X &c, int) -> decltype(c.shrink_to_fit()) { c.shrink_to_fit(); }
    template <class X> static void shrink(X &, long) {}
    static typename C::iterator nth(C &c, size_t i)
    {
        typename C::iterator it = c.begin();
        while (i--) ++it;
        return it;
    }
    static bool unchanged(int s, size_t n)
    {
        C &c = at(s);
        if (c.size() != n) return false;
        size_t i = 0;
        for (const T &x : c) {
            if (!Pattern<T>::ok(x, items[s][i++])) return false;
        }
        return true;
    }
    static void op(int tid, const Op &o)
    {
        NoYield ny;
        Live live{ny};
        cOps++;
        Rng r(o.seed);
        const int s = int(o.a[1]) % Slots;
        Slot &sl = slots[s];
        if (sl.writer >= 0 || sl.readers) {
            cSkip++;
            return;
        }
        sl.writer = me();
        bool refused = false;
        Outcome out = Ok;
        heap::onError("bad-free");
        fuses[me()] = 0;
        if (sl.kind < 0) {
            ctx(tid, "construct %s", name->c_str());
            unsigned char *p = place(s, sizeof(C), alignof(C), r);
            out = attempt(live, refused, [&] { new (p) C; });
            if (out != Ok) {
                if (!refused) fail("refused-without-reason", "empty container");
                sl.writer = -1;
                return;
            }
            sl.kind = 0;
            sl.entries = 0;
            sl.rows = 1;
            sl.padded = 0;
            sl.wild = false;
            cMake++;
        }
        C &c = at(s);
        if (!sl.wild) verify(s, "contents-changed");
        const size_t n = sl.entries;
        int *const m = items[s];
        const int id = int(r.below(90));
        const T x = Pattern<T>::make(id);
        const long aliveBefore = alive[me()];
        if (throwing && r.below(3) == 0) fuses[me()] = 1 + int(r.below(8));
        const int what = sl.wild ? 11 : int(r.below(FromScalars<C>::value ? 15 : 14));
        const size_t pos = n ? r.below(n) : 0;
        bool strong = true;
        ctx(tid, "%s operation %d", name->c_str(), what);
        switch (what) {
        case 0:
        case 1:
        case 2:
            if (n >= MaxItems) break;
            out = attempt(live, refused, [&] { c.push_back(x); });
            if (out == Ok) {
                m[n] = id;
                sl.entries = n + 1;
                cGrow++;
            }
            break;
        case 3: {
            if (n >= MaxItems) break;
            const size_t at = r.below(n + 1);
            strong = false;
            out = attempt(live, refused, [&] { c.insert(nth(c, at), x); });
            if (out == Ok) {
                memmove(m + at + 1, m + at, (n - at) * sizeof(int));
                m[at] = id;
                sl.entries = n + 1;
                cGrow++;
            }
            break;
        }
        case 4:
            if (!n) break;
            strong = false;
            out = attempt(live, refused, [&] { c.erase(nth(c, pos)); });
            if (out == Ok) {
                memmove(m + pos, m + pos + 1, (n - pos - 1) * sizeof(int));
                sl.entries = n - 1;
            }
            break;
        case 5: {
            const size_t to = r.below(MaxItems + 1);
            strong = false;
            out = attempt(live, refused, [&] { c.resize(to, x); });
            if (out == Ok) {
                for (size_t i = n; i < to; ++i) m[i] = id;
                sl.entries = to;
            }
            break;
        }
        case 6: {
            const size_t to = r.below(MaxItems + 1);
            strong = false;
            out = attempt(live, refused, [&] { c.assign(to, x); });
            if (out == Ok) {
                for (size_t i = 0; i < to; ++i) m[i] = id;
                sl.entries = to;
            }
            break;
        }
        case 7: {   // a copy that goes away again, exchanged with the original on the way
            out = attempt(live, refused, [&] {
                C d(c);
                c.swap(d);
            });
            break;
        }
        case 8:     // moved away and back
            out = attempt(live, refused, [&] {
                C d(std::move(c));
                c = std::move(d);
            });
            break;
        case 9:
            out = attempt(live, refused, [&] { reserve(c, n + r.below(40), 0); });
            break;
        case 10:
            out = attempt(live, refused, [&] { shrink(c, 0); });
            break;
        case 11:
            fuses[me()] = 0;
            live([&] { c.clear(); });
            sl.entries = 0;
            sl.wild = false;
            break;
        case 14: {
            bool first = true;
            FromScalars<C>::go(c, r, m, sl.entries, *name, [&](auto &&f) {
                bool no = false;
                const Outcome q = attempt(live, no, f);
                if (first) out = q, refused = no;
                first = false;
                return q == Ok;
            });
            break;
        }
        case 13: {  // lane by lane
            if (!n) break;
            const size_t other = r.below(n);
            const int form = int(r.below(8));
            T &a = *nth(c, pos), &b = *nth(c, other);
            live([&] { Lanes<T, Vc::is_simd_vector<T>::value || Vc::is_simd_mask<T>::value>::go(a, b, m[pos], m[other], form); });
            cLanes++;
            break;
        }
        case 12:
            if (!n) break;
            live([&] { *nth(c, pos) = x; });
            m[pos] = id;
            break;
        }
        fuses[me()] = 0;
        if (out != Ok) {
            if (out == BadAlloc && !refused) fail("refused-without-reason", "%s", name->c_str());
            if (what == 8) strong = false;
            if (strong) {
                cStrong++;
                if (!unchanged(s, n)) fail("changed-by-failed-operation", "%s: the failed operation %d changed the container", name->c_str(), what);
            } else {
                sl.wild = true;
                sl.entries = c.size();
            }
        }
        if (throwing && alive[me()] - aliveBefore != long(c.size()) - long(n) && !(what == 11 && n != c.size())) {
            fail("object-count", "%s: %ld objects more exist, %ld more elements", name->c_str(), alive[me()] - aliveBefore, long(c.size()) - long(n));
        }
        if (!sl.wild) verify(s, "wrong-contents");
        checkRoom(s);
        sl.writer = -1;
    }
    static void finish(int tid)
    {
        NoYield ny;
        Live live{ny};
        for (int s = 0; s < Slots; ++s) {
            if (slots[s].kind < 0) continue;
            ctx(tid, "destroy %s", name->c_str());
            if (!slots[s].wild) verify(s, "contents-changed");
            heap::onError("bad-free");
            live([&] { at(s).~C(); });
            checkRoom(s);
            slots[s].kind = -1;
        }
    }
};
template <class C> const std::string *Holder<C>::name;

// ------------------------------------------------------------------ runs
struct Type {
    std::string name;
    bool memory;
    void (*op)(int, const Op &);
    void (*finish)(int);
};
static std::vector<Type> *types;
template <class V> static void addWorld()
{
    types->push_back({"Memory<" + VName<V>::get() + ">", true, World<V>::op, World<V>::finish});
}
template <class C> static void addHolder(const std::string &n)
{
    Holder<C>::name = new std::string(n);
    types->push_back({n, false, Holder<C>::op, Holder<C>::finish});
}
template <class V> static void addAll()
{
    typedef typename V::EntryType E;
    const std::string v = VName<V>::get(), e = TypeName<E>::get();
    addWorld<V>();
    addHolder<std::vector<V>>("std::vector<" + v + ">");
    addHolder<std::vector<V, Vc::Allocator<V>>>("std::vector<" + v + ",Vc::Allocator>");
    addHolder<std::vector<E, Vc::Allocator<E>>>("std::vector<" + e + ",Vc::Allocator>");
    addHolder<std::vector<typename V::Mask>>("std::vector<mask of " + v + ">");
    addHolder<std::list<V, Vc::Allocator<V>>>("std::list<" + v + ",Vc::Allocator>");
    addHolder<std::deque<V, Vc::Allocator<V>>>("std::deque<" + v + ",Vc::Allocator>");
    addHolder<Vc::vector<V>>("Vc::vector<" + v + ">");
    addHolder<std::vector<Elem<V>, Vc::Allocator<Elem<V>>>>("std::vector<element with " + v + ",Vc::Allocator>");
    addHolder<Vc::vector<Elem<V>, Vc::Allocator<Elem<V>>>>("Vc::vector<element with " + v + ",Vc::Allocator>");
    addHolder<std::list<Elem<V>, Vc::Allocator<Elem<V>>>>("std::list<element with " + v + ",Vc::Allocator>");
    addHolder<std::vector<Vc::SimdArray<E, 7>>>("std::vector<SimdArray<" + e + ",7>>");
}

static void one(int tid, const Op &o)
{
    countOp(o.op);
    (*types)[size_t(P0->cfg[0])].op(tid, o);
}
static void body(int tid, void *)
{
    NoYield ny;
    Live live{ny};
    for (int i = 0; i < P0->nops; ++i) {
        if (P0->ops[i].thread == tid) {
            const Op &o = P0->ops[i];
            live([&] { one(tid, o); });
        }
    }
}
static void last(int tid, void *)
{
    NoYield ny;
    Live live{ny};
    live([&] { (*types)[size_t(P0->cfg[0])].finish(tid); });
}
static void run(Plan &p)
{
    NoYield ny;
    Live live{ny};
    P0 = &p;
    memset(fuses, 0, sizeof(fuses));
    memset(alive, 0, sizeof(alive));
    for (Slot &s : slots) {
        s = Slot();
        s.kind = -1;
        s.writer = -1;
    }
    heap::activate(true);
    for (int i = 0; i < p.nfaults; ++i) {
        const Fault &f = p.faults[i];
        if (f.kind == 0) heap::failAt(f.at);
        if (f.kind == 1) heap::failMaskRandom(unsigned(f.arg));
        if (f.kind == 2) heap::failAbove(size_t(f.arg));
    }
    live([&] { parallel(p.nthreads, body, nullptr); });
    heap::clearFailures();
    live([&] { parallel(1, last, nullptr); });
    context("the end");
    for (int i = 0; i < heap::nblocks(); ++i) {
        if (heap::block(i).live) fail("leak", "%zu bytes are still allocated after everything was destroyed", heap::block(i).size);
    }
    long n = 0;
    for (long a : alive) n += a;
    if (n) fail("object-count", "%ld elements were not destroyed", n);
    heap::checkCanaries("write-outside");
    heap::checkFreed("write-after-free");
    heap::activate(false);
}
static void generate(Rng &r, Plan &p)
{
    // half of the runs work on Memory objects
    p.cfg[0] = long(r.below(types->size()));
    if (!(*types)[size_t(p.cfg[0])].memory && r.below(100) < 55) {
        do {
            p.cfg[0] = long(r.below(types->size()));
        } while (!(*types)[size_t(p.cfg[0])].memory);
    }
    const bool mem = (*types)[size_t(p.cfg[0])].memory;
    p.nthreads = int(r.below(10) < 4 ? 1 : r.range(2, 3));
    const unsigned f = unsigned(r.below(6));
    if (f == 1) p.fault(0, 1 + long(r.below(8)));
    if (f == 2) p.fault(1, 0, r.range(5, 60));
    if (f == 3) p.fault(2, 0, long(1) << r.range(3, 11));
    const int total = int(r.range(p.nthreads + 2, 20));
    for (int i = 0; i < total; ++i) {
        const int t = i < p.nthreads ? i : int(r.below(uint64_t(p.nthreads)));
        if (!mem) {
            p.add(t, OUse, r.next(), 0, long(r.below(r.below(3) ? 2 : int(Slots))));
            continue;
        }
        const unsigned what = unsigned(r.below(100));
        if (i < 3 || what < 14) {
            const unsigned sh = unsigned(r.below(100));
            p.add(t, OMake, r.next(), long(r.below(2) ? 0 : r.below(9)), sh < 80 ? 0 : 1 + long(r.below(5)));
        } else if (what < 18) {
            p.add(t, OInit, r.next());
        } else if (what < 30) {
            p.add(t, OCopy, r.next());
        } else if (what < 38) {
            p.add(t, ODrop, r.next());
        } else if (what < 46) {
            p.add(t, OAssign, r.next());
        } else if (what < 51) {
            p.add(t, OSwap, r.next());
        } else if (what < 56) {
            p.add(t, OCompare, r.next());
        } else if (what < 60) {
            p.add(t, OMemOp, r.next());
        } else if (what < 67) {
            p.add(t, OGather, r.next());
        } else {
            static const int w[] = {OAssignRaw, OAssignV, OZero, OScalar, OScalar, OVector, OVector, OVectorAt, OShift, OIter, ORange,
                OVecOp, OScalarOp, OWrap};
            p.add(t, w[r.below(sizeof(w) / sizeof(w[0]))], r.next());
        }
    }
    choosePolicy(r, p, (mem ? 40 : 25) * total);
}
static void setup()
{
    for (int i = 0; i < Slots; ++i) buffers[i].b = reinterpret_cast<unsigned char *>(makeRoom(RoomBytes / 4096).base);
    for (int i = 0; i <= MaxThreads; ++i) rawRoom[i] = makeRoom(2);
    types = new std::vector<Type>;
#if PART == 0
    addAll<Vc::float_v>();
    addAll<Vc::double_v>();
#elif PART == 1
    addAll<Vc::int_v>();
    addAll<Vc::uint_v>();
#else
    addAll<Vc::short_v>();
    addAll<Vc::ushort_v>();
#endif
}
static const char *opName(int i) { return opNames[i]; }
Workload sim::workload()
{
    return {"C06", setup, generate, run, opName, ""};
}
