// C03  Loads, gathers, interleaved and container reads access exactly what they are asked
// for: the window of elements lies against inaccessible pages, other threads rewrite
// elements (and unmap what was not requested) meanwhile, unselected lanes carry wild
// indices.  Each lane must hold a value its element had during the operation.
#include "common.h"
#include <Vc/Memory>
#include <sys/mman.h>
#include <vector>

using namespace sim;

static const Counter cLoad("loads"), cConv("converting_loads"), cGather("gathers"), cMGather("masked_gathers"),
    cWild("wild_unselected_index"), cOver("consecutive_indexes_partly_outside"), cInter("interleaved_reads"), cMem("memory_container_reads"), cBool("mask_loads"),
    cTop("window_ends_at_inaccessible_page"), cBottom("window_starts_at_inaccessible_page"),
    cHole("window_around_inaccessible_page"), cUnmap("pages_unmapped_during_read"), cWrites("element_rewrites"),
    cFresh("lanes_that_saw_a_value_written_during_the_read"), cRo("runs_on_read_only_memory"), cPf("prefetches"),
    cEmpty("empty_mask"), cStall("runs_with_stalled_thread"), cRush("runs_with_a_writer_between_all_instructions");

enum { MaxWin = 512, MaxHist = 20 };
static const Counter cIter("vectorised_iterator_read");
static Room room;   // three pages; the middle one can become the hole

struct Hist {
    int n;
    long seq[MaxHist];
    double val[MaxHist];
};
struct Env {
    int n;          // elements (mode struct: elements too, grouped by N)
    int mode;
    int N, K;       // structs
    int na;         // elements (structs) before the hole; >= count: no hole
    long skip;      // index of the first element (struct) behind the hole
    char *win;
    size_t elem;    // bytes per element
    long seq;
    Hist h[MaxWin];
    Plan *plan;
    bool readonly;
    bool holeOpen;
    bool rush;      // all elements have new values between any two instructions
    double (*rushValue)(int id, long version);   // as the lane sees it
};
static Env E;

enum { MFlat, MStruct, MMem, MBool, MPrefetch };

// id -> index into the array
static long indexOf(int id)
{
    if (E.mode == MStruct) {
        const int s = id / E.N;
        return (s < E.na ? s : s - E.na + E.skip) * E.N + id % E.N;
    }
    return id < E.na ? id : id - E.na + E.skip;
}
static long structIndex(int s) { return s < E.na ? s : s - E.na + E.skip; }
static char *addrOf(int id) { return E.win + indexOf(id) * long(E.elem); }

template <class U> static U valueOf(int id, long version)
{
    if (sizeof(U) == 1) {
        return U((id * 29 + version * 11 + 1) & 0x7f);
    }
    if (sizeof(U) == 2) {
        return U((id % 97 + version * 97 + 1) & 0x7fff);
    }
    // gcc converts unsigned to float in halves of 16 bits and may load the operand once for each
    if (std::is_same<U, unsigned>::value) return U((id + version * MaxWin + 1) & 0xffff);
    const U x = U(id + version * MaxWin + 1);
    // both halves of a double differ from those of any other value
    return sizeof(U) == 8 ? U(x + x / 8589934592.) : x;
}

// what a lane may be: [seq0, seq1] is the operation's interval
static bool held(int id, long seq0, long seq1, double d, bool *fresh)
{
    if (E.rush) {
        for (long k = seq1; k >= seq0; --k) {
            if (E.rushValue(id, k) == d) {
                *fresh = k > seq0;
                return true;
            }
        }
        return false;
    }
    const Hist &h = E.h[id];
    for (int i = h.n - 1; i >= 0; --i) {
        if (h.seq[i] > seq1) {
            continue;
        }
        if (h.val[i] == d) {
            *fresh = h.seq[i] > seq0;
            return true;
        }
        if (h.seq[i] <= seq0) {
            break;
        }
    }
    return false;
}
static void describe(char *b, size_t n, int id)
{
    const Hist &h = E.h[id];
    if (E.rush) {
        snprintf(b, n, "%.9g before and %.9g in the end", E.rushValue(id, 0), E.rushValue(id, E.seq));
        return;
    }
    int k = snprintf(b, n, "[");
    for (int i = 0; i < h.n && k < int(n) - 24; ++i) {
        k += snprintf(b + k, n - size_t(k), "%s%.9g", i ? " " : "", h.val[i]);
    }
    snprintf(b + k, n - size_t(k), "]");
}

// ------------------------------------------------------------ operations, as users write them
template <class V, class U, class F> NOINLINE void opLoad(V &v, const U *p, F f) { v.load(p, f); }
template <class V, class U> NOINLINE void opLoadDef(V &v, const U *p) { v.load(p); }
template <class V, class U, class F> NOINLINE void opCtor(V &v, const U *p, F f) { v = V(p, f); }
template <class V, class U, class I> NOINLINE void opGather(V &v, const U *p, const I &i) { v.gather(p, i); }
template <class V, class U, class I> NOINLINE void opGatherC(V &v, const U *p, const I &i) { v = V(p, i); }
template <class V, class U, class I>
NOINLINE void opMGather(V &v, const U *p, const I &i, const typename V::MaskType &m)
{
    v.gather(p, i, m);
}
template <class V, class U, class I>
NOINLINE void opMGatherC(V &v, const U *p, const I &i, const typename V::MaskType &m)
{
    v = V(p, i, m);
}
template <class V, class A, class I> NOINLINE void opSub(V &v, A &a, const I &i) { v = a[i]; }
template <class V, class A, class I>
NOINLINE void opMSub(V &v, A &a, const I &i, const typename V::MaskType &m)
{
    Vc::where(m) | v = a[i];
}
template <class V, class A, class I>
NOINLINE void opMSub2(V &v, A &a, const I &i, const typename V::MaskType &m)
{
    v(m) = a[i];
}
template <class T, int N> struct SN {
    T m[N];
};
template <class T> struct S3 {
    T x, y, z;
};
template <class T> struct Inner {
    T p, q;
};
template <class T> struct S5 {
    T a;
    Inner<T> in;
    T b, c;
};
template <class V, class T, class I> NOINLINE void opMember(V &v, Vc::array<S3<T>, 512> &a, const I &i)
{
    v = a[i][&S3<T>::y];
}
template <class V, class T, class I>
NOINLINE void opMMember2(V &v, Vc::array<S3<T>, 512> &a, const I &i, const typename V::MaskType &m)
{
    v(m) = a[i][&S3<T>::y];
}
template <class V, class T, class I>
NOINLINE void opMMember(V &v, Vc::array<S3<T>, 512> &a, const I &i, const typename V::MaskType &m)
{
    Vc::where(m) | v = a[i][&S3<T>::z];
}
template <class V, class T, class I> NOINLINE void opInner(V &v, Vc::array<S5<T>, 512> &a, const I &i)
{
    v = a[i][&S5<T>::in][&Inner<T>::q];
}
template <class V, class T, class I>
NOINLINE void opMInner(V &v, Vc::array<S5<T>, 512> &a, const I &i, const typename V::MaskType &m)
{
    Vc::where(m) | v = a[i][&S5<T>::in][&Inner<T>::p];
}
template <class V, class T, class I> NOINLINE void opNested(V &v, Vc::array<Vc::array<T, 4>, 512> &a, const I &i, int j)
{
    v = a[i][j];
}
template <class V, class T, class I>
NOINLINE void opMNested(V &v, Vc::array<Vc::array<T, 4>, 512> &a, const I &i, int j, const typename V::MaskType &m)
{
    Vc::where(m) | v = a[i][j];
}
// both subscripts are vectors or arrays
template <class V, class T, class I, class J> NOINLINE void opNested2(V &v, Vc::array<Vc::array<T, 4>, 512> &a, const I &i, const J &j)
{
    v = a[i][j];
}
template <class V, class T, class I, class J>
NOINLINE void opMNested2(V &v, Vc::array<Vc::array<T, 4>, 512> &a, const I &i, const J &j, const typename V::MaskType &m)
{
    Vc::where(m) | v = a[i][j];
}
template <class V, class T, class I> NOINLINE void opOldInner(V &v, const S5<T> *a, const I &i)
{
    v.gather(a, &S5<T>::in, &Inner<T>::q, i);
}
template <class V, class T, class I>
NOINLINE void opOldMInner(V &v, const S5<T> *a, const I &i, const typename V::MaskType &m)
{
    v.gather(a, &S5<T>::in, &Inner<T>::p, i, m);
}
template <class V, class T, class I> NOINLINE void opOldMember(V &v, const S3<T> *a, const I &i)
{
    v.gather(a, &S3<T>::x, i);
}
template <class V, class T, class I>
NOINLINE void opOldMMember(V &v, const S3<T> *a, const I &i, const typename V::MaskType &m)
{
    v.gather(a, &S3<T>::z, i, m);
}
template <class V, int N, int K, class I> struct Inter;
#define VR(i) v[i]
#define INTER(K, ...)                                                                                   \
    template <class V, int N, class I> struct Inter<V, N, K, I> {                                      \
        NOINLINE static void go(const SN<typename V::EntryType, N> *s, const I &i, V *v)               \
        {                                                                                               \
            const Vc::InterleavedMemoryWrapper<const SN<typename V::EntryType, N>, V> w(s);             \
            Vc::tie(__VA_ARGS__) = w[i];                                                                \
        }                                                                                               \
    };
INTER(2, VR(0), VR(1))
INTER(3, VR(0), VR(1), VR(2))
INTER(4, VR(0), VR(1), VR(2), VR(3))
INTER(5, VR(0), VR(1), VR(2), VR(3), VR(4))
INTER(6, VR(0), VR(1), VR(2), VR(3), VR(4), VR(5))
INTER(7, VR(0), VR(1), VR(2), VR(3), VR(4), VR(5), VR(6))
INTER(8, VR(0), VR(1), VR(2), VR(3), VR(4), VR(5), VR(6), VR(7))

enum OpId {
    OLoadU, OLoadA, OLoadDef, OLoadStream, OLoadPref, OCtorU, OCtorA, OConvLoad, OConvCtor, OGatherI, OGatherA,
    OGatherC, OMGatherI, OMGatherC, OConvGather, OConvMGather, OSub, OMSub, ODeint, OMember, OMMember,
    OInner, OMInner, ONested, OMNested, OOldMember, OOldMMember, OInterIdx, OInterSucc, OMemVector, OMemVectorU,
    OMemShift, OMemVectorAt, OMemScalar, OMemGather, OMemIter, OMaskLoad, OMaskCtor, OPrefetch, OWriter, OUnmap, OMSub2, OMMember2,
    OIter, OIterHop, OIterPair, NOps
};
static const char *const opNames[NOps] = {
    "load(Unaligned)", "load(Aligned)", "load()", "load(Streaming)", "load(PrefetchDefault)", "V(p,Unaligned)",
    "V(p,Aligned)", "converting load", "V(converting p)", "gather(IndexType)", "gather(int[])", "V(p,idx)",
    "masked gather(IndexType)", "V(p,idx,mask)", "converting gather",
    "converting masked gather", "v=array[idx]", "where(mask)|v=array[idx]", "deinterleave",
    "v=array[idx][&S::m]", "where(mask)|v=array[idx][&S::m]", "v=array[idx][&S::in][&In::q]",
    "where(mask)|v=array[idx][&S::in][&In::p]", "v=array[idx][j]", "where(mask)|v=array[idx][j]",
    "gather(S*,&S::m,idx)", "gather(S*,&S::m,idx,mask)", "interleaved[idx]", "interleaved[first]",
    "Memory::vector(i)", "Memory::vector(i,Unaligned)", "Memory::vector(i,shift)", "Memory::vectorAt()",
    "Memory[i]", "Memory[idx]", "Memory iterator", "Mask::load(bool*)", "Mask(bool*)", "prefetch", "rewriter",
    "unmapper", "v(mask)=array[idx]", "v(mask)=array[idx][&S::m]",
    "v=*simdize<T *>", "v=*simdize<forward iterator>", "v=*simdize<pair *>"};
static char ctxText[MaxThreads][160];

template <class V, bool Simple> struct Ops {
    typedef typename V::EntryType T;
    typedef typename V::MaskType M;
    typedef typename V::IndexType I;
    enum { S = V::Size };

    static void ctx(int tid, int op, const char *extra = "")
    {
        snprintf(ctxText[tid], sizeof(ctxText[tid]), "%s %s%s", VName<V>::get().c_str(), opNames[op], extra);
        context(ctxText[tid]);
    }
    struct Read {
        V v;
        T old[S];
        int id[S];      // element of each lane, -1: unselected
        bool b[S];
        bool zeroed;    // unselected lanes become zero
        long seq0;
        Read() : zeroed(false)
        {
            for (int i = 0; i < S; ++i) {
                old[i] = T(120 - i % 8);
                id[i] = -1;
            }
            v = V(&old[0], Vc::Unaligned);
            seq0 = E.seq;
        }
        void start() { seq0 = E.seq; }
        void check(const char *what) const
        {
            T got[S];
            v.store(&got[0], Vc::Unaligned);
            for (int i = 0; i < S; ++i) {
                if (id[i] < 0) {
                    const T want = zeroed ? T(0) : old[i];
                    if (!same(got[i], want)) {
                        fail("unselected-lane-changed", "%s: lane %d was not selected and is %.9g instead of %.9g", what,
                             i, double(got[i]), double(want));
                    }
                } else {
                    bool fresh = false;
                    if (!held(id[i], seq0, E.seq, double(got[i]), &fresh)) {
                        char b1[300];
                        describe(b1, sizeof(b1), id[i]);
                        fail("wrong-value", "%s: lane %d received %.9g, element %d held %s", what, i, double(got[i]),
                             id[i], b1);
                    }
                    if (fresh) cFresh++;
                }
            }
        }
    };
    static bool aligned(const void *p) { return (reinterpret_cast<uintptr_t>(p) % V::MemoryAlignment) == 0; }

    // position of a block of `len` consecutive elements, biased towards the ends; -1: none
    static int block(Rng &r, int len, bool al)
    {
        int cand[MaxWin], n = 0;
        for (int p = 0; p + len <= E.n; ++p) {
            if (p < E.na && p + len > E.na) {
                continue;   // would cross the hole
            }
            if (al && !aligned(addrOf(p))) {
                continue;
            }
            cand[n++] = p;
        }
        if (!n) {
            return -1;
        }
        const unsigned k = unsigned(r.below(4));
        return k == 0 ? cand[0] : k == 1 ? cand[n - 1] : cand[r.below(uint64_t(n))];
    }
    template <class U, class F> static bool load(Rng &r, int op, bool al, F f)
    {
        const int p = block(r, S, al);
        if (p < 0) {
            return false;
        }
        Read q;
        for (int i = 0; i < S; ++i) {
            q.id[i] = p + i;
        }
        q.start();
        f(q.v, reinterpret_cast<const U *>(addrOf(p)));
        q.check(opNames[op]);
        return true;
    }
    static I indexes(const int *lanes)
    {
        I iv;
        for (size_t i = 0; i < I::Size; ++i) {
            iv[i] = typename I::EntryType(i < size_t(S) ? lanes[i] : lanes[0]);
        }
        return iv;
    }
    // f(v, base index, iv, lanes, mask); units: window elements or structs (member: offset in the struct)
    template <class F> static bool gather(Rng &r, int op, bool masked, bool zeroed, int member, bool neg, F f)
    {
        const int count = E.mode == MStruct ? E.n / E.N : E.n;
        Read q;
        q.zeroed = zeroed;
        int lanes[S];
        if (masked) {
            shapeMask(r, q.b, S);
        } else {
            for (int i = 0; i < S; ++i) q.b[i] = true;
        }
        int at[S];
        shapeIndexes(r, at, S, count);
        const bool over = masked && r.chance(25);   // consecutive, and what lies outside is not selected
        long raw[S];
        if (over) {
            const int from = int(r.range(1 - S, count - 1)), step = r.chance(75) ? 1 : -1;
            for (int i = 0; i < S; ++i) {
                const int c = from + (step > 0 ? i : S - 1 - i);
                at[i] = c < 0 ? 0 : c >= count ? count - 1 : c;
                raw[i] = c - at[i];
                if (raw[i]) q.b[i] = false;
            }
            cOver++;
        }
        long base = 0;
        if (neg && r.chance(40)) {
            base = indexOf(int(r.below(uint64_t(E.n))));
            if (r.chance(50)) base += long(r.range(-5000, 5000));   // the base itself is no element, mostly inaccessible
        }
        const bool wild = r.chance(60);
        bool any = false;
        for (int i = 0; i < S; ++i) {
            any |= q.b[i];
            const int c = at[i];
            if (q.b[i]) {
                q.id[i] = E.mode == MStruct ? c * E.N + member : c;
                lanes[i] = int((E.mode == MStruct ? structIndex(c) : indexOf(c)) - base);
            } else if (over) {
                lanes[i] = int((E.mode == MStruct ? structIndex(c) : indexOf(c)) + raw[i] - base);
            } else if (wild) {
                const unsigned w = unsigned(r.below(4));
                lanes[i] = w == 0 ? int(r.next()) : w == 1 ? std::numeric_limits<int>::max() - int(r.below(3))
                         : w == 2 ? std::numeric_limits<int>::min() + int(r.below(3)) : int(r.range(-100000, 100000));
                cWild++;
            } else {
                lanes[i] = int((E.mode == MStruct ? structIndex(c) : indexOf(c)) - base);
            }
        }
        if (!any) cEmpty++;
        const I iv = indexes(lanes);
        const M m = maskFrom<M>(q.b);
        q.start();
        f(q.v, base, iv, lanes, m);
        q.check(opNames[op]);
        if (masked) cMGather++; else cGather++;
        return true;
    }

    typedef typename std::conditional<Simple, V, Vc::Vector<T>>::type MV;
    typedef Vc::Memory<MV, 96> Mem;
    typedef Vc::array<T, 512> Arr;

    // ---- operations whose window elements have type U
    template <class U> static bool convOp(int op, Rng &r, const Live &live)
    {
        const U *const w = reinterpret_cast<const U *>(E.win);
        switch (op) {
        case OConvLoad:
            cConv++;
            return load<U>(r, op, false, [&](V &v, const U *p) { live([&] { opLoad(v, p, Vc::Unaligned); }); });
        case OConvCtor:
            cConv++;
            return load<U>(r, op, false, [&](V &v, const U *p) { live([&] { opCtor(v, p, Vc::Unaligned); }); });
        case OConvGather:
            return gather(r, op, false, false, 0, true,
                          [&](V &v, long b, const I &iv, const int *, const M &) { live([&] { opGather(v, w + b, iv); }); });
        case OConvMGather:
            return gather(r, op, true, false, 0, true, [&](V &v, long b, const I &iv, const int *, const M &m) {
                live([&] { opMGather(v, w + b, iv, m); });
            });
        }
        return false;
    }
    struct Arr_ {
        int v[S];
        int operator[](size_t i) const { return v[i]; }
    };
    template <bool Si> static const int *intArray(const int *lanes, const I &, std::integral_constant<bool, Si>)
    {
        return lanes;
    }
    static bool flatOp(int op, Rng &r, const Live &live)
    {
        const T *const w = reinterpret_cast<const T *>(E.win);
        Arr &arr = *reinterpret_cast<Arr *>(E.win);
        switch (op) {
        case OLoadU: cLoad++; return load<T>(r, op, false, [&](V &v, const T *p) { live([&] { opLoad(v, p, Vc::Unaligned); }); });
        case OLoadA: cLoad++; return load<T>(r, op, true, [&](V &v, const T *p) { live([&] { opLoad(v, p, Vc::Aligned); }); });
        case OLoadDef: cLoad++; return load<T>(r, op, true, [&](V &v, const T *p) { live([&] { opLoadDef(v, p); }); });
        case OLoadStream: cLoad++; return load<T>(r, op, true, [&](V &v, const T *p) { live([&] { opLoad(v, p, Vc::Streaming); }); });
        case OLoadPref:
            cLoad++;
            if (r.chance(50)) return load<T>(r, op, true, [&](V &v, const T *p) { live([&] { opLoad(v, p, Vc::Aligned | Vc::PrefetchDefault); }); });
            return load<T>(r, op, false, [&](V &v, const T *p) { live([&] { opLoad(v, p, Vc::Unaligned | Vc::Prefetch<64, 4096>()); }); });
        case OCtorU: cLoad++; return load<T>(r, op, false, [&](V &v, const T *p) { live([&] { opCtor(v, p, Vc::Unaligned); }); });
        case OCtorA: cLoad++; return load<T>(r, op, true, [&](V &v, const T *p) { live([&] { opCtor(v, p, Vc::Aligned); }); });
        case OGatherI:
            return gather(r, op, false, false, 0, true, [&](V &v, long b, const I &iv, const int *, const M &) {
                live([&] { opGather(v, w + b, iv); });
            });
        case OGatherC:
            return gather(r, op, false, false, 0, true, [&](V &v, long b, const I &iv, const int *, const M &) {
                live([&] { opGatherC(v, w + b, iv); });
            });
        case OMGatherI:
            return gather(r, op, true, false, 0, true, [&](V &v, long b, const I &iv, const int *, const M &m) {
                live([&] { opMGather(v, w + b, iv, m); });
            });
        case OMGatherC:
            return gather(r, op, true, true, 0, true, [&](V &v, long b, const I &iv, const int *, const M &m) {
                live([&] { opMGatherC(v, w + b, iv, m); });
            });
        case OGatherA: return gatherArr(op, r, live, w, std::integral_constant<bool, Simple>());
        case OSub:
            return gather(r, op, false, false, 0, false, [&](V &v, long, const I &iv, const int *, const M &) {
                live([&] { opSub(v, arr, iv); });
            });
        case OMSub:
            return gather(r, op, true, false, 0, false, [&](V &v, long, const I &iv, const int *, const M &m) {
                live([&] { opMSub(v, arr, iv, m); });
            });
        case OMSub2:
            return gather(r, op, true, false, 0, false, [&](V &v, long, const I &iv, const int *, const M &m) {
                live([&] { opMSub2(v, arr, iv, m); });
            });
        case ODeint: return deint(op, r, live, std::integral_constant<bool, Simple>());
        case OIter:
        case OIterHop:
        case OIterPair: return iterOp(op, r, live);
        }
        return false;
    }
    // a forward iterator over elements that lie anywhere
    struct Hop {
        typedef std::forward_iterator_tag iterator_category;
        typedef T value_type;
        typedef ptrdiff_t difference_type;
        typedef const T *pointer;
        typedef const T &reference;
        const int *pos;
        const T &operator*() const { return *reinterpret_cast<const T *>(addrOf(*pos)); }
        const T *operator->() const { return reinterpret_cast<const T *>(addrOf(*pos)); }
        Hop &operator++() { ++pos; return *this; }
        Hop operator++(int) { Hop h = *this; ++pos; return h; }
        friend bool operator==(const Hop &a, const Hop &b) { return a.pos == b.pos; }
        friend bool operator!=(const Hop &a, const Hop &b) { return a.pos != b.pos; }
    };
    template <class It> NOINLINE static void itGet(It it, typename It::value_type &x) { x = *it; }
    template <class It> NOINLINE static void itGetC(const It it, typename It::value_type &x) { x = *it; }
    template <class It> NOINLINE static void itSub(It it, ptrdiff_t k, typename It::value_type &x) { x = it[k]; }
    template <class It> NOINLINE static void itSubC(const It it, ptrdiff_t k, typename It::value_type &x) { x = it[k]; }
    template <class It> static void itSubConst(const It &it, ptrdiff_t k, typename It::value_type &x, std::true_type) { itSubC(it, k, x); }
    template <class It> static void itSubConst(const It &it, ptrdiff_t k, typename It::value_type &x, std::false_type) { itSub(it, k, x); }
    template <class It> struct Scalar;
    template <class Sc, size_t N, Vc::SimdizeDetail::IteratorDetails::Mutable Mu, class X, size_t Sz, class Tag>
    struct Scalar<Vc::SimdizeDetail::IteratorDetails::Iterator<Sc, N, Mu, X, Sz, Tag>> {
        typedef Sc type;
    };
    template <class It> NOINLINE static void itArrow(const It it, typename It::value_type &x) { x = *it.operator->().operator->(); }
    template <class It> NOINLINE static void itWalk(It it, typename It::value_type &x)
    {
        it++;
        --it;
        x = *it--;
    }
    template <class It> static void itAny(const It &it, int form, int k, T *out)
    {
        typename It::value_type x;
        switch (form) {
        case 0: itGet(it, x); break;
        case 1: itGetC(it, x); break;
        case 2: itSub(it - k, k, x); break;
        case 3: itSubConst(it - k, k, x, typename std::is_const<typename std::remove_reference<decltype(**static_cast<const typename Scalar<It>::type *>(nullptr))>::type>::type()); break;
        case 4: itArrow(it, x); break;
        default: itWalk(it, x);
        }
        x.store(out, Vc::Unaligned);
    }
    static bool iterOp(int op, Rng &r, const Live &live)
    {
        const int form = int(r.below(6)), k = int(r.range(-3, 3));
        T out[S];
        if (op == OIter) {
            const int p = block(r, S, false), kind = int(r.below(4));
            if (p < 0) return false;
            Read q;
            for (int i = 0; i < S; ++i) q.id[i] = kind == 3 ? p + S - 1 - i : p + i;
            const T *const w = reinterpret_cast<const T *>(addrOf(p));
            q.start();
            live([&] {
                if (kind == 0) itAny(Vc::simdize<const T *, S>(w), form, k, out);
                else if (kind == 1) itAny(Vc::simdize<T *, S>(const_cast<T *>(w)), form & 3, k, out);
                else if (kind == 2) itAny(Vc::simdize<typename std::vector<T>::const_iterator, S>(typename std::vector<T>::const_iterator(w)), form, k, out);
                else itAny(Vc::simdize<std::reverse_iterator<const T *>, S>(std::reverse_iterator<const T *>(w + S)), form, k, out);
            });
            q.v = V(&out[0], Vc::Unaligned);
            q.check(opNames[op]);
        } else if (op == OIterHop) {
            int idx[S + 1];
            Read q;
            shapeIndexes(r, idx, S, E.n);
            idx[S] = int(r.below(uint64_t(E.n)));
            for (int i = 0; i < S; ++i) q.id[i] = idx[i];
            q.start();
            live([&] {
                const Vc::simdize<Hop, S> it(Hop{idx});
                typename Vc::simdize<Hop, S>::value_type x;
                if (form & 1) itGet(it, x);
                else if (form & 2) itGetC(it, x);
                else itArrow(it, x);
                x.store(&out[0], Vc::Unaligned);
            });
            q.v = V(&out[0], Vc::Unaligned);
            q.check(opNames[op]);
        } else {
            typedef std::pair<T, T> P;
            typedef Vc::simdize<const P *, S> It;
            const int p = block(r, 2 * S, false);
            if (p < 0) return false;
            T out2[S];
            Read a, b;
            for (int i = 0; i < S; ++i) {
                a.id[i] = p + 2 * i;
                b.id[i] = p + 2 * i + 1;
            }
            a.start();
            b.start();
            live([&] {
                const It it(reinterpret_cast<const P *>(addrOf(p)));
                typename It::value_type x;
                if (form & 1) itGetC(it, x);
                else if (form & 2) itArrow(it, x);
                else itSubC(it - k, k, x);
                std::get<0>(x).store(&out[0], Vc::Unaligned);
                std::get<1>(x).store(&out2[0], Vc::Unaligned);
            });
            a.v = V(&out[0], Vc::Unaligned);
            b.v = V(&out2[0], Vc::Unaligned);
            a.check(opNames[op]);
            b.check(opNames[op]);
        }
        cIter++;
        return true;
    }
    static bool gatherArr(int op, Rng &r, const Live &live, const T *w, std::true_type)
    {
        return gather(r, op, false, false, 0, true, [&](V &v, long b, const I &, const int *l, const M &) {
            Arr_ a;
            for (int i = 0; i < S; ++i) a.v[i] = l[i];
            live([&] { opGather(v, w + b, a); });
        });
    }
    static bool gatherArr(int, Rng &, const Live &, const T *, std::false_type) { return false; }
    static bool deint(int op, Rng &r, const Live &live, std::true_type)
    {
        const bool al = r.chance(50);
        const int p = block(r, 2 * S, al);
        if (p < 0) return false;
        Read a, b;
        for (int i = 0; i < S; ++i) {
            a.id[i] = p + 2 * i;
            b.id[i] = p + 2 * i + 1;
        }
        const T *const m = reinterpret_cast<const T *>(addrOf(p));
        a.start();
        b.start();
        cInter++;
        struct L {
            NOINLINE static void u(V *x, V *y, const T *q) { Vc::deinterleave(x, y, q, Vc::Unaligned); }
            NOINLINE static void l(V *x, V *y, const T *q) { Vc::deinterleave(x, y, q, Vc::Aligned); }
        };
        if (al) live([&] { L::l(&a.v, &b.v, m); }); else live([&] { L::u(&a.v, &b.v, m); });
        a.check(opNames[op]);
        b.check(opNames[op]);
        return true;
    }
    static bool deint(int, Rng &, const Live &, std::false_type) { return false; }

    static bool structOp(int op, Rng &r, const Live &live)
    {
        auto &a3 = *reinterpret_cast<Vc::array<S3<T>, 512> *>(E.win);
        auto &a5 = *reinterpret_cast<Vc::array<S5<T>, 512> *>(E.win);
        auto &a4 = *reinterpret_cast<Vc::array<Vc::array<T, 4>, 512> *>(E.win);
        const int j = int(r.below(4)), form = int(r.below(4));
        if (E.N == 3) {
            switch (op) {
            case OMember: return gather(r, op, false, false, 1, false, [&](V &v, long, const I &iv, const int *, const M &) { live([&] { opMember<V, T>(v, a3, iv); }); });
            case OMMember2: return gather(r, op, true, false, 1, false, [&](V &v, long, const I &iv, const int *, const M &m) { live([&] { opMMember2<V, T>(v, a3, iv, m); }); });
            case OMMember: return gather(r, op, true, false, 2, false, [&](V &v, long, const I &iv, const int *, const M &m) { live([&] { opMMember<V, T>(v, a3, iv, m); }); });
            case OOldMember: return gather(r, op, false, false, 0, false, [&](V &v, long, const I &iv, const int *, const M &) { live([&] { opOldMember<V, T>(v, &a3[0], iv); }); });
            case OOldMMember: return gather(r, op, true, false, 2, false, [&](V &v, long, const I &iv, const int *, const M &m) { live([&] { opOldMMember<V, T>(v, &a3[0], iv, m); }); });
            }
        } else if (E.N == 5) {
            switch (op) {
            case OInner: return gather(r, op, false, false, 2, false, [&](V &v, long, const I &iv, const int *, const M &) { live([&] { if (j & 1) opInner<V, T>(v, a5, iv); else opOldInner<V, T>(v, &a5[0], iv); }); });
            case OMInner: return gather(r, op, true, false, 1, false, [&](V &v, long, const I &iv, const int *, const M &m) { live([&] { if (j & 1) opMInner<V, T>(v, a5, iv, m); else opOldMInner<V, T>(v, &a5[0], iv, m); }); });
            }
        } else if (E.N == 4) {
            switch (op) {
            case ONested: return gather(r, op, false, false, j, false, [&](V &v, long, const I &iv, const int *ix, const M &) {
                    std::array<int, S> ia;
                    I jv(Vc::Zero);
                    for (int l = 0; l < int(S); ++l) ia[l] = ix[l], jv[l] = typename I::EntryType(j);
                    live([&] {
                        switch (form) {
                        case 0: opNested2<V, T>(v, a4, iv, jv); break;
                        case 1: opNested2<V, T>(v, a4, ia, jv); break;
                        default: opNested<V, T>(v, a4, iv, j);
                        }
                    });
                });
            case OMNested: return gather(r, op, true, false, j, false, [&](V &v, long, const I &iv, const int *ix, const M &m) {
                    std::array<int, S> ia;
                    I jv(Vc::Zero);
                    for (int l = 0; l < int(S); ++l) ia[l] = ix[l], jv[l] = typename I::EntryType(j);
                    live([&] {
                        switch (form) {
                        case 0: opMNested2<V, T>(v, a4, iv, jv, m); break;
                        case 1: opMNested2<V, T>(v, a4, ia, jv, m); break;
                        default: opMNested<V, T>(v, a4, iv, j, m);
                        }
                    });
                });
            }
        }
        if (op == OInterIdx || op == OInterSucc) {
            return interAny(op == OInterSucc, r, live, std::integral_constant<bool, Simple>());
        }
        return false;
    }
    template <int N, int K> static bool inter(bool succ, Rng &r, const Live &live)
    {
        const int ns = E.n / N;
        const SN<T, N> *const s = reinterpret_cast<const SN<T, N> *>(E.win);
        Read q[K];
        V v[K];
        int st[S];
        if (succ) {
            int cand[MaxWin], n = 0;
            for (int f = 0; f + S <= ns; ++f) {
                if (!(f < E.na && f + S > E.na)) cand[n++] = f;
            }
            if (!n) return false;
            const unsigned k = unsigned(r.below(4));
            const int f = k == 0 ? cand[0] : k == 1 ? cand[n - 1] : cand[r.below(uint64_t(n))];
            for (int i = 0; i < S; ++i) st[i] = f + i;
        } else {
            shapeIndexes(r, st, S, ns);
        }
        int lanes[S];
        for (int i = 0; i < S; ++i) {
            lanes[i] = int(structIndex(st[i]));
            for (int k = 0; k < K; ++k) q[k].id[i] = st[i] * N + k;
        }
        for (int k = 0; k < K; ++k) q[k].start();
        if (succ) {
            const size_t first = size_t(lanes[0]);
            live([&] { Inter<V, N, K, size_t>::go(s, first, v); });
        } else {
            const I iv = indexes(lanes);
            live([&] { Inter<V, N, K, I>::go(s, iv, v); });
        }
        char what[80];
        snprintf(what, sizeof(what), "%s N=%d K=%d", opNames[succ ? OInterSucc : OInterIdx], N, K);
        for (int k = 0; k < K; ++k) {
            q[k].v = v[k];
            q[k].check(what);
        }
        cInter++;
        return true;
    }
    static bool interAny(bool succ, Rng &r, const Live &live, std::true_type)
    {
        switch (E.N * 16 + E.K) {
        case 0x22: return inter<2, 2>(succ, r, live);
        case 0x32: return inter<3, 2>(succ, r, live);
        case 0x33: return inter<3, 3>(succ, r, live);
        case 0x43: return inter<4, 3>(succ, r, live);
        case 0x44: return inter<4, 4>(succ, r, live);
        case 0x54: return inter<5, 4>(succ, r, live);
        case 0x55: return inter<5, 5>(succ, r, live);
        case 0x66: return inter<6, 6>(succ, r, live);
        case 0x65: return inter<6, 5>(succ, r, live);
        case 0x77: return inter<7, 7>(succ, r, live);
        case 0x76: return inter<7, 6>(succ, r, live);
        case 0x88: return inter<8, 8>(succ, r, live);
        case 0x87: return inter<8, 7>(succ, r, live);
        case 0x92: return inter<9, 2>(succ, r, live);
        case 0xc3: return inter<12, 3>(succ, r, live);
        case 0x104: return inter<16, 4>(succ, r, live);
        }
        return false;
    }
    static bool interAny(bool, Rng &, const Live &, std::false_type) { return false; }

    struct MRead : Ops<MV, true>::Read {};
    static bool memOp(int op, Rng &r, const Live &live)
    {
        const Mem &m = *reinterpret_cast<const Mem *>(E.win);
        enum { MS = MV::Size };
        typename Ops<MV, true>::Read q;
        struct L {
            NOINLINE static void vector(MV &v, const Mem &m, size_t i) { v = m.vector(i); }
            NOINLINE static void vectorU(MV &v, const Mem &m, size_t i) { v = m.vector(i, Vc::Unaligned); }
            NOINLINE static void shift(MV &v, const Mem &m, size_t i, int s) { v = m.vector(i, s); }
            NOINLINE static void at(MV &v, const Mem &m, size_t i) { v = m.vectorAt(i, Vc::Unaligned); }
            NOINLINE static T scalar(const Mem &m, size_t i) { return m[i]; }
            NOINLINE static void gath(MV &v, const Mem &m, const unsigned *i) { v = m.gather(i); }
            NOINLINE static void iter(MV *v, Mem &m, int n)
            {
                int k = 0;
                for (auto it = m.begin(); it != m.end() && k < n; ++it, ++k) v[k] = *it;
            }
        };
        cMem++;
        const size_t nv = 96 / MS;
        size_t i = r.chance(30) ? nv - 1 : r.below(nv);
        switch (op) {
        case OMemVector:
        case OMemVectorU:
            for (int k = 0; k < MS; ++k) q.id[k] = int(i) * MS + k;
            q.start();
            if (op == OMemVector) live([&] { L::vector(q.v, m, i); }); else live([&] { L::vectorU(q.v, m, i); });
            break;
        case OMemShift: {
            const int s = int(r.range(0, MS));
            if (int(i) * MS + s + MS > 96) --i;
            for (int k = 0; k < MS; ++k) q.id[k] = int(i) * MS + s + k;
            q.start();
            live([&] { L::shift(q.v, m, i, s); });
            break;
        }
        case OMemVectorAt: {
            const size_t p = r.chance(30) ? 96 - MS : r.below(96 - MS + 1);
            for (int k = 0; k < MS; ++k) q.id[k] = int(p) + k;
            q.start();
            live([&] { L::at(q.v, m, p); });
            break;
        }
        case OMemScalar: {
            const size_t p = r.below(96);
            T x = T(0);
            const long s0 = E.seq;
            live([&] { x = L::scalar(m, p); });
            bool fresh = false;
            if (!held(int(p), s0, E.seq, double(x), &fresh)) {
                fail("wrong-value", "Memory[%d] gave %.9g", int(p), double(x));
            }
            return true;
        }
        case OMemGather: {
            unsigned idx[MS + 16] = {};
            int at[MS];
            shapeIndexes(r, at, MS, 96);
            for (int k = 0; k < MS; ++k) {
                idx[k] = unsigned(at[k]);
                q.id[k] = int(idx[k]);
            }
            q.start();
            live([&] { L::gath(q.v, m, idx); });
            break;
        }
        case OMemIter: {
            MV v[96];
            const long s0 = E.seq;
            live([&] { L::iter(v, const_cast<Mem &>(m), 96); });
            for (size_t b = 0; b < nv; ++b) {
                for (int k = 0; k < MS; ++k) q.id[k] = int(b) * MS + k;
                q.seq0 = s0;
                q.v = v[b];
                q.check(opNames[op]);
            }
            return true;
        }
        default: return false;
        }
        q.check(opNames[op]);
        return true;
    }
    static bool boolOp(int op, Rng &r, const Live &live)
    {
        const int p = block(r, S, false);
        if (p < 0) return false;
        const bool *const w = reinterpret_cast<const bool *>(addrOf(p));
        M m(r.chance(50));
        const long s0 = E.seq;
        struct L {
            NOINLINE static void load(M &m, const bool *q) { m.load(q); }
            NOINLINE static void ctor(M &m, const bool *q) { m = M(q); }
        };
        if (op == OMaskLoad) live([&] { L::load(m, w); }); else live([&] { L::ctor(m, w); });
        cBool++;
        for (int i = 0; i < S; ++i) {
            bool fresh = false;
            if (!held(p + i, s0, E.seq, double(bool(m[size_t(i)])), &fresh)) {
                fail("wrong-value", "%s: lane %d is %d, bool %d was never that", opNames[op], i, int(bool(m[size_t(i)])), p + i);
            }
            if (fresh) cFresh++;
        }
        return true;
    }
    static void prefetch(Rng &r, const Live &live)
    {
        const char *a;
        switch (r.below(6)) {
        case 0: a = room.end() + r.below(4096); break;
        case 1: a = room.base - 1 - r.below(4096); break;
        case 2: a = nullptr; break;
        case 3: a = reinterpret_cast<const char *>(r.next()); break;
        case 4: a = reinterpret_cast<const char *>(r.next() >> 17); break;
        default: a = E.win + r.below(64); break;
        }
        cPf++;
        const unsigned k = unsigned(r.below(8));
        live([&] {
            switch (k) {
            case 0: Vc::prefetchForOneRead(a); break;
            case 1: Vc::prefetchClose(a); break;
            case 2: Vc::prefetchMid(a); break;
            case 3: Vc::prefetchFar(a); break;
#ifndef Vc_IMPL_Scalar
            case 4: Vc::prefetchForOneRead<Vc::Exclusive>(a); break;
            case 5: Vc::prefetchClose<Vc::Exclusive>(a); break;
            case 6: Vc::prefetchMid<Vc::Exclusive>(a); break;
            case 7: Vc::prefetchFar<Vc::Exclusive>(a); break;
#endif
            default: Vc::prefetchClose(a); break;
            }
        });
    }
    template <class U> static void writeLoop(Rng &r, int times, const Live &live)
    {
        const int hot = int(r.below(3));
        const int focus = int(r.below(uint64_t(E.n)));
        for (int k = 0; k < times; ++k) {
            const int id = hot == 0 ? int(r.below(uint64_t(E.n)))
                         : hot == 1 ? int(r.below(uint64_t(E.n < 12 ? E.n : 12)) + uint64_t(E.n < 12 ? 0 : E.n - 12))
                                    : (focus + int(r.below(4))) % E.n;
            volatile U *const p = reinterpret_cast<volatile U *>(addrOf(id));
            live([&] { (void)*p; });
            Hist &h = E.h[id];
            if (h.n == MaxHist) {
                continue;
            }
            const U v = E.mode == MBool ? U(r.chance(50)) : valueOf<U>(id, h.n);
            h.val[h.n] = double(T(v));
            h.seq[h.n] = ++E.seq;
            ++h.n;
            *p = v;
            cWrites++;
        }
    }
    static void unmap(Rng &r, int times, const Live &live)
    {
        for (int k = 0; k < times; ++k) {
            live([&] { (void)*static_cast<volatile char *>(addrOf(0)); });
            char *const hole = room.base + 4096;
            if (E.holeOpen) {
                protect(hole, 4096, PROT_NONE);
                E.holeOpen = false;
            } else {
                protect(hole, 4096, PROT_READ | PROT_WRITE);
                memset(hole, int(r.next()), 4096);
                E.holeOpen = true;
            }
            cUnmap++;
        }
    }
    template <class U> static void fill()
    {
        for (int id = 0; id < E.n; ++id) {
            const U v = E.mode == MBool ? U(id & 1) : valueOf<U>(id, 0);
            E.h[id].n = 1;
            E.h[id].seq[0] = 0;
            E.h[id].val[0] = double(T(v));
            memcpy(addrOf(id), &v, sizeof(v));
        }
    }
    template <class U> static double rushValue(int id, long version) { return double(T(valueOf<U>(id, version))); }
    template <class U> static void rush()
    {
        const long before = E.seq++;
        for (int id = 0; id < E.n; ++id) {
            U *const p = reinterpret_cast<U *>(addrOf(id));
            if (*p != valueOf<U>(id, before)) fail("read-wrote-memory", "element %d is %.9g, its only writer left %.9g there before the last instruction", id, double(*p), double(valueOf<U>(id, before)));
            *p = valueOf<U>(id, E.seq);
        }
        cWrites++;
    }
    template <class U> static void startRush()
    {
        E.rushValue = rushValue<U>;
        between(rush<U>);
        cRush++;
    }
    template <class U> static void finalCheck()
    {
        for (int id = 0; id < E.n; ++id) {
            U v;
            memcpy(&v, addrOf(id), sizeof(v));
            if (E.rush) {
                if (v != valueOf<U>(id, E.seq)) fail("read-wrote-memory", "element %d is %.9g at the end, its last writer left %.9g", id, double(v), double(valueOf<U>(id, E.seq)));
                continue;
            }
            const Hist &h = E.h[id];
            if (double(T(v)) != h.val[h.n - 1]) {
                fail("read-wrote-memory", "element %d is %.9g at the end, its last writer left %.9g", id, double(v),
                     h.val[h.n - 1]);
            }
        }
    }
    struct UType {
        const char *name;
        size_t size;
        bool (*op)(int, Rng &, const Live &);
        void (*write)(Rng &, int, const Live &);
        void (*fill)();
        void (*check)();
        void (*startRush)();
    };
    template <class U> static UType utype(const char *n)
    {
        return {n, sizeof(U), &convOp<U>, &writeLoop<U>, &fill<U>, &finalCheck<U>, &startRush<U>};
    }
    static bool noConv(int, Rng &, const Live &) { return false; }
    template <class U> static UType plain(const char *n)
    {
        return {n, sizeof(U), &noConv, &writeLoop<U>, &fill<U>, &finalCheck<U>, &startRush<U>};
    }
    // source types that V converts from
    static std::vector<UType> conversions(float *)
    {
        return {utype<double>("double"), utype<int>("int"), utype<unsigned>("uint"), utype<short>("short"),
                utype<unsigned short>("ushort"), utype<signed char>("schar"), utype<unsigned char>("uchar")};
    }
    static std::vector<UType> conversions(double *)
    {
        return {utype<float>("float"), utype<int>("int"), utype<unsigned>("uint"), utype<short>("short"),
                utype<unsigned short>("ushort")};
    }
    static std::vector<UType> conversions(int *)
    {
        return {utype<short>("short"), utype<unsigned short>("ushort"), utype<signed char>("schar"),
                utype<unsigned char>("uchar")};
    }
    static std::vector<UType> conversions(unsigned *)
    {
        return {utype<unsigned short>("ushort"), utype<unsigned char>("uchar")};
    }
    static std::vector<UType> conversions(short *)
    {
        return {utype<signed char>("schar"), utype<unsigned char>("uchar")};
    }
    static std::vector<UType> conversions(unsigned short *) { return {utype<unsigned char>("uchar")}; }
    static std::vector<UType> *conv;
    static UType own, boolType;
    static void init()
    {
        conv = new std::vector<UType>(conversions(static_cast<T *>(nullptr)));
        own = plain<T>("");
        boolType = plain<unsigned char>("bool");
    }
    static const UType &current()
    {
        if (E.mode == MBool) return boolType;
        const long c = E.plan->cfg[5];
        return E.mode == MFlat && c > 0 ? (*conv)[size_t(c - 1) % conv->size()] : own;
    }

    static void body(int tid, void *)
    {
        Plan &p = *E.plan;
        for (int k = 0; k < p.nops; ++k) {
            const Op &o = p.ops[k];
            if (o.thread != tid) continue;
            NoYield ny;
            const Live live{ny};
            Rng r(o.seed);
            const UType &u = current();
            char extra[40] = "";
            if (E.mode == MStruct) snprintf(extra, sizeof(extra), " N=%d K=%d", E.N, E.K);
            else if (u.name[0]) snprintf(extra, sizeof(extra), " from %s", u.name);
            ctx(tid, o.op, extra);
            bool done = true;
            if (o.op == OWriter) u.write(r, int(o.a[0]), live);
            else if (o.op == OUnmap) unmap(r, int(o.a[0]), live);
            else if (o.op == OPrefetch) prefetch(r, live);
            else if (E.mode == MFlat) done = p.cfg[5] > 0 ? u.op(o.op, r, live) : flatOp(o.op, r, live);
            else if (E.mode == MStruct) done = structOp(o.op, r, live);
            else if (E.mode == MMem) done = memOp(o.op, r, live);
            else if (E.mode == MBool) done = boolOp(o.op, r, live);
            if (done) countOp(o.op);
        }
    }

    static void run(Plan &p)
    {
        // cfg: 0 type, 1 mode, 2 placement, 3 n, 4 N*16+K, 5 source type, 6 read-only
        E.plan = &p;
        E.mode = int(p.cfg[1]);
        E.N = int(p.cfg[4] >> 4);
        E.K = int(p.cfg[4] & 15);
        E.seq = 0;
        E.holeOpen = false;
        const UType &u = current();
        E.elem = u.size;
        E.n = int(p.cfg[3]);
        protect(room.base, room.size, PROT_READ | PROT_WRITE);
        memset(room.base, 0x5A, room.size);
        const size_t unit = E.mode == MStruct ? size_t(E.N) * E.elem : E.elem;
        const int count = E.mode == MStruct ? E.n / E.N : E.n;
        E.n = E.mode == MStruct ? count * E.N : E.n;
        E.na = count;
        E.skip = 0;
        const long place = p.cfg[2];
        size_t bytes = size_t(count) * unit;
        if (E.mode == MMem) {
            E.n = 96;
            E.na = 96;
            bytes = sizeof(Mem);
        }
        addGuard(room.base - 65536, room.base, "access-outside");
        addGuard(room.end(), room.end() + 65536, "access-outside");
        bool hole = false;
        if (place == 0) {
            E.win = room.end() - bytes;
            cTop++;
        } else if (place == 1) {
            E.win = room.base;
            cBottom++;
        } else if (place == 2 || E.mode == MMem) {
            E.win = room.base + 1024 + (E.mode == MMem ? 0 : (p.cfg[7] % 64) * long(E.elem));
        } else {
            // elements on both sides of the inaccessible page
            hole = true;
            cHole++;
            E.na = int(p.cfg[7] % (count - 1)) + 1;
            char *const a = room.base + 4096, *const b = a + 4096;
            if (place == 3) {   // flush in front of the hole
                E.win = a - size_t(E.na) * unit;
                E.skip = long((size_t(b - E.win) + unit - 1) / unit);
            } else {            // flush behind
                E.skip = E.na + long((4096 + unit - 1) / unit);
                E.win = b - size_t(E.skip) * unit;
            }
            addGuard(a, b, "access-outside");
        }
        u.fill();
        E.readonly = p.cfg[6] != 0;
        if (hole) protect(room.base + 4096, 4096, PROT_NONE);
        if (E.readonly) {
            cRo++;
            protect(room.base, 4096, PROT_READ);
            if (!hole) protect(room.base + 4096, 4096, PROT_READ);
            protect(room.base + 8192, 4096, PROT_READ);
        }
        if (p.policy == Stall) cStall++;
        E.rush = p.cfg[8] != 0;
        if (E.rush) u.startRush();
        parallel(p.nthreads, body, nullptr);
        protect(room.base, room.size, PROT_READ | PROT_WRITE);
        u.check();
        if (!hole) {
            for (char *q = room.base; q < room.end(); ++q) {
                if (q == E.win) {
                    q += bytes;
                    if (q >= room.end()) break;
                }
                if (*q != 0x5A) fail("read-wrote-memory", "byte %ld of the room was written", long(q - room.base));
            }
        }
    }
    static void generate(Rng &r, Plan &p)
    {
        const uint64_t m = r.below(100);
        int mode = m < 50 ? MFlat : m < 80 ? MStruct : m < 88 ? MMem : MBool;
        p.cfg[1] = mode;
        p.cfg[4] = 0x11;
        p.cfg[5] = mode == MFlat && r.chance(35) ? 1 + long(r.below(64)) : 0;
        if (p.cfg[5]) p.cfg[5] = 1 + (p.cfg[5] - 1) % long(conv->size());
        int n = int(r.range(2 * S + 1, 4 * S + 9));
        if (r.chance(20)) n = int(r.range(S, 2 * S));
        if (mode == MStruct) {
            static const int nk[][2] = {{2, 2}, {3, 2}, {3, 3}, {4, 3}, {4, 4}, {5, 4}, {5, 5},
                                        {6, 6}, {6, 5}, {7, 7}, {7, 6}, {8, 8}, {8, 7}, {9, 2}, {12, 3}, {16, 4}};
            const int c = int(r.below(16));
            p.cfg[4] = nk[c][0] * 16 + nk[c][1];
            n = nk[c][0] * int(r.range(S, 2 * S + 3));
            if (n > MaxWin) n = MaxWin / nk[c][0] * nk[c][0];
        }
        if (n < 2) n = 2;
        if (n > MaxWin) n = MaxWin;
        if (mode == MMem) n = 96;
        p.cfg[3] = n;
        p.cfg[2] = long(r.below(5));
        const bool holed = p.cfg[2] >= 3;
        if (mode == MMem && holed) p.cfg[2] = long(r.below(3));
        if (mode == MBool && holed) p.cfg[2] = long(r.below(2));
        if (mode == MStruct && n / (p.cfg[4] >> 4) < 2) p.cfg[2] = 0;
        p.cfg[7] = long(r.next() >> 2);
        const bool quiet = r.chance(20);   // nobody writes: the memory is read-only
        p.cfg[6] = quiet;
        p.cfg[8] = !quiet && mode != MBool && r.chance(25);
        const bool rushed = p.cfg[8] != 0;
        p.nthreads = quiet ? int(r.range(1, 2)) : rushed ? int(r.below(3) == 0) + 1 : int(r.range(2, 3));
        const int total = int(r.range(p.nthreads, 8));
        for (int i = 0; i < total; ++i) {
            const int t = i < p.nthreads ? i : int(r.below(uint64_t(p.nthreads)));
            int op;
            if (!quiet && !rushed && t == p.nthreads - 1) {
                op = p.cfg[2] >= 3 && r.chance(35) ? OUnmap : OWriter;
            } else if (r.chance(3)) {
                op = OPrefetch;
            } else if (mode == MFlat && p.cfg[5]) {
                static const int ops[] = {OConvLoad, OConvCtor, OConvGather, OConvMGather};
                op = ops[r.below(4)];
            } else if (mode == MFlat) {
                static const int ops[] = {OLoadU, OLoadA, OLoadDef, OLoadStream, OLoadPref, OCtorU, OCtorA, OGatherI,
                                          OGatherA, OGatherC, OMGatherI, OMGatherI, OMGatherC, OSub, OMSub, OMSub2, ODeint, OIter, OIter, OIterHop, OIterPair};
                op = ops[r.below(sizeof(ops) / sizeof(int))];
            } else if (mode == MStruct) {
                const int N = int(p.cfg[4] >> 4);
                op = r.chance(50) ? OInterIdx : OInterSucc;
                if (!Simple || r.chance(50)) {
                    static const int s3[] = {OMember, OMMember, OMMember2, OOldMember, OOldMMember};
                    if (N == 3) op = s3[r.below(5)];
                    if (N == 5) op = r.chance(50) ? OInner : OMInner;
                    if (N == 4) op = r.chance(50) ? ONested : OMNested;
                }
            } else if (mode == MMem) {
                op = int(r.range(OMemVector, OMemIter));
            } else {
                op = r.chance(50) ? OMaskLoad : OMaskCtor;
            }
            p.add(t, op, r.next(), r.range(2, 14));
        }
        choosePolicy(r, p, 25 * total);
    }
};
template <class V, bool Simple> std::vector<typename Ops<V, Simple>::UType> *Ops<V, Simple>::conv;
template <class V, bool Simple> typename Ops<V, Simple>::UType Ops<V, Simple>::own;
template <class V, bool Simple> typename Ops<V, Simple>::UType Ops<V, Simple>::boolType;

struct TypeEntry {
    std::string name;
    void (*run)(Plan &);
    void (*generate)(Rng &, Plan &);
    void (*init)();
};
template <class V, bool Simple> static TypeEntry entry()
{
    return {VName<V>::get(), &Ops<V, Simple>::run, &Ops<V, Simple>::generate, &Ops<V, Simple>::init};
}
static std::vector<TypeEntry> types()
{
#if PART == 0
    return {entry<Vc::float_v, true>(), entry<Vc::double_v, true>()};
#elif PART == 1
    return {entry<Vc::int_v, true>(), entry<Vc::uint_v, true>()};
#elif PART == 2
    return {entry<Vc::short_v, true>(), entry<Vc::ushort_v, true>()};
#elif PART == 3
    return {entry<Vc::SimdArray<float, 5>, false>(), entry<Vc::SimdArray<int, 7>, false>()};
#elif PART == 4
    return {entry<Vc::SimdArray<short, 11>, false>(), entry<Vc::SimdArray<double, 6>, false>(),
            entry<Vc::SimdArray<unsigned short, 19>, false>()};
#else   // the smaller vectors of the same build
#ifdef Vc_IMPL_AVX
    return {entry<Vc::SSE::Vector<float>, true>(), entry<Vc::SSE::Vector<short>, true>(),
            entry<Vc::SSE::Vector<double>, true>()};
#else
    return {entry<Vc::Scalar::Vector<float>, true>(), entry<Vc::Scalar::Vector<short>, true>(),
            entry<Vc::SimdArray<float, 16>, false>()};
#endif
#endif
}
static std::vector<TypeEntry> *table;
static void setup()
{
    room = makeRoom(3);
    table = new std::vector<TypeEntry>(types());
    for (auto &t : *table) t.init();
}
static void generate(Rng &r, Plan &p)
{
    const size_t t = r.below(table->size());
    (*table)[t].generate(r, p);
    p.cfg[0] = long(t);
}
static void run(Plan &p) { (*table)[size_t(p.cfg[0])].run(p); }
static const char *opName(int i) { return opNames[i]; }
Workload sim::workload()
{
    return {"C03", setup, generate, run, opName, ""};
}
