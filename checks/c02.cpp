// C02  Writes touch exactly the selected elements: stores, masked stores, scatters,
// interleaved stores, Memory<> and subscript writes, against concurrent writers of
// the neighbouring elements, at every instruction interleaving the search draws.
#include "common.h"
#include <sys/mman.h>
#include <vector>

using namespace sim;

static const Counter cMasked("masked_store"), cFull("full_store"), cStream("streaming_store"),
    cScatter("scatter"), cMScatter("masked_scatter"), cSub("subscript_scatter"), cInter("interleaved_store"),
    cMem("memory_container_store"), cBool("mask_store_to_bool"), cNb("scalar_neighbour_stores"),
    cEmpty("empty_mask"), cWild("wild_unselected_index"), cEdge("window_against_guard_page"),
    cStall("runs_with_stalled_writer"), cRows("memory2d_row_runs"), cPref("prefetching_store"), cElem("vector_element_store"),
    cIter("vectorised_iterator_store"), cRush("runs_with_a_writer_between_all_instructions"), cRushed("writes_between_instructions");

enum { MaxWin = 512, Margin = 512, Rush = 100, Nobody = 200 };
static Room room;

struct Env {
    int n;                      // elements in the window
    int nthreads;
    int mode;                   // 0 flat, 1 structs, 2 Memory rows
    int structN, structK;
    uint8_t owner[MaxWin];
    char *win;
    unsigned char model[MaxWin * 8];
    Plan *plan;
    long serial;
    int rush;                   // a further writer acts between any two instructions
    int rushAt[MaxWin], rushN;
};
static Env E;

template <class T> struct Acc {
    static T *win() { return reinterpret_cast<T *>(E.win); }
    static T *model() { return reinterpret_cast<T *>(E.model); }
    static T fresh()
    {
        const long k = ++E.serial;
        return T(sizeof(T) == 2 ? (k * 7 + 3) & 0x7fff : k * 2 + 1);
    }
    // the infinitely fast writer: all elements it owns have new values between any two instructions
    static void rush()
    {
        T *const w = win();
        T *const m = model();
        T v = fresh();
        for (int k = 0; k < E.rushN; ++k) {
            const int i = E.rushAt[k];
            if (!same(w[i], m[i])) {
                fail("write-lost", "element %d is %.9g, its only writer left %.9g there before the last instruction", i, double(w[i]), double(m[i]));
            }
            w[i] = m[i] = v;
        }
        cRushed++;
    }
    static void startRush()
    {
        E.rushN = 0;
        for (int i = 0; i < E.n; ++i) {
            if (E.owner[i] == Rush) E.rushAt[E.rushN++] = i;
        }
        if (E.rushN) between(rush);
        cRush++;
    }
    // every element a thread owns is what it last wrote
    static void checkOwn(int tid, const char *what)
    {
        const volatile T *w = win();
        for (int i = 0; i < E.n; ++i) {
            if (E.owner[i] == tid) {
                const T v = w[i];
                if (!same(v, model()[i])) {
                    char cls[160];
                    snprintf(cls, sizeof(cls), "write-lost");
                    fail(cls, "thread %d wrote %.9g to element %d and now reads %.9g (after %s)", tid,
                         double(model()[i]), i, double(v), what);
                }
            }
        }
    }
};

// noinline on purpose: what the user's translation unit would contain
template <class V, class F> NOINLINE void opStore(const V &v, typename V::EntryType *p, F f) { v.store(p, f); }
template <class V, class F>
NOINLINE void opMStore(const V &v, typename V::EntryType *p, const typename V::MaskType &m, F f)
{
    v.store(p, m, f);
}
template <class V> NOINLINE void opStoreDefault(const V &v, typename V::EntryType *p) { v.store(p); }
template <class V>
NOINLINE void opMStoreDefault(const V &v, typename V::EntryType *p, const typename V::MaskType &m)
{
    v.store(p, m);
}
template <class V, class I> NOINLINE void opScatter(const V &v, typename V::EntryType *p, const I &i)
{
    v.scatter(p, i);
}
template <class V, class I>
NOINLINE void opMScatter(const V &v, typename V::EntryType *p, const I &i, const typename V::MaskType &m)
{
    v.scatter(p, i, m);
}
// an index argument that only has operator[] (SimdArray has no overload for it: pass its index vector)
template <class V, bool Simple> struct ArrIndex {
    template <class A> static const A &get(const A &a, const typename V::IndexType &) { return a; }
};
template <class V> struct ArrIndex<V, false> {
    template <class A> static const typename V::IndexType &get(const A &, const typename V::IndexType &i) { return i; }
};
template <class V, class A, class I> NOINLINE void opSub(const V &v, A &a, const I &i) { a[i] = v; }
template <class V, class A, class I>
NOINLINE void opMSub(const V &v, A &a, const I &i, const typename V::MaskType &m)
{
    Vc::where(m) | a[i] = v;
}
template <class T> struct S3 {
    T x, y, z;
};
template <class V, class I> NOINLINE void opMember(const V &v, Vc::array<S3<typename V::EntryType>, 64> &a, const I &i)
{
    a[i][&S3<typename V::EntryType>::y] = v;
}
template <class V, class I>
NOINLINE void opMMember(const V &v, Vc::array<S3<typename V::EntryType>, 64> &a, const I &i,
                        const typename V::MaskType &m)
{
    Vc::where(m) | a[i][&S3<typename V::EntryType>::y] = v;
}
template <class V, class I>
NOINLINE void opNested(const V &v, Vc::array<Vc::array<typename V::EntryType, 4>, 64> &a, const I &i, int j)
{
    a[i][j] = v;
}
template <class V, class I>
NOINLINE void opMNested(const V &v, Vc::array<Vc::array<typename V::EntryType, 4>, 64> &a, const I &i, int j, const typename V::MaskType &m)
{
    Vc::where(m) | a[i][j] = v;
}
// both subscripts are vectors or arrays
template <class V, class I, class J>
NOINLINE void opNested2(const V &v, Vc::array<Vc::array<typename V::EntryType, 4>, 64> &a, const I &i, const J &j)
{
    a[i][j] = v;
}
template <class V, class I, class J>
NOINLINE void opMNested2(const V &v, Vc::array<Vc::array<typename V::EntryType, 4>, 64> &a, const I &i, const J &j, const typename V::MaskType &m)
{
    Vc::where(m) | a[i][j] = v;
}
template <class V> NOINLINE void opElem(V &v, size_t i, typename V::EntryType x) { v[i] = x; }
template <class V> NOINLINE void opElemOp(V &v, size_t i, typename V::EntryType x, int form)
{
    switch (form) {
    case 0: v[i] += x; break;
    case 1: v[i] -= x; break;
    case 2: ++v[i]; break;
    case 3: v[i]++; break;
    case 4: --v[i]; break;
    default: v[i]--; break;
    }
}
template <class V> NOINLINE void opSwap(V &v, size_t i, size_t j)
{
    using std::swap;
    swap(v[i], v[j]);
}
template <class V, class I>
NOINLINE void opOldMember(const V &v, S3<typename V::EntryType> *a, const I &i)
{
    v.scatter(a, &S3<typename V::EntryType>::x, i);
}
template <class V, class I>
NOINLINE void opOldMMember(const V &v, S3<typename V::EntryType> *a, const I &i, const typename V::MaskType &m)
{
    v.scatter(a, &S3<typename V::EntryType>::z, i, m);
}
template <class M> NOINLINE void opBool(const M &m, bool *p) { m.store(p); }

template <class T, int N> struct SN {
    T m[N];
};
template <class V, int N, int K, class I> struct Inter;
#define VR(i) v[i]
#define INTER(K, ...)                                                                                   \
    template <class V, int N, class I> struct Inter<V, N, K, I> {                                      \
        NOINLINE static void go(SN<typename V::EntryType, N> *s, const I &i, const V *v)               \
        {                                                                                               \
            Vc::InterleavedMemoryWrapper<SN<typename V::EntryType, N>, V> w(s);                         \
            w[i] = (__VA_ARGS__);                                                                       \
        }                                                                                               \
    };
INTER(2, VR(0), VR(1))
INTER(3, VR(0), VR(1), VR(2))
INTER(4, VR(0), VR(1), VR(2), VR(3))
INTER(5, VR(0), VR(1), VR(2), VR(3), VR(4))
INTER(6, VR(0), VR(1), VR(2), VR(3), VR(4), VR(5))
INTER(7, VR(0), VR(1), VR(2), VR(3), VR(4), VR(5), VR(6))
INTER(8, VR(0), VR(1), VR(2), VR(3), VR(4), VR(5), VR(6), VR(7))

enum OpId {
    OStoreU, OStoreA, OStoreDef, OStoreS, OStorePref, OMStoreU, OMStoreA, OMStoreDef, OMStoreS, OMStoreSU,
    OScatter, OScatterArr, OMScatter, OMScatterArr, OSub, OMSub, OSpanSub, OMember, OMMember, ONested, OOldMember,
    OOldMMember, OBool, OMemVector, OMemVectorU, OMemShift, OMemVectorAt, OMemScalar, OMemAll, OSubsetScalar,
    OInterIdx, OInterSucc, ORowVector, ORowScalar, ORowAll, ONeighbour, OVecElem, OVecElemOp, OVecSwap, OMemVecOp, OMNested,
    OIter, OIterHop, OIterPair, NOps
};
static const char *const opNames[NOps] = {
    "store(Unaligned)", "store(Aligned)", "store()", "store(Streaming)", "store(Aligned|PrefetchDefault)",
    "masked store(Unaligned)", "masked store(Aligned)", "masked store()", "masked store(Streaming)",
    "masked store(Streaming|Unaligned)", "scatter(IndexType)", "scatter(int[])", "masked scatter(IndexType)",
    "masked scatter(int[])", "Vc::array[idx]=", "where(mask)|Vc::array[idx]=", "Vc::vector[idx]=",
    "array[idx][&S::member]=", "where(mask)|array[idx][&S::member]=", "array<array>[idx][j]=",
    "scatter(S*,&S::member,idx)", "scatter(S*,&S::member,idx,mask)", "Mask::store(bool*)", "Memory::vector(i)=",
    "Memory::vector(i,Unaligned)=", "Memory::vector(i,shift)=", "Memory::vectorAt()=", "Memory[i]=",
    "Memory+=/=", "v[i]= then store", "interleaved[idx]=(...)", "interleaved[first]=(...)",
    "Memory2D row.vector(i)=", "Memory2D row[i]=", "Memory2D row=", "scalar stores", "vector[i]=", "vector[i]+=, ++", "swap(vector[i],vector[j])",
    "Memory::vector(i)+=", "where(mask)|array<array>[idx][j]=",
    "simdize<T *> iterator=", "simdize<forward iterator> iterator=", "simdize<pair *> iterator="};

template <class V, bool Simple> struct Ops {
    typedef typename V::EntryType T;
    typedef typename V::MaskType M;
    typedef typename V::IndexType I;
    enum { S = V::Size };
    typedef Acc<T> A;

    struct Prep {
        V v;
        T val[S];
        Prep()
        {
            for (int i = 0; i < S; ++i) {
                val[i] = A::fresh();
            }
            v = V(val, Vc::Unaligned);
        }
    };
    static bool aligned(const void *p) { return (reinterpret_cast<uintptr_t>(p) % V::MemoryAlignment) == 0; }
    // first element of a run of S elements owned by tid, or -1
    static int ownedBlock(int tid, Rng &r, bool needAligned)
    {
        int cand[MaxWin], n = 0;
        for (int p = 0; p + S <= E.n; ++p) {
            bool ok = !needAligned || aligned(A::win() + p);
            for (int i = 0; ok && i < S; ++i) {
                ok = E.owner[p + i] == tid;
            }
            if (ok) {
                cand[n++] = p;
            }
        }
        return n ? cand[r.below(uint64_t(n))] : -1;
    }
    static int anyBlock(Rng &r, bool needAligned)
    {
        int cand[MaxWin], n = 0;
        for (int p = 0; p + S <= E.n; ++p) {
            if (!needAligned || aligned(A::win() + p)) {
                cand[n++] = p;
            }
        }
        return n ? cand[r.below(uint64_t(n))] : -1;
    }
    static void chooseMask(int tid, int p, Rng &r, bool *b)
    {
        bool any = false;
        if (r.chance(30)) {
            for (int i = 0; i < S; ++i) b[i] = true;
        } else {
            shapeMask(r, b, S);
        }
        for (int i = 0; i < S; ++i) {
            b[i] = b[i] && E.owner[p + i] == tid;
            any |= b[i];
        }
        if (!any) {
            cEmpty++;
        }
    }
    template <class F> static bool full(int tid, Rng &r, bool al, F f)
    {
        const int p = ownedBlock(tid, r, al);
        if (p < 0) {
            return false;
        }
        Prep q;
        for (int i = 0; i < S; ++i) {
            A::model()[p + i] = q.val[i];
        }
        f(q.v, A::win() + p);
        cFull++;
        return true;
    }
    template <class F> static bool masked(int tid, Rng &r, bool al, F f)
    {
        const int p = anyBlock(r, al);
        if (p < 0) {
            return false;
        }
        Prep q;
        bool b[S];
        chooseMask(tid, p, r, b);
        const M m = maskFrom<M>(b);
        for (int i = 0; i < S; ++i) {
            if (b[i]) {
                A::model()[p + i] = q.val[i];
            }
        }
        f(q.v, A::win() + p, m);
        cMasked++;
        return true;
    }
    // S distinct elements out of those for which ok(i); fills what it can, returns how many
    template <class Ok> static int distinct(int count, Rng &r, int *idx, Ok ok)
    {
        int cand[MaxWin], n = 0;
        for (int i = 0; i < count; ++i) {
            if (ok(i)) {
                cand[n++] = i;
            }
        }
        int k = 0;
        while (k < S && n > 0) {
            const int c = int(r.below(uint64_t(n)));
            idx[k++] = cand[c];
            cand[c] = cand[--n];
        }
        // in random lanes, since fewer than S may be there
        return k;
    }
    // call f(v, idx, mask); elem(idx) is the window element that lane writes
    template <class Ok, class El, class F>
    static bool scat(int tid, Rng &r, int count, bool maskedOp, Ok ok, El elem, F f)
    {
        int idx[S + 1];
        int k = distinct(count, r, idx, ok);
        if (!maskedOp && k < S) {
            return false;
        }
        Prep q;
        bool b[S];
        int lanes[S];
        for (int i = 0; i < S; ++i) {
            b[i] = i < k;
            lanes[i] = i < k ? idx[i] : 0;
        }
        if (maskedOp && r.chance(35) && count >= S) {
            // an order of indexes code may treat specially; those it must not write are not selected
            shapeMask(r, b, S);
            shapeIndexes(r, lanes, S, count);
            for (int i = 0; i < S; ++i) {
                b[i] = b[i] && ok(lanes[i]);
                for (int j = 0; j < i; ++j) b[i] = b[i] && !(b[j] && lanes[j] == lanes[i]);
            }
        } else if (maskedOp) {
            const unsigned drop = unsigned(r.below(3)) * 35;
            for (int i = 0; i < S; ++i) {
                if (b[i] && r.chance(drop)) {
                    b[i] = false;
                }
            }
            for (int i = S - 1; i > 0; --i) {
                const int j = int(r.below(uint64_t(i + 1)));
                std::swap(b[i], b[j]);
                std::swap(lanes[i], lanes[j]);
            }
            const bool wild = r.chance(40);
            for (int i = 0; i < S; ++i) {
                if (!b[i] && wild) {
                    lanes[i] = r.chance(50) ? int(0x01000000 + r.below(1 << 20)) : -int(0x01000000 + r.below(1 << 20));
                    cWild++;
                }
            }
        }
        if (!maskedOp && r.chance(50)) {
            // consecutive where possible: the elements that are this thread's, in order
            int at[MaxWin], n = 0;
            for (int i = 0; i < count; ++i) {
                if (ok(i)) at[n++] = i;
            }
            int w[S];
            shapeIndexes(r, w, S, n);
            bool twice = false;
            for (int i = 0; i < S; ++i) {
                for (int j = 0; j < i; ++j) twice |= w[i] == w[j];
            }
            for (int i = 0; i < S && !twice; ++i) lanes[i] = at[w[i]];
        }
        const I iv = indexes(lanes);
        const M m = maskFrom<M>(b);
        for (int i = 0; i < S; ++i) {
            if (b[i]) {
                A::model()[elem(lanes[i])] = q.val[i];
            }
        }
        f(q.v, iv, lanes, m);
        if (maskedOp) cMScatter++; else cScatter++;
        (void)tid;
        return true;
    }
    static I indexes(const int *lanes)
    {
        I iv;
        for (size_t i = 0; i < I::Size; ++i) {
            iv[i] = typename I::EntryType(i < S ? lanes[i] : 0);
        }
        return iv;
    }
    struct Arr {
        int v[S];
        int operator[](size_t i) const { return v[i]; }
    };

    static void neighbour(int tid, Rng &r, int times)
    {
        int cand[MaxWin], n = 0;
        {
            NoYield ny;
            for (int i = 0; i < E.n; ++i) {
                if (E.owner[i] == tid) {
                    cand[n++] = i;
                }
            }
        }
        if (!n) {
            return;
        }
        volatile T *const w = A::win();
        for (int k = 0; k < times; ++k) {
            int i;
            T v;
            {
                NoYield ny;
                i = cand[r.below(uint64_t(n))];
                v = A::fresh();
                A::model()[i] = v;
            }
            w[i] = v;
            cNb++;
            const T back = w[i];
            if (!same(back, v)) {
                fail("write-lost", "scalar thread %d wrote %.9g to element %d and read back %.9g", tid, double(v), i,
                     double(back));
            }
        }
    }

    // Vc::Memory is only for the native vectors
    typedef typename std::conditional<Simple, V, Vc::Vector<T>>::type MV;
    typedef Vc::Memory<MV, 96> Mem;
    typedef Vc::Memory<MV, 4, 13> Mem2;
    typedef Vc::array<T, 96> Arr96;

    template <int N, int K> static bool inter(int tid, Rng &r, bool succ, const Live &live)
    {
        const int ns = E.n / N;
        SN<T, N> *const s = reinterpret_cast<SN<T, N> *>(E.win);
        auto mine = [&](int i) {
            for (int k = 0; k < K; ++k) {
                if (E.owner[i * N + k] != tid) return false;
            }
            return true;
        };
        Prep q[K];
        V v[K];
        for (int k = 0; k < K; ++k) {
            v[k] = q[k].v;
        }
        if (succ) {
            int cand[MaxWin], n = 0;
            for (int f = 0; f + S <= ns; ++f) {
                bool ok = true;
                for (int i = 0; ok && i < S; ++i) ok = mine(f + i);
                if (ok) cand[n++] = f;
            }
            if (!n) return false;
            const size_t first = size_t(cand[r.below(uint64_t(n))]);
            for (int i = 0; i < S; ++i)
                for (int k = 0; k < K; ++k) A::model()[(int(first) + i) * N + k] = q[k].val[i];
            live([&] { Inter<V, N, K, size_t>::go(s, first, v); });
        } else {
            int idx[S + 1];
            if (distinct(ns, r, idx, mine) < S) return false;
            const I iv = indexes(idx);
            for (int i = 0; i < S; ++i)
                for (int k = 0; k < K; ++k) A::model()[idx[i] * N + k] = q[k].val[i];
            live([&] { Inter<V, N, K, I>::go(s, iv, v); });
        }
        cInter++;
        return true;
    }
    static bool interAny(int tid, Rng &r, bool succ, const Live &live)
    {
        switch (E.structN * 16 + E.structK) {
        case 0x22: return inter<2, 2>(tid, r, succ, live);
        case 0x32: return inter<3, 2>(tid, r, succ, live);
        case 0x33: return inter<3, 3>(tid, r, succ, live);
        case 0x43: return inter<4, 3>(tid, r, succ, live);
        case 0x44: return inter<4, 4>(tid, r, succ, live);
        case 0x54: return inter<5, 4>(tid, r, succ, live);
        case 0x55: return inter<5, 5>(tid, r, succ, live);
        case 0x66: return inter<6, 6>(tid, r, succ, live);
        case 0x65: return inter<6, 5>(tid, r, succ, live);
        case 0x77: return inter<7, 7>(tid, r, succ, live);
        case 0x76: return inter<7, 6>(tid, r, succ, live);
        case 0x88: return inter<8, 8>(tid, r, succ, live);
        case 0x87: return inter<8, 7>(tid, r, succ, live);
        case 0x92: return inter<9, 2>(tid, r, succ, live);
        case 0xc3: return inter<12, 3>(tid, r, succ, live);
        case 0x104: return inter<16, 4>(tid, r, succ, live);
        }
        return false;
    }
    static bool doInter(int tid, Rng &r, bool succ, const Live &live, std::true_type) { return interAny(tid, r, succ, live); }
    static bool doInter(int, Rng &, bool, const Live &, std::false_type) { return false; }

    NOINLINE static void memVector(Mem &m, size_t i, const MV &v) { m.vector(i) = v; }
    NOINLINE static void memVectorU(Mem &m, size_t i, const MV &v) { m.vector(i, Vc::Unaligned) = v; }
    NOINLINE static void memShift(Mem &m, size_t i, int s, const MV &v) { m.vector(i, s) = v; }
    NOINLINE static void memVectorAt(Mem &m, size_t i, const MV &v) { m.vectorAt(i, Vc::Unaligned) = v; }
    NOINLINE static void memScalar(Mem &m, size_t i, T v) { m[i] = v; }

    static bool doMem(int, int, Rng &, const Live &, std::false_type) { return false; }
    static bool doMem(int op, int tid, Rng &r, const Live &live, std::true_type)
    {
        T *const w = A::win();
        switch (op) {
        case OMemVector:
        case OMemVectorU:
        case OMemShift:
        case OMemVectorAt: {
            if (!aligned(w) || E.n < 96) return false;
            const bool al = op == OMemVector || op == OMemVectorAt;
            int p = ownedBlock(tid, r, al);
            if (p < 0 || p + S > 96) return false;
            if (op != OMemShift && op != OMemVectorAt && p % S) return false;
            Prep q;
            for (int i = 0; i < S; ++i) A::model()[p + i] = q.val[i];
            Mem &m = *reinterpret_cast<Mem *>(w);
            live([&] {
                if (op == OMemVector) memVector(m, size_t(p / S), q.v);
                else if (op == OMemVectorU) memVectorU(m, size_t(p / S), q.v);
                else if (op == OMemShift) memShift(m, size_t(p / S), p % S, q.v);
                else memVectorAt(m, size_t(p), q.v);
            });
            cMem++;
            return true;
        }
        case OMemVecOp: {
            if (!aligned(w) || E.n < 96) return false;
            const int p = ownedBlock(tid, r, true);
            if (p < 0 || p + S > 96 || p % S) return false;
            Prep q;
            for (int i = 0; i < S; ++i) A::model()[p + i] = T(A::model()[p + i] + q.val[i]);
            Mem &m = *reinterpret_cast<Mem *>(w);
            live([&] { memVecOp(m, size_t(p / S), q.v); });
            cMem++;
            return true;
        }
        case OMemScalar: {
            if (!aligned(w) || E.n < 96) return false;
            int idx[S + 1];
            if (distinct(96, r, idx, [&](int i) { return E.owner[i] == tid; }) < 1) return false;
            const T v = A::fresh();
            A::model()[idx[0]] = v;
            Mem &m = *reinterpret_cast<Mem *>(w);
            live([&] { memScalar(m, size_t(idx[0]), v); });
            cMem++;
            return true;
        }
        }
        return false;
    }

    // the elements of a vector object in shared memory
    static bool doElem(int, int, Rng &, const Live &, std::false_type) { return false; }
    static bool doElem(int op, int tid, Rng &r, const Live &live, std::true_type)
    {
        int idx[S + 1];
        if (distinct(E.n, r, idx, [&](int i) { return E.owner[i] == tid; }) < 1) return false;
        int p = -1;
        for (int q = idx[0] < S ? 0 : idx[0] - S + 1; q <= idx[0] && q + S <= E.n; ++q) {
            if (reinterpret_cast<uintptr_t>(A::win() + q) % alignof(V) == 0 && aligned(A::win() + q)) p = q;
        }
        if (p < 0) return false;
        V &v = *reinterpret_cast<V *>(A::win() + p);
        const size_t i = size_t(idx[0] - p);
        T *const mod = A::model() + p;
        if (op == OVecElem) {
            const T x = A::fresh();
            mod[i] = x;
            live([&] { opElem(v, i, x); });
        } else if (op == OVecElemOp) {
            const int form = int(r.below(6));
            const T x = T(1 + r.below(100));
            switch (form) {
            case 0: mod[i] = T(mod[i] + x); break;
            case 1: mod[i] = T(mod[i] - x); break;
            case 2: case 3: mod[i] = T(mod[i] + T(1)); break;
            default: mod[i] = T(mod[i] - T(1)); break;
            }
            live([&] { opElemOp(v, i, x, form); });
        } else {
            int own[S], n = 0;
            for (int k = 0; k < S; ++k) {
                if (E.owner[p + k] == tid) own[n++] = k;
            }
            const size_t j = size_t(own[r.below(uint64_t(n))]);
            const T t = mod[i];
            mod[i] = mod[j];
            mod[j] = t;
            live([&] { opSwap(v, i, j); });
        }
        cElem++;
        return true;
    }
    // a forward iterator over elements that lie anywhere
    struct Hop {
        typedef std::forward_iterator_tag iterator_category;
        typedef T value_type;
        typedef ptrdiff_t difference_type;
        typedef T *pointer;
        typedef T &reference;
        const int *pos;
        T &operator*() const { return A::win()[*pos]; }
        T *operator->() const { return A::win() + *pos; }
        Hop &operator++() { ++pos; return *this; }
        Hop operator++(int) { Hop h = *this; ++pos; return h; }
        friend bool operator==(const Hop &a, const Hop &b) { return a.pos == b.pos; }
        friend bool operator!=(const Hop &a, const Hop &b) { return a.pos != b.pos; }
    };
    template <class It> NOINLINE static void itAssign(It it, const typename It::value_type &x) { *it = x; }
    template <class It> NOINLINE static void itSub(It it, ptrdiff_t k, const typename It::value_type &x) { it[k] = x; }
    template <class It> NOINLINE static void itArrow(It it, const typename It::value_type &x) { it->operator=(x); }
    template <class It> NOINLINE static void itWalk(It it, const typename It::value_type &x, bool twice)
    {
        if (twice) *it++ = x;
        ++it;
        --it;
        if (twice) --it;
        *it = x;
    }
    template <class It> NOINLINE static void itWalkF(It it, const typename It::value_type &x) { *it++ = x; }
    template <class It> static void itAny(const It &it, int form, int k, const typename It::value_type &x)
    {
        switch (form) {
        case 0: itAssign(it, x); break;
        case 1: itSub(it - k, k, x); break;
        case 2: itArrow(it, x); break;
        default: itWalk(it, x, k & 1);
        }
    }
    static bool doIter(int op, int tid, Rng &r, const Live &live)
    {
        T *const w = A::win();
        const int form = int(r.below(4));
        if (op == OIter) {
            typedef Vc::simdize<T *, S> It;
            typedef Vc::simdize<typename std::vector<T>::iterator, S> VIt;
            typedef Vc::simdize<std::reverse_iterator<T *>, S> RIt;
            const int p = ownedBlock(tid, r, false);
            if (p < 0) return false;
            Prep q;
            const int kind = int(r.below(3)), k = int(r.range(-3, 3));
            for (int i = 0; i < S; ++i) A::model()[p + i] = q.val[kind == 2 ? S - 1 - i : i];
            live([&] {
                if (kind == 0) itAny(It(w + p), form, k, typename It::value_type(q.val, Vc::Unaligned));
                else if (kind == 1) itAny(VIt(typename std::vector<T>::iterator(w + p)), form, k, typename VIt::value_type(q.val, Vc::Unaligned));
                else itAny(RIt(std::reverse_iterator<T *>(w + p + S)), form, k, typename RIt::value_type(q.val, Vc::Unaligned));
            });
        } else if (op == OIterHop) {
            typedef Vc::simdize<Hop, S> It;
            int idx[S + 1];
            if (distinct(E.n, r, idx, [&](int i) { return E.owner[i] == tid; }) < S) return false;
            idx[S] = 0;
            Prep q;
            for (int i = 0; i < S; ++i) A::model()[idx[i]] = q.val[i];
            live([&] {
                const It it(Hop{idx});
                const typename It::value_type x(q.val, Vc::Unaligned);
                if (form & 1) itAssign(it, x);
                else if (form & 2) itArrow(it, x);
                else itWalkF(it, x);
            });
        } else {
            typedef std::pair<T, T> P;
            typedef Vc::simdize<P *> It;
            enum { N = It::Size };
            int cand[MaxWin], n = 0;
            for (int f = 0; 2 * (f + N) <= E.n; ++f) {
                bool ok = true;
                for (int i = 2 * f; ok && i < 2 * (f + N); ++i) ok = E.owner[i] == tid;
                if (ok) cand[n++] = f;
            }
            if (!n) return false;
            const int f = cand[r.below(uint64_t(n))];
            T val[2][N];
            for (int i = 0; i < 2 * N; ++i) A::model()[2 * f + i] = val[i & 1][i >> 1] = A::fresh();
            live([&] {
                typename It::value_type x;
                std::get<0>(x) = typename std::decay<decltype(std::get<0>(x))>::type(val[0], Vc::Unaligned);
                std::get<1>(x) = typename std::decay<decltype(std::get<1>(x))>::type(val[1], Vc::Unaligned);
                const It it(reinterpret_cast<P *>(w) + f);
                if (form & 1) itAssign(it, x);
                else itSub(it - 2, 2, x);
            });
        }
        cIter++;
        return true;
    }
    NOINLINE static void memVecOp(Mem &m, size_t i, const MV &v) { m.vector(i) += v; }
    // the part of an operation that is code under test runs between the two NoYields
    static bool one(int op, int tid, Rng &r)
    {
        NoYield ny;
        const Live live{ny};
        T *const w = A::win();
        switch (op) {
        case OStoreU: return full(tid, r, false, [&](const V &v, T *p) { live([&] { opStore(v, p, Vc::Unaligned); }); });
        case OStoreA: return full(tid, r, true, [&](const V &v, T *p) { live([&] { opStore(v, p, Vc::Aligned); }); });
        case OStoreDef: return full(tid, r, false, [&](const V &v, T *p) { live([&] { opStoreDefault(v, p); }); });
        case OStoreS: cStream++; return full(tid, r, true, [&](const V &v, T *p) { live([&] { opStore(v, p, Vc::Streaming); }); });
        case OStorePref: cPref++; return full(tid, r, true, [&](const V &v, T *p) { live([&] { opStore(v, p, Vc::Aligned | Vc::PrefetchDefault); }); });
        case OMStoreU: return masked(tid, r, false, [&](const V &v, T *p, const M &m) { live([&] { opMStore(v, p, m, Vc::Unaligned); }); });
        case OMStoreA: return masked(tid, r, true, [&](const V &v, T *p, const M &m) { live([&] { opMStore(v, p, m, Vc::Aligned); }); });
        case OMStoreDef: return masked(tid, r, false, [&](const V &v, T *p, const M &m) { live([&] { opMStoreDefault(v, p, m); }); });
        case OMStoreS: cStream++; return masked(tid, r, true, [&](const V &v, T *p, const M &m) { live([&] { opMStore(v, p, m, Vc::Streaming); }); });
        case OMStoreSU: cStream++; return masked(tid, r, false, [&](const V &v, T *p, const M &m) { live([&] { opMStore(v, p, m, Vc::Streaming | Vc::Unaligned); }); });
        case OScatter: return scat(tid, r, E.n, false, [&](int i) { return E.owner[i] == tid; }, [](int i) { return i; },
                                   [&](const V &v, const I &i, const int *, const M &) { live([&] { opScatter(v, w, i); }); });
        case OMScatter: return scat(tid, r, E.n, true, [&](int i) { return E.owner[i] == tid; }, [](int i) { return i; },
                                    [&](const V &v, const I &i, const int *, const M &m) { live([&] { opMScatter(v, w, i, m); }); });
        case OScatterArr: return scat(tid, r, E.n, false, [&](int i) { return E.owner[i] == tid; }, [](int i) { return i; },
                                      [&](const V &v, const I &i, const int *l, const M &) {
                                          Arr a; memcpy(a.v, l, sizeof(a.v));
                                          live([&] { opScatter(v, w, ArrIndex<V, Simple>::get(a, i)); });
                                      });
        case OMScatterArr: return scat(tid, r, E.n, true, [&](int i) { return E.owner[i] == tid; }, [](int i) { return i; },
                                       [&](const V &v, const I &i, const int *l, const M &m) {
                                           Arr a; memcpy(a.v, l, sizeof(a.v));
                                           live([&] { opMScatter(v, w, ArrIndex<V, Simple>::get(a, i), m); });
                                       });
        case OSub: cSub++; return scat(tid, r, E.n < 96 ? E.n : 96, false, [&](int i) { return E.owner[i] == tid; }, [](int i) { return i; },
                               [&](const V &v, const I &i, const int *, const M &) { live([&] { opSub(v, *reinterpret_cast<Arr96 *>(w), i); }); });
        case OMSub: cSub++; return scat(tid, r, E.n < 96 ? E.n : 96, true, [&](int i) { return E.owner[i] == tid; }, [](int i) { return i; },
                                [&](const V &v, const I &i, const int *, const M &m) { live([&] { opMSub(v, *reinterpret_cast<Arr96 *>(w), i, m); }); });
        case OSpanSub: cSub++; return scat(tid, r, E.n, false, [&](int i) { return E.owner[i] == tid; }, [](int i) { return i; },
                                   [&](const V &v, const I &i, const int *, const M &) {
                                       Vc::span<T> s(w, std::ptrdiff_t(E.n));
                                       live([&] { opSub(v, s, i); });
                                   });
        case OMember:
        case OMMember:
        case OOldMember:
        case OOldMMember: {
            const int off = op == OOldMember ? 0 : op == OOldMMember ? 2 : 1;
            const bool mk = op == OMMember || op == OOldMMember;
            const int ns = E.n / 3 < 64 ? E.n / 3 : 64;
            cSub++;
            return scat(tid, r, ns, mk, [&](int i) { return E.owner[i * 3 + off] == tid; }, [&](int i) { return i * 3 + off; },
                        [&](const V &v, const I &i, const int *, const M &m) {
                            auto &a = *reinterpret_cast<Vc::array<S3<T>, 64> *>(w);
                            auto *sp = reinterpret_cast<S3<T> *>(w);
                            live([&] {
                                if (op == OMember) opMember(v, a, i);
                                else if (op == OMMember) opMMember(v, a, i, m);
                                else if (op == OOldMember) opOldMember(v, sp, i);
                                else opOldMMember(v, sp, i, m);
                            });
                        });
        }
        case ONested: {
            const int j = int(r.below(4)), form = int(r.below(4));
            const int ns = E.n / 4 < 64 ? E.n / 4 : 64;
            cSub++;
            return scat(tid, r, ns, false, [&](int i) { return E.owner[i * 4 + j] == tid; }, [&](int i) { return i * 4 + j; },
                        [&](const V &v, const I &i, const int *ix, const M &) {
                            auto &to = *reinterpret_cast<Vc::array<Vc::array<T, 4>, 64> *>(w);
                            std::array<int, S> ia;
                            I jv(Vc::Zero);
                            for (int l = 0; l < int(S); ++l) ia[l] = ix[l], jv[l] = typename I::EntryType(j);
                            live([&] {
                                switch (form) {
                                case 0: opNested2(v, to, i, jv); break;
                                case 1: opNested2(v, to, ia, jv); break;
                                default: opNested(v, to, i, j);
                                }
                            });
                        });
        }
        case OMNested: {
            const int j = int(r.below(4)), form = int(r.below(4));
            const int ns = E.n / 4 < 64 ? E.n / 4 : 64;
            cSub++;
            return scat(tid, r, ns, true, [&](int i) { return E.owner[i * 4 + j] == tid; }, [&](int i) { return i * 4 + j; },
                        [&](const V &v, const I &i, const int *ix, const M &m) {
                            auto &to = *reinterpret_cast<Vc::array<Vc::array<T, 4>, 64> *>(w);
                            std::array<int, S> ia;
                            I jv(Vc::Zero);
                            for (int l = 0; l < int(S); ++l) ia[l] = ix[l], jv[l] = typename I::EntryType(j);
                            live([&] {
                                switch (form) {
                                case 0: opMNested2(v, to, i, jv, m); break;
                                case 1: opMNested2(v, to, ia, jv, m); break;
                                default: opMNested(v, to, i, j, m);
                                }
                            });
                        });
        }
        case OIter:
        case OIterHop:
        case OIterPair: return doIter(op, tid, r, live);
        case OVecElem:
        case OVecElemOp:
        case OVecSwap: return doElem(op, tid, r, live, std::integral_constant<bool, Simple>());
        case OBool: return false;  // separate window, see below
        case OMemVector:
        case OMemVectorU:
        case OMemShift:
        case OMemVectorAt:
        case OMemVecOp:
        case OMemScalar: return doMem(op, tid, r, live, std::integral_constant<bool, Simple>());
        case OInterIdx: return doInter(tid, r, false, live, std::integral_constant<bool, Simple>());
        case OInterSucc: return doInter(tid, r, true, live, std::integral_constant<bool, Simple>());
        }
        return false;
    }
    static void body(int tid, void *)
    {
        Plan &p = *E.plan;
        for (int k = 0; k < p.nops; ++k) {
            Op &o = p.ops[k];
            if (o.thread != tid) {
                continue;
            }
            Rng r(o.seed);
            context(opNames[o.op]);
            if (o.op == ONeighbour) {
                neighbour(tid, r, int(o.a[0]));
            } else {
                if (!one(o.op, tid, r)) {
                    neighbour(tid, r, 2);
                } else {
                    countOp(int(p.cfg[0]) * NOps + o.op);
                }
            }
            NoYield ny;
            A::checkOwn(tid, opNames[o.op]);
        }
    }

    // Memory<V, 4, 13>: every thread owns rows
    struct RowEnv {
        Mem2 *m;
        T model[4][13];
    };
    NOINLINE static void rowVector(Mem2 &m, size_t row, size_t i, const MV &v) { m[row].vector(i) = v; }
    NOINLINE static void rowScalar(Mem2 &m, size_t row, size_t i, T v) { m[row][i] = v; }
    NOINLINE static void rowAll(Mem2 &m, size_t row, T v) { m[row] = v; }
    static RowEnv re;
    static void rushRows()
    {
        const T v = A::fresh();
        for (int row = 2; row < 4; ++row) {
            T *const w = reinterpret_cast<T *>(reinterpret_cast<char *>(re.m) + sizeof(Mem2) / 4 * size_t(row));
            for (int c = 0; c < 13; ++c) {
                if (!same(w[c], re.model[row][c])) fail("row-write-lost", "row %d entry %d is %.9g, its only writer left %.9g there before the last instruction", row, c, double(w[c]), double(re.model[row][c]));
                w[c] = re.model[row][c] = v;
            }
        }
        cRushed++;
    }
    static void rowBody(int tid, void *)
    {
        Plan &p = *E.plan;
        for (int k = 0; k < p.nops; ++k) {
            Op &o = p.ops[k];
            if (o.thread != tid) {
                continue;
            }
            Rng r(o.seed);
            context(opNames[o.op]);
            const size_t row = size_t(tid) + (r.chance(50) && tid + E.nthreads < (E.rush ? 2 : 4) ? size_t(E.nthreads) : 0);
            const size_t nv = (13 + MV::Size - 1) / MV::Size;
            if (o.op == ORowVector) {
                MV v;
                size_t i;
                {
                    NoYield ny;
                    T val[MV::Size];
                    for (auto &x : val) x = A::fresh();
                    v = MV(val, Vc::Unaligned);
                    i = r.below(nv);
                    for (size_t c = 0; c < MV::Size; ++c)
                        if (i * MV::Size + c < 13) re.model[row][i * MV::Size + c] = val[c];
                }
                rowVector(*re.m, row, i, v);
            } else if (o.op == ORowAll) {
                T v;
                {
                    NoYield ny;
                    v = A::fresh();
                    for (int c = 0; c < 13; ++c) re.model[row][c] = v;
                }
                rowAll(*re.m, row, v);
            } else {
                T v;
                size_t i;
                {
                    NoYield ny;
                    v = A::fresh();
                    i = r.below(13);
                    re.model[row][i] = v;
                }
                rowScalar(*re.m, row, i, v);
            }
            NoYield ny;
            countOp(int(p.cfg[0]) * NOps + o.op);
            cMem++;
            checkRows(tid, opNames[o.op]);
        }
    }
    static void checkRows(int tid, const char *what)
    {
        for (int row = 0; row < 4; ++row) {
            if (tid >= 0 && row % E.nthreads != tid) {
                continue;
            }
            for (int c = 0; c < 13; ++c) {
                const T v = (*re.m)[size_t(row)][size_t(c)];
                if (!same(v, re.model[row][c])) {
                    fail("row-write-lost", "Memory<%s,4,13> row %d entry %d is %.9g, its only writer left %.9g (after %s)",
                         VName<V>::get().c_str(), row, c, double(v), double(re.model[row][c]), what);
                }
            }
        }
    }

    // Mask::store(bool *): window of bools
    static void boolRun(Plan &p)
    {
        bool *const w = reinterpret_cast<bool *>(E.win);
        static int live_[MaxThreads];
        (void)live_;
        E.n = int(p.cfg[3]);
        for (int i = 0; i < E.n; ++i) {
            w[i] = false;
        }
        static unsigned char mod[MaxWin];
        memset(mod, 0, sizeof(mod));
        struct B {
            static void rush()
            {
                unsigned char *const q = reinterpret_cast<unsigned char *>(E.win);
                for (int k = 0; k < E.rushN; ++k) {
                    const int i = E.rushAt[k];
                    if (q[i] != mod[i]) fail("write-lost", "bool %d is %d, its only writer left %d there before the last instruction", i, q[i], mod[i]);
                    q[i] = mod[i] = !mod[i];
                }
                cRushed++;
            }
            static void body(int tid, void *)
            {
                Plan &pl = *E.plan;
                bool *const win = reinterpret_cast<bool *>(E.win);
                for (int k = 0; k < pl.nops; ++k) {
                    Op &o = pl.ops[k];
                    if (o.thread != tid) continue;
                    Rng r(o.seed);
                    context("Mask::store(bool*)");
                    int pos = -1;
                    M m(false);
                    {
                        NoYield ny;
                        int cand[MaxWin], n = 0;
                        for (int q = 0; q + S <= E.n; ++q) {
                            bool ok = true;
                            for (int i = 0; ok && i < S; ++i) ok = E.owner[q + i] == tid;
                            if (ok) cand[n++] = q;
                        }
                        if (n && o.op == OBool) {
                            pos = cand[r.below(uint64_t(n))];
                            bool b[S];
                            for (int i = 0; i < S; ++i) {
                                b[i] = r.chance(50);
                                mod[pos + i] = b[i];
                            }
                            m = maskFrom<M>(b);
                            cBool++;
                            countOp(int(pl.cfg[0]) * NOps + OBool);
                        }
                    }
                    if (pos >= 0) {
                        opBool(m, win + pos);
                    } else {
                        for (int t = 0; t < 4; ++t) {
                            int i = -1;
                            bool v = false;
                            {
                                NoYield ny;
                                int cand[MaxWin], n = 0;
                                for (int q = 0; q < E.n; ++q)
                                    if (E.owner[q] == tid) cand[n++] = q;
                                if (n) {
                                    i = cand[r.below(uint64_t(n))];
                                    v = !mod[i];
                                    mod[i] = v;
                                }
                            }
                            if (i >= 0) *const_cast<volatile bool *>(win + i) = v;
                        }
                    }
                    NoYield ny;
                    for (int i = 0; i < E.n; ++i)
                        if (E.owner[i] == tid && reinterpret_cast<unsigned char *>(win)[i] != mod[i])
                            fail("write-lost", "bool %d is %d, its only writer left %d", i,
                                 reinterpret_cast<unsigned char *>(win)[i], mod[i]);
                }
            }
        };
        if (E.rush) {
            E.rushN = 0;
            for (int i = 0; i < E.n; ++i) {
                if (E.owner[i] == Rush) E.rushAt[E.rushN++] = i;
            }
            cRush++;
            if (E.rushN) between(B::rush);
        }
        parallel(p.nthreads, B::body, nullptr);
        for (int i = 0; i < E.n; ++i) {
            if (reinterpret_cast<unsigned char *>(w)[i] != mod[i]) {
                fail("write-lost", "bool %d is %d at the end, its only writer left %d", i,
                     reinterpret_cast<unsigned char *>(w)[i], mod[i]);
            }
        }
    }

    static void run(Plan &p)
    {
        E.plan = &p;
        E.mode = int(p.cfg[1]);
        E.nthreads = p.nthreads;
        E.structN = int(p.cfg[4]);
        E.structK = int(p.cfg[5]);
        E.serial = 0;
        E.rush = int(p.cfg[7]);
        // place the window
        const long place = p.cfg[2];  // <0: against the upper guard page, else element offset from base
        E.n = int(p.cfg[3]);
        const size_t bytes = size_t(E.n) * (E.mode == 3 ? 1 : sizeof(T));
        memset(room.base, 0x5A, room.size);
        if (place == -2) {
            E.win = room.base;  // lower guard page
            cEdge++;
        } else if (place < 0) {
            E.win = room.end() - bytes;
            cEdge++;
        } else {
            E.win = room.base + 1024 + size_t(place) * sizeof(T);
        }
        addGuard(room.base - 65536, room.base, "write-outside");
        addGuard(room.end(), room.end() + 65536, "write-outside");
        Rng pr(uint64_t(p.cfg[6]));
        partition(pr, p);
        if (p.policy == Stall) {
            cStall++;
        }
        if (E.mode == 2) {
            cRows++;
            E.win = room.base + 1024;
            re.m = new (E.win) Mem2;
            for (int r = 0; r < 4; ++r)
                for (int c = 0; c < 13; ++c) {
                    re.model[r][c] = A::fresh();
                    (*re.m)[size_t(r)][size_t(c)] = re.model[r][c];
                }
            checkRows(-1, "initialisation");
            if (E.rush) between(rushRows), cRush++;
            parallel(p.nthreads, rowBody, nullptr);
            checkRows(-1, "the run");
            checkMargins(E.win, E.win + sizeof(Mem2));
            return;
        }
        if (E.mode == 3) {
            boolRun(p);
            checkMargins(E.win, E.win + bytes);
            return;
        }
        for (int i = 0; i < E.n; ++i) {
            A::model()[i] = A::fresh();
            A::win()[i] = A::model()[i];
        }
        if (E.rush) A::startRush();
        parallel(p.nthreads, body, nullptr);
        for (int i = 0; i < E.n; ++i) {
            if (!same(A::win()[i], A::model()[i])) {
                if (E.owner[i] == Nobody) {
                    fail("unselected-element-changed", "element %d, selected by nobody, changed from %.9g to %.9g", i,
                         double(A::model()[i]), double(A::win()[i]));
                }
                fail("write-lost", "element %d is %.9g at the end, its only writer (thread %d) left %.9g", i,
                     double(A::win()[i]), E.owner[i], double(A::model()[i]));
            }
        }
        checkMargins(E.win, E.win + bytes);
        note(hashBytes(E.win, bytes));
    }
    static void checkMargins(const char *lo, const char *hi)
    {
        const char *a = lo - Margin < room.base ? room.base : lo - Margin;
        const char *b = hi + Margin > room.end() ? room.end() : hi + Margin;
        for (const char *q = a; q < lo; ++q) {
            if (*q != 0x5A) {
                fail("write-outside", "byte %ld before the array was written", long(lo - q));
            }
        }
        for (const char *q = hi; q < b; ++q) {
            if (*q != 0x5A) {
                fail("write-outside", "byte %ld behind the array was written", long(q - hi));
            }
        }
    }
    static void partition(Rng &r, Plan &p)
    {
        const int writers = p.nthreads + (E.rush ? 1 : 0);
        const int kinds = writers + 1;
        auto writer = [&](int k) { return k % writers < p.nthreads ? k % writers : int(Rush); };
        auto who = [&] {
            const int k = int(r.below(uint64_t(kinds * 3)));
            return k < kinds * 3 - 1 ? writer(k) : int(Nobody);
        };
        if (E.mode == 1) {
            const int N = E.structN, K = E.structK;
            int cur = who();
            for (int s = 0; s * N < E.n; ++s) {
                if (r.chance(r.below(2) ? 60 : 12)) cur = who();
                const int rest = who();
                for (int j = 0; j < N && s * N + j < E.n; ++j) E.owner[s * N + j] = uint8_t(j < K ? cur : rest);
            }
            return;
        }
        switch (r.below(4)) {
        case 0:
            for (int i = 0; i < E.n; ++i) E.owner[i] = uint8_t(who());
            break;
        case 1:
            for (int i = 0; i < E.n; ++i) E.owner[i] = uint8_t(writer(i));
            break;
        case 2: {
            int i = 0;
            while (i < E.n) {
                const int w = who();
                int len = int(r.range(1, 3 * S + 2));
                while (len-- && i < E.n) E.owner[i++] = uint8_t(w);
            }
            break;
        }
        default: {
            const int nv = (E.n + S - 1) / S;
            for (int b = 0; b < nv; ++b) {
                const int w = who();
                for (int i = b * S; i < b * S + S && i < E.n; ++i) E.owner[i] = uint8_t(w);
            }
        }
        }
    }
    static void generate(Rng &r, Plan &p)
    {
        // cfg: 0 type, 1 mode, 2 place, 3 n, 4 structN, 5 structK, 6 partition seed, 7 rush
        p.cfg[7] = r.chance(30);
        p.nthreads = p.cfg[7] ? r.chance(70) ? 1 : 2 : r.chance(70) ? 2 : 3;
        p.cfg[6] = long(r.next() >> 2);
        const uint64_t m = r.below(100);
        int mode = m < 62 ? 0 : m < 84 ? 1 : m < 93 ? 2 : 3;
        if (!Simple && (mode == 1 || mode == 2)) mode = 0;
        p.cfg[1] = mode;
        int n;
        if (mode == 1) {
            static const int nk[][2] = {{2, 2}, {3, 2}, {3, 3}, {4, 3}, {4, 4}, {5, 4}, {5, 5},
                                        {6, 6}, {6, 5}, {7, 7}, {7, 6}, {8, 8}, {8, 7}, {9, 2}, {12, 3}, {16, 4}};
            const int c = int(r.below(16));
            p.cfg[4] = nk[c][0];
            p.cfg[5] = nk[c][1];
            n = nk[c][0] * int(r.range(S + 1, 3 * S + 3));
            if (n > MaxWin) n = MaxWin / nk[c][0] * nk[c][0];
        } else if (mode == 0 && r.chance(30)) {
            n = 96;
        } else {
            n = int(r.range(S + 1, 4 * S + 8));
        }
        if (n > MaxWin) n = MaxWin;
        p.cfg[3] = n;
        p.cfg[2] = r.chance(25) ? -1 : r.chance(10) ? -2 : n == 96 && r.chance(70) ? 0 : r.chance(50) ? 0 : r.range(0, 40);
        const int total = int(r.range(p.nthreads, 8));
        bool hasNb = !p.cfg[7] && r.chance(75);
        for (int i = 0; i < total; ++i) {
            const int t = i < p.nthreads ? i : int(r.below(uint64_t(p.nthreads)));
            int op;
            if (hasNb && t == p.nthreads - 1) {
                op = ONeighbour;
            } else if (mode == 0) {
                static const int flat[] = {
                    OStoreU, OStoreA, OStoreDef, OStoreS, OStorePref, OMStoreU, OMStoreA, OMStoreDef, OMStoreS,
                    OMStoreSU, OMStoreU, OMStoreA, OScatter, OScatterArr, OMScatter, OMScatterArr, OSub, OMSub,
                    OSpanSub, OMember, OMMember, ONested, OOldMember, OOldMMember, OMemVector, OMemVectorU,
                    OMemShift, OMemVectorAt, OMemScalar, OMScatter, OVecElem, OVecElemOp, OVecSwap, OMemVecOp, OMNested, OIter, OIter, OIterHop, OIterPair};
                op = flat[r.below(sizeof(flat) / sizeof(int))];
            } else if (mode == 1) {
                op = r.chance(90) ? (r.chance(65) ? OInterIdx : OInterSucc) : OMScatter;
            } else if (mode == 2) {
                op = r.chance(55) ? ORowVector : r.chance(60) ? ORowScalar : ORowAll;
            } else {
                op = OBool;
            }
            if (mode == 2 && op == ONeighbour) op = ORowScalar;
            p.add(t, op, r.next(), r.range(2, 12));
        }
        choosePolicy(r, p, 30 * total);
    }
};
template <class V, bool Simple> typename Ops<V, Simple>::RowEnv Ops<V, Simple>::re;

struct TypeEntry {
    std::string name;
    void (*run)(Plan &);
    void (*generate)(Rng &, Plan &);
};
template <class V, bool Simple> static TypeEntry entry()
{
    return {VName<V>::get(), &Ops<V, Simple>::run, &Ops<V, Simple>::generate};
}
static std::vector<TypeEntry> types()
{
#if PART == 0
    return {entry<Vc::float_v, true>(), entry<Vc::double_v, true>(), entry<Vc::int_v, true>()};
#elif PART == 1
    return {entry<Vc::uint_v, true>(), entry<Vc::short_v, true>(), entry<Vc::ushort_v, true>()};
#else
    return {entry<Vc::SimdArray<float, 5>, false>(), entry<Vc::SimdArray<int, 7>, false>(),
            entry<Vc::SimdArray<short, 11>, false>(), entry<Vc::SimdArray<double, 6>, false>()};
#endif
}
static std::vector<TypeEntry> *table;
static void setup()
{
    room = makeRoom(3);
    table = new std::vector<TypeEntry>(types());
}
static void generate(Rng &r, Plan &p)
{
    const size_t t = r.below(table->size());
    (*table)[t].generate(r, p);
    p.cfg[0] = long(t);
}
static void run(Plan &p) { (*table)[size_t(p.cfg[0])].run(p); }
static const char *opName(int i) { return opNames[i]; }
Workload sim::workload()
{
    return {"C02", setup, generate, run, opName,
            "a run is one seed: a type, an ownership partition, 2-3 writers and a schedule over their instructions; "
            "non-trivial: at least one switch inside a write operation"};
}
